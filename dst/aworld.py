"""Users of mappings with aliased keys: histories of operations on several
mappings that derive from each other, interrupted at chosen points, judged by
a model in which every alias refers to one entry."""
import copy
import hashlib
import importlib
import os
import random

from . import engine
from . import points
from .kernel import HarnessError
from .pworld import Violation, short

PKG = os.path.join(os.path.realpath(os.path.join(engine.REPO, 'src', 'eprempy')), '')
DEPTH = 4
ABSENT = ('absent',)


class Model:
    """Entries, each under one or more aliases, and named groups of keys."""

    def __init__(self, entries=(), groups=None, mutable=True, vague=()):
        self.entries = [[frozenset(k), v] for k, v in entries]
        self.groups = dict(groups or {})
        self.mutable = mutable
        # names of groups that it may or may not have
        self.vague = set(vague)

    def copy(self, mutable=None, groups=True):
        return Model(self.entries, self.groups if groups else None, self.mutable if mutable is None else mutable,
                     self.vague if groups else {*self.vague, *self.groups})

    def find(self, key):
        for e in self.entries:
            if key in e[0]:
                return e
        return None

    def get(self, key):
        e = self.find(key)
        return ABSENT if e is None else e[1]

    def flat(self):
        return {k: v for ks, v in self.entries for k in ks}

    def state(self):
        return sorted((sorted(ks), v) for ks, v in self.entries), self.groups

    def set(self, keys, value):
        keys = frozenset(keys)
        e = self.find(next(iter(keys)))
        if e:
            e[1] = value
        else:
            self.entries.append([keys, value])

    def delete(self, key):
        self.entries = [e for e in self.entries if key not in e[0]]

    def look(self, key):
        """The result of [key], with groups."""
        e = self.find(key)
        if e:
            return e[1]
        if key in self.groups:
            vs = [self.get(k) for k in self.groups[key]]
            if ABSENT not in vs:
                return tuple(vs)
        return ABSENT


def tup(keys):
    return keys[0] if len(keys) == 1 else tuple(keys)


# -- operations: the change of the model and the call of the package --------------------
class Ops:
    def __init__(self):
        self.aliased = importlib.import_module('eprempy.aliased')
        self.container = importlib.import_module('eprempy.container')

    def build(self, op):
        """A new mapping from plain data."""
        al = self.aliased
        cls = al.MutableMapping if op['mutable'] else al.Mapping
        how = op['how']
        entries = op['entries']
        if how == 'tuples':
            return cls({tup(ks): v for ks, v in entries})
        if how == 'nested':
            return cls({ks[0]: {'aliases': tup(ks[1:]), **v} if len(ks) > 1 else dict(v) for ks, v in entries})
        if how == 'key':
            return cls({ks[0]: {'foo': tup(ks[1:]), **v} if len(ks) > 1 else dict(v) for ks, v in entries}, aliases='foo')
        if how == 'groups':
            return cls({ks[0]: v for ks, v in entries}, aliases=al.Groups(*[ks for ks, _ in entries]))
        if how == 'dict':
            return cls({ks[0]: v for ks, v in entries}, aliases={ks[0]: ks[1:] for ks, _ in entries if len(ks) > 1})
        if how == 'mapping':
            names = al.Mapping({tup(ks): 0 for ks, _ in entries})
            return cls({ks[0]: v for ks, v in entries}, aliases=names)
        if how == 'fromkeys':
            return cls.fromkeys([tup(ks) for ks, _ in entries], value=op['value'])
        if how == 'fromnested':
            return cls.fromkeys({ks[0]: {'aliases': tup(ks[1:]), **v} if len(ks) > 1 else dict(v) for ks, v in entries}, value=op['value'])
        if how == 'assign':
            m = cls()
            for ks, v in entries:
                m[tup(ks)] = v
            return m
        raise HarnessError(how)

    def model(self, op):
        if op['how'] in ('fromkeys', 'fromnested'):
            return Model([(ks, op['value']) for ks, _ in op['entries']], mutable=op['mutable'])
        return Model(op['entries'], mutable=op['mutable'])

    def apply(self, ms, op):
        """Perform an operation that changes or derives a mapping."""
        kind = op['op']
        m = ms[op['m']]
        if kind == 'set':
            m[self.key(op)] = op['v']
        elif kind == 'del':
            del m[self.key(op)]
        elif kind == 'alias':
            m.alias(op['k'], *op['new'])
        elif kind == 'group':
            m.group(op['name'], *op['keys'])
        elif kind == 'update':
            if op['kw']:
                m.update(**{k: v for k, v in op['items']})
            else:
                m.update(dict(op['items']))
        elif kind == 'updatefrom':
            m.update(ms[op['o']])
        elif kind == 'clear':
            m.clear()
        elif kind == 'pop':
            return m.pop(op['k'], *op['default'])
        elif kind == 'popitem':
            return m.popitem()
        elif kind == 'setdefault':
            return m.setdefault(op['k'], op['v'])
        elif kind == 'copy':
            return m.copy()
        elif kind == 'freeze':
            return m.freeze(groups=op['groups'])
        elif kind == 'convert':
            return (self.aliased.MutableMapping if op['mutable'] else self.aliased.Mapping)(m)
        elif kind == 'or':
            return m | ms[op['o']]
        elif kind == 'ordict':
            return m | dict(op['items'])
        elif kind == 'fromkeysof':
            return (self.aliased.MutableMapping if op['mutable'] else self.aliased.Mapping).fromkeys(m, value=op['v'])
        elif kind == 'namemap':
            return self.aliased.NameMap([tuple(ks) for ks in op['groups']], refs=[ks[0] for ks in op['groups']])
        elif kind == 'aliasof':
            return set(m.alias(op['k'], include=op['include']))
        else:
            raise HarnessError(kind)

    def key(self, op):
        if op.get('as') == 'group':
            return self.aliased.Group(*op['k'])
        return tup(op['k'])


class AliasedWorld:
    def __init__(self, plan):
        self.plan = plan
        self.prop = plan['prop']
        self.violations = []
        self.events = []
        self.cover = {}
        self.fired = {}
        self.ops = Ops()
        self.real = {}
        self.want = {}
        self.points = points.Points(PKG)
        self.steps = 0
        self.seen = {}
        self.at = None
        self.counts = {}
        self.hit = None
        self.intr = {}
        for f in plan['intr']:
            self.intr.setdefault((f['op'], f['at']), {})[f['nth']] = f['kind']

    def flag(self, message):
        if not self.violations:
            self.violations.append(Violation(('A01',), message))
            self.events.append(('VIOLATION', message))

    def point(self, where):
        if self.at is None:
            return
        self.steps += 1
        n = self.counts[where] = self.counts.get(where, 0) + 1
        if n > DEPTH:
            return
        self.seen.setdefault(self.at, {})[where] = n
        kind = self.intr.get((self.at, where), {}).get(n)
        if kind and not self.hit:
            self.hit = kind
            self.fired[kind] = self.fired.get(kind, 0) + 1
            self.events.append(('fault', self.at, where, n, kind))
            raise KeyboardInterrupt if kind == 'interrupt' else MemoryError

    def call(self, i, op):
        """The outcome of an operation under the faults of the plan."""
        self.counts = {}
        self.hit = None
        out = None
        self.points.start(self.point)
        self.at = i
        try:
            if op['op'] == 'new':
                out = ('ok', self.ops.build(op))
            else:
                out = ('ok', self.ops.apply(self.real, op))
        except (Exception, KeyboardInterrupt) as err:
            out = ('raise', err)
        finally:
            self.at = None
            self.points.stop()
        return out

    def run(self):
        for i, op in enumerate(self.plan['ops']):
            self.step(i, op)
            if self.violations:
                break
        return self

    # -- one operation
    def step(self, i, op):
        kind = op['op']
        if kind != 'new':
            if op['m'] not in self.want or 'o' in op and op['o'] not in self.want:
                return
        before = {k: m.copy() for k, m in self.want.items()}
        expected = self.expect(op)
        if expected is None:
            return
        what, value, after = expected
        out = self.call(i, op)
        at = f"step {i} ({self.tell(op)})"
        tries = 0
        while self.hit and not self.violations:
            # the request was interrupted (or would have been): see what is there,
            # then finish it
            self.cover[('hurt', kind, self.hit, out[0])] = 1
            self.partial(f"{at} interrupted", op, before, after)
            if self.violations:
                return
            if out[0] == 'ok':
                break
            if kind in ('pop', 'popitem', 'setdefault', 'clear', 'update', 'updatefrom'):
                # what remains to be done depends on what was done
                self.resume(op, before, after)
                out = None
                break
            if kind == 'del' and op['k'][0] not in self.real[op['m']]:
                out = None
                break
            if kind == 'alias':
                rest = [a for a in op['new'] if a != op['k'] and a not in self.real[op['m']]]
                if not rest and what == 'ok':
                    out = None
                    break
                out = self.call(10_000 + i, {**op, 'new': rest} if what == 'ok' else op)
            else:
                out = self.call(10_000 + i, op)
            tries += 1
            if tries > 2:
                raise HarnessError("interrupted again")
        if out is not None:
            self.judge(at, op, what, value, after, out)
        if self.violations:
            return
        if what == 'ok':
            self.want[op['m']] = after
            if out is not None and kind in DERIVE and 'to' in op:
                self.want[op['to']] = value
                self.real[op['to']] = out[1]
            if kind == 'new' and out is not None:
                self.real[op['m']] = out[1]
        self.events.append((i, kind, what))
        self.cover[(kind, op.get('how', op.get('as', '')), what)] = 1
        self.compare(at)

    def expect(self, op):
        """('ok', result, new model) or ('raise', types, same model)."""
        kind = op['op']
        if kind == 'new':
            m = self.ops.model(op)
            return 'ok', None, m
        m = self.want[op['m']]
        new = m.copy()
        if kind in CHANGE and not m.mutable:
            return None
        if kind == 'set':
            hit = [m.find(k) for k in op['k']]
            if op.get('as') == 'group' or len(op['k']) > 1:
                if any(hit) and not (op.get('as') == 'group' and hit[0] and hit[0][0] == frozenset(op['k'])):
                    return None
            new.set(op['k'], op['v'])
            return 'ok', None, new
        if kind == 'del':
            e = m.find(op['k'][0])
            if op.get('as') == 'group':
                e = e if e and e[0] == frozenset(op['k']) else None
            if e is None:
                return 'raise', (KeyError,), new
            new.delete(op['k'][0])
            return 'ok', None, new
        if kind == 'alias':
            if m.find(op['k']) is None:
                if all(a == op['k'] for a in op['new']):
                    return None
                return 'raise', (KeyError, TypeError), new
            names = [a for a in op['new'] if a != op['k']]
            if any(m.find(a) for a in names):
                return 'raise', (KeyError,), new
            e = new.find(op['k'])
            e[0] = e[0] | set(names)
            return 'ok', None, new
        if kind == 'group':
            if m.find(op['name']):
                return 'raise', (ValueError,), new
            if any(m.find(k) is None for k in op['keys']):
                return None
            new.groups[op['name']] = tuple(op['keys'])
            new.vague.discard(op['name'])
            return 'ok', None, new
        if kind == 'update':
            for k, v in dict(op['items']).items():
                new.set([k], v)
            return 'ok', None, new
        if kind == 'updatefrom':
            for ks, _ in m.entries:
                vs = [v for other, v in self.want[op['o']].entries if ks & other]
                if any(v != vs[0] for v in vs):
                    # depends on which comes last
                    return None
            for k, v in self.want[op['o']].flat().items():
                new.set([k], v)
            return 'ok', None, new
        if kind == 'clear':
            new.entries = []
            return 'ok', None, new
        if kind == 'pop':
            if op['k'] in m.vague and not m.find(op['k']):
                return None
            v = m.look(op['k'])
            if v is ABSENT:
                if op['default']:
                    return 'ok', op['default'][0], new
                return 'raise', (KeyError,), new
            if m.find(op['k']) is None:
                return None
            new.delete(op['k'])
            return 'ok', v, new
        if kind == 'popitem':
            if not m.entries:
                return 'raise', (KeyError,), new
            return 'ok', None, new
        if kind == 'setdefault':
            v = m.look(op['k'])
            if v is ABSENT and (op['k'] in m.groups or op['k'] in m.vague):
                return None
            if v is ABSENT:
                new.set([op['k']], op['v'])
                v = op['v']
            return 'ok', v, new
        if kind == 'copy':
            return 'ok', m.copy(), new
        if kind == 'freeze':
            if not m.mutable:
                return None
            f = Model(m.entries, mutable=False)
            if op['groups']:
                if any(m.find(g) is None for g in m.vague):
                    return None
                for g, ks in m.groups.items():
                    v = m.look(g)
                    if v is ABSENT:
                        return 'raise', (KeyError,), new
                    if m.find(g) is None:
                        f.set([g], v)
            return 'ok', f, new
        if kind == 'convert':
            return 'ok', m.copy(mutable=op['mutable'], groups=False), new
        if kind == 'or':
            f = m.copy(groups=False)
            for ks, v in self.want[op['o']].entries:
                hit = {e[0] for e in f.entries if e[0] & ks}
                if hit and hit != {ks}:
                    return None
                f.set(ks, v)
            if any(isinstance(v, dict) for _, v in m.entries + self.want[op['o']].entries):
                return None
            return 'ok', f, new
        if kind == 'ordict':
            f = m.copy(groups=False)
            for k, v in dict(op['items']).items():
                f.set([k], v)
            if any(isinstance(v, dict) for _, v in m.entries):
                return None
            return 'ok', f, new
        if kind == 'fromkeysof':
            return 'ok', Model([(ks, op['v']) for ks, _ in m.entries], mutable=op['mutable']), new
        if kind == 'namemap':
            return 'ok', None, new
        if kind == 'aliasof':
            e = m.find(op['k'])
            if e is None:
                return None
            return 'ok', e[0] if op['include'] else e[0] - {op['k']}, new
        raise HarnessError(kind)

    def judge(self, at, op, what, value, after, out):
        kind = op['op']
        if out[0] == 'raise':
            err = out[1]
            if what == 'ok':
                return self.flag(f"{at}: raised {type(err).__name__}: {short(str(err), 150)}")
            if not isinstance(err, value):
                return self.flag(f"{at}: raised {type(err).__name__} instead of {value[0].__name__}")
            return
        if what == 'raise':
            return self.flag(f"{at}: did not raise {value[0].__name__}")
        got = out[1]
        if kind in ('pop', 'setdefault', 'aliasof') and got != value:
            return self.flag(f"{at}: returned {got!r} instead of {value!r}")
        if kind == 'popitem':
            try:
                k, v = got
                e = after.find(k)
            except Exception:
                return self.flag(f"{at}: returned {got!r}")
            if e is None or e[1] != v:
                return self.flag(f"{at}: returned {got!r}, which is not an item")
            after.delete(k)
        if kind == 'namemap':
            self.names(at, op, got)
        if kind in DERIVE and kind != 'namemap':
            mutable = isinstance(got, self.ops.aliased.MutableMapping)
            if mutable != value.mutable:
                return self.flag(f"{at}: gave a {type(got).__name__}")

    def names(self, at, op, got):
        want = {k: ks[0] for ks in op['groups'] for k in ks}
        try:
            have = {k: got[k] for k in want}
        except KeyError as err:
            return self.flag(f"{at}: no name for an alias: {err}")
        if have != want:
            return self.flag(f"{at}: gave {have} instead of {want}")
        for label, obj in (('name map', got), ('copy of the name map', got.copy())):
            if sorted(obj) != sorted(want) or len(obj) != len(want) or dict(obj.items()) != want:
                return self.flag(f"{at}: the {label} has the items {dict(obj.items())} instead of {want}")
        if {frozenset(g) for g in got.keys(aliased=True)} != {frozenset(ks) for ks in op['groups']}:
            return self.flag(f"{at}: the name map has the groups {sorted(map(sorted, got.keys(aliased=True)))}")

    # -- interruptions
    def lookup(self, name, key):
        try:
            return self.real[name][key]
        except KeyError:
            return ABSENT

    def partial(self, at, op, before, after):
        """Every key has its old or its new value."""
        for name, m in before.items():
            if name not in self.real:
                continue
            new = after if name == op.get('m') and op['op'] != 'new' else m
            keys = set(m.flat()) | set(new.flat())
            for k in sorted(keys):
                try:
                    got = self.lookup(name, k)
                except Exception as err:
                    return self.flag(f"{at}: {name}[{k!r}] raises {type(err).__name__}: {err}")
                if op['op'] == 'popitem' and name == op['m']:
                    if got is not ABSENT and got != m.look(k) and k not in m.groups and k not in m.vague:
                        return self.flag(f"{at}: {name}[{k!r}] is {got!r}")
                    continue
                passing = self.passing(op, new, k) if name == op.get('m') else []
                if not any(got is w or got == w for w in (m.look(k), new.look(k), *passing)):
                    if k in m.vague or k in m.groups and op['op'] in MANY:
                        continue
                    return self.flag(f"{at}: {name}[{k!r}] is {show(got)} instead of {show(m.look(k))} (before)"
                                     + (f" or {show(new.look(k))} (after)" if new.look(k) != m.look(k) else ''))

    def passing(self, op, new, key):
        """Values that a change of several entries gives to a key on its way."""
        items = op['items'] if op['op'] == 'update' else self.want[op['o']].flat().items() if op['op'] == 'updatefrom' else []
        e = new.find(key)
        return [v for k, v in items if e and k in e[0]]

    def resume(self, op, before, after):
        """Bring an interrupted change of several entries to its end."""
        m = self.real[op['m']]
        want = after if op['op'] != 'popitem' else before[op['m']]
        if op['op'] == 'popitem':
            for ks, _ in list(want.entries):
                if next(iter(ks)) not in self.real[op['m']]:
                    want.delete(next(iter(ks)))
            after.entries = want.entries
        try:
            for ks, v in want.entries:
                k = sorted(ks)[0]
                m[k] = v
            for ks, _ in before[op['m']].entries:
                k = sorted(ks)[0]
                if want.find(k) is None and k in m:
                    del m[k]
        except Exception as err:
            self.flag(f"after an interrupted {op['op']}: raised {type(err).__name__}: {err}")

    # -- everything against the model
    def compare(self, at):
        al = self.ops.aliased
        for name, m in self.want.items():
            r = self.real[name]
            try:
                problem = self.differs(r, m)
            except Exception as err:
                problem = f"reading it raises {type(err).__name__}: {short(str(err), 150)}"
            if problem:
                return self.flag(f"{at}: afterwards {name}: {problem}")
        names = sorted(self.want)
        for a in names:
            for b in names:
                if a < b:
                    want = self.want[a].flat() == self.want[b].flat()
                    try:
                        got = (self.real[a] == self.real[b], self.real[b] == self.real[a], not self.real[a] != self.real[b])
                    except Exception as err:
                        return self.flag(f"{at}: comparing {a} to {b} raises {type(err).__name__}: {err}")
                    if got != (want,) * 3:
                        return self.flag(f"{at}: {a} == {b} is {got}, their entries are {'' if want else 'not '}equal")
        # equal groups are one key of a dictionary
        for name in names:
            for ks, _ in self.want[name].entries:
                a, b = al.Group(*sorted(ks)), al.Group(*sorted(ks, reverse=True))
                if a != b or hash(a) != hash(b):
                    return self.flag(f"{at}: equal groups of {sorted(ks)} differ as keys")

    def differs(self, r, m):
        flat = m.flat()
        if len(r) != len(flat):
            return f"has {len(r)} keys instead of {len(flat)}"
        listed = list(r)
        if len(listed) != len(flat) or set(listed) != set(flat):
            return f"iterates over {sorted(map(str, listed))} instead of {sorted(flat)}"
        for k, v in flat.items():
            if k not in r:
                return f"{k!r} is not in it"
            got = r[k]
            if not (got is v or got == v):
                return f"[{k!r}] is {got!r} instead of {v!r}"
            if not r.get(k) == v:
                return f".get({k!r}) is {r.get(k)!r} instead of {v!r}"
        for k in ('no', 'none', *(x for x in UNIVERSE if x not in flat)):
            want = m.look(k)
            if k in r:
                return f"{k!r} is in it"
            if k in m.vague:
                continue
            got = r.get(k, ABSENT)
            if not (got is want or got == want):
                return f".get({k!r}) is {show(got)} instead of {show(want)}"
            try:
                got = r[k]
            except KeyError:
                got = ABSENT
            if not (got is want or got == want):
                return f"[{k!r}] is {show(got)} instead of {show(want)}"
        if r.flat != flat:
            return f".flat is {r.flat}"
        if sorted(r.keys()) != sorted(flat) or len(r.keys()) != len(flat):
            return f".keys() are {sorted(r.keys())}"
        items = list(r.items())
        if len(items) != len(flat) or len(r.items()) != len(flat) or dict(items) != flat:
            return f".items() are {items}"
        if len(list(r.values())) != len(flat) or len(r.values()) != len(flat):
            return f".values() are {list(r.values())}"
        groups = {ks for ks, _ in m.entries}
        have = [frozenset(g) for g in r.keys(aliased=True)]
        if len(have) != len(groups) or set(have) != groups or len(r.keys(aliased=True)) != len(groups):
            return f"has the groups {sorted(map(sorted, have))} instead of {sorted(map(sorted, groups))}"
        pairs = [(frozenset(g), v) for g, v in r.items(aliased=True)]
        if len(pairs) != len(groups) or any(dict_get(m, g) != v for g, v in pairs):
            return f"has the items {pairs}"
        if len(list(r.values(aliased=True))) != len(groups):
            return "has the wrong number of values"
        for ks, v in m.entries:
            k = sorted(ks)[0]
            if set(r.alias(k, include=True)) != ks or set(r.alias(k)) != ks - {k}:
                return f"the aliases of {k!r} are {sorted(r.alias(k))} instead of {sorted(ks - {k})}"
            g = self.ops.aliased.Group(*sorted(ks, reverse=True))
            if g not in r or r[g] != v:
                return f"[group of {sorted(ks)}] is wrong"
        if not (r == flat) or r != flat or r == {**flat, 'no': 1}:
            return "it does not equal its entries"
        str(r), repr(r)
        return ''

    @staticmethod
    def tell(op):
        return ' '.join(f"{v}" for k, v in op.items())


def dict_get(m, g):
    e = m.find(next(iter(g)))
    return e[1] if e and e[0] == g else ABSENT


def show(v):
    return 'missing' if v is ABSENT else repr(v)


MANY = ('update', 'updatefrom', 'clear', 'popitem')
CHANGE = ('set', 'del', 'alias', 'group', 'update', 'updatefrom', 'clear', 'pop', 'popitem', 'setdefault')
DERIVE = ('copy', 'freeze', 'convert', 'or', 'ordict', 'fromkeysof', 'namemap')
UNIVERSE = ['a', 'A', 'b', 'B', 'c', 'C', 'dd', 'my D', 'e0', 'E', 'f f', 'G', 'x', 'y', 'zz', 'μ', 'h', 'i1', 'i2', 'i3']


def outcome(w):
    h = hashlib.sha256()
    for e in w.events:
        h.update(repr(e).encode())
        h.update(b'\n')
    return {
        'violations': [(list(v.tags), v.message) for v in w.violations],
        'digest': h.hexdigest()[:16],
        'events': [repr(e) for e in w.events],
        'steps': w.steps,
        'syscalls': [],
        'simtime': 0.0,
        'fired': dict(w.fired),
        'cover': sorted(repr(c) for c in w.cover),
        'switches': 0,
        'launched': 0,
        'nontrivial': len({e[1] for e in w.events if len(e) > 1}) > 3,
        'points': {str(k): v for k, v in w.seen.items()},
    }


# -- generation ------------------------------------------------------------------------
class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.names = ['m', 'n', 'o', 'p']
        self.count = 0
        self.universe = rng.sample(UNIVERSE, rng.randint(5, len(UNIVERSE)))
        self.known = {}  # keys each mapping probably has
        self.next = []  # operations that follow from an earlier one

    def key(self):
        return self.rng.choice(self.universe)

    def value(self):
        rng = self.rng
        r = rng.random()
        if r < 0.5:
            return rng.randint(0, 5)
        if r < 0.8:
            return rng.choice(['v', 'w', '', 'a', 'A', None, True, False, 0.5])
        if r < 0.93:
            return [rng.randint(0, 3)]
        return {'aliases': rng.choice(['q', 'r']), 'n': rng.randint(0, 3)}

    def entries(self, nested=False):
        rng = self.rng
        pool = rng.sample(self.universe, rng.randint(0, len(self.universe)))
        out = []
        while pool:
            n = min(len(pool), rng.choice([1, 1, 2, 2, 3, 4]))
            ks, pool = pool[:n], pool[n:]
            v = {'n': rng.randint(0, 3), 'w': 'x'} if nested else self.value()
            if not nested and isinstance(v, dict):
                v = 7
            out.append([ks, v])
        return out[:rng.randint(1, 6)] if out else out

    def new(self, name):
        rng = self.rng
        how = rng.choice(['tuples', 'tuples', 'nested', 'key', 'groups', 'dict', 'mapping', 'fromkeys', 'fromnested', 'assign'])
        mutable = rng.random() < 0.8 or how == 'assign'
        nested = how in ('nested', 'key', 'fromnested')
        op = {'op': 'new', 'm': name, 'how': how, 'mutable': mutable, 'entries': self.entries(nested)}
        if how in ('groups', 'mapping', 'dict') and not op['entries']:
            op['how'] = 'tuples'
        if how == 'nested' and not any(len(ks) > 1 for ks, _ in op['entries']):
            op['how'] = 'tuples'
        if how == 'key' and not op['entries']:
            op['how'] = 'tuples'
        if op['how'] in ('fromkeys', 'fromnested'):
            op['value'] = rng.choice([None, 0, 'v'])
        return op

    def op(self):
        rng = self.rng
        if self.next and rng.random() < 0.8:
            return self.note(self.next.pop(0))
        return self.note(self.draw())

    def note(self, op):
        known = self.known.setdefault(op.get('to', op['m']), set())
        if op['op'] == 'new':
            known.clear()
            known.update(k for ks, _ in op['entries'] for k in ks)
        elif op['op'] in ('set', 'update', 'ordict', 'alias'):
            if op['op'] == 'ordict':
                known.update(self.known.get(op['m'], ()))
            known.update(op['k'] if op['op'] == 'set' else op['new'] if op['op'] == 'alias' else [k for k, _ in op['items']])
        elif 'to' in op:
            known.clear()
            known.update(self.known.get(op['m'], ()))
        return op

    def grouped(self, op):
        """What somebody does with a group: derive mappings from this one, then change either."""
        rng = self.rng
        m = op['m']
        to = rng.choice([n for n in self.names if n != m])
        derive = rng.choice([{'op': 'copy'}, {'op': 'copy'}, {'op': 'freeze', 'groups': True}, {'op': 'freeze', 'groups': True},
                             {'op': 'freeze', 'groups': False}, {'op': 'convert', 'mutable': True}])
        changes = []
        for _ in range(rng.randint(1, 3)):
            n = rng.choice([m, to]) if derive['op'] != 'freeze' else m
            change = rng.choice(['set', 'set', 'group', 'del', 'setgroup'])
            if change == 'group':
                changes.append({'op': 'group', 'm': n, 'name': rng.choice([op['name'], self.key()]), 'keys': [rng.choice(op['keys']) for _ in range(rng.randint(1, 2))]})
            elif change == 'del':
                changes.append({'op': 'del', 'm': n, 'k': [rng.choice(op['keys'])]})
            else:
                changes.append({'op': 'set', 'm': n, 'k': [op['name'] if change == 'setgroup' else rng.choice(op['keys'])], 'v': self.value()})
        return [{**derive, 'm': m, 'to': to}, *changes]

    def draw(self):
        rng = self.rng
        kind = rng.choices(
            ['set', 'del', 'alias', 'group', 'update', 'updatefrom', 'clear', 'pop', 'popitem', 'setdefault', 'copy', 'freeze', 'convert',
             'or', 'ordict', 'fromkeysof', 'namemap', 'aliasof', 'new'],
            [20, 9, 18, 5, 5, 2, 1, 4, 3, 3, 5, 5, 3, 3, 3, 2, 2, 2, 4])[0]
        name = rng.choice(self.names)
        if kind == 'new':
            return self.new(name)
        if self.known and rng.random() < 0.8:
            name = rng.choice(sorted(self.known))
        op = {'op': kind, 'm': name}
        if kind in ('copy', 'freeze', 'convert', 'or', 'ordict', 'fromkeysof'):
            op['to'] = rng.choice([n for n in self.names if n != name])
        if kind == 'set':
            r = rng.random()
            if r < 0.7:
                op['k'] = [self.key()]
            else:
                op['k'] = rng.sample(self.universe, min(len(self.universe), rng.randint(1, 3)))
                op['as'] = rng.choice(['group', 'tuple'])
            op['v'] = self.value()
        elif kind == 'del':
            op['k'] = [self.key()]
        elif kind == 'alias':
            op['k'] = self.key()
            op['new'] = [self.key() for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        elif kind == 'group':
            op['name'] = self.key()
            op['keys'] = [self.key() for _ in range(rng.randint(1, 3))]
            known = sorted(self.known.get(name, ()))
            if known and rng.random() < 0.8:
                op['keys'] = [rng.choice(known) for _ in range(rng.randint(1, 3))]
                free = [k for k in self.universe if k not in known]
                if free:
                    op['name'] = rng.choice(free)
            if not self.next and rng.random() < 0.6:
                self.next = self.grouped(op)
        elif kind == 'update':
            op['items'] = [[self.key(), self.value()] for _ in range(rng.randint(1, 3))]
            op['kw'] = rng.random() < 0.4 and all(k.isidentifier() for k, _ in op['items']) and len({k for k, _ in op['items']}) == len(op['items'])
        elif kind in ('updatefrom', 'or'):
            op['o'] = rng.choice([n for n in self.names if n != name])
        elif kind == 'pop':
            op['k'] = self.key()
            op['default'] = rng.choice([[], ['none']])
        elif kind == 'setdefault':
            op['k'] = self.key()
            op['v'] = self.value()
        elif kind == 'freeze':
            op['groups'] = rng.random() < 0.5
        elif kind in ('convert', 'fromkeysof'):
            op['mutable'] = rng.random() < 0.6
            if kind == 'fromkeysof':
                op['v'] = rng.choice([None, 1])
        elif kind == 'ordict':
            op['items'] = [[self.key(), rng.randint(0, 5)] for _ in range(rng.randint(0, 3))]
        elif kind == 'namemap':
            op['groups'] = [ks for ks, _ in self.entries()]
        elif kind == 'aliasof':
            op['k'] = self.key()
            op['include'] = rng.random() < 0.5
        return op


def generate(seed, prop):
    rng = random.Random(f"{prop}-{seed}")
    g = Gen(rng)
    ops = [g.note(g.new(n)) for n in g.names[:rng.choice([1, 2, 2])]]
    g.names = g.names[:rng.randint(2, 4)]
    ops += [g.op() for _ in range(rng.choice([3, 6, 10, 16]))]
    return {'world': 'aliased', 'prop': prop, 'seed': seed, 'ops': ops, 'intr': []}


def variants(prop, plan, result, rng, n):
    pts = {int(k): v for k, v in result.get('points', {}).items()}
    pts = {k: v for k, v in pts.items() if k < 10_000}
    if not pts:
        return
    changes = [k for k in pts if plan['ops'][k]['op'] in ('set', 'del', 'alias')]
    for _ in range(n):
        intr = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            i = rng.choice(changes if changes and rng.random() < 0.75 else sorted(pts))
            at = rng.choice(sorted(pts[i]))
            intr.append({'op': i, 'at': at, 'nth': rng.randint(1, pts[i][at]), 'kind': rng.choice(['interrupt', 'memory'])})
        yield {**plan, 'intr': intr}


def shrink(plan):
    ops = plan['ops']
    for j in range(len(ops) - 1, -1, -1):
        intr = [{**f, 'op': f['op'] - 1} if f['op'] > j else f for f in plan['intr'] if f['op'] != j]
        yield {**plan, 'ops': ops[:j] + ops[j + 1:], 'intr': intr}
    for j in range(len(plan['intr'])):
        yield {**plan, 'intr': plan['intr'][:j] + plan['intr'][j + 1:]}
    for j, op in enumerate(ops):
        if op['op'] == 'new' and len(op['entries']) > 1:
            for x in range(len(op['entries'])):
                new = list(ops)
                new[j] = {**op, 'entries': op['entries'][:x] + op['entries'][x + 1:]}
                yield {**plan, 'ops': new}
