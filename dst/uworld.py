"""Users of the unit system: histories of requests by one or several threads,
which switch at chosen points and are interrupted at others, judged by an
independent table of units and by what a process without history answers."""
import hashlib
import importlib
import math
import os
import pickle
import random
import re
import sys

from . import engine
from . import points
from . import uref
from .kernel import HarnessError
from .pworld import Violation, short

PKG = os.path.join(os.path.realpath(os.path.join(engine.REPO, 'src', 'eprempy')), '')
DEPTH = 3
MAX_POINTS = 3_000_000
VIAS = ['convert', 'conversion', 'rshift', 'rrshift', 'lshift', 'rlshift', 'scalar', 'quantity']


# what fresh processes answered, for the plans derived from the last one
CLEAN = {}


def ex(e):
    """An expression as stored in a plan."""
    return uref.merge(*(((p, n), x) for p, n, x in e))


# -- the requests ------------------------------------------------------------------
class Requests:
    """Performs operations on the real package."""

    def __init__(self):
        self.metric = importlib.import_module('eprempy.metric')
        self.physical = importlib.import_module('eprempy.physical')

    def perform(self, op):
        """The raw result of an operation."""
        return getattr(self, 'do_' + op['op'])(op)

    def do_unit(self, op):
        return self.metric.unit(op['s'])

    def do_named(self, op):
        return self.metric.NamedUnit(op['s'])

    def do_convert(self, op):
        m = self.metric
        a, b, via = op['a'], op['b'], op['via']
        if via == 'convert':
            return float(m.convert(a, b))
        if via == 'conversion':
            return float(m.conversion(a, b))
        if via == 'rshift':
            return m.unit(a) >> b
        if via == 'rrshift':
            return a >> m.unit(b)
        if via == 'lshift':
            return m.unit(b) << a
        if via == 'rlshift':
            return b << m.unit(a)
        if via == 'scalar':
            return float(self.physical.scalar(2.0, unit=a).withunit(b)) / 2.0
        if via == 'quantity':
            return float(m.quantity(op['q']).convert(a).to(b))
        raise HarnessError(via)

    def do_ratio(self, op):
        m = self.metric
        a, b = op['a'], op['b']
        if op['via'] == 'ratio':
            return m.ratio(a, b)
        if op['via'] == 'rshift':
            return m.NamedUnit(a) >> b
        return m.NamedUnit(b) << a

    def do_system(self, op):
        m = self.metric
        if op['via'] == 'quantity':
            c = m.quantity(op['q']).convert(op['a']).to(op['to'])
        elif op['via'] == 'convert':
            c = m.convert(op['a'], op['to'], quantity=op['q'])
        elif op['via'] == 'text':
            c = m.conversion(op['a'], op['to'], quantity=op['q'])
        else:
            c = m.conversion(m.unit(op['a']), op['to'], quantity=op['q'])
        return (c.u1, float(c))

    def do_arith(self, op):
        a = self.metric.unit(op['a'])
        if op['f'] == 'mul':
            return a * self.metric.unit(op['b'])
        if op['f'] == 'div':
            return a / self.metric.unit(op['b'])
        if op['f'] == 'rdiv':
            return 1 / a
        return a ** op['n']

    def do_cmp(self, op):
        a = self.metric.unit(op['a'])
        b = self.metric.unit(op['b']) if op['both'] else op['b']
        if op['f'] == 'eq':
            return bool(a == b)
        if op['f'] == 'and':
            return bool(a & b)
        return bool(a | b)

    def do_prop(self, op):
        u = self.metric.unit(op['a'])
        what, _, arg = op['p'].partition(':')
        if what == 'dimensions':
            return {str(k): str(v) for k, v in sorted(u.dimensions.items())}
        if what == 'decomposed':
            return sorted(str(t) for t in u.decomposed)
        if what == 'quantity':
            return str(u.quantity)
        if what == 'dimensionless':
            return bool(u.dimensionless)
        if what == 'normalize':
            return u.normalize(arg)
        if what == 'dimension':
            return str(self.metric.system(arg).get_dimension(op['a']))
        if what == 'getunit':
            return self.metric.system(arg).get_unit(unit=op['a'])
        raise HarnessError(what)

    def do_nprop(self, op):
        u = self.metric.NamedUnit(op['s'])
        what, _, arg = op['p'].partition(':')
        if what == 'reduce':
            r = u.reduce(arg)
            return None if r is None else (sorted(map(str, r.units)), float(r.scale))
        if what == 'decomposed':
            x = u.decomposed
            return None if x is None else sorted(map(str, x))
        if what == 'systems':
            return {k: sorted(v) for k, v in u.systems.items()}
        if what == 'dimensions':
            return {k: None if v is None else str(v) for k, v in sorted(u.dimensions.items())}
        if what == 'norm':
            return {k: v.name for k, v in sorted(u.norm.items())}
        raise HarnessError(what)

    def do_shared(self, op):
        m = self.metric
        if op['what'] == 'system':
            return m.system(op['name'])
        if op['what'] == 'quantity':
            return m.quantity(op['name'])
        if op['what'] == 'units':
            return {k: str(v) for k, v in sorted(m.quantity(op['name']).units.items())}
        if op['what'] == 'sysunit':
            return m.system(op['sys'])[op['name']].unit
        if op['what'] == 'sysdim':
            return str(m.system(op['sys'])[op['name']].dimension)
        raise HarnessError(op['what'])

    def do_bad(self, op):
        if op['what'] == 'unit':
            return self.metric.unit(op['s'])
        if op['what'] == 'named':
            return self.metric.NamedUnit(op['s'])
        if op['what'] == 'convert':
            return float(self.metric.convert(op['a'], op['s']))
        return float(self.metric.convert(op['s'], op['a']))

    def describe(self, x):
        """A plain description of a result."""
        m = self.metric
        if isinstance(x, m.NamedUnit):
            return ('named', x.name, x.symbol, float(x.scale), x.quantity)
        if isinstance(x, m.Unit):
            return ('unit', str(x))
        if isinstance(x, (m.System, m.Quantity)):
            return ('shared', type(x).__name__, str(x))
        return ('plain', x)


def agree(a, b):
    """True if two plain descriptions say the same."""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or math.isclose(a, b, rel_tol=1e-11)
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(agree(a[k], b[k]) for k in a)
    return a == b


# -- the world ------------------------------------------------------------------------
class UnitsWorld:
    def __init__(self, plan):
        self.plan = plan
        self.prop = plan['prop']
        self.violations = []
        self.events = []
        self.cover = {}
        self.fired = {}
        self.requests = Requests()
        self.objects = {}
        self.texts = {}
        self.clean = {}
        self.seen = {}
        self.steps = 0
        self.sched = None
        self.points = points.Points(PKG)
        n = len(plan['threads'])
        self.where = [(0, {})] * n
        self.faulted = [None] * n
        self.quiet = [0] * n
        self.intr = {}
        for f in plan.get('intr', ()):
            self.intr.setdefault((f['th'], f['op'], f['at']), {})[f['nth']] = f.get('kind', 'interrupt')
        self.pre = {}
        for f in plan.get('preempt', ()):
            self.pre.setdefault((f['th'], f['op'], f['at']), {})[f['nth']] = f['to']

    # -- bookkeeping
    def flag(self, tags, message):
        if not self.violations:
            self.violations.append(Violation(tuple(tags), message))
            self.events.append(('VIOLATION', tuple(tags), message))

    def run(self):
        self.cleanrooms()
        self.sched = points.Threads(self.points)
        self.sched.on_point = self.point
        limit = sys.getrecursionlimit()
        bodies = [lambda i=i: self.body(i) for i in range(len(self.plan['threads']))]
        ok = self.sched.run(bodies)
        sys.setrecursionlimit(limit)
        if self.sched.errors:
            raise HarnessError(self.sched.errors[0])
        if not ok:
            self.flag(['M01', 'M02'], f"{self.sched.deadlock}")
        if self.steps > MAX_POINTS:
            self.flag(['M01', 'M02'], "an operation did not terminate")
        return self

    def point(self, th, where):
        if self.quiet[th]:
            return
        self.steps += 1
        op, counts = self.where[th]
        n = counts[where] = counts.get(where, 0) + 1
        if n <= DEPTH:
            if op < 10_000:
                self.seen.setdefault((th, op), {}).setdefault(where, 0)
                self.seen[(th, op)][where] = n
            key = (th, op, where)
            kind = self.intr.get(key, {}).get(n)
            if kind and not self.faulted[th]:
                self.faulted[th] = kind
                self.fired[kind] = self.fired.get(kind, 0) + 1
                self.events.append(('fault', th, op, where, n, kind))
                raise KeyboardInterrupt if kind == 'interrupt' else MemoryError
            to = self.pre.get(key, {}).get(n)
            if to is not None and self.sched.switch(to):
                self.events.append(('switch', th, op, where, n, to))
        elif self.steps > MAX_POINTS:
            raise SystemExit

    # -- clean rooms
    @staticmethod
    def key(op):
        return repr(sorted((k, v) for k, v in op.items() if k not in ('deep',)))

    def cleanrooms(self):
        wanted = {}
        for ops in self.plan['threads']:
            for op in ops:
                wanted.setdefault(self.key(op), op)
                if op['op'] == 'convert' and op['ea'] is not None:
                    back = {**op, 'a': op['b'], 'b': op['a'], 'ea': op['eb'], 'eb': op['ea']}
                    wanted.setdefault(self.key(back), back)
        for key, op in wanted.items():
            if key in CLEAN:
                self.clean[key] = CLEAN[key]
                continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    try:
                        out = ('ok', self.requests.describe(self.requests.perform(op)))
                    except Exception as err:
                        out = ('raise', type(err).__name__)
                    with os.fdopen(w, 'wb') as fp:
                        fp.write(pickle.dumps(out))
                except BaseException:
                    os._exit(3)
                os._exit(0)
            os.close(w)
            with os.fdopen(r, 'rb') as fp:
                data = fp.read()
            os.waitpid(pid, 0)
            if not data:
                raise HarnessError(f"clean room failed for {op}")
            self.clean[key] = pickle.loads(data)

    # -- threads
    def body(self, th):
        for i, op in enumerate(self.plan['threads'][th]):
            if self.violations:
                return
            done = self.attempt(th, i, op, i)
            if not done and not self.violations:
                self.attempt(th, i, op, 10_000 + i)

    def attempt(self, th, i, op, n):
        """Perform an operation; False if it was interrupted."""
        self.where[th] = (n, {})
        self.faulted[th] = None
        raw = None
        deep = op.get('deep') if n < 10_000 else None
        old = None
        if deep:
            depth, f = 0, sys._getframe()
            while f:
                depth, f = depth + 1, f.f_back
            old = sys.getrecursionlimit()
        try:
            if deep:
                self.quiet[th] = 1
                self.points.stop()
                sys.setrecursionlimit(depth + deep)
            raw = self.requests.perform(op)
            out = None
        except Exception as err:
            out = err
        except KeyboardInterrupt:
            out = ('raise', 'KeyboardInterrupt', '')
        finally:
            if deep:
                sys.setrecursionlimit(old)
                self.quiet[th] = 0
                self.points.start(self.sched.point)
                self.faulted[th] = 'stack'
                self.fired['stack'] = self.fired.get('stack', 0) + 1
        self.quiet[th] += 1
        try:
            if isinstance(out, Exception):
                out = ('raise', type(out).__name__, short(str(out), 200))
            if self.steps > MAX_POINTS:
                return True
            if out is None:
                try:
                    out = ('ok', self.requests.describe(raw))
                except Exception as err:
                    out = ('broken', type(err).__name__, short(str(err), 200))
            self.events.append((th, n, op['op'], repr(out)))
            hurt = self.faulted[th]
            at = f"thread {th} step {i} ({self.tell(op)}{', again' if n >= 10_000 else ''})"
            if hurt:
                self.cover[('hurt', op['op'], hurt, out[0])] = 1
                if out[0] == 'ok':
                    self.identity(at, op, raw)
                return False
            self.judge(at, op, raw, out)
            return True
        finally:
            self.quiet[th] -= 1

    @staticmethod
    def tell(op):
        skip = ('ea', 'eb', 'e', 'op', 'deep', 'want', 'target')
        return op['op'] + ' ' + ' '.join(f"{v}" for k, v in op.items() if k not in skip and v is not None)

    # -- judgement
    def judge(self, at, op, raw, out):
        clean = self.clean[self.key(op)]
        numeric = op['op'] in ('convert', 'ratio', 'system')
        tags = ['M01'] if numeric else ['M02']
        if op['op'] in ('arith', 'prop', 'bad', 'cmp', 'nprop'):
            tags = ['M01', 'M02']
        if len(self.plan['threads']) > 1:
            tags = ['M02'] if 'M02' in tags else ['M01', 'M02']
        if out[0] == 'broken':
            return self.flag(tags, f"{at}: the result is broken: {out[1]} {out[2]}")
        if out[0] == 'ok' and clean[0] == 'raise':
            return self.flag(tags, f"{at}: gave {out[1]}, but a fresh process refuses with {clean[1]}")
        if out[0] == 'raise' and clean[0] == 'ok':
            return self.flag(tags, f"{at}: raised {out[1]} ({out[2]}), but a fresh process gives {clean[1]}")
        if out[0] == 'ok' and not agree(out[1], clean[1]):
            return self.flag(tags, f"{at}: gave {out[1]}, but a fresh process gives {clean[1]}")
        self.cover[(op['op'], op.get('via', op.get('f', op.get('p', op.get('what')))), out[0])] = 1
        if op['op'] == 'bad' and out[0] == 'ok':
            return self.flag(tags, f"{at}: accepted, gave {out[1]}")
        if op['op'] in ('convert', 'ratio'):
            self.conversion(at, op, out)
        elif op['op'] == 'system':
            self.to_system(at, op, out)
        elif op['op'] == 'cmp':
            self.comparison(at, op, out)
        if out[0] == 'ok':
            self.identity(at, op, raw)
        elif op['op'] in ('unit', 'named'):
            self.flag(['M02'], f"{at}: a valid spelling is refused: {out[1]} {out[2]}")
        elif op['op'] == 'shared':
            self.flag(['M02'], f"{at}: refused: {out[1]} {out[2]}")

    def conversion(self, at, op, out):
        if op['ea'] is None:
            want = ('factor', op['want']) if op['want'] else ('impossible',)
        else:
            a, b = ex(op['ea']), ex(op['eb'])
            want = uref.judge(a, b)
        if op['op'] == 'ratio' and want[0] == 'factor':
            same = len(a) == len(b) == 1 and a[0][0][1] == b[0][0][1]
            if not same:
                want = ('unspecified',)
        self.cover[('judged', want[0], out[0])] = 1
        if want[0] == 'impossible' and out[0] == 'ok':
            return self.flag(['M01'], f"{at}: an impossible conversion gave {out[1][1]}")
        if want[0] == 'factor' and out[0] == 'ok':
            got = out[1][1]
            if not math.isclose(got, want[1], rel_tol=1e-9):
                return self.flag(['M01'], f"{at}: gave {got!r} instead of {want[1]!r}")
        if op['op'] == 'convert' and op['ea'] is not None:
            back = {**op, 'a': op['b'], 'b': op['a'], 'ea': op['eb'], 'eb': op['ea']}
            inverse = self.clean[self.key(back)]
            if (inverse[0] == 'ok') != (out[0] == 'ok'):
                which = 'possible' if inverse[0] == 'ok' else 'impossible'
                return self.flag(['M01'], f"{at}: {out[0]}, but the inverse is {which}")
            if out[0] == 'ok' and not math.isclose(out[1][1] * inverse[1][1], 1.0, rel_tol=1e-9):
                return self.flag(['M01'], f"{at}: gave {out[1][1]!r}, the inverse gives {inverse[1][1]!r}")

    def to_system(self, at, op, out):
        if out[0] != 'ok':
            return
        if op['ea'] is None:
            if op['want'] and out[1][1][0] == op['target'] and not math.isclose(out[1][1][1], op['want'], rel_tol=1e-9):
                self.flag(['M01'], f"{at}: gave {out[1][1]} instead of {op['want']!r}")
            return
        try:
            target = uref.parse(out[1][1][0])
        except uref.Unknown:
            return
        a = ex(op['ea'])
        want = uref.judge(a, target)
        if want[0] == 'factor' and not math.isclose(out[1][1][1], want[1], rel_tol=1e-9):
            self.flag(['M01'], f"{at}: gave {out[1][1]} instead of {want[1]!r}")
        if want[0] == 'impossible':
            self.flag(['M01'], f"{at}: gave {out[1][1]}, which is a different quantity")

    def comparison(self, at, op, out):
        if out[0] != 'ok':
            return
        a, b = ex(op['ea']), ex(op['eb'])
        got = out[1][1]
        if op['f'] == 'eq':
            # a plain string is compared symbol by symbol
            symbols = op['both'] or all(w in {uref.symbol(p, n) for (p, n), _ in b} for w in uref.words(op['b']))
            if got and a != b or a == b and not got and symbols:
                self.flag(['M02'], f"{at}: gave {got}")
        if op['f'] == 'and' and a == b and not got:
            self.flag(['M02'], f"{at}: equal units are not equivalent")
        if op['f'] == 'and' and got and uref.judge(a, b)[0] == 'impossible':
            self.flag(['M02'], f"{at}: different quantities are equivalent")
        if op['f'] == 'or' and got and uref.judge(a, b)[0] == 'impossible':
            self.flag(['M02'], f"{at}: different quantities are consistent")

    def identity(self, at, op, raw):
        """One object for each meaning, one meaning for each object."""
        m = self.requests.metric
        expected = None
        if op['op'] == 'unit':
            expected = ex(op['e'])
        if isinstance(raw, m.NamedUnit):
            p, n = op['e']
            key = ('named', p, n)
            want = (p + n, uref.symbol(p, n), uref.PREFIXES[p][1])
            got = (raw.name, raw.symbol, float(raw.scale))
            if got != want:
                return self.flag(['M02'], f"{at}: gave {got} instead of {want}")
            text = raw.name
        elif isinstance(raw, m.Unit):
            text = str(raw)
            try:
                meaning = uref.parse_text(text)
            except uref.Unknown:
                return self.flag(['M02'], f"{at}: gave a unit without a meaning: {text!r}")
            if expected is not None and meaning != expected:
                return self.flag(['M02'], f"{at}: gave {text!r}")
            if op['op'] == 'arith':
                self.arithmetic(at, op, meaning, text)
            key = ('unit', meaning)
        elif isinstance(raw, (m.System, m.Quantity)):
            text = str(raw)
            key = (op['what'], op['name'].lower())
            if text != op['name'].lower():
                return self.flag(['M02'], f"{at}: gave {text!r}")
        else:
            return
        known = self.objects.setdefault(key, raw)
        if known is not raw:
            return self.flag(['M02'], f"{at}: gave another object for {text!r} than before")
        was = self.texts.setdefault(key, text)
        if was != text:
            return self.flag(['M02'], f"{at}: {was!r} turned into {text!r}")
        for k, obj in self.objects.items():
            if obj is raw and k != key:
                return self.flag(['M02'], f"{at}: one object for {k[-1]} and {key[-1]}")

    def arithmetic(self, at, op, meaning, text):
        a = ex(op['ea'])
        b = ex(op['eb']) if op.get('eb') is not None else ()
        if op['f'] == 'mul':
            want = uref.merge(*a, *b)
        elif op['f'] == 'div':
            want = uref.merge(*a, *((k, -v) for k, v in b))
        elif op['f'] == 'rdiv':
            want = uref.merge(*((k, -v) for k, v in a))
        else:
            want = uref.merge(*((k, v * op['n']) for k, v in a))
        if meaning == want:
            return
        if (uref.kinds(want) | uref.kinds(meaning)) & {'g', 'x', 'n'}:
            return
        if uref.dims(want) != uref.dims(meaning) or not math.isclose(uref.scale(want), uref.scale(meaning), rel_tol=1e-9):
            self.flag(['M01', 'M02'], f"{at}: gave {text!r}")


def outcome(w):
    h = hashlib.sha256()
    for e in w.events:
        h.update(repr(e).encode())
        h.update(b'\n')
    return {
        'violations': [(list(v.tags), v.message) for v in w.violations],
        'digest': h.hexdigest()[:16],
        'events': [repr(e) for e in w.events],
        'steps': w.steps,
        'syscalls': [],
        'simtime': 0.0,
        'fired': dict(w.fired),
        'cover': sorted(repr(c) for c in w.cover),
        'switches': w.sched.switches if w.sched else 0,
        'launched': len(w.plan['threads']) if len(w.plan['threads']) > 1 else 0,
        'points': {f"{th}:{op}": pts for (th, op), pts in w.seen.items()},
        'clean': w.clean,
    }


# -- generation --------------------------------------------------------------------------
QUANTITY = {
    'meter': 'length', 'gram': 'mass', 'nucleon': 'mass number', 'second': 'time', 'ampere': 'current',
    'joule': 'energy', 'newton': 'force', 'pascal': 'pressure', 'watt': 'power', 'coulomb': 'charge',
    'volt': 'potential', 'weber': 'magnetic flux', 'tesla': 'magnetic induction', 'hertz': 'frequency',
    'radian': 'plane angle', 'seimens': 'conductance', 'farad': 'capacitance', 'henry': 'inductance',
}
FAMILIES = [
    ['meter', 'astronomical unit', 'solar radius'], ['gram'], ['second', 'minute', 'hour', 'day'],
    ['joule', 'erg', 'electronvolt'], ['newton', 'dyne'], ['coulomb', 'statcoulomb', 'fundamental charge'],
    ['ampere', 'statampere'], ['volt', 'statvolt'], ['weber', 'maxwell'], ['tesla', 'gauss'],
    ['radian', 'degree'], ['hertz'], ['pascal'], ['watt'], ['nucleon', 'gram'], ['steradian'], ['count'],
    ['kelvin'], ['mole'], ['candela'], ['nucleon', 'atomic mass unit', 'gram'], ['Oersted'],
    ['henry'], ['farad'], ['seimens'], ['ohm'], ['poise'], ['gray'], ['becquerel', 'Curie'],
]
COMMON = FAMILIES[:12]
EXPAND = {
    'joule': [('', 'newton', 1), ('', 'meter', 1)], 'newton': [('kilo', 'gram', 1), ('', 'meter', 1), ('', 'second', -2)],
    'erg': [('', 'gram', 1), ('centi', 'meter', 2), ('', 'second', -2)], 'watt': [('', 'joule', 1), ('', 'second', -1)],
    'pascal': [('', 'newton', 1), ('', 'meter', -2)], 'dyne': [('', 'gram', 1), ('centi', 'meter', 1), ('', 'second', -2)],
    'volt': [('', 'joule', 1), ('', 'coulomb', -1)], 'tesla': [('', 'weber', 1), ('', 'meter', -2)],
    'weber': [('', 'volt', 1), ('', 'second', 1)], 'coulomb': [('', 'ampere', 1), ('', 'second', 1)],
    'hertz': [('', 'second', -1)], 'gray': [('', 'joule', 1), ('kilo', 'gram', -1)], 'poise': [('deci', 'pascal', 1), ('', 'second', 1)],
    'seimens': [('', 'ampere', 1), ('', 'volt', -1)], 'farad': [('', 'coulomb', 1), ('', 'volt', -1)],
    'henry': [('', 'weber', 1), ('', 'ampere', -1)],
}
QUANTITIES = ['length', 'mass', 'time', 'energy', 'velocity', 'acceleration', 'force', 'charge', 'current', 'magnetic induction',
              'number density', 'particle flux', 'area', 'volume', 'momentum', 'frequency', 'energy density', 'plane angle',
              'mass density', 'electric field', 'potential', 'temperature', 'work', 'fluence', 'conductance', 'speed']
CASES = {'mega': 'milli', 'milli': 'mega', 'peta': 'pico', 'pico': 'peta', 'zetta': 'zepto', 'zepto': 'zetta',
         'yotta': 'yocto', 'yocto': 'yotta'}
SCALES = ['', '', '', 'kilo', 'mega', 'milli', 'centi', 'nano', 'micro', 'giga', 'deca', 'deci', 'hecto', 'tera', 'pico']


class Gen:
    def __init__(self, rng, prop):
        self.rng = rng
        self.extra = random.Random(rng.random())
        self.spelled = {}
        self.units = []
        self.converted = []
        self.prop = prop
        names = rng.choice([COMMON, FAMILIES])
        self.fams = rng.sample(names, min(len(names), rng.randint(2, 4)))
        self.palette = [self.expression() for _ in range(rng.randint(2, 4))]

    def one(self, family=None):
        rng = self.rng
        name = rng.choice(family or rng.choice(self.fams))
        prefix = '' if name in uref.PLAIN or rng.random() < 0.4 else rng.choice(SCALES)
        return prefix, name

    def expression(self):
        rng = self.rng
        n = rng.choice([1, 1, 1, 2, 2, 3])
        out = []
        for _ in range(n):
            p, u = self.one()
            x = rng.choice([1, 1, 1, 2, -1, -1, -2, 3] if n > 1 else [1, 1, 1, 1, 1, 2, -1])
            out.append((p, u, x))
        e = uref.merge(*(((p, u), x) for p, u, x in out))
        return [[p, u, int(x)] for (p, u), x in e] or [['', 'meter', 1]]

    def pick(self):
        rng = self.rng
        if rng.random() < 0.8:
            return rng.choice(self.palette)
        return self.expression()

    def spell(self, e):
        """Some spelling of an expression, often one used before."""
        key = repr(e)
        if key in self.spelled and self.extra.random() < 0.25:
            return self.extra.choice(self.spelled[key])
        s = self.layout(e)
        r = self.extra.random()
        if r < 0.12:
            s = self.extra.choice([f" {s}", f"{s} ", f" {s} "])
        elif r < 0.18:
            s = s.replace(' ', '  ')
        self.spelled.setdefault(key, []).append(s)
        return s

    def layout(self, e):
        rng = self.rng
        terms = []
        for p, n, x in e:
            w = rng.choice(uref.spellings(p, n))
            if abs(x) > 1 and rng.random() < 0.12:
                terms += [(w, 1 if x > 0 else -1), (rng.choice(uref.spellings(p, n)), x - (1 if x > 0 else -1))]
            else:
                terms.append((w, x))
        if rng.random() < 0.35:
            rng.shuffle(terms)
        sep = rng.choice([' ', ' ', ' * ', '*'])
        if rng.random() < 0.4 and any(x < 0 for _, x in terms):
            num = [t for t in terms if t[1] > 0]
            den = [(w, -x) for w, x in terms if x < 0]
            top = sep.join(self.power(*t) for t in num) or '1'
            low = sep.join(self.power(*t) for t in den)
            if len(den) > 1:
                low = f"({low})"
            return f"{top} / {low}" if rng.random() < 0.8 else f"{top}/{low}"
        return sep.join(self.power(*t) for t in terms)

    def power(self, w, x):
        if x == 1:
            return w if self.rng.random() < 0.97 else f"{w}^1"
        return f"{w}^{x}"

    def relative(self, e):
        """An expression of the same dimensions, term by term."""
        rng = self.rng
        out = []
        for p, n, x in e:
            r = rng.random()
            fams = [f for f in FAMILIES if n in f]
            if r < 0.22 and n in EXPAND:
                out += [(pp, nn, xx * x) for pp, nn, xx in EXPAND[n]]
            elif r < 0.9:
                pp, nn = self.one(rng.choice(fams))
                out.append((pp, nn, x))
            else:
                out.append((p, n, x))
        m = uref.merge(*(((p, n), x) for p, n, x in out))
        return [[p, n, int(x)] for (p, n), x in m] or [['', 'unitless', 1]]

    def similar(self):
        """An earlier conversion with one unit replaced in the same text."""
        rng = self.extra
        old = rng.choice(self.converted)
        side = rng.choice('ab')
        e = old['e' + side]
        k = rng.randrange(len(e))
        p, n, x = e[k]
        if n in uref.PLAIN:
            return None
        r = rng.random()
        if r < 0.5:
            q, m = CASES.get(p) or rng.choice(['mega', 'milli', 'peta', 'pico']), n
        elif r < 0.8:
            q, m = rng.choice(SCALES), n
        else:
            q, m = p, rng.choice([f for fam in FAMILIES if n in fam for f in fam])
        if (q, m) == (p, n) or m in uref.PLAIN or ' ' in m or ' ' in n or any((q, m) == (a, b) for a, b, _ in e):
            return None
        changed = []

        def replace(match):
            w = match.group()
            if uref.SPELLINGS.get(w) != (p, n):
                return w
            new = uref.symbol(q, m) if w != p + n else q + m
            changed.append(new)
            return new

        text = re.sub(r'[^\s*/()^]+', replace, old[side])
        if not changed:
            return None
        out = {**old, side: text, 'e' + side: [[q, m, x] if i == k else t for i, t in enumerate(e)]}
        if out['via'] == 'quantity':
            del out['q']
            out['via'] = 'convert'
        return out

    def op(self):
        if self.converted and self.extra.random() < (0.3 if self.prop == 'M01' else 0.06):
            op = self.similar()
            if op:
                return op
        op = self.new()
        if op['op'] == 'convert':
            self.converted.append(op)
        return op

    def new(self):
        rng = self.rng
        if self.prop == 'M01':
            kind = rng.choices(['convert', 'system', 'unit', 'named', 'arith', 'cmp', 'prop', 'ratio', 'bad', 'nprop', 'shared'],
                               [46, 14, 8, 3, 5, 6, 6, 4, 4, 3, 3])[0]
        else:
            kind = rng.choices(['convert', 'system', 'unit', 'named', 'arith', 'cmp', 'prop', 'ratio', 'bad', 'nprop', 'shared'],
                               [8, 3, 40, 12, 8, 7, 6, 2, 4, 3, 7])[0]
        e = self.pick()
        if kind == 'unit':
            return {'op': 'unit', 's': self.spell(e), 'e': e}
        if kind == 'named':
            p, n = self.term()
            return {'op': 'named', 's': rng.choice(self.words(p, n)), 'e': [p, n]}
        if kind == 'convert':
            r = rng.random()
            if r < 0.75:
                f = self.relative(e)
            elif r < 0.9:
                f = self.pick()
            else:
                f = e
            op = {'op': 'convert', 'a': self.spell(e), 'b': self.spell(f), 'ea': e, 'eb': f, 'via': rng.choice(VIAS[:-1])}
            if len(e) == 1 and e[0][2] == 1 and rng.random() < 0.2:
                q = next((QUANTITY[x[0]] for x in FAMILIES if e[0][1] in x and x[0] in QUANTITY), None)
                if q:
                    op.update(via='quantity', q=q)
            return op
        if kind == 'ratio':
            p, n = self.term()
            q, m = (rng.choice(SCALES), n) if rng.random() < 0.8 and n not in uref.PLAIN else self.term()
            return {'op': 'ratio', 'a': rng.choice(self.words(p, n)), 'b': rng.choice(self.words(q, m)),
                    'ea': [[p, n, 1]], 'eb': [[q, m, 1]], 'via': rng.choice(['ratio', 'rshift', 'lshift'])}
        if kind == 'system' and rng.random() < 0.6:
            return self.between()
        if kind == 'system':
            fam = rng.choice([f for f in self.fams if f[0] in QUANTITY] or [FAMILIES[0]])
            p, n = self.one(fam)
            return {'op': 'system', 'a': self.spell([[p, n, 1]]), 'ea': [[p, n, 1]], 'to': rng.choice(['mks', 'cgs']),
                    'q': QUANTITY.get(fam[0], 'length'), 'via': rng.choice(['quantity', 'convert', 'conversion'])}
        if kind == 'arith':
            f = rng.choice(['mul', 'div', 'pow', 'rdiv'])
            g = self.pick()
            op = {'op': 'arith', 'f': f, 'a': self.spell(e), 'ea': e}
            if f in ('mul', 'div'):
                op.update(b=self.spell(g), eb=g)
            elif f == 'pow':
                op['n'] = rng.choice([2, -1, -2, 3, 0, 1])
            return op
        if kind == 'cmp':
            f = rng.choice([e, e, self.relative(e), self.relative(e), self.pick()])
            return {'op': 'cmp', 'f': rng.choice(['eq', 'eq', 'and', 'or']), 'a': self.spell(e), 'b': self.spell(f),
                    'ea': e, 'eb': f, 'both': rng.random() < 0.6}
        if kind == 'prop':
            p = rng.choice(['dimensions', 'decomposed', 'quantity', 'dimensionless', 'normalize:mks', 'normalize:cgs',
                            'dimension:mks', 'dimension:cgs', 'getunit:mks', 'getunit:cgs'])
            return {'op': 'prop', 'p': p, 'a': self.spell(e), 'ea': e}
        if kind == 'nprop':
            p, n = self.term()
            what = rng.choice(['reduce:mks', 'reduce:cgs', 'decomposed', 'systems', 'dimensions', 'norm'])
            return {'op': 'nprop', 'p': what, 's': rng.choice(self.words(p, n)), 'e': [p, n]}
        if kind == 'shared':
            what = rng.choice(['system', 'quantity', 'units', 'sysunit', 'sysdim'])
            if what == 'system':
                return {'op': 'shared', 'what': what, 'name': rng.choice(['mks', 'cgs', 'MKS', 'Cgs'])}
            name = rng.choice(QUANTITIES)
            if what == 'quantity':
                return {'op': 'shared', 'what': what, 'name': rng.choice([name, name.upper(), name.title()])}
            return {'op': 'shared', 'what': what, 'name': name, 'sys': rng.choice(['mks', 'cgs'])}
        what = rng.choice(['unit', 'named', 'convert', 'convertfrom'])
        return {'op': 'bad', 'what': what, 's': rng.choice(['blah', 'xm', 'km s^-1 blah', 'parsec', 'kk', 'mm s zz', 'furlong / s'][:None if what != 'named' else 2]),
                'a': self.spell(e)}

    def between(self):
        """A conversion to a system, often of a unit in use as another quantity."""
        rng = self.rng
        q, mks, cgs, x = rng.choice(uref.BETWEEN)
        if self.units and rng.random() < 0.6:
            unit = rng.choice(self.units)
            q, mks, cgs, x = rng.choice([b for b in uref.BETWEEN if unit in b[1:3]])
        else:
            unit = rng.choice([mks, cgs, cgs])
            self.units.append(unit)
        to = rng.choice(['mks', 'cgs', 'cgs' if unit == mks else 'mks'])
        want = x and (1.0 if unit == {'mks': mks, 'cgs': cgs}[to] else x if to == 'cgs' else 1 / x)
        op = {'op': 'system', 'a': unit, 'ea': None, 'to': to, 'q': q, 'want': want, 'target': {'mks': mks, 'cgs': cgs}[to],
              'via': rng.choice(['quantity', 'convert', 'text', 'conversion'])}
        if rng.random() < 0.15:
            op.update(q=rng.choice(uref.BETWEEN)[0], want=None)
        elif rng.random() < 0.15 and op['via'] != 'quantity':
            op.update(q=None, want=None)
        return op

    def term(self):
        p, n, _ = self.rng.choice(self.pick())
        return p, n

    @staticmethod
    def words(p, n):
        out = list(uref.spellings(p, n))
        if ' ' in n:
            out.append(p + n)
        return out


def generate(seed, prop):
    rng = random.Random(f"{prop}-{seed}")
    if prop == 'M01' and rng.random() < 0.06:
        a, b, want = rng.choice(uref.SPECIAL)
        if rng.random() < 0.5:
            a, b, want = b, a, want and 1 / want
        op = {'op': 'convert', 'a': a, 'b': b, 'ea': None, 'eb': None, 'want': want, 'via': rng.choice(['convert', 'conversion'])}
        return {'world': 'units', 'prop': prop, 'seed': seed, 'threads': [[op]], 'intr': [], 'preempt': []}
    g = Gen(rng, prop)
    share = 0.55 if prop == 'M02' else 0.12
    nt = rng.choice([2, 2, 3]) if rng.random() < share else 1
    if nt == 1:
        threads = [[g.op() for _ in range(rng.randint(3, 9))]]
    else:
        threads = [[g.op() for _ in range(rng.randint(1, 3))] for _ in range(nt)]
        if rng.random() < 0.6:
            # the same request at the same time
            op = g.op()
            for ops in threads:
                other = dict(op)
                if op['op'] == 'unit' and rng.random() < 0.6:
                    other['s'] = g.spell(op['e'])
                ops.insert(rng.randint(0, len(ops)), other)
    return {'world': 'units', 'prop': prop, 'seed': seed, 'threads': threads, 'intr': [], 'preempt': []}


def variants(prop, plan, result, rng, n):
    CLEAN.clear()
    CLEAN.update(result.get('clean', {}))
    pts = {tuple(map(int, k.split(':'))): v for k, v in result.get('points', {}).items()}
    nt = len(plan['threads'])
    where = sorted({w for v in pts.values() for w in v})
    if not where:
        return
    for _ in range(n):
        new = {**plan, 'intr': [], 'preempt': []}
        r = rng.random()
        if nt > 1 and r < 0.75:
            for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6])):
                th = rng.randrange(nt)
                op = rng.randrange(len(plan['threads'][th]))
                mine = pts.get((th, op))
                at = rng.choice(sorted(mine)) if mine and rng.random() < 0.6 else rng.choice(where)
                to = rng.choice([t for t in range(nt) if t != th])
                new['preempt'].append({'th': th, 'op': op, 'at': at, 'nth': rng.choice([1, 1, 1, 2, 3]), 'to': to})
        elif r < 0.9 and nt == 1 and rng.random() < 0.12:
            th = rng.randrange(nt)
            i = rng.randrange(len(plan['threads'][th]))
            threads = [list(ops) for ops in plan['threads']]
            threads[th][i] = {**threads[th][i], 'deep': rng.randint(2, 40)}
            new['threads'] = threads
        if not new['preempt'] and new['threads'] is plan['threads'] or rng.random() < 0.15:
            for _ in range(rng.choice([1, 1, 2])):
                th, op = rng.choice(sorted(pts))
                at = rng.choice(sorted(pts[(th, op)]))
                new['intr'].append({'th': th, 'op': op, 'at': at, 'nth': rng.randint(1, pts[(th, op)][at]),
                                    'kind': rng.choice(['interrupt', 'interrupt', 'memory'])})
        yield new


def shrink(plan):
    threads = plan['threads']
    for i in range(len(threads)):
        if len(threads) > 1 and i == len(threads) - 1 and not any(f['to'] == i for f in plan['preempt']):
            yield {**plan, 'threads': threads[:-1],
                   'intr': [f for f in plan['intr'] if f['th'] != i],
                   'preempt': [f for f in plan['preempt'] if f['th'] != i]}
        for j in range(len(threads[i]) - 1, -1, -1):
            if len(threads[i]) == 1:
                continue

            def move(fs):
                return [{**f, 'op': f['op'] - 1} if f['th'] == i and f['op'] > j else f
                        for f in fs if not (f['th'] == i and f['op'] == j)]

            new = [list(ops) for ops in threads]
            del new[i][j]
            yield {**plan, 'threads': new, 'intr': move(plan['intr']), 'preempt': move(plan['preempt'])}
    for key in ('intr', 'preempt'):
        for j in range(len(plan[key])):
            yield {**plan, key: plan[key][:j] + plan[key][j + 1:]}
    for i, ops in enumerate(threads):
        for j, op in enumerate(ops):
            for k, v in (('deep', None), ('via', 'convert')):
                if op.get(k) not in (None, v) and (k != 'via' or op['op'] == 'convert'):
                    new = [list(o) for o in threads]
                    new[i][j] = {x: y for x, y in op.items() if x != k}
                    if v is not None:
                        new[i][j][k] = v
                    yield {**plan, 'threads': new}
