"""Several simulated processes working on one project (property P07)."""
import json
import os
import random
import shlex

from . import patch
from .kernel import (
    Deadlock, HarnessError, Kernel, ProcessKilled, SimStop, StepLimit,
)
from .pworld import HOME, WORK, Violation, diff, hidden, parse_log, short

ROOT = WORK + '/p'


def generate(seed, prop='P07'):
    rng = random.Random(f"cplan-{seed}")
    branches = rng.choice([[], [], ['A', 'B']])
    nproc = rng.choice([2, 2, 3, 4])
    procs = []
    for i in range(nproc):
        ops = []
        names = [f'x{i}{j}' for j in range(2)]      # existing runs
        new = [f'n{i}{j}' for j in range(3)]
        mine = list(names)
        for _ in range(rng.randrange(1, 4)):
            act = rng.choice(['run', 'run', 'run', 'mv', 'rm', 'append', 'read', 'create', 'open'])
            if act == 'run' and new:
                name = new.pop()
                fail = rng.random() < 0.15
                ops.append({'op': 'run', 'name': name + ('F' if fail else '')})
                if not fail:
                    mine.append(name)
            elif act == 'mv' and mine and new:
                a = mine.pop(rng.randrange(len(mine)))
                b = new.pop()
                ops.append({'op': 'mv', 'source': a, 'target': b})
                mine.append(b)
            elif act == 'rm' and mine:
                a = mine.pop(rng.randrange(len(mine)))
                ops.append({'op': 'rm', 'pattern': a})
            elif act == 'append' and mine:
                ops.append({'op': 'append', 'key': rng.choice(mine), 'value': rng.randrange(99)})
            elif act == 'create':
                ops.append({'op': 'create', 'key': f'k{i}', 'value': rng.randrange(99)})
            else:
                ops.append({'op': act if act in ('read', 'open') else 'read'})
        procs.append(ops)
    return {
        'world': 'concurrent', 'seed': seed, 'branches': branches,
        'procs': procs, 'faults': [], 'preempt': [],
        'bufsize': rng.choice([8192, 64, 256]),
        'via': [rng.random() < 0.15 for _ in range(nproc)],
        'big': rng.random() < 0.3,
    }


class ConcurrentWorld:
    def __init__(self, plan):
        self.plan = plan
        self.k = Kernel(plan)
        self.violations = []
        self.events = []
        self.cover = {}
        self.syscalls = []
        fs = self.k.fs
        for d in (HOME, '/sim/tmp', '/sim/bin', WORK):
            fs.makedirs(d)
        fs.put('/sim/bin/eprem', b'#!', 0o755)
        fs.put('/sim/bin/mpirun', b'#!', 0o755)
        fs.put(HOME + '/main.cfg', b'a=1\n')
        self.k.child_policy = lambda cwd: {
            'code': 1 if cwd.endswith('F') else 0,
            'duration': (sum(map(ord, cwd)) * 7 + plan['seed']) % 5,
        }

    def flag(self, tags, message):
        self.violations.append(Violation(tuple(tags), message))

    def dirs(self):
        b = self.plan['branches']
        return [f"{ROOT}/{x}/runs" for x in b] if b else [ROOT + '/runs']

    def run(self):
        with patch.simulating(self.k):
            try:
                self._run()
            finally:
                if self.k.current is not None:
                    self.k.enter(None)
        return self

    def _run(self):
        k = self.k
        setup = k.spawn(HOME)
        setup.index = -1
        k.enter(setup)
        setup.begin(0)
        mod = k.load()
        prj = mod.Interface(ROOT, branches=self.plan['branches'] or None)
        expected = {}
        log = json.loads(bytes(k.fs.lookup(ROOT + '/runs.json').data))
        entries = dict(log)
        for i in range(len(self.plan['procs'])):
            for j in range(2):
                for d in self.dirs():
                    path = f"{d}/x{i}{j}"
                    k.fs.put(path + '/eprem.cfg', b'old\n')
                    entries[path] = {'command': 'old', 'time': f'{i}{j}'}
                    if self.plan['big']:
                        entries[path]['pad'] = 'y' * 700
        k.fs.put(ROOT + '/runs.json', json.dumps(entries))
        k.fs.sync_all()
        k.exit(setup)
        k.enter(None)
        k.steps = 0
        k.log.clear()
        self.base = entries
        bodies = []
        for i, ops in enumerate(self.plan['procs']):
            p = k.spawn(HOME)
            p.index = i
            p.done = []
            p.failure = None
            bodies.append((p, self.body(i, ops)))
        procs = k.run_threads(bodies)
        self.judge(procs)

    def body(self, i, ops):
        def main(p):
            # every process is its own interpreter
            p.begin(0)
            p.doing = ('open', {})
            mod = self.k.load()
            prj = mod.Interface(ROOT)
            for n, op in enumerate(ops, 1):
                p.begin(n)
                p.doing = (n, op)
                kind = op['op']
                if kind == 'run':
                    prj.run('main.cfg', name=op['name'], errors=True, silent=True)
                elif kind == 'mv':
                    prj.mv(op['source'], op['target'], errors=True, silent=True)
                elif kind == 'rm':
                    prj.rm(op['pattern'], errors=True, silent=True)
                elif kind == 'append':
                    prj.log.append(self.dirs()[0] + '/' + op['key'], 'note', op['value'])
                elif kind == 'create':
                    prj.log.create(op['key'], {'v': op['value']})
                elif kind == 'read':
                    str(prj.log)
                    len(prj.log)
                elif kind == 'open':
                    prj = mod.Interface(ROOT)
                p.done.append(n)
                p.doing = None
        return main

    def model(self, states, i, op):
        """Apply an operation to a {run name: entry} dictionary."""
        out = dict(states)
        for d in self.dirs():
            if op['op'] == 'mv':
                out[f"{d}/{op['target']}"] = out.pop(f"{d}/{op['source']}", None)
            elif op['op'] == 'rm':
                out.pop(f"{d}/{op['pattern']}", None)
            elif op['op'] == 'run':
                if not op['name'].endswith('F'):
                    out[f"{d}/{op['name']}"] = '<run>'
        if op['op'] == 'append':
            key = self.dirs()[0] + '/' + op['key']
            cur = out.get(key)
            cur = {'<run>': True} if cur == '<run>' else dict(cur or {})
            cur['note'] = op['value']
            out[key] = cur
        elif op['op'] == 'create':
            out[op['key']] = {'v': op['value']}
        return out

    def keys_of(self, op):
        out = set()
        for d in self.dirs():
            for f in ('source', 'target', 'pattern', 'name', 'key'):
                if f in op:
                    out.add(f"{d}/{op[f]}")
                    out.add(op[f])
        return out

    def judge(self, procs):
        k = self.k
        if k.deadlocked:
            who = [p.index for p in procs if isinstance(p.error, Deadlock)]
            self.flag(['P07'], f"processes {who} wait forever")
            return
        try:
            log = parse_log(k.fs.tree(ROOT), ROOT + '/runs.json')
        except ValueError as err:
            self.flag(['P07', 'P01'], f"log is unreadable at the end: {err}")
            return
        if log is None:
            self.flag(['P07', 'P01'], "log has disappeared")
            return
        want = dict(self.base)
        loose = set()
        for p in procs:
            ops = self.plan['procs'][p.index]
            err = p.error
            crashed = isinstance(err, ProcessKilled)
            faulty = any(f['proc'] == p.index for f in self.plan['faults'])
            self.events.append((p.index, len(p.done), type(err).__name__))
            self.cover[('proc', type(err).__name__, len(p.done))] = 1
            if isinstance(err, StepLimit):
                self.flag(['P07'], f"process {p.index} makes no progress in {p.doing}")
                return
            if err is not None and not isinstance(err, SimStop):
                if not (faulty and isinstance(err, OSError)):
                    self.flag(['P07'], f"process {p.index} failed in {p.doing}: {err!r}")
                    return
            for n in p.done:
                want = self.model(want, p.index, ops[n - 1])
            if len(p.done) < len(ops):
                n = len(p.done)
                loose |= self.keys_of(ops[n])
                partial = self.model(want, p.index, ops[n])
                for key in self.keys_of(ops[n]):
                    got = log.get(key)
                    opts = [want.get(key), partial.get(key)]
                    if not any(self.match(o, got) for o in opts):
                        self.flag(['P07', 'P01'], f"entry {key} of an interrupted operation is {short(got)}")
                if ops[n]['op'] == 'mv':
                    for d in self.dirs():
                        a, b = f"{d}/{ops[n]['source']}", f"{d}/{ops[n]['target']}"
                        if a in want and want[a] is not None and (a in log) == (b in log):
                            self.flag(['P07', 'P01'], f"entry of {a} is {'duplicated' if a in log else 'lost'}")
        for key in sorted(set(want) | set(log)):
            if key in loose:
                continue
            if not self.match(want.get(key), log.get(key)):
                self.flag(['P07'], f"entry {key} is {short(log.get(key))}, every serial order gives {short(want.get(key))}")
        # directories
        tree = k.fs.tree(ROOT)
        for p in procs:
            ops = self.plan['procs'][p.index]
            exist = {f'x{p.index}{j}' for j in range(2)}
            for n in p.done:
                op = ops[n - 1]
                if op['op'] == 'run':
                    exist.add(op['name'])
                elif op['op'] == 'mv':
                    exist.discard(op['source'])
                    exist.add(op['target'])
                elif op['op'] == 'rm':
                    exist.discard(op['pattern'])
            skip = self.keys_of(ops[len(p.done)]) if len(p.done) < len(ops) else set()
            for d in self.dirs():
                have = {q[len(d) + 1:] for q in tree if q.startswith(d + '/') and '/' not in q[len(d) + 1:]}
                have = {q for q in have if q[1] == str(p.index)}
                for name in sorted(have ^ exist):
                    if f"{d}/{name}" not in skip:
                        self.flag(['P07', 'P04'], f"run {d}/{name} {'exists' if name in have else 'is missing'}")

    @staticmethod
    def match(want, got):
        if want is None or got is None:
            return want is got
        if want == '<run>':
            return isinstance(got, dict) and set(got) >= {'command', 'time'}
        if isinstance(want, dict) and '<run>' in want:
            return isinstance(got, dict) and set(got) >= {'command', 'time'} and got.get('note') == want.get('note')
        return want == got


def variants(plan, total, rng, n):
    """Schedules and crashes for a plan whose serial execution is known."""
    out = []
    nproc = len(plan['procs'])
    for _ in range(n):
        style = rng.random()
        pre = {}
        if style < 0.6:
            for _ in range(rng.randrange(1, 7)):
                pre[rng.randrange(1, total + 1)] = rng.randrange(nproc)
        elif style < 0.85:
            for s in range(1, total + 40):
                if rng.random() < 0.25:
                    pre[s] = rng.randrange(nproc)
        else:
            a = rng.randrange(1, total)
            for s in range(a, min(total, a + 120)):
                pre[s] = rng.randrange(nproc)
        faults = []
        if rng.random() < 0.35:
            i = rng.randrange(nproc)
            op = rng.randrange(0, len(plan['procs'][i]) + 1)
            faults.append({'proc': i, 'op': op, 'k': rng.randrange(1, 160),
                           'kind': rng.choice(['crash', 'crash', 'err', 'torn']),
                           'pick': rng.randrange(1 << 16)})
        out.append({**plan, 'preempt': sorted(map(list, pre.items())), 'faults': faults})
    return out


# -- processes that compete for the same names ------------------------------------------
NAMES = ('same', None)


def generate_rivals(seed, prop):
    """Processes that create one project, or start runs with one name."""
    rng = random.Random(f"rivals-{prop}-{seed}")
    mode = {'P02': 'create', 'P03': 'runs', 'P11': 'runs', 'P08': 'create'}.get(prop) or rng.choice(['create', 'runs'])
    nproc = rng.choice([2, 2, 2, 3, 4])
    branches = rng.choice([[], [], ['A', 'B']])
    procs = []
    for i in range(nproc):
        ops = []
        if mode == 'create':
            r = rng.random()
            if r < 0.75 or i == 0:
                attrs = {}
                while not attrs:
                    attrs = {k: v for k, v in {
                        'branches': rng.choice([None, [f'B{i}'], ['A', f'C{i}']]),
                        'config': rng.choice([None, f'c{i}.cfg']),
                        'inputs': rng.choice([None, f'in{i}']),
                        'output': rng.choice([None, f'out{i}.log']),
                        'rundir': rng.choice([None, f'runs{i}']),
                        'logname': rng.choice([None, f'log{i}']),
                    }.items() if v}
                copy = rng.random() < (0.8 if prop == 'P08' else 0.15)
                ops.append({'op': 'create', 'attrs': attrs, 'copy': copy})
            for _ in range(rng.choice([0, 0, 1, 2])):
                ops.append({'op': 'open'})
            if not ops or ops[0]['op'] == 'open':
                ops += [{'op': 'open'}] * 3
        else:
            for _ in range(rng.choice([1, 1, 2, 3])):
                op = {'op': 'run', 'name': None if prop == 'P11' and rng.random() < 0.7 else rng.choice(['same', 'same', 'x', None]),
                      'errors': rng.random() < 0.5}
                if branches and rng.random() < 0.4:
                    op['branches'] = rng.sample(branches, rng.choice([1, 2]))
                ops.append(op)
        procs.append(ops)
    plan = {
        'world': 'concurrent', 'mode': mode, 'prop': prop, 'seed': seed, 'branches': branches,
        'procs': procs, 'faults': [], 'preempt': [], 'bufsize': rng.choice([8192, 64]), 'codes': rng.random() < 0.3,
    }
    if mode == 'runs' and rng.random() < 0.7:
        plan['frozen'] = True
    return plan


def recorded(command, launched):
    """True if a log entry gives the command that was launched."""
    if launched['command'] is not None:
        return command == launched['command']
    try:
        return shlex.split(command) == launched['tokens']
    except (ValueError, AttributeError, TypeError):
        return command == launched['tokens']


class RivalWorld(ConcurrentWorld):
    def _run(self):
        k = self.k
        k.fs.put(HOME + '/main.cfg', b'a=1\n')
        for i in range(len(self.plan['procs'])):
            k.fs.put(f'{HOME}/c{i}.cfg', f'of={i}\n')
        setup = k.spawn(HOME)
        setup.index = -1
        k.enter(setup)
        setup.begin(0)
        mod = k.load()
        if self.plan['mode'] == 'runs':
            mod.Interface(ROOT, branches=self.plan['branches'] or None)
        else:
            mod.Interface(WORK + '/source', branches=['S'], output='source.log')
            k.fs.put(WORK + '/source/inputs/main.cfg', b'source\n')
        k.child_policy = lambda cwd: {
            'code': (sum(map(ord, cwd)) + self.plan['seed']) % 3 if self.plan.get('codes') else 0,
            'duration': (sum(map(ord, cwd)) * 7 + self.plan['seed']) % 5,
        }
        k.fs.sync_all()
        k.exit(setup)
        k.enter(None)
        k.steps = 0
        k.log.clear()
        self.before = {p: v for p, v in k.fs.tree('/sim').items() if not (p == ROOT or p.startswith(ROOT + '/'))}
        self.results = {}
        bodies = []
        for i, ops in enumerate(self.plan['procs']):
            p = k.spawn(HOME)
            p.index = i
            p.done = []
            bodies.append((p, self.body(i, ops)))
        procs = k.run_threads(bodies)
        tags = {'create': ['P02', 'P07', 'P08'], 'runs': ['P11', 'P07', 'P03']}[self.plan['mode']]
        if k.deadlocked:
            return self.flag(tags, "processes wait forever for each other")
        for p in procs:
            err = p.error
            self.events.append((p.index, type(err).__name__, [r[:1] + (type(r[1]).__name__,) for r in self.results.get(p.index, [])]))
            if isinstance(err, StepLimit):
                return self.flag(tags, f"process {p.index} makes no progress")
            if err is not None and not isinstance(err, SimStop):
                raise err
        for r in self.results.values():
            for res in r:
                self.cover[(self.plan['mode'], res[0], type(res[1]).__name__)] = 1
        after = {p: v for p, v in k.fs.tree('/sim').items() if not (p == ROOT or p.startswith(ROOT + '/'))}
        if after != self.before:
            self.flag(['P06', *tags], f"something outside the project changed: {diff(self.before, after)}")
        getattr(self, 'judge_' + self.plan['mode'])(procs, tags)

    def body(self, i, ops):
        def main(p):
            p.begin(0)
            mod = self.k.load()
            results = self.results[i] = []
            prj = None
            for n, op in enumerate(ops, 1):
                p.begin(n)
                try:
                    if op['op'] == 'create':
                        kw = {'copy': WORK + '/source'} if op['copy'] else {}
                        prj = mod.Interface(ROOT, **op['attrs'], **kw)
                    elif op['op'] == 'open':
                        if not os.path.exists(ROOT):
                            results.append(('absent', None))
                            continue
                        mod.Interface(ROOT)
                    else:
                        prj = prj or mod.Interface(ROOT)
                        prj.run(f'c{i}.cfg', name=op['name'], branches=op.get('branches'), errors=op['errors'], silent=True)
                    results.append(('ok', None))
                except SimStop:
                    raise
                except HarnessError:
                    raise
                except Exception as err:
                    results.append(('raise', err))
                p.done.append(n)
        return main

    def faulty(self, i=None):
        return any(i is None or f['proc'] == i for f in self.plan['faults'])

    def judge_create(self, procs, tags):
        won = []
        maybe = []
        for p in procs:
            ops = self.plan['procs'][p.index]
            for n, op in enumerate(ops):
                res = self.results.get(p.index, [])[n:n + 1]
                if op['op'] == 'create':
                    if res and res[0][0] == 'ok':
                        won.append(p.index)
                    elif self.faulty(p.index):
                        maybe.append(p.index)
                elif res and res[0][0] == 'raise' and not isinstance(res[0][1], FileNotFoundError) and not self.faulty(p.index):
                    self.flag(['P07', 'P02'], f"process {p.index} cannot open a project that another process creates: {res[0][1]!r}")
        if len(won) > 1:
            return self.flag(tags, f"processes {won} created the same project with different attributes")
        if not won and not maybe:
            return self.flag(tags, "no process could create the project: " + short([str(r[0][1]) for r in self.results.values() if r]))
        if not won and ROOT not in self.k.fs.tree('/sim'):
            return
        for i in won or maybe:
            want = self.wanted(self.plan['procs'][i][0])
            problem = self.matches(want)
            if not problem:
                return
        if won:
            self.flag(tags, f"the project that process {won[0]} created has {problem}")
        elif not isinstance(problem, Exception):
            self.flag(tags, f"the project that one of the processes {maybe} created has {problem}")

    def wanted(self, op):
        a = op['attrs']
        base = {'branches': ['S'], 'output': 'source.log'} if op['copy'] else {}
        a = {**base, **a}
        return {
            'branches': sorted(a.get('branches') or ()), 'config': a.get('config') or 'eprem.cfg',
            'inputs': f"{ROOT}/{a.get('inputs') or 'inputs'}", 'output': a.get('output') or 'eprem.log',
            'rundir': a.get('rundir') or 'runs', 'log': f"{ROOT}/{a.get('logname') or 'runs'}.json",
            'copy': op['copy'],
        }

    def matches(self, want):
        """What is different in the project; an exception if there is none."""
        k = self.k
        proc = k.spawn(HOME)
        proc.index = -2
        k.enter(proc)
        proc.begin(0)
        try:
            prj = k.load().Interface(ROOT)
            got = {
                'branches': sorted(prj.branches), 'config': str(prj._attrs.config), 'inputs': str(prj._attrs.inputs),
                'output': str(prj._attrs.output), 'rundir': str(prj._attrs.rundir), 'log': str(prj.log.path), 'copy': want['copy'],
            }
            if want['copy'] and not self.faulty():
                node = k.fs.tree(ROOT).get(want['inputs'] + '/main.cfg')
                if node != ('f', b'source\n'):
                    return f"{want['inputs']}/main.cfg = {node}"
            dirs = [f"{ROOT}/{b}/{want['rundir']}" for b in want['branches']] or [f"{ROOT}/{want['rundir']}"]
            if sorted(map(str, prj.directories)) != sorted(dirs):
                return f"run directories {list(map(str, prj.directories))}"
        except SimStop:
            raise
        except Exception as err:
            return err
        finally:
            k.exit(proc)
            k.enter(None)
        bad = {x: v for x, v in got.items() if v != want[x]}
        return f"{bad} instead of { {x: want[x] for x in bad} }" if bad else ''

    def judge_runs(self, procs, tags):
        k = self.k
        by = {}
        for r in k.children:
            by.setdefault(r['cwd'], []).append(r)
        for cwd, rs in by.items():
            if len(rs) > 1:
                return self.flag(tags, f"processes {[r['proc'] for r in rs]} started runs in one directory {cwd}")
        try:
            log = parse_log(k.fs.tree(ROOT), ROOT + '/runs.json') or {}
        except ValueError as err:
            return self.flag(['P07', 'P01'], f"log is unreadable: {err}")
        tree = k.fs.tree(ROOT)
        for cwd, (r,) in by.items():
            cfg = tree.get(cwd + '/eprem.cfg')
            if cfg != ('f', f"of={r['proc']}\n".encode()):
                return self.flag([*tags, 'P10'], f"the run of process {r['proc']} in {cwd} has the configuration {cfg}")
            entry = log.get(cwd)
            if r['code'] == 0 and entry is None and not self.faulty(r['proc']):
                return self.flag(['P03', 'P07'], f"no entry for the run in {cwd}")
            if r['code'] != 0 and entry is not None:
                return self.flag(['P03', 'P07'], f"an entry for the failed run in {cwd}")
            if entry is not None and not recorded(entry.get('command'), r):
                return self.flag(['P03', 'P07'], f"the entry of {cwd} has the command {entry.get('command')!r}")
        for key in log:
            if key.startswith('/') and key not in by:
                return self.flag(['P03', 'P07'], f"an entry for {key}, where nothing ran")
        dirs = {p for p, v in tree.items() if v[0] == 'd' and p.rpartition('/')[0] in self.dirs()}
        if not self.faulty():
            for d in sorted(dirs - set(by)):
                return self.flag([*tags, 'P09'], f"nothing ran in {d}")
        for p in procs:
            if self.faulty(p.index):
                continue
            for n, op in enumerate(self.plan['procs'][p.index]):
                res, err = self.results[p.index][n]
                if res == 'ok' and op['errors']:
                    # it ran wherever it was asked to
                    mine = {r['cwd'] for r in k.children if r['proc'] == p.index and r['op'] == n + 1}
                    wanted = op.get('branches') or self.plan['branches']
                    if len(mine) != (len(wanted) or 1):
                        return self.flag([*tags, 'P09'], f"process {p.index} started {sorted(mine)} for {op} without an error")
                if res == 'raise' and not self.collided(err):
                    return self.flag(tags, f"process {p.index} failed: {err!r}")
            if op['name'] and not any(c.endswith('/' + op['name']) for c in by) and not self.faulty():
                return self.flag(tags, f"nobody could start the run {op['name']}")

    @staticmethod
    def collided(err):
        return isinstance(err, FileExistsError) or 'exists' in str(err)
