"""What the engine knows about each property: plans, worlds and budgets."""
import copy
import importlib
import random


class Family:
    """How to generate, execute, vary and shrink the plans of one world."""

    name = None

    def generate(self, prop, seed):
        raise NotImplementedError

    def execute(self, plan):
        """Run a plan; return a plain dictionary (see `outcome`)."""
        raise NotImplementedError

    def variants(self, prop, plan, result, rng, n):
        return []

    def shrink(self, plan):
        return iter(())


def outcome(world, **extra):
    k = world.k
    return {
        'violations': [(list(v.tags), v.message) for v in world.violations],
        'digest': k.digest(),
        'events': [repr(e) for e in world.events],
        'steps': k.steps,
        'syscalls': list(world.syscalls),
        'simtime': max(0.0, k.mono),
        'fired': dict(k.fired),
        'cover': sorted(repr(c) for c in world.cover),
        'switches': k.switches,
        'launched': len(k.children),
        **extra,
    }


def drop_op(plan, i, j):
    """The plan without operations i..j-1."""
    n = j - i
    faults = []
    for f in plan.get('faults', ()):
        if f['op'] < i:
            faults.append(f)
        elif f['op'] >= j:
            faults.append({**f, 'op': f['op'] - n})
    return {**plan, 'ops': plan['ops'][:i] + plan['ops'][j:], 'faults': faults}


def without(seq):
    """Sequences with ever smaller chunks removed."""
    size = len(seq)
    while size >= 1:
        for i in range(0, len(seq), size):
            yield seq[:i] + seq[i + size:]
        size //= 2


def shrink_ops(plan):
    ops = plan['ops']
    size = max(1, len(ops) // 2)
    while size >= 1:
        for i in range(len(ops) - size, -1, -size):
            yield drop_op(plan, i, i + size)
        size //= 2


SIMPLE = {
    'via': None, 'env': None, 'children': None, 'reopen': None, 'nproc': None,
    'silent': True, 'errors': True, 'branches': None, 'verbose': None,
    'force': None, 'files': None, 'runs': None,
}


class Project(Family):
    name = 'project'

    def __init__(self):
        self.gen = importlib.import_module('dst.pgen')
        self.world = importlib.import_module('dst.pworld')

    def generate(self, prop, seed):
        if prop in ('P02', 'P03', 'P08', 'P11') and seed % 10 == 9:
            return family('concurrent').world.generate_rivals(seed, prop)
        return self.gen.Gen(seed, prop).plan()

    def execute(self, plan):
        if plan['world'] == 'concurrent':
            return family('concurrent').execute(plan)
        return outcome(self.world.World(plan).run())

    def variants(self, prop, plan, result, rng, n):
        if plan['world'] == 'concurrent':
            return family('concurrent').variants(prop, plan, result, rng, n)
        return self.gen.fault_variants(
            plan, result['syscalls'], rng, n, self.gen.FAULTS[prop])

    def shrink(self, plan):
        if plan['world'] == 'concurrent':
            yield from family('concurrent').shrink(plan)
            return
        yield from shrink_ops(plan)
        for fs in without(plan.get('faults', [])):
            yield {**plan, 'faults': fs}
        for key, v in (('bufsize', 8192), ('t0', 0.0), ('bin', ['mpirun', 'eprem'])):
            if plan.get(key, v) != v:
                yield {**plan, key: v}
        for key in ('cwd', 'frozen'):
            if key in plan:
                yield {k: v for k, v in plan.items() if k != key}
        for i, op in enumerate(plan['ops']):
            for key, simple in SIMPLE.items():
                if key in op and op[key] != simple:
                    new = {k: v for k, v in op.items() if k != key}
                    if simple is not None:
                        new[key] = simple
                    yield {**plan, 'ops': plan['ops'][:i] + [new] + plan['ops'][i + 1:]}
            for a in sorted(op.get('attrs', ())):
                if op['op'] == 'overwrite' and len(op['attrs']) < 2:
                    continue
                new = {**op, 'attrs': {k: v for k, v in op['attrs'].items() if k != a}}
                yield {**plan, 'ops': plan['ops'][:i] + [new] + plan['ops'][i + 1:]}


class Concurrent(Family):
    name = 'concurrent'

    def __init__(self):
        self.world = importlib.import_module('dst.cworld')

    def generate(self, prop, seed):
        if seed % 4 == 3:
            return self.world.generate_rivals(seed, prop)
        return self.world.generate(seed)

    def execute(self, plan):
        world = self.world.RivalWorld if plan.get('mode') else self.world.ConcurrentWorld
        return outcome(world(plan).run())

    def variants(self, prop, plan, result, rng, n):
        return self.world.variants(plan, result['steps'], rng, n)

    def shrink(self, plan):
        for fs in without(plan['faults']):
            yield {**plan, 'faults': fs}
        for i, ops in enumerate(plan['procs']):
            for j in range(len(ops) - 1, -1, -1):
                if any(f['proc'] == i and f['op'] == j + 1 for f in plan['faults']):
                    continue
                procs = copy.deepcopy(plan['procs'])
                del procs[i][j]
                faults = [
                    {**f, 'op': f['op'] - 1} if f['proc'] == i and f['op'] > j + 1 else f
                    for f in plan['faults']
                ]
                yield {**plan, 'procs': procs, 'faults': faults}
        for pre in without(plan['preempt']):
            yield {**plan, 'preempt': pre}
        if plan['bufsize'] != 8192:
            yield {**plan, 'bufsize': 8192}
        if plan.get('big'):
            yield {**plan, 'big': False}
        if plan['branches']:
            yield {**plan, 'branches': []}


class Files(Family):
    name = 'files'

    def __init__(self):
        self.world = importlib.import_module('dst.fworld')

    def generate(self, prop, seed):
        return self.world.generate(seed, prop)

    def execute(self, plan):
        return outcome(self.world.FilesWorld(plan).run())

    def variants(self, prop, plan, result, rng, n):
        return self.world.variants(prop, plan, result['syscalls'], rng, n)

    def shrink(self, plan):
        yield from shrink_ops(plan)
        for fs in without(plan.get('faults', [])):
            yield {**plan, 'faults': fs}
        if plan['bufsize'] != 8192:
            yield {**plan, 'bufsize': 8192}
        for f in sorted(plan['init']):
            lines = plan['init'][f].splitlines()
            for rest in without(lines):
                yield {**plan, 'init': {**plan['init'], f: ''.join(x + '\n' for x in rest)}}
        for i, op in enumerate(plan['ops']):
            if op['op'] == 'write':
                lines = op['text'].splitlines()
                for rest in without(lines):
                    new = {**op, 'text': ''.join(x + '\n' for x in rest)}
                    yield {**plan, 'ops': plan['ops'][:i] + [new] + plan['ops'][i + 1:]}
            for key, simple in (('source', None), ('via', None), ('names', False), ('diff', False), ('verbose', False)):
                if op.get(key) not in (None, simple):
                    yield {**plan, 'ops': plan['ops'][:i] + [{**op, key: simple}] + plan['ops'][i + 1:]}


class Data(Family):
    name = 'data'

    def __init__(self):
        self.world = importlib.import_module('dst.dworld')
        for name in ('eprem', 'datafile', 'observable', 'observables'):
            try:
                importlib.import_module(f'eprempy.{name}')
            except ImportError:
                pass

    def generate(self, prop, seed):
        return self.world.generate(seed, prop)

    def execute(self, plan):
        w = self.world.DataWorld(plan).run()
        return outcome(w, points=w.points, clean=w.clean)

    def variants(self, prop, plan, result, rng, n):
        return self.world.variants(prop, plan, result, rng, n)

    def shrink(self, plan):
        for new in shrink_ops(plan):
            new = dict(new)
            gone = [i for i, op in enumerate(plan['ops']) if not any(op is o for o in new['ops'])]
            intr = []
            for f in plan['intr']:
                if f['op'] not in gone:
                    intr.append({**f, 'op': f['op'] - sum(g < f['op'] for g in gone)})
            yield {**new, 'intr': intr}
        for fs in without(plan['faults']):
            yield {**plan, 'faults': fs}
        for fs in without(plan['intr']):
            yield {**plan, 'intr': fs}
        for i, op in enumerate(plan['ops']):
            def put(**kw):
                return {**plan, 'ops': plan['ops'][:i] + [{**op, **kw}] + plan['ops'][i + 1:]}
            for d in sorted(op.get('req', ())):
                yield put(req={k: v for k, v in op['req'].items() if k != d})
                kind, arg, *unit = op['req'][d]
                if len(arg) > 1:
                    yield put(req={**op['req'], d: [kind, arg[:1], *unit]})
            for key, simple in (('unit', None), ('alias', None), ('style', 'int'), ('deep', False), ('config', None)):
                if op.get(key) not in (None, False, simple) and key in op and op['op'] != 'mutate':
                    yield put(**{key: simple})
        used = {s['file'] for s in plan['slots']}
        for f in sorted(plan['files']):
            if f not in used:
                yield {**plan, 'files': {k: v for k, v in plan['files'].items() if k != f}}
        if not plan['slots']:
            for f in sorted(plan['configs']):
                yield {**plan, 'configs': {k: v for k, v in plan['configs'].items() if k != f}}


class Units(Family):
    name = 'units'

    def __init__(self):
        self.world = importlib.import_module('dst.uworld')
        self.world.Requests()

    def generate(self, prop, seed):
        return self.world.generate(seed, prop)

    def execute(self, plan):
        return self.world.outcome(self.world.UnitsWorld(plan).run())

    def variants(self, prop, plan, result, rng, n):
        return self.world.variants(prop, plan, result, rng, n)

    def shrink(self, plan):
        return self.world.shrink(plan)


class Aliased(Family):
    name = 'aliased'

    def __init__(self):
        self.world = importlib.import_module('dst.aworld')
        self.world.Ops()

    def generate(self, prop, seed):
        return self.world.generate(seed, prop)

    def execute(self, plan):
        return self.world.outcome(self.world.AliasedWorld(plan).run())

    def variants(self, prop, plan, result, rng, n):
        return self.world.variants(prop, plan, result, rng, n)

    def shrink(self, plan):
        return self.world.shrink(plan)


_CACHE = {}


def family(name):
    if name not in _CACHE:
        _CACHE[name] = REGISTRY[name]()
    return _CACHE[name]


REGISTRY = {'project': Project, 'concurrent': Concurrent, 'files': Files, 'data': Data, 'units': Units, 'aliased': Aliased}

# property: (family, seeds and variants per seed for each tier)
PROPS = {
    'P01': ('project', {'quick': (500, 8), 'thorough': (20000, 14)}),
    'P02': ('project', {'quick': (480, 8), 'thorough': (20000, 14)}),
    'P03': ('project', {'quick': (480, 6), 'thorough': (20000, 10)}),
    'P04': ('project', {'quick': (800, 4), 'thorough': (24000, 8)}),
    'P05': ('project', {'quick': (480, 8), 'thorough': (20000, 14)}),
    'P06': ('project', {'quick': (800, 4), 'thorough': (24000, 8)}),
    'P07': ('concurrent', {'quick': (160, 12), 'thorough': (6000, 30)}),
    'P08': ('project', {'quick': (480, 5), 'thorough': (20000, 10)}),
    'P09': ('project', {'quick': (460, 8), 'thorough': (20000, 14)}),
    'P10': ('project', {'quick': (800, 3), 'thorough': (24000, 8)}),
    'P11': ('project', {'quick': (800, 4), 'thorough': (24000, 8)}),
    'P12': ('project', {'quick': (480, 5), 'thorough': (20000, 10)}),
    'C01': ('files', {'quick': (96, 6), 'thorough': (8000, 14)}),
    'C02': ('files', {'quick': (96, 5), 'thorough': (8000, 10)}),
    'C03': ('files', {'quick': (128, 6), 'thorough': (8000, 10)}),
    'C04': ('files', {'quick': (64, 4), 'thorough': (8000, 10)}),
    'D01': ('data', {'quick': (400, 6), 'thorough': (12000, 10)}),
    'D02': ('data', {'quick': (320, 6), 'thorough': (12000, 10)}),
    'D03': ('data', {'quick': (240, 8), 'thorough': (8000, 10)}),
    'O01': ('data', {'quick': (240, 6), 'thorough': (6000, 10)}),
    'O02': ('data', {'quick': (240, 6), 'thorough': (6000, 10)}),
    'O03': ('data', {'quick': (360, 5), 'thorough': (12000, 6)}),
    'M01': ('units', {'quick': (320, 5), 'thorough': (20000, 10)}),
    'A01': ('aliased', {'quick': (1200, 5), 'thorough': (60000, 12)}),
    'M02': ('units', {'quick': (560, 7), 'thorough': (20000, 12)}),
}

DESCRIBE = {
    'data': {
        'technique': "deterministic simulation with fault injection (failing reads and attributes, interruption at a chosen line, listing order) "
                     "against values computed from the file independently and answers of a process without history",
        'rule': "seeded histories of 2-7 requests on synthetic data files; each runs without faults and then with reads that fail or "
                "interruptions at lines observed in that run, after which the same request is repeated; non-trivial if a fault or interruption took effect",
        'measure': "distinct sequences of (process, system call, path)",
        'real': ["eprempy.eprem, datafile, observable, parameter", "eprempy.physical, measured, measurable, metric, symbolic, numeric, aliased, reference",
                 "the netCDF library (decoding the bytes of the simulated file)", "numpy, scipy"],
        'stub': ["file system (in memory), including directory order and the copy of the built-in database of defaults",
                 "netCDF4.Dataset opens and reads (wrapped so that they can fail)"],
        'assumptions': [
            "data files hold one species and arrays with the names, dimensions and units of EPREM output",
            "interruptions arrive between lines of the package, not inside numpy or the standard library",
        ],
    },
    'units': {
        'technique': "deterministic simulation with fault injection (seeded thread schedules, interruptions, failing allocations, exhausted stack) "
                     "against an independent table of units and answers of processes without history",
        'rule': "seeded histories of 1-3 threads with up to 10 requests; each runs without faults and then with thread switches, interruptions "
                "or failures at points observed in that run, after which the failed request is repeated; non-trivial if one took effect",
        'measure': "distinct event sequences (requests, answers, faults and switches in order)",
        'real': ["eprempy.metric, symbolic, aliased, physical scalars"],
        'stub': ["thread scheduler and locks", "delivery of signals"],
        'assumptions': [
            "threads switch and signals arrive where CPython 3.12 checks for them: calls, returns from built-in functions, backward jumps",
            "the magnitudes of units are those of dst/uref.py",
        ],
    },
    'aliased': {
        'technique': "deterministic simulation with fault injection (interruptions and failing allocations) against a model of aliased entries",
        'rule': "seeded histories of 4-18 operations on up to 4 mappings that derive from each other; each runs without faults and then with 1-3 "
                "interruptions at points observed in that run, after which the operation is completed; non-trivial if more than three kinds of operation ran",
        'measure': "distinct event sequences (operations, results and faults in order)",
        'real': ["eprempy.aliased", "eprempy.container"],
        'stub': ["delivery of signals"],
        'assumptions': [
            "signals arrive where CPython 3.12 checks for them: calls, returns from built-in functions, backward jumps",
            "groups of keys overlap only if one is contained in an existing entry; the outcome of other overlaps is not judged",
        ],
    },
    'files': {
        'technique': "deterministic simulation with fault injection (crash, power loss, failing and short system calls) against an independent reading of the files",
        'rule': "seeded plans of 2-8 operations (generate, read, compare, edit files and sources); each is run "
                "without faults and then with faults placed at system calls observed in that run; non-trivial if a fault took effect",
        'measure': "distinct sequences of (process, system call, path)",
        'real': ["eprempy.cli", "eprempy.parameter", "eprempy.paths", "eprempy.aliased, measured, metric, physical behind the parameter interface"],
        'stub': ["file system and page cache (in memory), including the copy of the built-in database of defaults", "standard output", "clock"],
        'assumptions': [
            "system calls are atomic, metadata reaches the disk in order and only fsync makes data durable",
            "the published table of parameter names, aliases, units and built-in defaults is the frozen one in dst/params.json",
        ],
    },
    'project': {
        'technique': "deterministic simulation with fault injection (crash, power loss, failing system calls, clock) against a step-wise reference model",
        'rule': "seeded plans of 3-10 project operations; each is run once without "
                "faults and then with faults placed at system calls observed in that "
                "run; an execution is non-trivial if at least one fault took effect",
        'measure': "distinct sequences of (process, system call, path)",
        'real': ["eprempy.project", "eprempy.paths", "eprempy.etc", "eprempy._interfaces and the generated project script",
                 "pathlib, shutil, json, io buffering, tempfile, glob of the standard library"],
        'stub': ["file system and page cache (in memory)", "process creation and the launched programs",
                 "clock", "file locks", "random names", "standard output"],
        'assumptions': [
            "system calls are atomic, metadata reaches the disk in order and only fsync makes data durable",
            "stat() does not fail on existing files; scandir errors are not injected where pathlib swallows them",
        ],
    },
    'concurrent': {
        'technique': "deterministic simulation of several processes: seeded schedules at system calls with crashes, history checked against serial execution",
        'rule': "seeded plans of 2-4 processes with 1-3 operations each; every plan is run "
                "serially and then under seeded schedules that switch at system calls, some "
                "with a crash or failing call; non-trivial if it switched or a fault fired",
        'measure': "distinct interleavings of (process, system call, path)",
        'real': ["eprempy.project", "eprempy.paths", "pathlib, shutil, json of the standard library"],
        'stub': ["file system, file locks, process creation, scheduler, clock"],
        'assumptions': ["processes interact only through system calls, and system calls are atomic"],
    },
}
