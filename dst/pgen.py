"""Seeded generation of project plans and fault schedules."""
import errno
import random

from . import pworld
from .pworld import HOME, WORK

RUNS = ['a', 'b', 'run 1', 'r.x', 'a1']
BRANCHSETS = [(), (), ('A',), ('A', 'B'), ('A', 'B', 'C'), ('A', 'AB'), ('left', 'right'),
              ('xA', 'A', 'A.x'), ('runs', 'a')]
PROJECTS = [f'{WORK}/p', f'{WORK}/q', f'{WORK}/proj', f'{WORK}/sub/dir/p']
CONFIGS = ['main.cfg', '/sim/data/alt.cfg', '/sim/data/long.cfg', '~/raw.cfg',
           'alt.cfg', '/sim/data/raw.cfg']

WEIGHTS = {
    'run': 8, 'mv': 4, 'rm': 4, 'reset': 1, 'rename': 2, 'remove': 0.4,
    'open': 2, 'overwrite': 0.6, 'show': 1, 'log': 2, 'restart': 1.5,
    'create': 1, 'copy': 1, 'user': 2.5, 'clock': 0.7,
}

PROFILES = {
    'P01': {'log': 9, 'run': 5, 'mv': 3, 'rm': 3, 'rename': 2, 'reset': 1},
    'P02': {'open': 8, 'overwrite': 4, 'create': 5, 'copy': 2, 'restart': 4, 'rename': 3, 'run': 4, 'show': 2},
    'P03': {'run': 20, 'mv': 2, 'rm': 2},
    'P04': {'run': 9, 'mv': 8, 'rm': 7, 'reset': 2, 'user': 5, 'show': 2},
    'P05': {'rename': 10, 'run': 7, 'open': 3, 'mv': 2},
    'P06': {'run': 6, 'mv': 7, 'rm': 8, 'reset': 2, 'user': 6, 'rename': 2, 'remove': 1.2, 'copy': 2},
    'P08': {'copy': 10, 'create': 3, 'run': 3, 'user': 5, 'remove': 0.8},
    'P09': {},
    'P10': {'run': 20, 'user': 6},
    'P11': {'run': 14, 'clock': 8},
    'P12': {'run': 8, 'mv': 6, 'rm': 6, 'rename': 2, 'user': 3, 'open': 2},
}


class Gen:
    def __init__(self, seed, prop):
        self.rng = random.Random(f"plan-{prop}-{seed}")
        self.prop = prop
        self.seed = seed
        self.weights = dict(WEIGHTS)
        prof = PROFILES.get(prop, {})
        if prof:
            # swarm: the profile dominates, everything else is possible
            self.weights = {k: v * 0.25 for k, v in self.weights.items()}
            self.weights.update(prof)
        for k in list(self.weights):
            if self.rng.random() < 0.12 and k not in prof:
                self.weights[k] = 0
        self.live = {}
        self.n = 0

    def pick(self, seq):
        return seq[self.rng.randrange(len(seq))]

    def chance(self, p):
        return self.rng.random() < p

    def attrs(self):
        out = {}
        b = self.pick(BRANCHSETS)
        if b:
            out['branches'] = list(b)
        elif self.chance(0.1):
            out['branches'] = None
        for key, opts in (
            ('config', ['my.cfg', 'eprem.ini', 'main.cfg', 'with space.cfg']),
            ('inputs', ['cfgs', 'in puts']),
            ('output', ['out.log', 'stdout.txt']),
            ('rundir', ['sims', 'data']),
            ('logname', ['log', 'history.json', 'runlog']),
        ):
            if self.chance(0.3):
                out[key] = self.pick(opts)
        return out

    def children(self, n=3):
        out = []
        for _ in range(n):
            c = {'code': 0}
            r = self.rng.random()
            if r < 0.15:
                c['code'] = self.pick([1, 2, 127, 255])
            elif r < 0.25:
                c['code'] = self.pick([-9, -15, -11])
            elif r < 0.30:
                c['launch'] = self.pick([errno.EAGAIN, errno.ENOMEM])
            c['duration'] = self.pick([0.0, 0.5, 3.0, 75.0, 86400.0])
            if self.chance(0.2):
                c['files'] = {'obs000000.nc': 'data', 'sub/x.dat': 'more'}
            out.append(c)
        return out

    def branches(self, attrs):
        b = list(attrs.get('branches') or ())
        if not b or self.chance(0.5):
            return None
        if self.chance(0.3):
            return self.pick(b)
        if self.chance(0.1):
            return ['nope']
        k = self.rng.randrange(1, len(b) + 1)
        return self.rng.sample(b, k)

    def badname(self):
        return self.pick(['..', '', 'x/y', '../a', '../../a', '.', '../runs2',
                          '../../p-old', '/sim/work/a', '../../../p2/runs/a'])

    def name(self):
        if self.prop == 'P06' and self.chance(0.25):
            return self.badname()
        return self.pick(RUNS)

    def via(self):
        p = {'P12': 0.75}.get(self.prop, 0.15)
        return 'script' if self.chance(p) else None

    def common(self, op, attrs):
        op['branches'] = self.branches(attrs)
        op['errors'] = self.chance(0.5)
        op['silent'] = self.chance(0.7)
        if self.chance(0.15):
            op['reopen'] = True
        via = self.via()
        if via:
            op['via'] = via
            op['as'] = self.pick(['file', 'dir', 'relative'])
        return op

    def plan(self, length=None):
        length = length or self.rng.randrange(3, 11)
        ops = [self.create('h0')]
        for _ in range(20 * length):
            if len(ops) >= length:
                break
            op = self.op()
            if op is not None:
                ops.append(op)
                if op['op'] in ('run',) and self.prop in ('P04', 'P05', 'P12') and self.chance(0.3):
                    ops.append({'op': 'show', 'h': op['h']})
        for h in list(self.live)[:2]:
            ops.append({'op': 'open', 'h': h, 'fresh': True})
        plan = {
            'world': 'project', 'seed': self.seed, 'ops': ops, 'faults': [],
            'bufsize': self.pick([8192, 8192, 256, 64, 17]),
            't0': self.pick([0.0, 0.25, 86399.9, 5e8]),
            'bin': self.pick([['mpirun', 'eprem'], ['mpirun', 'eprem'], ['eprem'], []]),
        }
        if self.chance(0.2):
            plan['cwd'] = self.pick([WORK, '/sim/data'])
        if self.prop == 'P11' and self.chance(0.25):
            plan['frozen'] = True
        elif self.prop == 'P11' and self.chance(0.25):
            plan['grain'] = self.pick([0.001, 0.25, 1.0, 60.0])
        if self.prop in ('P06', 'P09', 'P02') and self.chance(0.3) and self.live:
            h = sorted(self.live)[0]
            ops.append({'op': 'remove', 'h': h, 'force': self.chance(0.2), 'silent': True})
        return plan

    def create(self, h):
        used = {v['path'] for v in self.live.values()}
        free = [p for p in PROJECTS if p not in used]
        path = self.pick(free) if free and not self.chance(0.1) else self.pick(
            PROJECTS + [WORK + '/full', WORK + '/empty'])
        op = {'op': 'create', 'h': h, 'path': path, 'attrs': self.attrs()}
        if self.chance(0.15):
            op['via'] = 'cli'
            op['verbose'] = self.chance(0.5)
        if path not in used and path not in (WORK + '/full', WORK + '/empty'):
            self.live[h] = {'path': path, 'attrs': op['attrs']}
        elif h not in self.live:
            op['path'] = PROJECTS[0]
            self.live[h] = {'path': PROJECTS[0], 'attrs': op['attrs']}
        return op

    def handle(self):
        hs = sorted(self.live)
        return self.pick(hs) if hs else None

    def op(self):
        names = sorted(k for k, w in self.weights.items() if w > 0)
        weights = [self.weights[k] for k in names]
        kind = self.rng.choices(names, weights)[0]
        h = self.handle()
        if h is None:
            self.n += 1
            return self.create(f'n{self.n}')
        info = self.live[h]
        attrs = info['attrs']
        if kind == 'run':
            op = {'op': 'run', 'h': h, 'config': self.pick(CONFIGS)}
            if self.chance(0.05):
                op['config'] = 'missing.cfg'
            unnamed = 0.75 if self.prop == 'P11' else 0.15
            op['name'] = None if self.chance(unnamed) else self.name() or None
            op['children'] = self.children()
            self.common(op, attrs)
            if op['name'] is not None and op['name'].startswith('-'):
                op['name'] = 'a'
            op['nproc'] = self.pick([None, 1, 4, 16])
            if self.chance(0.4 if self.prop == 'P10' else 0.15):
                env = {}
                if self.chance(0.6):
                    env['mpirun'] = self.pick(['/sim/opt/mpirun', '/sim/opt/none'])
                if self.chance(0.6):
                    env['eprem'] = self.pick(['/sim/opt/my eprem', '../opt/my eprem', '/sim/opt/none'])
                op['env'] = env
            return op
        if kind == 'mv':
            op = {'op': 'mv', 'h': h, 'source': self.name(), 'target': self.name()}
            return self.common(op, attrs)
        if kind == 'rm':
            pats = RUNS + ['*', 'a*', '?', '[ab]', 'zzz']
            op = {'op': 'rm', 'h': h, 'pattern': self.pick(pats)}
            if self.prop == 'P06' and self.chance(0.35):
                op['pattern'] = self.pick(['..', '', '.', '../*', '**', '*/*', '../../*',
                                           'a/../b', '../../p-old/runs/*', '*/..', '**/..'])
            return self.common(op, attrs)
        if kind == 'reset':
            op = {'op': 'reset', 'h': h, 'errors': self.chance(0.5), 'silent': self.chance(0.7)}
            if self.chance(0.3):
                op['via'] = 'cli'
            return op
        if kind == 'rename':
            used = {v['path'] for v in self.live.values()}
            r = self.rng.random()
            if r < 0.7:
                free = [p for p in PROJECTS + [f'{WORK}/pp', f'{WORK}/p x', f'{WORK}/sub2'] if p not in used]
                target = self.pick(free)
                ok = not target.startswith(WORK + '/sub/')
            else:
                target = self.pick([WORK + '/full', WORK + '/empty', WORK + '/p-old',
                                    WORK + '/nodir/x', info['path'], WORK + '/notes.txt'])
                ok = False
            op = {'op': 'rename', 'h': h, 'target': target, 'silent': self.chance(0.7),
                  'force': self.chance(0.2)}
            if self.chance(0.2):
                op['via'] = 'cli'
            if self.chance(0.2):
                op['reopen'] = True
            if ok:
                info['path'] = target
            return op
        if kind == 'remove':
            if len(self.live) < 2 and self.chance(0.7):
                return None
            del self.live[h]
            op = {'op': 'remove', 'h': h, 'force': self.chance(0.3), 'silent': self.chance(0.7)}
            if self.chance(0.3):
                op['via'] = 'cli'
            return op
        if kind == 'open':
            return {'op': 'open', 'h': h, 'fresh': self.chance(0.5)}
        if kind == 'overwrite':
            a = {}
            while not a:
                a = self.attrs()
                a = {k: v for k, v in a.items() if v}
            return {'op': 'overwrite', 'h': h, 'attrs': a}
        if kind == 'show':
            op = {'op': 'show', 'h': h}
            if self.chance(0.4):
                op['runs'] = ['*'] if self.chance(0.5) else [self.pick(RUNS)]
            extra = random.Random(self.rng.random())
            if extra.random() < 0.6:
                op['via'] = extra.choice(['cli', 'cli', 'function'])
            if op.get('runs', ['*']) != ['*'] and extra.random() < 0.4:
                op['runs'].append(extra.choice([r for r in RUNS if r not in op['runs']]))
            return op
        if kind == 'log':
            act = self.pick(['create', 'create', 'append', 'append', 'load', 'mv', 'rm'])
            op = {'op': 'log', 'h': h, 'act': act, 'key': self.pick(RUNS[:3]),
                  'direct': self.chance(0.5)}
            values = [{'command': 'x y', 'n': 1}, {'time': 'now', 'deep': {'k': [1, 2, 'ü']}},
                      {'big': 'z' * 3000}, {}, {'none': None, 'zero': 0, 'empty': '', 'list': []}]
            bad = ['<object>', '<path>', '<mixed>']
            if act in ('create', 'append'):
                op['value'] = self.pick(bad) if self.chance(0.15) else self.pick(values)
                if act == 'append' and self.chance(0.3):
                    op['value'] = self.pick([None, 0, '', 'text', [1, 'a'], False])
            if act == 'append':
                op['field'] = self.pick(['note', 'command'])
            if act == 'create' and not isinstance(op['value'], str):
                op['kw'] = self.chance(0.3)
            if act == 'load':
                op['file'] = self.pick(['/sim/data/entry.json', '/sim/data/entry.json',
                                        '/sim/data/empty.json', '/sim/data/bad.json', '/sim/data/none.json', '/sim/data/raw.cfg'])
            if act == 'mv':
                op['to'] = self.pick(RUNS[:3])
            return op
        if kind == 'restart':
            return {'op': 'restart'}
        if kind == 'create':
            if len(self.live) >= 3:
                return None
            self.n += 1
            return self.create(f'n{self.n}')
        if kind == 'copy':
            if len(self.live) >= 4:
                return None
            self.n += 1
            used = {v['path'] for v in self.live.values()}
            free = [p for p in PROJECTS if p not in used]
            if not free:
                return None
            new = f'c{self.n}'
            path = self.pick(free)
            given = {k: v for k, v in self.attrs().items() if self.chance(0.3)}
            op = {'op': 'create', 'h': new, 'path': path, 'attrs': given, 'copy': h}
            if self.chance(0.2):
                op['via'] = 'cli'
            if random.Random(self.rng.random()).random() < 0.12:
                # a copy without branches
                given['branches'] = []
            merged = {**attrs, **{k: v for k, v in given.items() if v is not None}}
            self.live[new] = {'path': path, 'attrs': merged}
            return op
        if kind == 'user':
            r = self.rng.randrange(14)
            n = self.rng.randrange(3)
            if r == 0:
                return {'op': 'user', 'act': 'put', 'h': h, 'where': 'rundir', 'n': n,
                        'path': self.pick(['stray', 'a/extra.txt', 'b', *RUNS])}
            if r == 1:
                return {'op': 'user', 'act': 'mkdir', 'h': h, 'where': 'rundir', 'n': n,
                        'path': self.pick(RUNS)}
            if r in (2, 3):
                return {'op': 'user', 'act': 'put', 'h': h, 'where': 'inputs',
                        'path': self.pick(['main.cfg', 'alt.cfg', 'sub/deep.cfg', 'notes']),
                        'data': self.pick(['in=puts\n', 'x' * 5000, ''])}
            if r == 4:
                return {'op': 'user', 'act': 'rm', 'h': h, 'path': '__main__.py'}
            if r == 5:
                return {'op': 'user', 'act': 'link', 'h': h, 'where': 'rundir', 'n': n,
                        'path': self.pick(RUNS), 'target': '/sim/data/ext'}
            if r == 6:
                used = {v['path'] for v in self.live.values()}
                free = [p for p in [f'{WORK}/moved', f'{WORK}/p', f'{WORK}/zz'] if p not in used]
                if not free:
                    return None
                t = self.pick(free)
                info['path'] = t
                return {'op': 'user', 'act': 'mvproj', 'h': h, 'target': t}
            if r == 7:
                return {'op': 'user', 'act': 'put', 'h': h, 'where': 'branch', 'n': n,
                        'path': self.pick(['eprem', 'mpirun']), 'mode': 0o755}
            if r == 8:
                return {'op': 'user', 'act': 'link', 'h': h, 'where': 'branch', 'n': n,
                        'path': self.pick(['eprem', 'mpirun']), 'target': '/sim/opt/my eprem'}
            if r == 9:
                return {'op': 'user', 'act': 'put', 'h': h, 'where': 'rundir', 'n': n,
                        'path': self.pick(RUNS) + '/eprem.cfg'}
            if r == 10:
                return {'op': 'user', 'act': 'link', 'h': h, 'where': self.pick(['root', 'root', 'branch', 'inputs']), 'n': n,
                        'path': self.pick(['link', 'extra']), 'target': self.pick(['/sim/data/ext', '/sim/data/ext', '/sim/data/alt.cfg'])}
            if r == 11:
                return {'op': 'user', 'act': 'link', 'h': h, 'where': 'inputs',
                        'path': self.pick(['main.cfg', 'alt.cfg']), 'target': self.pick(['/sim/data/alt.cfg', '/sim/data/raw.cfg'])}
            if r == 12:
                return {'op': 'user', 'act': 'put', 'h': h, 'where': self.pick(['root', 'branch']), 'n': n,
                        'path': self.pick(['notes.txt', 'sub/deep/x', 'runs2/a/b'])}
            return {'op': 'user', 'act': 'rm', 'h': h, 'where': 'rundir', 'n': n,
                    'path': self.pick(RUNS)}
        if kind == 'clock':
            return {'op': 'clock', 'delta': self.pick([-3600.0, -86400.0, -1e-6, -0.5, 3600.0, -5.0, 1e7])}
        return None


MUTATING = {'create', 'run', 'mv', 'rm', 'reset', 'rename', 'remove', 'log', 'open'}


def fault_variants(plan, dry, rng, n, kinds):
    """Plans with faults placed inside operations seen in the dry run."""
    ops = plan['ops']
    cands = [i for i in range(min(len(ops), len(dry)))
             if ops[i]['op'] in MUTATING and dry[i] > 0]
    out = []
    if not cands:
        return out
    for _ in range(n):
        faults = []
        kind0 = kinds[rng.randrange(len(kinds))]
        many = 1 if kind0 in ('power', 'crash') and rng.random() < 0.7 else rng.randrange(1, 4)
        for _ in range(many):
            i = cands[rng.randrange(len(cands))]
            k = rng.randrange(1, dry[i] + 2)
            kind = kind0 if kind0 == 'power' else kinds[rng.randrange(len(kinds))]
            if kind == 'power' and kind0 != 'power':
                continue
            f = {'proc': 0, 'op': i, 'k': k, 'kind': kind, 'pick': rng.randrange(1 << 16)}
            if kind == 'power':
                f['cut'] = rng.choice([0.0, 1.0, rng.random()])
                f['fseed'] = rng.randrange(1 << 16)
            if kind == 'clock':
                f['delta'] = rng.choice([-3600.0, 3600.0, -0.001, 7.0])
            faults.append(f)
        if kind0 in ('short',):
            # short transfers are frequent when they happen
            i = cands[rng.randrange(len(cands))]
            for k in range(1, dry[i] + 1):
                if rng.random() < 0.5:
                    faults.append({'proc': 0, 'op': i, 'k': k, 'kind': 'short', 'pick': rng.randrange(1 << 16)})
        out.append({**plan, 'faults': faults})
    return out


FAULTS = {
    'P01': ['crash', 'crash', 'power', 'power', 'err', 'err', 'torn', 'short', 'diskfull', 'broken'],
    'P02': ['crash', 'crash', 'power', 'power', 'err', 'torn', 'diskfull'],
    'P03': ['crash', 'err', 'err', 'short', 'broken', 'torn'],
    'P04': ['crash', 'err', 'err', 'denied', 'broken'],
    'P05': ['crash', 'crash', 'power', 'power', 'err', 'torn', 'broken', 'diskfull'],
    'P06': ['crash', 'err', 'err', 'denied', 'broken', 'diskfull'],
    'P08': ['crash', 'err', 'err', 'short', 'diskfull', 'torn'],
    'P09': ['err', 'err', 'err', 'short', 'diskfull', 'denied', 'broken'],
    'P10': ['err', 'short', 'short', 'crash', 'diskfull'],
    'P11': ['clock', 'clock', 'crash', 'err'],
    'P12': ['crash', 'err', 'torn', 'power', 'short'],
}
