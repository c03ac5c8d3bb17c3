"""Observers of simulated data files: directories whose listing order is chosen
by the simulation, netCDF files whose opens and reads can fail, and requests
that can be interrupted, judged by values computed from the file."""
import importlib
import itertools
import os
import pickle
import random
import sys
from fractions import Fraction

import netCDF4
import numpy

from . import dref
from . import engine
from . import patch
from . import points
from .dref import ODIMS, OUNITS, Reference, Refused, Unspecified
from .kernel import HarnessError, Kernel, StepLimit
from .pworld import Violation, short

HOME = '/sim/home'
DATA = '/sim/data'
ELSE = ('/sim/other', '/sim/Data')
KEYS = {'lambda0': 'lamo'}
PKG = os.path.join(os.path.realpath(os.path.join(engine.REPO, 'src', 'eprempy')), '')
DBFILE = os.path.join(engine.REPO, 'src/eprempy/parameter/reference.json')


# What processes without history answered in the run that other plans vary.
CLEAN = {}


def identity(plan):
    return [plan.get(k) for k in ('prop', 'specs', 'files', 'configs', 'config', 'slots', 'incwd')]


# -- interruptions ------------------------------------------------------------------
class Interrupter:
    """Knows which points of the package an operation passes; can interrupt
    it the first or second time it reaches one of them."""

    DEPTH = 2

    def __init__(self):
        self.points = points.Points(PKG)
        self.target = None
        self.seen = {}
        self.fired = False

    def start(self, target=None, record=False):
        self.target = tuple(target) if target else None
        self.seen = {}
        self.fired = False
        if target is not None or record:
            self.points.start(self.point)

    def stop(self):
        self.points.stop()

    def point(self, where):
        n = self.seen[where] = self.seen.get(where, 0) + 1
        if (where, n) == self.target:
            self.fired = True
            self.points.stop()
            raise KeyboardInterrupt
        return n >= self.DEPTH

    def passed(self):
        return [[w, i + 1] for w, n in self.seen.items() for i in range(min(n, self.DEPTH))]


# -- simulated netCDF files -----------------------------------------------------------
REAL_DATASET = netCDF4.Dataset


class SimVariable:
    """A variable of a simulated data file; every access is a system call."""

    def __init__(self, file, name, real):
        self._file = file
        self._name = name
        self._real = real

    def _call(self, what):
        k = self._file._k
        fault = k.faults.get((k.current.index, k.current.op, k.current.k + 1))
        try:
            k.call(what, f"{self._file._path}:{self._name}")
        except OSError as err:
            pick = (fault or {}).get('pick', 0) // 7 % 3
            if what == 'nc_att':
                raise RuntimeError("NetCDF: Can't open HDF5 attribute") from None
            if pick == 0:
                raise
            if pick == 1:
                raise MemoryError() from None
            raise RuntimeError('NetCDF: HDF error') from None

    dimensions = property(lambda self: self._real.dimensions)
    shape = property(lambda self: self._real.shape)
    size = property(lambda self: self._real.size)
    ndim = property(lambda self: self._real.ndim)
    dtype = property(lambda self: self._real.dtype)
    name = property(lambda self: self._real.name)

    def ncattrs(self):
        return self._real.ncattrs()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        real = self.__dict__['_real']
        if name in ('unit', 'units') and name in real.ncattrs():
            self._call('nc_att')
        return getattr(real, name)

    def __len__(self):
        return len(self._real)

    def __getitem__(self, index):
        self._call('nc_read')
        return self._real[index]

    def __array__(self, *args, **kwargs):
        self._call('nc_read')
        return numpy.array(self._real[...], *args, **kwargs)


class SimDataset:
    """A netCDF4.Dataset on the simulated file system."""

    def __init__(self, filename, mode='r', *args, **kwargs):
        k = patch.KERNEL
        path = k.virt(filename) if k is not None else None
        if path is None or mode != 'r':
            raise PermissionError(f"unexpected use of netCDF file {filename!r} ({mode!r})")
        self._k = k
        self._path = path
        k.call('nc_open', path)
        node = k.fs.lookup(path)
        self._real = REAL_DATASET('sim.nc', 'r', memory=bytes(node.data))
        self.variables = {n: SimVariable(self, n, v) for n, v in self._real.variables.items()}
        self.dimensions = self._real.dimensions

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.__dict__['_real'], name)

    def __getitem__(self, name):
        return self.variables[name] if name in self.variables else self._real[name]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._real.close()


def canon_axis(axis):
    data = getattr(axis, 'data', axis)
    unit = getattr(axis, 'unit', None)
    values = getattr(data, 'data', data) if unit is not None else data
    if isinstance(values, (list, tuple)) and any(isinstance(v, str) for v in values):
        return ('symbols', tuple(map(str, values)))
    return ('axis', None if unit is None else str(unit), numpy.array(values, dtype=float))


def canon(x):
    """A plain description of a result."""
    if isinstance(x, (str, int, float, bool, type(None))):
        return ('plain', x)
    if isinstance(x, (tuple, list)) and all(isinstance(i, (str, int)) for i in x):
        return ('plain', tuple(x))
    if isinstance(x, dict):
        return ('dict', {str(k): canon(v) for k, v in x.items()})
    if isinstance(x, numpy.ndarray):
        return ('array', None, None, numpy.array(x, dtype=float), {})
    if hasattr(x, 'axes') and hasattr(x, 'unit'):
        axes = {str(d): canon_axis(a) for d, a in x.axes.items()}
        return ('array', str(x.unit), tuple(map(str, x.dimensions)), numpy.array(x, dtype=float), axes)
    if hasattr(x, 'indices'):
        return canon_axis(x)
    if hasattr(x, 'unit'):
        return ('array', str(x.unit), None, numpy.array(float(x)) if getattr(x, 'ndim', 0) == 0 else numpy.array(x, dtype=float), {})
    return ('other', type(x).__name__)


def same(a, b, rtol=1e-11):
    """True if two canonical results agree."""
    if type(a) is not type(b):
        return False
    if isinstance(a, numpy.ndarray):
        return a.shape == b.shape and bool(numpy.allclose(a, b, rtol=rtol, atol=0, equal_nan=True))
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and list(a) == list(b) and all(same(a[k], b[k], rtol) for k in a)
    if isinstance(a, float):
        return a == b or abs(a - b) <= rtol * abs(b)
    return a == b


def tell(c):
    if isinstance(c, tuple) and c and c[0] == 'array':
        v = c[3]
        return f"{v.shape} [{c[1]}] {short(repr(numpy.ravel(v)[:4].tolist()), 120)}"
    return short(repr(c), 160)


# -- units ------------------------------------------------------------------------------------
UNIT = {
    'm': (1, {'L': 1}), 's': (1, {'T': 1}), 'kg': (1, {'M': 1}), 'g': (1e-3, {'M': 1}),
    'C': (1, {'Q': 1}), 'J': (1, {'M': 1, 'L': 2, 'T': -2}), 'erg': (1e-7, {'M': 1, 'L': 2, 'T': -2}),
    'T': (1, {'M': 1, 'T': -1, 'Q': -1}), 'rad': (1, {'A': 1}), 'sr': (1, {'S': 1}), '1': (1, {}),
    'au': (dref.AU, {'L': 1}), 'km': (1e3, {'L': 1}), 'cm': (1e-2, {'L': 1}),
    'day': (86400.0, {'T': 1}), 'd': (86400.0, {'T': 1}), 'h': (3600.0, {'T': 1}), 'hour': (3600.0, {'T': 1}), 'min': (60.0, {'T': 1}),
    'MeV': (1e6 * dref.E0, {'M': 1, 'L': 2, 'T': -2}), 'keV': (1e3 * dref.E0, {'M': 1, 'L': 2, 'T': -2}),
    'eV': (dref.E0, {'M': 1, 'L': 2, 'T': -2}),
    'nuc': (dref.NUC, {'M': 1}), 'e': (dref.E0, {'Q': 1}), 'nT': (1e-9, {'M': 1, 'T': -1, 'Q': -1}),
    'deg': (3.141592653589793 / 180, {'A': 1}), 'mT': (1e-3, {'M': 1, 'T': -1, 'Q': -1}),
    'G': (1e-4, {'gauss': 1}), 'statC': (1 / 2.99792458e9, {'statC': 1}), 'mG': (1e-7, {'gauss': 1}),
}
UNIT['T'] = (1, {'gauss': 1})
UNIT['nT'] = (1e-9, {'gauss': 1})
UNIT['mT'] = (1e-3, {'gauss': 1})


def evaluate(unit):
    """Scale and dimensions of a unit such as 'kg m C^-1 s^-1'."""
    scale, dims = 1.0, {}
    for token in unit.replace('/', ' /').replace('/ ', '/').split():
        sign = 1
        if token.startswith('/'):
            token, sign = token[1:], -1
        base, _, p = token.partition('^')
        n = sign * (float(p) if p else 1)
        if base not in UNIT:
            raise Unspecified(unit)
        s, d = UNIT[base]
        scale *= s ** n
        for k, v in d.items():
            dims[k] = dims.get(k, 0) + v * n
    return scale, {k: v for k, v in dims.items() if v}


def factor(old, new):
    a, da = evaluate(old)
    b, db = evaluate(new)
    if da != db:
        raise Unspecified((old, new))
    return a / b


def evaluate_in(unit, system):
    """Like `evaluate`, for products of the units of one metric system."""
    scale, dims = 1.0, {}
    for token in unit.split():
        base, _, p = token.partition('^')
        n = Fraction(p) if p else Fraction(1)
        if base not in PRODUCT[system]:
            raise Unspecified(unit)
        x, d = PRODUCT[system][base]
        scale *= x ** float(n)
        for k, v in d.items():
            dims[k] = dims.get(k, 0) + v * n
    return scale, {k: v for k, v in dims.items() if v}


def _product():
    half = Fraction(1, 2)
    energy = {'M': 1, 'L': 2, 'T': -2}
    out = {}
    for system, length, mass in (('mks', 'm', 'kg'), ('cgs', 'cm', 'g')):
        metre, gram, erg = (1, 1e-3, 1e-7) if system == 'mks' else (1e2, 1, 1)
        out[system] = {
            'm': (metre, {'L': 1}), 'cm': (metre * 1e-2, {'L': 1}), 'km': (metre * 1e3, {'L': 1}), 'au': (metre * dref.AU, {'L': 1}),
            'g': (gram, {'M': 1}), 'kg': (gram * 1e3, {'M': 1}), 's': (1, {'T': 1}), 'h': (3600.0, {'T': 1}),
            'J': (erg * 1e7, energy), 'erg': (erg, energy), 'keV': (1e10 * dref.E0 * erg, energy), 'MeV': (1e13 * dref.E0 * erg, energy),
            'rad': (1, {'A': 1}), 'sr': (1, {'S': 1}), '1': (1, {}),
        }
    field = {'M': 1, 'T': -1, 'Q': -1}
    out['mks'].update({'T': (1, field), 'nT': (1e-9, field), 'C': (1, {'Q': 1}), 'A': (1, {'Q': 1, 'T': -1})})
    out['cgs'].update({'G': (1, {'M': half, 'L': -half, 'T': -1}), 'statC': (1, {'M': half, 'L': 3 * half, 'T': -1})})
    return out


PRODUCT = _product()


def where(name):
    """The path to a file, which is in the first directory unless it says otherwise."""
    return name if name.startswith('/') else f"{DATA}/{name}"


# -- the world -------------------------------------------------------------------------------
class Slot:
    """A handle on some data, opened when it is first needed."""

    def __init__(self, world, n, spec):
        self.world = world
        self.n = n
        self.spec = spec
        self.path = where(spec['file'])
        self.dir = self.path.rpartition('/')[0]
        self.obj = None
        self.views = {}

    def get(self):
        if self.obj is None:
            self.obj = self.open()
        return self.obj

    def open(self):
        w, s = self.world, self.spec
        via = s['via']
        if via in ('stream', 'point', 'observer'):
            return getattr(w.eprem, via)(s['id'], source=self.dir, system=s['system'], config=s['config'])
        if via == 'dataset':
            d = w.eprem.dataset(source=self.dir, system=s['system'], config=s['config'])
            return d.observers[s['id']]
        raise HarnessError(via)


def clashing(dims):
    """True if these dimensions, combined one after the other in some order, meet in different orders."""
    for these in itertools.permutations(dims):
        have = []
        for more in these:
            common = [d for d in have if d in more]
            if common != [d for d in more if d in have]:
                return True
            new, x, y = [], 0, 0
            for d in common:
                new += have[x:have.index(d)] + list(more[y:more.index(d)]) + [d]
                x, y = have.index(d) + 1, more.index(d) + 1
            have = new + have[x:] + list(more[y:])
    return False


class DataWorld:
    def __init__(self, plan):
        self.plan = plan
        self.prop = plan['prop']
        self.k = Kernel(plan, max_steps=400_000)
        self.k.overlay = {DBFILE: '/sim/db/reference.json'}
        self.violations = []
        self.events = []
        self.cover = {}
        self.syscalls = []
        self.points = []
        self.kept = []
        self.handles = {}
        self.intr = Interrupter()
        fs = self.k.fs
        for d in (HOME, DATA, *ELSE, '/sim/tmp', '/sim/db'):
            fs.makedirs(d)
        with open(DBFILE, 'rb') as fp:
            fs.put('/sim/db/reference.json', fp.read())
        for name, what in plan['files'].items():
            if isinstance(what, int):
                fs.put(where(name), dref.image(plan['specs'][what]))
            elif what == 'dir':
                fs.makedirs(where(name))
            else:
                fs.put(where(name), what.encode())
        for name, values in plan['configs'].items():
            fs.put(where(name), ''.join(f"{KEYS.get(k, k)}={v!r}\n" for k, v in values.items()).encode())
        # what was written last is not a matter of names
        dice = random.Random(f"mtimes-{plan['seed']}")
        for name in [*sorted(plan['files']), *sorted(plan['configs'])]:
            fs.lookup(where(name)).mtime += dice.randrange(-100_000, 1)
        fs.sync_all()
        self.slots = [Slot(self, i, s) for i, s in enumerate(plan.get('slots', ()))]
        self.refs = {}

    def flag(self, tags, message):
        self.violations.append(Violation(tuple(tags), message))
        self.events.append(('VIOLATION', tuple(tags), message))

    def run(self):
        self.eprem = importlib.import_module('eprempy.eprem')
        self.datafile = importlib.import_module('eprempy.datafile')
        netCDF4.Dataset = SimDataset
        swapped = [
            (m, a) for n, m in list(sys.modules.items()) if n.split('.')[0] == 'eprempy'
            for a, v in list(vars(m).items()) if v is REAL_DATASET
        ]
        for m, a in swapped:
            setattr(m, a, SimDataset)
        with patch.simulating(self.k):
            try:
                self.proc = self.k.spawn(DATA if self.plan.get('incwd') else HOME)
                self.proc.index = 0
                self.k.enter(self.proc)
                self.clean = {}
                if self.prop in ('O01', 'O02', 'D03') or self.plan.get('cleanroom'):
                    self.cleanrooms()
                for i, op in enumerate(self.plan['ops']):
                    if not self.step(i, op) or self.violations:
                        break
            finally:
                self.intr.stop()
                self.k.enter(None)
                netCDF4.Dataset = REAL_DATASET
                for m, a in swapped:
                    setattr(m, a, REAL_DATASET)
        return self

    # -- clean rooms ---------------------------------------------------------------
    @staticmethod
    def key(op):
        return repr(sorted((k, v) for k, v in op.items() if k not in ('keep', 'mutate')))

    def cleanrooms(self):
        """Answers that a process without any history gives."""
        wanted = {}
        for op in self.plan['ops']:
            if op['op'] == 'get':
                wanted.setdefault(self.key(op), op)
        for key, op in wanted.items():
            if CLEAN.get('of') == identity(self.plan) and key in CLEAN['answers']:
                self.clean[key] = CLEAN['answers'][key]
                continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    self.proc.begin(-5)
                    try:
                        out = ('ok', canon(self.request(op)))
                    except Exception as err:
                        out = ('raise', type(err).__name__)
                    data = pickle.dumps(out)
                    with os.fdopen(w, 'wb') as fp:
                        fp.write(data)
                except BaseException:
                    os._exit(3)
                os._exit(0)
            os.close(w)
            chunks = []
            while True:
                c = os.read(r, 1 << 16)
                if not c:
                    break
                chunks.append(c)
            os.close(r)
            os.waitpid(pid, 0)
            if not chunks:
                raise HarnessError(f"clean room failed for {op}")
            self.clean[key] = pickle.loads(b''.join(chunks))

    # -- steps ----------------------------------------------------------------------
    def step(self, i, op):
        self.at = f"step {i} ({op['op']})"
        done = self.attempt(i, op, i)
        if self.violations:
            return False
        if not done:
            # the same request without a fault
            self.at = f"step {i} ({op['op']}, again)"
            self.attempt(i, op, 10_000 + i)
        if self.kept and not self.violations:
            self.recheck()
        return not self.violations

    def attempt(self, i, op, n):
        """Perform an operation; False if a fault made it fail."""
        self.proc.begin(n)
        nf = dict(self.k.fired)
        target = None
        for f in self.plan.get('intr', ()):
            if f['op'] == n:
                target = f['n']
        value = None
        interrupted = False
        record = bool(self.plan.get('record')) and n < 10_000
        try:
            self.intr.start(target, record)
            try:
                value = getattr(self, 'do_' + op['op'])(op)
            finally:
                self.intr.stop()
            outcome = 'ok'
        except KeyboardInterrupt:
            outcome = 'interrupt'
        except HarnessError:
            raise
        except StepLimit:
            self.flag([self.prop], f"{self.at}: did not terminate")
            return True
        except Exception as err:
            outcome, value = 'raise', err
            if self.plan.get('debug'):
                import traceback
                traceback.print_exc(file=sys.__stderr__)
        if n < 10_000:
            self.syscalls.append(self.proc.k)
            self.points.append(self.intr.passed() if record else [])
        if self.intr.fired:
            self.k.fire('interrupt')
        fired = {f for f, c in self.k.fired.items() if c > nf.get(f, 0)}
        self.events.append((n, op['op'], outcome, type(value).__name__ if outcome == 'raise' else '', sorted(fired), self.k.steps))
        self.cover[(op['op'], op.get('name') or op.get('which'), outcome, tuple(sorted(fired)))] = 1
        if outcome == 'interrupt' and not self.intr.fired:
            raise HarnessError("stray KeyboardInterrupt")
        if self.intr.fired and outcome == 'ok':
            self.events.append(('absorbed', n))
        if outcome != 'ok' and fired:
            self.proc.begin(20_000 + i)
            return False
        self.proc.begin(20_000 + i)
        getattr(self, 'judge_' + op['op'])(op, outcome, value, bool(fired))
        return True

    # -- observing ---------------------------------------------------------------------
    def ref(self, slot):
        s = self.slots[slot].spec
        cfg = s['config'] or s.get('default') or self.plan['config']
        key = (s['file'], cfg, s['system'])
        if key not in self.refs:
            self.refs[key] = Reference(
                self.plan['specs'][self.plan['files'][s['file']]], self.plan['configs'][cfg], s['system'])
        return self.refs[key]

    @staticmethod
    def index(name, req, style, dims=None):
        """The argument to subscript an observable with."""
        out = []
        for d in ODIMS[name] if dims is None else dims:
            kind, arg, *unit = req.get(d, ('all', None))
            if kind == 'all':
                out.append(slice(None))
            elif kind == 'at':
                out.append((*arg, *unit))
            elif style == 'slice' and arg == list(range(arg[0], arg[-1] + 1)):
                out.append(slice(arg[0], arg[-1] + 1))
            elif style == 'slice' and len(arg) > 1 and arg == list(range(arg[0], arg[-1] + arg[1] - arg[0], arg[1] - arg[0] or 1)):
                end = arg[-1] + arg[1] - arg[0]
                out.append(slice(arg[0], None if end < 0 else end, arg[1] - arg[0]))
            elif unit and len(arg) == 1:
                out.append(arg[0] - unit[0])
            elif unit:
                out.append([i - unit[0] for i in arg])
            elif style == 'array' and len(arg) > 1:
                out.append(numpy.array(arg))
            elif len(arg) == 1 and style != 'tuple':
                out.append(arg[0])
            elif style == 'list':
                out.append(list(arg))
            else:
                out.append(tuple(arg))
        if all(isinstance(x, slice) and x == slice(None) for x in out) and style != 'tuple':
            return slice(None) if style != 'list' else Ellipsis
        if style == 'array':
            n = len(out)
            while n and isinstance(out[n - 1], slice) and out[n - 1] == slice(None):
                n -= 1
            if n < len(out) - 1:
                out[n:] = [Ellipsis]
        if len(out) == 1:
            return out[0]
        return tuple(out)

    def request(self, op):
        slot = self.slots[op['slot']]
        kind = op['kind']
        if kind == 'obs':
            obs = slot.get()
            q = obs[op['alias'] or op['name']]
            if op.get('qunit'):
                q = q.withunit(op['qunit'])
            x = q[self.index(op['name'], op['req'], op['style'])]
            return x.withunit(op['unit']) if op['unit'] else x
        if kind == 'expr':
            q = self.expression(slot.get(), op)
            return q[self.index(None, op['req'], op['style'], tuple(map(str, q.dimensions)))]
        if kind == 'prop':
            return getattr(slot.get(), op['name'])
        if kind == 'numpy':
            return numpy.array(slot.get()[op['name']])
        h = (op['slot'], kind in ('array', 'grid'), kind == 'axis')
        if kind in ('array', 'grid', 'axis'):
            key = (op['slot'], kind)
            obj = self.handles.get(key)
            if obj is None or op['fresh']:
                make = {'array': self.datafile.arrays, 'grid': self.datafile.grid, 'axis': self.datafile.axes}[kind]
                obj = make(slot.path, slot.spec['system'])
                self.handles[key] = obj
            if kind == 'axis':
                return obj[op['name']]
            return getattr(obj, op['name'])
        view = self.handles.get((op['slot'], 'view'))
        if view is None or op['fresh']:
            hint = slot.spec.get('hint')
            view = self.datafile.view(slot.path, hint=hint) if hint else self.datafile.view(slot.path)
            self.handles[op['slot'], 'view'] = view
        if kind == 'raw':
            a = view.arrays[op['name']]
            return {'data': numpy.array(a), 'unit': a.unit, 'dims': tuple(a.dimensions)}
        if kind == 'scalar':
            s = view.scalars[op['name']]
            return {'value': float(s), 'unit': s.unit}
        if kind == 'sizes':
            return dict(view.sizes)
        if kind == 'names':
            return sorted(view.arrays)
        if kind == 'units':
            return dict(view.units)
        raise HarnessError(kind)

    @staticmethod
    def text(op):
        """The name of a product of observables."""
        one = lambda n, x: n if x == 1 else f"{n}**{x}"
        if op['form'] == 'quotient':
            (a, x), *rest = op['terms']
            return one(a, x) + ''.join(f" / {one(n, -y)}" if y < 0 else f" * {one(n, y)}" for n, y in rest)
        return ('*' if op['form'] == 'tight' else ' * ').join(one(n, x) for n, x in op['terms'])

    def expression(self, obs, op):
        """An expression of observables."""
        form = op['form']
        if form in ('name', 'tight', 'quotient'):
            return obs[self.text(op)]
        get = lambda n: obs[n].withunit(op['units'][n]) if n in op['units'] else obs[n]
        q = None
        for i, (n, x) in enumerate(op['terms']):
            y = get(n)
            if form in ('sum', 'difference'):
                q = y if q is None else q + y if form == 'sum' else q - y
            elif q is None:
                q = y if x == 1 else y ** x
            elif x < 0:
                q = q / (y if x == -1 else y ** -x)
            else:
                q = q * (y if x == 1 else y ** x)
        return q

    def judge_expr(self, op, outcome, value, got, label):
        ref = self.ref(op['slot'])
        union = [d for d in ('time', 'shell', 'species', 'energy', 'mu') if any(d in ODIMS[n] for n, _ in op['terms'])]
        total, size, meaning = None, 1.0, {}
        bound, exact = None, None # on the magnitude, given the error in each constituent
        try:
            for n, x in op['terms']:
                values, base, dims, req, ref = self.expected({**op, 'name': n})
                values = values.reshape([values.shape[dims.index(d)] if d in dims else 1 for d in union])
                f, m = evaluate_in(base, ref.system)
                mag = numpy.abs(values)
                error = 3e-4 * mag + 3e-6 * (numpy.max(mag) if mag.size else 0)
                if op['form'] in ('sum', 'difference'):
                    bound = error if bound is None else bound + error
                    exact = 0.0
                    total = values if total is None else total + values if op['form'] == 'sum' else total - values
                    size, meaning = f, m
                    continue
                with numpy.errstate(all='ignore'):
                    values = values ** float(x)
                    most = (mag + error if x > 0 else numpy.clip(mag - error, 0, None)) ** float(x)
                    bound = most if bound is None else bound * most
                    exact = mag ** float(x) if exact is None else exact * mag ** float(x)
                total = values if total is None else total * values
                size *= f ** x
                for k, v in m.items():
                    meaning[k] = meaning.get(k, 0) + v * Fraction(x)
            for d in op['req']:
                if d not in union:
                    raise HarnessError(op)
        except Refused:
            if outcome == 'ok':
                self.flag(['O03'], f"{label} gave {tell(got)} for coordinates outside the data")
            return
        if outcome != 'ok':
            if outcome == 'raise' and isinstance(value, ValueError) and clashing([ODIMS[n] for n, _ in op['terms']]):
                return # documented: factors combine only while their common dimensions have one order
            if not ref.borderline(req):
                self.flag(['O03', 'O01'], f"{label} raised {value!r:.200}")
            return
        _, unit, gdims, data, axes = got
        want = tuple('radius' if d == 'shell' and op['req'].get(d, '.')[0] == 'at' else d for d in union)
        if sorted(gdims) != sorted(want):
            self.flag(['O03'], f"{label} has dimensions {gdims}, not {want}")
            return
        order = [want.index(d) for d in gdims]
        total = numpy.transpose(total, order)
        with numpy.errstate(all='ignore'):
            error = numpy.transpose(bound - exact, order)
        try:
            f, m = evaluate_in(unit, ref.system)
        except Unspecified:
            f, m = 1.0, None
        if m != {k: v for k, v in meaning.items() if v}:
            self.flag(['O03'], f"{label} has unit {unit!r}, not that of its constituents")
            return
        total, error = total * (size / f), error * (size / f)
        if data.shape != total.shape:
            self.flag(['O03'], f"{label} has shape {data.shape}, not {total.shape}")
            return
        with numpy.errstate(all='ignore'):
            ok = (numpy.abs(data - total) <= error + 1e-6 * numpy.abs(total)) | (data == total) | (numpy.isnan(data) & numpy.isnan(total)) | ~numpy.isfinite(error)
        if not ok.all():
            at = tuple(numpy.argwhere(~ok)[0])
            self.flag(['O03', 'O01', 'D03'], f"{label} is {data[at]:.6g} at {tuple(map(int, at))}, should be {total[at]:.6g} {unit}")

    def do_get(self, op):
        return self.request(op)

    # -- parts of arrays ----------------------------------------------------------------
    @staticmethod
    def subscript(spec):
        out = []
        for i in spec:
            if i == '...':
                out.append(Ellipsis)
            elif isinstance(i, int):
                out.append(i)
            else:
                out.append(slice(*i[1:]) if i[0] == 's' else numpy.array(i[1]) if i[0] == 'a' else list(i[1]))
        return tuple(out)

    def do_part(self, op):
        self.whole = None
        x = self.request(op['of'])
        y = x[self.subscript(op['sub'])]
        self.whole = x
        return y

    def judge_part(self, op, outcome, value, faulty):
        """A part of an array has the numbers and axes of the whole."""
        tags = ['D03' if op['of']['kind'] == 'array' else 'O03', 'O03', 'O01', 'D03']
        idx = self.subscript(op['sub'])
        label = f"{self.at}: {self.describe(op['of'])}, then [{idx}]"
        if outcome != 'ok':
            self.flag(tags, f"{label} raised {value!r:.200}")
            return
        part, whole = canon(value), canon(self.whole)
        self.judge_get(op['of'], 'ok', self.whole, faulty)
        if self.violations:
            return
        _, unit, dims, data, axes = whole
        along = list(idx)
        if any(i is Ellipsis for i in idx):
            at = next(n for n, i in enumerate(idx) if i is Ellipsis)
            along[at:at + 1] = [slice(None)] * (len(dims) - len(idx) + 1)
        along = [[i] if isinstance(i, int) else i for i in along]
        want, ends = data, {}
        for n, (d, i) in enumerate(zip(dims, along)):
            want = want[(slice(None),) * n + (i,)]
            axis = axes[d]
            if axis[0] == 'symbols':
                ends[d] = ('symbols', tuple(numpy.array(axis[1])[i].tolist()))
            else:
                ends[d] = (*axis[:2], axis[2][i])
        if part[1:3] != (unit, dims):
            self.flag(tags, f"{label} has {part[1:3]}, the whole has {(unit, dims)}")
        elif part[3].shape != want.shape:
            self.flag(tags, f"{label} has shape {part[3].shape}, should be {want.shape}")
        elif not numpy.allclose(part[3], want, rtol=1e-12, atol=0, equal_nan=True):
            self.flag(tags, f"{label} is {tell(part)}, should be {want.ravel()[:4].tolist()}")
        else:
            for d in dims:
                if not same(part[4].get(d), ends[d], rtol=1e-12):
                    self.flag(tags, f"{label}: {d} axis is {part[4].get(d)}, should be {ends[d]}")
                    return

    def expected(self, op):
        """(values, unit in which they are, dimensions) or None."""
        ref = self.ref(op['slot'])
        req = {}
        for d, (kind, arg, *unit) in op['req'].items():
            if kind == 'at':
                base = {'time': 's', 'shell': 'm', 'energy': 'J', 'minimum energy': 'J', 'mu': '1'}[d]
                f = factor(unit[0], base) if unit else 1.0
                if ref.system == 'cgs':
                    f *= {'shell': 1e2, 'energy': 1e7, 'minimum energy': 1e7}.get(d, 1)
                req[d] = ('at', [x * f for x in arg])
            else:
                req[d] = (kind, arg)
        values = ref.value(op['name'], req)
        want = ref.shape(op['name'], req)
        if values.shape != want:
            raise HarnessError(f"reference has shape {values.shape}, not {want}: {op}")
        return values, OUNITS[ref.system][op['name']], ODIMS[op['name']], req, ref

    def judge_get(self, op, outcome, value, faulty):
        kind = op['kind']
        tags = ['D03', 'O01', 'O03'] if kind != 'obs' else ['O03', 'O01', 'D03']
        got = canon(value) if outcome == 'ok' else None
        clean = self.clean.get(self.key(op))
        label = f"{self.at}: {self.describe(op)}"
        if clean is not None:
            if clean[0] == 'ok' and outcome != 'ok':
                self.flag(['O01', 'D03'], f"{label} raised {value!r:.150}, a fresh process gives {tell(clean[1])}")
                return
            if clean[0] != 'ok' and outcome == 'ok':
                self.flag(['O01', 'D03'], f"{label} gave {tell(got)}, a fresh process raises {clean[1]}")
                return
            if clean[0] == 'ok' and not same(got, clean[1]):
                self.flag(['O01', 'O02', 'D03'], f"{label} gave {tell(got)}, a fresh process gives {tell(clean[1])}")
                return
        if kind == 'expr':
            self.judge_expr(op, outcome, value, got, label)
        elif kind == 'obs':
            self.judge_obs(op, outcome, value, got, label)
        else:
            self.judge_data(op, outcome, value, got, label)
        if outcome == 'ok' and op.get('keep') and not self.violations:
            self.keep(op, value, got)

    def describe(self, op):
        s = self.slots[op['slot']].spec
        if op['kind'] == 'obs':
            idx = self.index(op['name'], op['req'], op['style'])
            return f"{s['file']}:{s['system']} {op['alias'] or op['name']}[{idx}]" + (f" in {op['unit']}" if op['unit'] else '')
        if op['kind'] == 'expr':
            return f"{s['file']}:{s['system']} {op['form']} {op['terms']} {op['units'] or ''} at {op['req']}"
        return f"{s['file']}:{s['system']} {op['kind']} {op['name']}"

    def judge_obs(self, op, outcome, value, got, label):
        try:
            values, base, dims, req, ref = self.expected(op)
        except Refused:
            if outcome == 'ok':
                self.flag(['O03'], f"{label} gave {tell(got)} for coordinates outside the data")
            return
        except Unspecified:
            return
        if outcome != 'ok':
            if not ref.borderline(req):
                self.flag(['O03', 'O01'], f"{label} raised {value!r:.200}")
            return
        _, unit, gdims, data, axes = got
        dims = tuple('radius' if d == 'shell' and req.get(d, '.')[0] == 'at' else d for d in dims)
        if op['name'] == 'intflux' and req.get('minimum energy', '.')[0] != 'at':
            gdims = tuple('minimum energy' if d == 'energy' else d for d in gdims)
        if gdims != dims:
            self.flag(['O03'], f"{label} has dimensions {gdims}, not {dims}")
            return
        if data.shape != values.shape:
            self.flag(['O03'], f"{label} has shape {data.shape}, not {values.shape}")
            return
        try:
            f = factor(base, op['unit'] or unit)
            g = factor(op['unit'] or unit, unit)
        except Unspecified:
            self.flag(['O03'], f"{label} has unit {unit!r}, expected {op['unit'] or base!r}")
            return
        if abs(g - 1) > 1e-4:
            self.flag(['O03'], f"{label} has unit {unit!r}, not {op['unit']!r}")
            return
        want = values * f
        scale = numpy.max(numpy.abs(want)) if want.size else 0
        ok = numpy.allclose(data, want, rtol=3e-4, atol=3e-6 * scale, equal_nan=True)
        if op['name'] in ('uperp', 'angle') and not ok:
            # cancellation
            ok = numpy.allclose(numpy.nan_to_num(data), numpy.nan_to_num(want), rtol=3e-3, atol=2e-3 * scale)
        if not ok:
            bad = numpy.argwhere(~numpy.isclose(data, want, rtol=3e-4, atol=3e-6 * scale, equal_nan=True))
            where = tuple(bad[0])
            self.flag(['O03', 'O01', 'D03'], f"{label} is {data[where]:.6g} at {tuple(map(int, where))}, should be {want[where]:.6g} {unit}")
            return
        self.judge_axes(op, axes, req, ref, label)

    def judge_axes(self, op, axes, req, ref, label):
        for d in ODIMS[op['name']]:
            kind, arg = req.get(d, ('all', None))
            n = self.shape_of(ref, d, kind, arg)
            ax = axes.get('radius' if d == 'shell' and kind == 'at' else d)
            if ax is None and d == 'minimum energy':
                ax = axes.get('energy')
            if ax is None:
                self.flag(['O03'], f"{label} has no {d} axis")
                return
            size = len(ax[1]) if ax[0] == 'symbols' else ax[2].size
            if d == 'minimum energy':
                continue
            if size != n:
                self.flag(['O03'], f"{label} has {size} values on its {d} axis, not {n}")
                return
            if ax[0] == 'symbols' or d == 'species':
                continue
            if ax[1] is None:
                full = numpy.arange(ref.spec[{'time': 'nt', 'shell': 'ns', 'energy': 'ne', 'mu': 'nm'}[d]])
                if d != 'shell' or kind == 'at':
                    self.flag(['O03'], f"{label}: {d} axis has no unit")
                    return
                base = ax = (*ax[:1], '1', *ax[2:])
                base = '1'
            else:
                base = {'time': 's', 'energy': 'J' if ref.system == 'mks' else 'erg', 'mu': '1', 'shell': 'm' if ref.system == 'mks' else 'cm'}[d]
                full = ref.axis(d) if d != 'shell' else None
            want = full if kind == 'all' else full[arg] if kind == 'index' else numpy.array(arg)
            try:
                f = factor(base, ax[1])
            except Unspecified:
                self.flag(['O03'], f"{label}: {d} axis has unit {ax[1]!r}")
                return
            if not numpy.allclose(ax[2].ravel(), want * f, rtol=3e-4, atol=1e-12):
                self.flag(['O03'], f"{label}: {d} axis is {ax[2].ravel().tolist()}, should be {(want * f).tolist()}")
                return

    @staticmethod
    def shape_of(ref, d, kind, arg):
        n = {'time': 'nt', 'shell': 'ns', 'species': 'np', 'energy': 'ne', 'mu': 'nm', 'minimum energy': 'ne'}
        return ref.spec[n[d]] if kind == 'all' else len(arg)

    ARR = {
        'time': 'time', 'mu': 'mu', 'r': 'R', 'theta': 'T', 'phi': 'P', 'br': 'Br',
        'btheta': 'Bt', 'bphi': 'Bp', 'ur': 'Vr', 'utheta': 'Vt', 'uphi': 'Vp', 'rho': 'Rho',
        'f': 'Dist', 'flux': 'flux', 'mass': 'mass', 'charge': 'charge', 'energy': 'egrid', 'v': 'vgrid',
    }
    AUNITS = {
        'mks': {'time': 's', 'mu': '1', 'R': 'm', 'T': 'rad', 'P': 'rad', 'Br': 'T', 'Bt': 'T', 'Bp': 'T',
                'Vr': 'm s^-1', 'Vt': 'm s^-1', 'Vp': 'm s^-1', 'Rho': 'm^-3', 'Dist': 's^3 m^-6',
                'flux': 'J^-1 s^-1 sr^-1 m^-2', 'mass': 'kg', 'charge': 'C', 'egrid': 'J', 'vgrid': 'm s^-1'},
        'cgs': {'time': 's', 'mu': '1', 'R': 'cm', 'T': 'rad', 'P': 'rad', 'Br': 'G', 'Bt': 'G', 'Bp': 'G',
                'Vr': 'cm s^-1', 'Vt': 'cm s^-1', 'Vp': 'cm s^-1', 'Rho': 'cm^-3', 'Dist': 's^3 cm^-6',
                'flux': 'erg^-1 s^-1 sr^-1 cm^-2', 'mass': 'g', 'charge': 'statC', 'egrid': 'erg', 'vgrid': 'cm s^-1'},
    }

    def judge_data(self, op, outcome, value, got, label):
        ref = self.ref(op['slot'])
        raw = dref.contents(ref.spec)
        kind, name = op['kind'], op['name']
        if outcome != 'ok':
            missing = kind in ('raw',) and name not in raw or kind == 'scalar' and name != 'preEruption'
            if not missing:
                self.flag(['D03', 'O01'], f"{label} raised {value!r:.200}")
            return
        tags = ['D03', 'O01']

        def compare(data, want, unit=None, base=None, what=''):
            f = 1.0
            if base is not None:
                try:
                    f = factor(base, unit)
                except Unspecified:
                    self.flag(tags, f"{label}{what} has unit {unit!r}, not {base!r}")
                    return
            want = numpy.asarray(want) * f
            if data.shape != want.shape:
                self.flag(tags, f"{label}{what} has shape {data.shape}, not {want.shape}")
            elif not numpy.allclose(data, want, rtol=3e-4, atol=1e-300):
                self.flag(tags, f"{label}{what} is {short(repr(data.ravel()[:5].tolist()), 100)}, should be {short(repr(want.ravel()[:5].tolist()), 100)}")

        if kind == 'raw':
            d = got[1]
            compare(d['data'][3], raw[name], what=' data')
            if d['unit'] != ('plain', dref.UNITS[name]):
                self.flag(tags, f"{label} has unit {d['unit']}, not {dref.UNITS[name]!r}")
            if d['dims'] != ('plain', dref.DIMS[name]):
                self.flag(tags, f"{label} has dimensions {d['dims']}")
        elif kind == 'scalar':
            want = 0.25 + ref.spec['seed'] % 7
            if got[1]['value'] != ('plain', want) or got[1]['unit'] != ('plain', 'day'):
                self.flag(tags, f"{label} is {got}")
        elif kind == 'sizes':
            s = ref.spec
            want = {'time': s['nt'], 'shell': s['ns'], 'species': s['np'], 'energy': s['ne'], 'mu': s['nm']}
            if got[1] != {k: ('plain', v) for k, v in want.items()}:
                self.flag(tags, f"{label} is {got[1]}, not {want}")
        elif kind == 'names':
            if got[1] != tuple(sorted(raw)):
                self.flag(tags, f"{label} is {got[1]}")
        elif kind == 'units':
            want = {k: dref.UNITS[k] for k in [*raw, 'preEruption']}
            have = {k: v[1] for k, v in got[1].items()}
            if have != want:
                self.flag(tags, f"{label} is {have}, not {want}")
        elif kind in ('array', 'grid'):
            if name in ('hasdist', 'hasflux'):
                if got != ('plain', ref.spec['flux'] == (name == 'hasflux')):
                    self.flag(tags, f"{label} is {got}")
                return
            if self.ARR[name] not in raw:
                if got != ('plain', None):
                    self.flag(tags, f"{label} is {tell(got)}, should be None")
                return
            n = self.ARR[name]
            want = ref.a[n][0] if name in ('energy', 'v') else ref.a[n]
            if got[0] != 'array':
                self.flag(tags, f"{label} is {got}")
                return
            compare(got[3], want, got[1], self.AUNITS[ref.system][n])
        elif kind in ('axis', 'prop'):
            name = {'times': 'time', 'energies': 'energy', 'mus': 'mu', 'shells': 'shell'}.get(name, name)
            if (got[0] == 'symbols') != (name == 'species'):
                self.flag(tags, f"{label} is {tell(got)}")
            elif got[0] == 'symbols':
                want = ('H', 'He')[:ref.spec['np']]
                if len(got[1]) != len(want) or any(not g.startswith(w) for g, w in zip(got[1], want)):
                    self.flag(tags, f"{label} is {got[1]}")
            elif name in ('time', 'energy', 'mu'):
                n = {'time': 'time', 'energy': 'egrid', 'mu': 'mu'}[name]
                compare(got[2], ref.axis(name), got[1], self.AUNITS[ref.system][n])
            elif name == 'shell':
                compare(got[2], raw['shell'])
            elif name in ('r', 'theta', 'phi'):
                n = self.ARR[name]
                compare(got[3], ref.a[n][0, 0], got[1], self.AUNITS[ref.system][n])
        elif kind == 'numpy':
            compare(got[3], ref.value(name, {}))

    # -- isolation ------------------------------------------------------------------------
    def keep(self, op, value, got):
        self.kept.append({'op': op, 'value': value, 'canon': got, 'step': self.at, 'dirty': False, 'root': len(self.kept)})

    def recheck(self):
        for item in self.kept:
            if item['dirty']:
                continue
            now = canon(item['value'])
            if not same(now, item['canon'], rtol=1e-13):
                self.flag(['O02'], f"{self.at}: the result of {item['step']} ({self.describe(item['op'])}) changed from {tell(item['canon'])} to {tell(now)}")
                return

    def do_mutate(self, op):
        if not self.kept:
            return None
        item = self.kept[op['which'] % len(self.kept)]
        x = item['value']
        how = op['how']
        if how == 'unit':
            u = op['unit'].get(item['op']['name'])
            if u and hasattr(x, 'withunit'):
                y = x.withunit(u)
                if y is x:
                    return None
                self.kept.append({'op': item['op'], 'value': y, 'canon': canon(y), 'step': self.at + ' converted', 'dirty': False, 'root': item['root']})
        elif how == 'axunit':
            for d, a in getattr(x, 'axes', {}).items():
                u = {'time': 'h', 'energy': 'keV', 'radius': 'km'}.get(d)
                if u and hasattr(a, 'withunit'):
                    a.withunit(u)
            if item['op']['kind'] in ('axis', 'prop') and hasattr(x, 'withunit'):
                u = {'time': 'h', 'times': 'h', 'energy': 'keV', 'energies': 'keV'}.get(item['op']['name'])
                if u:
                    x.withunit(u)
        elif how == 'arith' and item['canon'][0] == 'array':
            for f in (lambda: 2 * x, lambda: -x, lambda: x * x, lambda: x / 3.0, lambda: x ** 2,
                      lambda: numpy.sqrt(x * x), lambda: x + x, lambda: numpy.cumsum(x, axis=0)):
                try:
                    f()
                except (TypeError, ValueError):
                    pass
        elif how == 'inplace' and item['canon'][0] == 'array':
            y = x
            try:
                y *= 2
            except TypeError:
                pass
        elif how == 'write':
            item['dirty'] = item['op']['kind'] == 'obs'
            # `data` is documented to be the object's own data, and a data
            # file's arrays and axes are the same objects for all that ask
            gets = [lambda: numpy.array(x)]
            if item['canon'][0] not in ('axis', 'symbols'):
                gets += [lambda: numpy.asarray(x), lambda: x.squeezed]
            if item['op']['kind'] == 'obs':
                gets += [lambda: numpy.asarray(x.data), lambda: x.data.array]
            for get in gets:
                try:
                    a = get()
                except (AttributeError, TypeError):
                    continue
                if isinstance(a, numpy.ndarray) and a.dtype.kind == 'f' and a.flags.writeable:
                    a[...] = -77.0
        elif how == 'axwrite' and item['op']['kind'] == 'obs':
            # a converted array documents that it shares the axes of its source
            for other in self.kept:
                if other['root'] == item['root']:
                    other['dirty'] = True
            axes = dict(getattr(x, 'axes', {}))
            if item['canon'][0] in ('axis', 'symbols'):
                axes = {item['op']['name']: x}
            for a in axes.values():
                for get in (lambda: numpy.asarray(a), lambda: numpy.asarray(a.data), lambda: a.data.data, lambda: a.data):
                    try:
                        b = get()
                    except (AttributeError, TypeError, ValueError):
                        continue
                    if isinstance(b, numpy.ndarray) and b.dtype.kind in 'fi' and b.flags.writeable:
                        b[...] = 0
        return None

    def judge_mutate(self, op, outcome, value, faulty):
        if outcome != 'ok':
            self.flag(['O02'], f"{self.at}: {op['how']} raised {value!r:.200}")

    # -- selection -----------------------------------------------------------------------------
    PREF = ('stream', 'obs', 'flux')
    PPREF = ('point', 'p_obs')

    def patterns(self, func, id_):
        """Names to look for, in order of preference."""
        if func == 'stream' or func == 'observer' and isinstance(id_, int):
            return [f"{p}{id_:06}." for p in self.PREF]
        out = []
        try:
            out = [f"{p}{int(id_):03}." for p in self.PPREF]
        except ValueError:
            pass
        return out + ([f"{id_}."] if isinstance(id_, str) else [])

    def pick(self, func, id_, folder):
        """The acceptable outcomes: file names, or None for a refusal."""
        names = sorted(self.names(folder))

        def search(stems):
            for stem in stems:
                hits = [n for n in names if n.startswith(stem)]
                if len(hits) == 1:
                    return hits[0]
                if hits:
                    return None
            return None
        return {search(self.patterns(func, id_))}

    def names(self, folder):
        return list(self.k.fs.lookup(folder).entries)

    def config(self, given, folder):
        if given is not None:
            return given
        names = sorted(self.names(folder))
        if 'eprem_input_file' in names:
            return 'eprem_input_file'
        for suffix in ('.cfg', '.ini', '.in'):
            hits = [n for n in names if n.endswith(suffix)]
            if hits:
                return hits[0]
        return None

    def source(self, op):
        folder = op.get('dir', DATA)
        return None if self.plan.get('incwd') and folder == DATA else folder

    def do_sel(self, op):
        obs = getattr(self.eprem, op['func'])(op['id'], source=self.source(op), config=op['config'])
        out = {'source': str(obs.source)}
        if op['deep']:
            out['mfp'] = numpy.array(obs['mfp'][0, 0, 0, :])
            out['r'] = numpy.array(obs['r'][:])
        return out

    def judge_sel(self, op, outcome, value, faulty):
        folder = op.get('dir', DATA)
        ok = self.pick(op['func'], op['id'], folder)
        cfg = self.config(op['config'], folder)
        if cfg is None or cfg not in self.names(folder):
            ok = {None}
        what = f"{self.at}: {op['func']}({op['id']!r}) in {folder}"
        if outcome != 'ok':
            text = op['deep'] and any(n and not isinstance(self.spec(folder, n), int) or n and not n.endswith('.nc') for n in ok)
            if None not in ok and not text:
                self.flag(['D01'], f"{what} raised {value!r:.150}, should have opened {sorted(map(str, ok))}")
            return
        name = value['source'].rpartition('/')[2]
        if name not in ok or value['source'] != f"{folder}/{name}":
            self.flag(['D01'], f"{what} opened {value['source']}, should be {sorted(map(str, ok))}")
            return
        if op['deep']:
            self.deep(['D01'], what, folder, name, cfg, value)

    def spec(self, folder, name):
        return self.plan['files'].get(name if folder == DATA else f"{folder}/{name}")

    def deep(self, tags, what, folder, name, cfg, value):
        spec = self.spec(folder, name)
        if not isinstance(spec, int):
            return
        values = self.plan['configs'][cfg if folder == DATA else f"{folder}/{cfg}"]
        ref = Reference(self.plan['specs'][spec], values, 'mks')
        if not numpy.allclose(value['r'], ref.full('r'), rtol=3e-4):
            self.flag(tags, f"{what} does not read the data in {name}")
        elif 'mfp' in value and not numpy.allclose(numpy.ravel(value['mfp']), ref.full('mfp')[0, 0, 0, :], rtol=3e-4):
            self.flag(tags, f"{what} does not use {cfg}")

    def do_dataset(self, op):
        d = self.eprem.dataset(source=self.source(op), config=op['config'])
        self.handles[op['id'], 'dataset', op.get('dir', DATA)] = d
        return {'config': str(d.config.source), 'directory': str(d.directory)}

    def judge_dataset(self, op, outcome, value, faulty):
        folder = op.get('dir', DATA)
        cfg = self.config(op['config'], folder)
        what = f"{self.at}: dataset in {folder}"
        if cfg is None or cfg not in self.names(folder):
            if outcome == 'ok':
                self.flag(['D01'], f"{what} uses {value['config']} although there is no configuration file")
            return
        if outcome != 'ok':
            self.flag(['D01'], f"{what} raised {value!r:.150}")
            return
        if value['config'] != f"{folder}/{cfg}":
            self.flag(['D01'], f"{what} uses {value['config']}, should be {cfg}")
        if value['directory'] != folder:
            self.flag(['D01'], f"{what} reads {value['directory']}")

    def do_map(self, op):
        folder = op.get('dir', DATA)
        d = self.handles.get((op['id'], 'dataset', folder))
        if d is None:
            d = self.eprem.dataset(source=folder)
            self.handles[op['id'], 'dataset', folder] = d
        m = getattr(d, op['which'])
        out = {}
        for key in m:
            obs = m[key]
            item = {'source': str(obs.source), 'type': type(obs).__name__}
            if op['deep']:
                item['r'] = numpy.array(obs['r'][:])
            out[key] = item
        return out

    def mapping(self, which, folder):
        """Expected {id: file name}, and whether refusing is acceptable."""
        out = {}
        loose = False
        names = [n for n in self.names(folder) if n.endswith('.nc')]
        if which in ('streams', 'observers'):
            for p in reversed(self.PREF):
                for n in sorted(names):
                    if n.startswith(p):
                        text = n[len(p):-3]
                        if text.isdigit():
                            out[int(text)] = n
                        else:
                            loose = True
        if which in ('points', 'observers'):
            for p in reversed(self.PPREF):
                for n in sorted(names):
                    if n.startswith(p):
                        out[n[len(p):-3]] = n
        return out, loose

    def judge_map(self, op, outcome, value, faulty):
        folder = op.get('dir', DATA)
        want, loose = self.mapping(op['which'], folder)
        what = f"{self.at}: {op['which']} in {folder}"
        if self.config(None, folder) is None:
            if outcome == 'ok' and (op['id'], 'dataset', folder) not in self.handles:
                self.flag(['D01'], f"{what} without a configuration file")
            return
        if outcome != 'ok':
            if not loose:
                self.flag(['D02'], f"{what} raised {value!r:.200}")
            return
        have = {k: v['source'].removeprefix(folder + '/') for k, v in value.items()}
        if have != want:
            extra = {k: v for k, v in have.items() if want.get(k) != v}
            lost = {k: v for k, v in want.items() if have.get(k) != v}
            self.flag(['D02'], f"{what}: {extra} listed, {lost} expected")
            return
        for k, v in value.items():
            kind = 'Stream' if isinstance(k, int) else 'Point'
            if v['type'] != kind:
                self.flag(['D02'], f"{what}: {k!r} is a {v['type']}")
                return
            if op['deep']:
                self.deep(['D02'], f"{what}[{k!r}]", folder, want[k], self.config(None, folder), v)


# -- plans ----------------------------------------------------------------------------------
SPECS = {}
ALIASES = {
    'time': ['t', 'times', 'time'], 'mu': ['pitch angle', 'pitch-angle cosines'], 'mass': ['m'], 'charge': ['q'],
    'energy': ['energies', 'E', 'egrid'], 'v': ['speed', 'vgrid'], 'theta': ['T'], 'phi': ['P'],
    'r': ['r', 'R', 'radius'], 'br': ['Br'], 'btheta': ['bt', 'Btheta', 'Bt'], 'bphi': ['bp', 'Bphi', 'Bp'],
    'ur': ['ur', 'Ur', 'Vr', 'vr'], 'utheta': ['ut', 'Utheta', 'Ut', 'Vtheta', 'Vt'], 'uphi': ['up', 'Uphi', 'Up', 'Vphi', 'Vp'],
    'rho': ['rho', 'Rho'], 'f': ['f', 'dist', 'Dist'], 'flux': ['flux', 'Flux', 'J', 'J(E)', 'j', 'j(E)'],
    'x': ['X'], 'y': ['Y'], 'z': ['Z'], 'bmag': ['b_mag', 'b mag', '|B|', '|b|', 'B', 'b'], 'umag': ['u_mag', 'u mag', '|U|', '|u|', 'U', 'u'],
    'upara': ['u_para', 'Upara'], 'uperp': ['u_perp', 'Uperp'], 'angle': ['flow angle', 'flow_angle'],
    'divu': ['divu', 'div_u', 'div(u)', 'div U'], 'rigidity': ['Rg', 'R_g'], 'mfp': ['mfp', 'mean_free_path', 'mean free path'],
    'ar': ['acceleration_rate', 'acceleration rate'], 'energy density': ['energy_density'], 'average energy': ['average_energy'],
    'intflux': ['intflux', 'integral flux', 'integral_flux'], 'fluence': ['fluence'],
}
OBS_UNITS = {
    'time': ['h', 'day', 's'], 'energy': ['MeV', 'keV', 'J'], 'v': ['km s^-1', 'km / s'], 'r': ['au', 'km', 'cm'],
    'x': ['au'], 'y': ['au'], 'z': ['km'], 'theta': ['deg'], 'phi': ['deg'], 'angle': ['deg'],
    'br': ['nT'], 'btheta': ['nT'], 'bphi': ['nT'], 'bmag': ['nT'], 'ur': ['km s^-1', 'km / s'], 'utheta': ['km s^-1'],
    'uphi': ['km / s'], 'umag': ['km s^-1'], 'upara': ['km s^-1'], 'uperp': ['km s^-1'], 'rho': ['cm^-3', 'm^-3'],
    'mfp': ['au', 'km'], 'mass': ['nuc', 'g', 'kg'], 'ar': ['h^-1'], 'divu': ['h^-1'], 'average energy': ['keV'],
    'f': ['s^3 km^-6'],
}


def random_spec(rng):
    """One of a limited number of data files."""
    n = rng.randrange(40)
    if n not in SPECS:
        r = random.Random(f"spec-{n}")
        SPECS[n] = {
            'seed': n, 'nt': r.choice([2, 3, 4, 5]), 'ns': r.choice([2, 3, 5, 6]), 'np': 1,
            'ne': r.choice([3, 4, 5, 6, 7, 8]), 'nm': r.choice([2, 4, 5]), 'flux': r.random() < 0.45,
            'attr': r.choice(['units', 'units', 'unit']),
        }
    return dict(SPECS[n])


def random_config(rng):
    return {
        'lambda0': rng.choice([0.1, 0.25, 1.0, 2.0]), 'mfpRadialPower': rng.choice([2.0, 1.0, 0.5]),
        'rigidityPower': rng.choice([0.33, 0.5, 1.0]), 'kperxkpar': rng.choice([0.01, 0.1, 0.5]),
    }


def target(rng, lo, hi):
    return lo + (hi - lo) * rng.uniform(0.02, 0.98)


def random_request(rng, name, spec, raw, system, dims=None):
    req = {}
    dims = ODIMS[name] if dims is None else dims
    n = {'time': spec['nt'], 'shell': spec['ns'], 'species': spec['np'], 'energy': spec['ne'], 'mu': spec['nm'], 'minimum energy': spec['ne']}
    style = rng.random()
    for d in dims:
        r = rng.random()
        if d == 'minimum energy' and rng.random() < 0.5:
            r = 1.0
        if r < (0.35 if style < 0.6 else 0.15):
            continue
        if r < (0.72 if style < 0.8 else 0.3) or d == 'species' or d == 'mu' and rng.random() < 0.3:
            if d == 'minimum energy':
                continue
            k = rng.choice([1, 1, 2, 3])
            req[d] = ['index', sorted(rng.sample(range(n[d]), min(k, n[d])))]
            continue
        k = rng.choice([1, 1, 1, 2, 3])
        outside = rng.random() < 0.04
        if d == 'time':
            u = rng.choice(['day', 'day', 's', 'h'])
            f = {'day': 1.0, 's': 86400.0, 'h': 24.0}[u]
            x = raw['time']
            vals = [float(rng.choice(x)) if rng.random() < 0.2 else target(rng, x[0], x[-1]) for _ in range(k)]
            if outside:
                vals[0] = float(x[-1] * 1.5 + 1)
            req[d] = ['at', [v * f for v in sorted(vals)], u]
        elif d == 'shell':
            u = rng.choice(['au', 'au', 'km', 'm'])
            f = {'au': 1.0, 'km': dref.AU / 1e3, 'm': dref.AU}[u]
            R = raw['R']
            lo, hi = R.min(axis=1).max(), R.max(axis=1).min()
            if lo >= hi:
                continue
            vals = [float(rng.choice(list(R[rng.randrange(R.shape[0])][1:-1]) or [target(rng, lo, hi)]))
                    if rng.random() < 0.2 else target(rng, lo, hi) for _ in range(k)]
            vals = [v if lo < v < hi else target(rng, lo, hi) for v in vals]
            if outside:
                vals[0] = float(R.max() * 2)
            req[d] = ['at', [v * f for v in sorted(vals)], u]
        elif d in ('energy', 'minimum energy'):
            u = rng.choice(['MeV', 'MeV', 'keV', 'eV', 'J', 'erg'])
            f = {'MeV': 1.0, 'keV': 1e3, 'eV': 1e6, 'J': 1e6 * dref.E0, 'erg': 1e13 * dref.E0}[u]
            x = raw['egrid'][0]
            vals = [float(rng.choice(x[:-1])) if rng.random() < 0.2 else target(rng, x[0], x[-1] * 0.9) for _ in range(k)]
            if k > 1 and rng.random() < 0.5:
                # close to each other
                vals[1:] = [min(max(vals[0] * rng.uniform(0.8, 1.25), x[0]), 0.95 * x[-1]) for _ in vals[1:]]
            if outside and d == 'energy':
                vals[0] = float(x[-1] * 3)
            req[d] = ['at', [v * f for v in sorted(vals)], u]
        elif d == 'mu':
            x = raw['mu']
            vals = [target(rng, x[0], x[-1]) for _ in range(k)]
            if outside:
                vals[0] = 1.75
            req[d] = ['at', sorted(vals)]
    for d, arg in req.items():
        # in any order, repeated, or relative to the end
        if len(arg[1]) > 1 and rng.random() < (0.6 if d == 'minimum energy' else 0.3):
            rng.shuffle(arg[1])
            if rng.random() < 0.15:
                arg[1][0] = arg[1][-1]
        if arg[0] == 'index' and d != 'shell' and rng.random() < 0.1:
            arg.append(n[d])
    return req


def near_miss(rng, op, spec, raw):
    """Change one aspect of a request."""
    dims = ODIMS[op['name']]
    if rng.random() < 0.35:
        other = [n for n in NAMES if ODIMS[n] == dims and n != op['name'] and (n != 'f' or not spec['flux'])]
        if other:
            op.update(name=rng.choice(other), alias=None, unit=None)
        return
    new = random_request(rng, op['name'], spec, raw, None)
    d = rng.choice(dims)
    req = {k: v for k, v in op['req'].items() if k != d}
    if d in new:
        req[d] = new[d]
    op['req'] = {k: req[k] for k in dims if k in req}


# observables of which expressions are made; those that are never zero or negative
EXPR = ['br', 'btheta', 'ur', 'uphi', 'umag', 'bmag', 'rho', 'r', 'x', 'theta', 'time', 'energy', 'v', 'mu', 'mass', 'charge',
        'f', 'flux', 'mfp', 'rigidity', 'upara', 'divu']
POSITIVE = {'umag', 'bmag', 'rho', 'r', 'time', 'energy', 'v', 'mass', 'charge', 'mfp', 'rigidity', 'f', 'flux'}
ALIKE = [['br', 'btheta', 'bphi', 'bmag'], ['ur', 'utheta', 'uphi', 'umag', 'upara'], ['r', 'x', 'y', 'z']]


def random_expression(rng, si, slot, spec, raw):
    """A product, quotient, power, sum or difference of observables."""
    form = rng.choice(['name', 'tight', 'quotient', 'product', 'product', 'sum', 'difference'])
    names = [n for n in EXPR if n != 'f' or not spec['flux']]
    units = {}
    if form in ('sum', 'difference'):
        names = rng.choice(ALIKE)
        terms = [[n, 1] for n in rng.sample(names, rng.choice([2, 2, 3]))]
        if slot['system'] == 'mks' and rng.random() < 0.4:
            u = {'b': 'nT', 'u': 'km s^-1'}.get(names[0][0], 'au')
            units = {n: u for n, _ in terms}
    else:
        terms = []
        for n in rng.sample(names, rng.choice([1, 2, 2, 3])):
            x = rng.choice([1, 1, 2, 3] if n not in POSITIVE else [1, 1, 2, -1, -2] + ([0.5] if form == 'product' else []))
            terms.append([n, x])
        if len(terms) == 1 and terms[0][1] == 1:
            terms[0][1] = 2
        if form == 'quotient' and terms[0][1] < 0:
            terms[0][1] = 2
        if form == 'product' and slot['system'] == 'mks':
            units = {n: u for n, u in {'br': 'nT', 'ur': 'km s^-1', 'r': 'au', 'energy': 'MeV', 'time': 'h'}.items()
                     if any(n == t[0] for t in terms) and rng.random() < 0.3}
    union = [d for d in ('time', 'shell', 'species', 'energy', 'mu') if any(d in ODIMS[n] for n, _ in terms)]
    return {
        'op': 'get', 'kind': 'expr', 'slot': si, 'name': '', 'form': form, 'terms': terms, 'units': units,
        'req': random_request(rng, None, spec, raw, slot['system'], union),
        'style': rng.choice(['int', 'tuple', 'list', 'slice', 'slice', 'array']), 'unit': None, 'keep': rng.random() < 0.6,
    }


def random_part(rng, si, slot, spec, prop):
    """An array from a file or an observer, and then a part of it."""
    dist = 'flux' if spec['flux'] else 'f'
    size = {'time': 'nt', 'shell': 'ns', 'species': 'np', 'energy': 'ne', 'mu': 'nm'}
    name = rng.choice(['r', 'theta', 'br', 'uphi', 'rho', dist, dist, dist])
    if rng.random() < (0.7 if prop == 'D03' else 0.2):
        of = {'op': 'get', 'kind': 'array', 'slot': si, 'name': name, 'fresh': rng.random() < 0.6, 'req': {}, 'unit': None}
    else:
        of = {
            'op': 'get', 'kind': 'obs', 'slot': si, 'name': name, 'alias': None, 'req': {}, 'style': 'slice',
            'unit': rng.choice([None, None, *OBS_UNITS.get(name, [])]) if slot['system'] == 'mks' else None,
        }
    sub = []
    for d in ODIMS[name]:
        n = spec[size[d]]
        kind = rng.choice(['all', 'all', 'int', 'int', 'slice', 'slice', 'slice', 'list'])
        if kind == 'all':
            sub.append(['s', None, None, None])
        elif kind == 'int':
            sub.append(rng.randrange(-n, n))
        elif kind == 'list':
            sub.append([rng.choice('la'), rng.sample(range(n), rng.randrange(1, n + 1))])
        else:
            # nonempty, if the axis is not too short
            a, b = (rng.choice([None, *range(-n, n + 2)]) for _ in range(2))
            c = rng.choice([None, None, 1, 2, -1, -2])
            if not range(*slice(a, b, c).indices(n)):
                a, b = None, None
            sub.append(['s', a, b, c])
    if rng.random() < 0.3:
        a = rng.randrange(len(sub))
        b = rng.randrange(a + 1, len(sub) + 1)
        sub[a:b] = ['...']
    return {'op': 'part', 'of': of, 'sub': sub}


OPWEIGHT = {
    'O01': {'obs': 8, 'data': 2}, 'O02': {'obs': 5, 'data': 1.5, 'mutate': 5},
    'O03': {'obs': 10, 'data': 0.5}, 'D03': {'obs': 2, 'data': 8},
}
NAMES = sorted(ODIMS)
LIGHT = ['r', 'br', 'ur', 'rho', 'theta', 'x', 'bmag', 'umag', 'time', 'energy', 'f', 'flux']


def generate(seed, prop):
    rng = random.Random(f"data-{prop}-{seed}")
    if prop in ('D01', 'D02'):
        return generate_dir(rng, seed, prop)
    nspec = rng.choice([1, 1, 2])
    specs = [random_spec(rng) for _ in range(nspec)]
    files = {}
    stems = ['obs000000.nc', 'stream000004.nc', 'flux000012.nc', 'p_obs001.nc', 'point002.nc']
    for i, name in enumerate(rng.sample(stems, nspec)):
        files[name] = i
    configs = {'eprem.cfg': random_config(rng)}
    if rng.random() < 0.3:
        configs['other.ini'] = random_config(rng)
    extra = random.Random(f"other-{prop}-{seed}")
    other = ELSE[seed % 2]
    if extra.random() < 0.4:
        # another directory with files of the same names
        for name in extra.sample(sorted(files), extra.randrange(1, len(files) + 1)):
            specs.append(random_spec(extra))
            files[f"{other}/{name}"] = len(specs) - 1
        configs[f"{other}/eprem.cfg"] = random_config(extra)
    slots = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        full = rng.choice(sorted(files))
        name = full.rpartition('/')[2]
        pt = name.startswith('p')
        id_ = ''.join(c for c in name[:-3] if c.isdigit())
        via = rng.choice(['point', 'observer', 'dataset'] if pt else ['stream', 'stream', 'observer', 'dataset'])
        slots.append({
            'file': full, 'via': via, 'id': id_ if pt else int(id_),
            'system': rng.choice(['mks', 'mks', 'cgs']),
            'config': None if rng.random() < 0.7 else rng.choice(sorted(configs)),
        })
        if full != name:
            slots[-1]['default'] = f"{other}/eprem.cfg"
            if slots[-1]['config'] and not slots[-1]['config'].startswith('/'):
                slots[-1]['config'] = None
    ops = []
    weights = OPWEIGHT[prop]
    kinds = sorted(weights)
    raws = [dref.contents(s) for s in specs]
    for _ in range(rng.randrange(5, 13) if prop == 'D03' else rng.randrange(3, 8)):
        what = rng.choices(kinds, [weights[k] for k in kinds])[0]
        if what == 'mutate':
            ops.append({'op': 'mutate', 'which': rng.randrange(8), 'how': rng.choice(
                ['unit', 'axunit', 'arith', 'inplace', 'write', 'write', 'axwrite']),
                'unit': {k: rng.choice(v) for k, v in OBS_UNITS.items()}})
            continue
        si = rng.randrange(len(slots))
        slot = slots[si]
        spec = specs[files[slot['file']]]
        raw = raws[files[slot['file']]]
        if what == 'obs':
            prev = [o for o in ops if o['op'] == 'get' and o['kind'] == 'obs']
            if prev and rng.random() < 0.3:
                o = dict(rng.choice(prev))
                if rng.random() < 0.5:
                    o['unit'] = rng.choice(OBS_UNITS[o['name']]) if o['name'] in OBS_UNITS else None
                elif rng.random() < 0.5:
                    same_file = [i for i, s in enumerate(slots) if s['file'] == slots[o['slot']]['file']]
                    o['slot'] = rng.choice(same_file)
                if extra.random() < 0.4:
                    near_miss(extra, o, specs[files[slots[o['slot']]['file']]], raws[files[slots[o['slot']]['file']]])
                ops.append(o)
                continue
            if extra.random() < 0.12:
                ops.append(random_expression(extra, si, slot, spec, raw))
                continue
            name = rng.choice(NAMES) if rng.random() < 0.75 else rng.choice(LIGHT)
            if rng.random() < 0.05:
                name = 'intflux'
            if name == 'f' and spec['flux']:
                name = 'flux'
            unit = rng.choice(OBS_UNITS[name]) if name in OBS_UNITS and rng.random() < 0.4 else None
            if name == 'mass' and unit == 'g' or unit == 'cm':
                pass
            ops.append({
                'op': 'get', 'kind': 'obs', 'slot': si, 'name': name,
                'alias': rng.choice(ALIASES[name]) if name in ALIASES and rng.random() < 0.4 else None,
                'req': random_request(rng, name, spec, raw, slot['system']),
                'style': rng.choice(['int', 'tuple', 'list', 'slice', 'slice', 'array']),
                'unit': unit, 'keep': rng.random() < 0.8,
            })
            if slot['system'] == 'cgs' and name in ('br', 'btheta', 'bphi', 'bmag') and unit:
                ops[-1]['unit'] = None
        else:
            kind = rng.choice(['array', 'array', 'array', 'axis', 'axis', 'grid', 'raw', 'raw', 'scalar', 'sizes', 'names', 'units', 'prop', 'prop'])
            name = ''
            if kind == 'array':
                name = rng.choice([*DataWorld.ARR, 'hasdist', 'hasflux'])
            elif kind == 'grid':
                name = rng.choice(['r', 'theta', 'phi'])
            elif kind == 'axis':
                name = rng.choice(['time', 'shell', 'species', 'energy', 'mu'])
            elif kind == 'prop':
                name = rng.choice(['times', 'energies', 'mus', 'species'] + (
                    ['r', 'theta', 'phi'] if slot['file'].rpartition('/')[2].startswith('p') else ['shells']))
            elif kind == 'raw':
                name = rng.choice(sorted(dref.DIMS))
            elif kind == 'scalar':
                name = 'preEruption'
            ops.append({'op': 'get', 'kind': kind, 'slot': si, 'name': name, 'fresh': rng.random() < 0.5,
                        'req': {}, 'unit': None, 'keep': kind in ('array', 'axis', 'prop') and name not in ('hasdist', 'hasflux')})
    if prop != 'O02':
        for _ in range(extra.choice([0, 0, 1, 2])):
            si = extra.randrange(len(slots))
            part = random_part(extra, si, slots[si], specs[files[slots[si]['file']]], prop)
            ops.insert(extra.randrange(len(ops) + 1), part)
    return {
        'world': 'data', 'prop': prop, 'seed': seed, 'specs': specs, 'files': files, 'configs': configs,
        'config': 'eprem.cfg', 'slots': slots, 'ops': ops, 'faults': [], 'intr': [], 'record': True,
    }


PTEXT = ['001', '7', 'bob', 'top', '_x', 'sta', 'earth', 'point', 'obs', 'p_obs', 'int', 'mars2', '-1', 's', 'spo']


def generate_dir(rng, seed, prop):
    specs = [random_spec(rng) for _ in range(4)]
    for s in specs:
        s['np'] = 1
    files = {}
    ids = rng.sample([0, 1, 2, 12, 123456, 1234567], rng.choice([1, 2, 3]))
    for i in ids:
        for p in rng.sample(['stream', 'obs', 'flux'], rng.choice([1, 1, 2, 3])):
            ext = '.nc' if rng.random() < 0.9 else rng.choice(['.dat', '.txt', '.nc.bak'])
            files[f'{p}{i:06}{ext}'] = rng.randrange(4)
            if rng.random() < 0.06:
                files[f'{p}{i:06}.txt'] = 'notes\n'
    for t in rng.sample(PTEXT, rng.choice([0, 1, 2, 4])):
        for p in rng.sample(['point', 'p_obs'], rng.choice([1, 1, 2])):
            files[f'{p}{t}.nc'] = rng.randrange(4)
    if rng.random() < 0.4:
        files[rng.choice(['earth.nc', 'bob.nc', '001.nc', 'sta.nc'])] = rng.randrange(4)
    for name in ('README', 'mesh.nc', 'runs.json', 'eprem.log', 'domain.nc'):
        if rng.random() < 0.15:
            files[name] = 'text\n'
    if rng.random() < 0.1:
        files[rng.choice(['obs-mean.nc', 'streams.nc', 'flux_extra.nc'])] = 'text\n'
    if rng.random() < 0.1:
        files['sub'] = 'dir'
    configs = {}
    for name in rng.sample(['eprem_input_file', 'a.cfg', 'b.cfg', 'B.cfg', 'eprem.cfg', 'run.ini', 'x.ini', 'my.in', 'z.in'], rng.choice([0, 1, 2, 3, 5])):
        configs[name] = {**random_config(rng), 'lambda0': 0.1 * (1 + len(configs))}
    extra = random.Random(f"other-{prop}-{seed}")
    other = ELSE[seed % 2]
    both = extra.random() < 0.35
    if both:
        # another directory with some of the same names
        for name in sorted(files):
            if isinstance(files[name], int) and extra.random() < 0.6:
                files[f"{other}/{name}"] = extra.randrange(4)
        for name in sorted(configs):
            if extra.random() < 0.6:
                configs[f"{other}/{name}"] = {**random_config(extra), 'lambda0': 0.1 * (1 + len(configs))}
    ops = []
    for _ in range(rng.randrange(2, 7)):
        r = rng.random()
        cfg = rng.choice(sorted(configs)).rpartition('/')[2] if configs and rng.random() < 0.2 else None
        if prop == 'D01' and r < 0.7 or r < 0.1:
            func = rng.choice(['stream', 'stream', 'point', 'observer', 'observer'])
            if func == 'stream':
                id_ = rng.choice(ids + [5])
            elif func == 'point':
                id_ = rng.choice(PTEXT + [1, 7, 3, 'earth', 'p_obs001', 'point7'])
            else:
                id_ = rng.choice(ids + PTEXT + ['bob', '001', 'p_obs001'])
            ops.append({'op': 'sel', 'func': func, 'id': id_, 'config': cfg, 'deep': rng.random() < 0.35})
        elif r < (0.85 if prop == 'D01' else 0.3):
            ops.append({'op': 'dataset', 'id': rng.randrange(2), 'config': cfg})
        else:
            ops.append({'op': 'map', 'id': rng.randrange(2), 'which': rng.choice(['streams', 'points', 'observers']), 'deep': rng.random() < 0.3})
    if both:
        for op in ops:
            if extra.random() < 0.5:
                op['dir'] = other
    return {
        'world': 'data', 'prop': prop, 'seed': seed, 'specs': specs, 'files': files, 'configs': configs,
        'config': None, 'slots': [], 'ops': ops, 'faults': [], 'intr': [], 'record': True,
        'incwd': rng.random() < 0.2,
    }


def variants(prop, plan, result, rng, n):
    """Place failing reads and interruptions in a plan that ran without."""
    out = []
    syscalls = result['syscalls']
    points = result.get('points', [])
    CLEAN.update({'of': identity(plan), 'answers': result.get('clean', {})})
    plan = {**plan, 'record': False}
    dirs = prop in ('D01', 'D02')

    def read(i):
        faults.append({'proc': 0, 'op': i, 'k': rng.randrange(1, syscalls[i] + 1), 'kind': 'err', 'pick': rng.randrange(1 << 16)})

    def interruption(i):
        if not any(f['op'] == i for f in intr):
            intr.append({'op': i, 'n': rng.choice(points[i])})

    reads = [i for i, s in enumerate(syscalls) if s > 0]
    stops = [i for i, p in enumerate(points) if p]
    for _ in range(n):
        faults, intr = [], []
        r = rng.random()
        if r < 0.3:
            # most operations fail
            for i in range(len(syscalls)):
                if i in reads and rng.random() < 0.45:
                    read(i)
                elif i in stops and rng.random() < 0.6:
                    interruption(i)
        elif r < (0.65 if dirs or prop == 'D03' else 0.55):
            for _ in range(rng.choice([1, 1, 2, 3])):
                if reads:
                    read(rng.choice(reads))
        else:
            for _ in range(rng.choice([1, 1, 2])):
                if stops:
                    interruption(rng.choice(stops))
        if not faults and not intr:
            continue
        out.append({**plan, 'faults': faults, 'intr': intr})
    return out
