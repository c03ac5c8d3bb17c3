"""Synthetic EPREM data files and the values that observing them must give.

Nothing in here uses the code under test: unit conversions are written out as
factors, and every observable is computed with numpy from the arrays that were
put into the file.
"""
import math

import netCDF4
import numpy
from scipy import integrate

DATASET = netCDF4.Dataset  # the real one

AU = 1.495978707e11
E0 = 1.6022e-19
NUC = 1.6605e-27
C = 2.99792458e8

DIMS = {
    'phiOffset': ('time',), 'time': ('time',), 'shell': ('shell',), 'mu': ('mu',),
    'mass': ('species',), 'charge': ('species',),
    'egrid': ('species', 'energy'), 'vgrid': ('species', 'energy'),
    'Dist': ('time', 'shell', 'species', 'energy', 'mu'),
    'flux': ('time', 'shell', 'species', 'energy'),
}
for _n in ('R', 'T', 'P', 'Br', 'Bt', 'Bp', 'Vr', 'Vt', 'Vp', 'Rho'):
    DIMS[_n] = ('time', 'shell')

UNITS = {
    'phiOffset': 'rad', 'time': 'julian date', 'shell': 'shell', 'mu': 'cos(mu)',
    'mass': 'nucleon', 'charge': 'e-', 'egrid': 'MeV', 'vgrid': 'km/s',
    'R': 'au', 'T': 'rad', 'P': 'rad', 'Br': 'nT', 'Bt': 'nT', 'Bp': 'nT',
    'Vr': 'km/s', 'Vt': 'km/s', 'Vp': 'km/s', 'Rho': 'cm^-3',
    'Dist': 's^3/km^6', 'flux': '# / cm^2 s sr MeV', 'preEruption': 'day',
}

# factor from the unit in the file to the unit of the metric system
TO = {
    'mks': {
        'time': 86400.0, 'shell': 1, 'mu': 1, 'mass': NUC, 'charge': E0,
        'egrid': 1e6 * E0, 'vgrid': 1e3, 'R': AU, 'T': 1, 'P': 1,
        'Br': 1e-9, 'Bt': 1e-9, 'Bp': 1e-9, 'Vr': 1e3, 'Vt': 1e3, 'Vp': 1e3,
        'Rho': 1e6, 'Dist': 1e-18, 'flux': 1e4 / (1e6 * E0),
    },
    'cgs': {
        'time': 86400.0, 'shell': 1, 'mu': 1, 'mass': NUC * 1e3, 'charge': E0 * 2.99792458e9,
        'egrid': 1e13 * E0, 'vgrid': 1e5, 'R': AU * 1e2, 'T': 1, 'P': 1,
        'Br': 1e-5, 'Bt': 1e-5, 'Bp': 1e-5, 'Vr': 1e5, 'Vt': 1e5, 'Vp': 1e5,
        'Rho': 1, 'Dist': 1e-30, 'flux': 1 / (1e13 * E0),
    },
}

BASE = {
    'time': 'time', 'energy': 'egrid', 'v': 'vgrid', 'mu': 'mu', 'mass': 'mass',
    'charge': 'charge', 'r': 'R', 'theta': 'T', 'phi': 'P', 'br': 'Br',
    'btheta': 'Bt', 'bphi': 'Bp', 'ur': 'Vr', 'utheta': 'Vt', 'uphi': 'Vp',
    'rho': 'Rho', 'f': 'Dist',
}
TS = ('time', 'shell')
TSP = ('time', 'shell', 'species')
TSPE = ('time', 'shell', 'species', 'energy')
ODIMS = {
    'time': ('time',), 'energy': ('energy',), 'v': ('energy',), 'mu': ('mu',),
    'mass': ('species',), 'charge': ('species',),
    **{n: TS for n in (
        'r', 'theta', 'phi', 'br', 'btheta', 'bphi', 'ur', 'utheta', 'uphi', 'rho',
        'x', 'y', 'z', 'bmag', 'umag', 'angle', 'upara', 'uperp', 'divu')},
    'f': TSPE + ('mu',), 'rigidity': ('species', 'energy'), 'mfp': TSPE, 'ar': TSPE,
    'average energy': TSP, 'energy density': TSP, 'flux': TSPE, 'fluence': TSPE,
    'intflux': TSP + ('minimum energy',),
}

# unit of each observable, in terms of base units, per metric system
OUNITS = {
    'mks': {
        'time': 's', 'energy': 'J', 'v': 'm s^-1', 'mu': '1', 'mass': 'kg', 'charge': 'C',
        'r': 'm', 'x': 'm', 'y': 'm', 'z': 'm', 'theta': 'rad', 'phi': 'rad', 'angle': 'rad',
        'br': 'T', 'btheta': 'T', 'bphi': 'T', 'bmag': 'T',
        'ur': 'm s^-1', 'utheta': 'm s^-1', 'uphi': 'm s^-1', 'umag': 'm s^-1',
        'upara': 'm s^-1', 'uperp': 'm s^-1', 'rho': 'm^-3', 'divu': 's^-1',
        'f': 's^3 m^-6', 'rigidity': 'kg m C^-1 s^-1', 'mfp': 'm', 'ar': 's^-1',
        'average energy': 'J', 'energy density': 'J m^-3',
        'flux': 'J^-1 s^-1 sr^-1 m^-2', 'fluence': 'J^-1 sr^-1 m^-2', 'intflux': 's^-1 sr^-1 m^-2',
    },
}
OUNITS['cgs'] = {
    k: v.replace('kg', 'g').replace('J', 'erg').replace('T', 'G').replace('C', 'statC')
    .replace('m^', 'cm^').replace(' m ', ' cm ') for k, v in OUNITS['mks'].items()
}
for _k, _v in list(OUNITS['cgs'].items()):
    if _v == 'm' or _v.startswith('m s'):
        OUNITS['cgs'][_k] = 'c' + _v


def contents(spec):
    """The arrays of a synthetic data file, in the units of the file."""
    r = numpy.random.default_rng(spec['seed'])
    nt, ns, np_, ne, nm = (spec[k] for k in ('nt', 'ns', 'np', 'ne', 'nm'))
    e = numpy.geomspace(0.1, 100.0, ne) if ne > 1 else numpy.array([1.0])
    start = r.uniform(0.0, 3.0)
    step = r.uniform(0.1, 0.5, nt)
    R0 = numpy.sort(r.uniform(0.05, 2.5, ns))
    R0 = numpy.cumsum(numpy.maximum(numpy.diff(R0, prepend=0.0), 0.03))
    out = {
        'phiOffset': numpy.zeros(nt),
        'time': start + numpy.cumsum(step),
        'shell': numpy.arange(ns, dtype='i4'),
        'mu': numpy.linspace(-1, 1, nm) if nm > 1 else numpy.array([0.5]),
        'mass': numpy.array([1.0, 4.0][:np_]),
        'charge': numpy.array([1.0, 2.0][:np_]),
        'egrid': numpy.tile(e, (np_, 1)),
        'vgrid': numpy.tile(numpy.sqrt(2 * e * 1e6 * E0 / 1.6726e-27) / 1e3, (np_, 1)),
        'R': R0[None, :] * (1 + 0.02 * numpy.arange(nt))[:, None],
        'T': r.uniform(0.4, 2.2, (nt, ns)),
        'P': r.uniform(0.4, 5.5, (nt, ns)),
        'Rho': r.uniform(1, 10, (nt, ns)),
    }
    for n in ('Br', 'Bt', 'Bp'):
        out[n] = r.uniform(-5, 5, (nt, ns))
    for n in ('Vr', 'Vt', 'Vp'):
        out[n] = r.uniform(100, 500, (nt, ns))
    if spec['flux']:
        out['flux'] = r.uniform(1, 10, (nt, ns, np_, ne)) / e
    else:
        out['Dist'] = r.uniform(1, 10, (nt, ns, np_, ne, nm)) / e[:, None] ** 2
    return out


_IMAGES = {}


def image(spec):
    """The bytes of a netCDF file with the given contents."""
    key = repr(sorted(spec.items()))
    if key not in _IMAGES:
        d = DATASET('sim.nc', 'w', memory=4096)
        for k, n in (('time', 'nt'), ('shell', 'ns'), ('species', 'np'), ('energy', 'ne'), ('mu', 'nm')):
            d.createDimension(k, spec[n])
        for name, data in contents(spec).items():
            x = d.createVariable(name, data.dtype, DIMS[name])
            x[:] = data
            unit = UNITS[name]
            if spec.get('attr') == 'unit':
                x.unit = unit
            else:
                x.units = unit
        x = d.createVariable('preEruption', 'f8', ())
        x[...] = 0.25 + spec['seed'] % 7
        x.units = 'day'
        _IMAGES[key] = bytes(d.close())
    return _IMAGES[key]


def interp(x, data, targets, axis):
    """Linear interpolation of `data` from grid `x` along one axis."""
    d = numpy.moveaxis(data, axis, 0)
    out = []
    for t in targets:
        i = int(numpy.searchsorted(x, t, side='right')) - 1
        i = min(max(i, 0), len(x) - 2) if len(x) > 1 else 0
        if len(x) == 1:
            out.append(d[0])
            continue
        w = (t - x[i]) / (x[i + 1] - x[i])
        out.append(d[i] * (1 - w) + d[i + 1] * w)
    return numpy.moveaxis(numpy.array(out), 0, axis)


class Refused(Exception):
    """The request has no answer."""


class Unspecified(Exception):
    """The reference does not say what the answer must be."""


class Reference:
    """What observing one file must give."""

    def __init__(self, spec, config, system):
        self.spec = spec
        self.config = config
        self.system = system
        raw = contents(spec)
        to = TO[system]
        self.a = {k: raw[k] * to[k] if k != 'shell' else raw[k] for k in raw if k in to}
        self.memo = {}

    # full arrays ------------------------------------------------------------
    @property
    def energy(self):
        return self.a['egrid'][0]

    @property
    def v(self):
        return self.a['vgrid'][0]

    def full(self, name):
        if name not in self.memo:
            if name in BASE:
                if BASE[name] not in self.a:
                    raise Refused(name)
                x = self.a[BASE[name]]
                if name in ('energy', 'v'):
                    x = x[0]
            else:
                x = getattr(self, name.replace(' ', '_'))()
            self.memo[name] = x
        return self.memo[name]

    def divu(self):
        rho = self.a['Rho']
        return -numpy.gradient(rho, self.a['time'], axis=0) / rho

    def rigidity(self, energy=None):
        e = self.energy if energy is None else energy
        c = C if self.system == 'mks' else C * 100
        m, q = self.a['mass'], self.a['charge']
        t = e[None, :] / m[:, None] + c ** 2
        return numpy.sqrt(t ** 2 - c ** 4) * (m / c)[:, None] / q[:, None]

    def mfp(self, r=None, energy=None):
        r = self.a['R'] if r is None else r
        e0 = 1e6 * E0 if self.system == 'mks' else 1e13 * E0
        au = AU if self.system == 'mks' else AU * 100
        rg0 = self.rigidity(numpy.array([e0]))
        rt = (r / au) ** self.config['mfpRadialPower']
        gt = (self.rigidity(energy) / rg0) ** self.config['rigidityPower']
        return self.config['lambda0'] * au * rt[:, :, None, None] * gt[None, None]

    def vector(self, comps):
        b = [self.a[n] for n in ('Br', 'Bt', 'Bp')] if comps is None else comps[:3]
        u = [self.a[n] for n in ('Vr', 'Vt', 'Vp')] if comps is None else comps[3:]
        return b, u

    def _angle(self):
        b, u = self.vector(None)
        ub = sum(x * y for x, y in zip(b, u))
        mag = numpy.sqrt(sum(x * x for x in b)) * numpy.sqrt(sum(x * x for x in u))
        return numpy.arccos(numpy.clip(ub / mag, -1, 1))

    def ar(self):
        ns = self.spec['ns']
        s1 = numpy.minimum(numpy.arange(ns) + 1, ns - 1)
        s2 = numpy.maximum(numpy.arange(ns) - 1, 0)
        _, u = self.vector(None)
        umag = numpy.sqrt(sum(x * x for x in u))
        dot = sum(x[:, s1] * x[:, s2] for x in u)
        du = umag[:, s1] * numpy.abs(1 - dot / umag[:, s1] ** 2)
        th = self._angle()
        k = numpy.cos(th) ** 2 + self.config['kperxkpar'] * numpy.sin(th) ** 2
        kxx = self.full('mfp') * (k / umag)[:, :, None, None] * self.v[None, None, None, :] / 3.0
        return du[:, :, None, None] / (kxx[:, s1] + kxx[:, s2])

    def fiso(self):
        if self.spec['flux']:
            m = self.a['mass'][None, None, :, None]
            return 0.5 * self.a['flux'] * m ** 2 / self.energy
        return self.a['Dist'].mean(axis=-1)

    def flux(self):
        if self.spec['flux']:
            return self.a['flux']
        m = self.a['mass'][None, None, :, None]
        return 2 * self.fiso() * self.energy / m ** 2

    def energy_density(self):
        dv = numpy.gradient(self.v)
        return self.a['mass'] * numpy.sum(self.v ** 4 * self.fiso() * dv, axis=-1)

    def average_energy(self):
        dv = numpy.gradient(self.v)
        n = numpy.sum(self.v ** 2 * self.fiso() * dv, axis=-1)
        return 0.5 * self.full('energy density') / n

    def fluence(self):
        dt = numpy.diff(self.a['time'], prepend=self.a['time'][0])
        return numpy.cumsum(self.full('flux') * dt[:, None, None, None], axis=0)

    def intflux_bins(self):
        de = numpy.diff(self.energy, prepend=self.energy[0])
        return numpy.cumsum(self.full('flux') * de, axis=-1)

    def intflux_above(self, bounds):
        out = []
        x = self.energy
        y = self.full('flux')
        for p in bounds:
            near = numpy.flatnonzero(numpy.abs(x - p) <= 1e-9 * x)
            if near.size:
                p = x[near[0]]
            if p <= x[0]:
                out.append(integrate.simpson(y, x=x))
                continue
            if p >= x[-1]:
                raise Refused(p)
            i = int(numpy.searchsorted(x, p, side='right')) - 1
            beta = numpy.log(y[..., i + 1] / y[..., i]) / math.log(x[i + 1] / x[i])
            xx = x[i:].copy()
            yy = y[..., i:].copy()
            yy[..., 0] = y[..., i] * (p / x[i]) ** beta
            xx[0] = p
            out.append(integrate.simpson(yy, x=xx))
        return numpy.moveaxis(numpy.array(out), 0, -1)

    # observation ---------------------------------------------------------------
    def reduce(self, x, dims, request, only=None):
        """Interpolate and index a full array."""
        dims = list(dims)
        if 'shell' in dims and request.get('shell', (None,))[0] == 'at' and (only is None or 'shell' in only):
            targets = request['shell'][1]
            R = self.a['R']
            rows = []
            for t in range(R.shape[0]):
                for p in targets:
                    if not R[t].min() <= p <= R[t].max():
                        raise Refused(p)
                rows.append(interp(R[t], x[t], targets, dims.index('shell') - 1))
            x = numpy.array(rows)
        for d in ('time', 'energy', 'mu'):
            if d in dims and request.get(d, (None,))[0] == 'at' and (only is None or d in only):
                x = interp(self.axis(d), x, request[d][1], dims.index(d))
        for d in dims:
            kind, arg = request.get(d, ('all', None))
            if kind == 'index' and (only is None or d in only):
                x = numpy.take(x, arg, axis=dims.index(d))
        return x

    def axis(self, d):
        return {'time': self.a['time'], 'energy': self.energy, 'mu': self.a['mu']}[d]

    def check(self, request):
        """Raise if a coordinate lies outside the data."""
        for d, (kind, arg) in request.items():
            if kind != 'at':
                continue
            if d == 'shell':
                R = self.a['R']
                for p in arg:
                    for row in R:
                        if not row.min() <= p <= row.max():
                            raise Refused(p)
            elif d != 'minimum energy':
                x = self.axis(d)
                for p in arg:
                    if not x.min() * (1 - 1e-12) - 1e-300 <= p <= x.max() * (1 + 1e-12):
                        raise Refused(p)

    def borderline(self, request):
        """True if rounding decides whether a coordinate lies in the data."""
        for d, (kind, arg) in request.items():
            if kind == 'at' and d in ('time', 'energy', 'mu'):
                x = self.axis(d)
                if any(abs(p - b) <= 1e-9 * abs(b) for p in arg for b in (x.min(), x.max())):
                    return True
        return False

    VECTORS = ('x', 'y', 'z', 'bmag', 'umag', 'angle', 'upara', 'uperp')

    def value(self, name, request):
        """Values for a request; targets are in the units of the system."""
        self.check(request)
        dims = ODIMS[name]
        if name in self.VECTORS:
            g = lambda n: self.reduce(self.full(n), dims, request)
            if name in 'xyz':
                r, t, p = g('r'), g('theta'), g('phi')
                return {'x': r * numpy.sin(t) * numpy.cos(p), 'y': r * numpy.sin(t) * numpy.sin(p),
                        'z': r * numpy.cos(t)}[name]
            b = [g(n) for n in ('br', 'btheta', 'bphi')]
            u = [g(n) for n in ('ur', 'utheta', 'uphi')]
            bm = numpy.sqrt(sum(x * x for x in b))
            um = numpy.sqrt(sum(x * x for x in u))
            dot = sum(x * y for x, y in zip(b, u))
            with numpy.errstate(invalid='ignore'):
                return {
                    'bmag': bm, 'umag': um, 'angle': numpy.arccos(numpy.clip(dot / (bm * um), -1, 1)),
                    'upara': dot / bm, 'uperp': numpy.sqrt(um ** 2 - (dot / bm) ** 2),
                }[name]
        if name == 'intflux':
            kind, arg = request.get('minimum energy', ('all', None))
            rest = {k: v for k, v in request.items() if k != 'minimum energy'}
            if kind == 'at':
                return self.reduce(self.intflux_above(arg), dims, rest)
            x = self.intflux_bins()
            if kind == 'index':
                raise Unspecified(name)
            return self.reduce(x, dims, rest)
        if name in ('rigidity', 'mfp', 'v') and 'energy' in request:
            # functions of the energies themselves
            kind, arg = request['energy']
            energy = numpy.array(arg) if kind == 'at' else self.energy[arg]
            rest = {k: v for k, v in request.items() if k != 'energy'}
            if name == 'v':
                if kind != 'at':
                    return self.v[arg]
                return numpy.sqrt(2 * energy / (1.6726e-27 if self.system == 'mks' else 1.6726e-24))
            if name == 'rigidity':
                return self.reduce(self.rigidity(energy), dims, rest)
            r = self.reduce(self.full('r'), TS, rest)
            return self.reduce(self.mfp(r, energy), dims, rest, only=('species',))
        if name == 'mfp':
            r = self.reduce(self.full('r'), TS, request)
            return self.reduce(self.mfp(r), dims, request, only=('species',))
        return self.reduce(self.full(name), dims, request)

    def shape(self, name, request):
        out = []
        n = {'time': 'nt', 'shell': 'ns', 'species': 'np', 'energy': 'ne', 'mu': 'nm', 'minimum energy': 'ne'}
        for d in ODIMS[name]:
            kind, arg = request.get(d, ('all', None))
            out.append(self.spec[n[d]] if kind == 'all' else len(arg))
        return tuple(out)
