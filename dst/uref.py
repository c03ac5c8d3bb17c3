"""What unit expressions mean: an independent table of units, the spellings
that denote them and the ratios between them."""
import math
from fractions import Fraction

C = 2.99792458e10
PI = math.pi

PREFIXES = {
    'yotta': ('Y', 1e24), 'zetta': ('Z', 1e21), 'exa': ('E', 1e18), 'peta': ('P', 1e15),
    'tera': ('T', 1e12), 'giga': ('G', 1e9), 'mega': ('M', 1e6), 'kilo': ('k', 1e3),
    'hecto': ('h', 1e2), 'deca': ('da', 1e1), '': ('', 1.0), 'deci': ('d', 1e-1),
    'centi': ('c', 1e-2), 'milli': ('m', 1e-3), 'micro': ('μ', 1e-6), 'nano': ('n', 1e-9),
    'pico': ('p', 1e-12), 'femto': ('f', 1e-15), 'atto': ('a', 1e-18), 'zepto': ('z', 1e-21),
    'yocto': ('y', 1e-24),
}


def d(**k):
    return k


# name: symbol, magnitude in mks, dimensions, kind
# kinds: 'm' mechanics, 'e' electromagnetic in mks, 'g' electromagnetic in cgs,
#        'd' dimensionless, 'n' number of nucleons (also a mass), 'y' electromagnetic
#        in mks with powers of the current, 'x' others
UNITS = {
    'meter': ('m', 1.0, d(L=1), 'm'),
    'astronomical unit': ('au', 1.495978707e11, d(L=1), 'm'),
    'solar radius': ('Rs', 6.96e8, d(L=1), 'm'),
    'gram': ('g', 1e-3, d(M=1), 'm'),
    'nucleon': ('nuc', 1.6605e-27, d(M=1), 'n'),
    'atomic mass unit': ('amu', 1.6605e-27, d(M=1), 'n'),
    'second': ('s', 1.0, d(T=1), 'm'),
    'minute': ('min', 60.0, d(T=1), 'm'),
    'hour': ('h', 3600.0, d(T=1), 'm'),
    'day': ('d', 86400.0, d(T=1), 'm'),
    'ampere': ('A', 1.0, d(I=1), 'e'),
    'kelvin': ('K', 1.0, d(K=1), 'm'),
    'mole': ('mol', 1.0, d(N=1), 'm'),
    'count': ('#', 1.0, {}, 'd'),
    'candela': ('cd', 1.0, d(J=1), 'm'),
    'radian': ('rad', 1.0, {}, 'd'),
    'degree': ('deg', PI / 180, {}, 'd'),
    'steradian': ('sr', 1.0, {}, 'd'),
    'hertz': ('Hz', 1.0, d(T=-1), 'm'),
    'joule': ('J', 1.0, d(M=1, L=2, T=-2), 'm'),
    'erg': ('erg', 1e-7, d(M=1, L=2, T=-2), 'm'),
    'electronvolt': ('eV', 1.6022e-19, d(M=1, L=2, T=-2), 'm'),
    'newton': ('N', 1.0, d(M=1, L=1, T=-2), 'm'),
    'dyne': ('dyn', 1e-5, d(M=1, L=1, T=-2), 'm'),
    'pascal': ('Pa', 1.0, d(M=1, L=-1, T=-2), 'm'),
    'watt': ('W', 1.0, d(M=1, L=2, T=-3), 'm'),
    'coulomb': ('C', 1.0, d(I=1, T=1), 'e'),
    'statcoulomb': ('statC', 10 / C, d(I=1, T=1), 'g'),
    'statampere': ('statA', 10 / C, d(I=1), 'g'),
    'statvolt': ('statV', C * 1e-8, d(M=1, L=2, T=-3, I=-1), 'g'),
    'fundamental charge': ('e', 1.6022e-19, d(I=1, T=1), 'e'),
    'volt': ('V', 1.0, d(M=1, L=2, T=-3, I=-1), 'e'),
    'ohm': ('Ω', 1.0, d(M=1, L=2, T=-3, I=-2), 'x'),
    'seimens': ('S', 1.0, d(M=-1, L=-2, T=3, I=2), 'y'),
    'farad': ('F', 1.0, d(M=-1, L=-2, T=4, I=2), 'y'),
    'weber': ('Wb', 1.0, d(M=1, L=2, T=-2, I=-1), 'e'),
    'maxwell': ('Mx', 1e-8, d(M=1, L=2, T=-2, I=-1), 'g'),
    'Oersted': ('Oe', 1e3 / (4 * PI), d(I=1, L=-1), 'g'),
    'henry': ('H', 1.0, d(M=1, L=2, T=-2, I=-2), 'y'),
    'tesla': ('T', 1.0, d(M=1, T=-2, I=-1), 'e'),
    'gauss': ('G', 1e-4, d(M=1, T=-2, I=-1), 'g'),
    'becquerel': ('Bq', 1.0, d(T=-1), 'm'),
    'Curie': ('Ci', 3.7e10, d(T=-1), 'm'),
    'gray': ('Gy', 1.0, d(L=2, T=-2), 'm'),
    'poise': ('P', 0.1, d(M=1, L=-1, T=-1), 'm'),
    'lumen': ('lm', 1.0, d(J=1), 'x'),
    'lux': ('lx', 1.0, d(J=1, L=-2), 'x'),
    'unitless': ('1', 1.0, {}, '1'),
}

# no prefix for these when expressions are generated
PLAIN = {'unitless', 'count', 'astronomical unit', 'solar radius'}

# spelling: (prefix, name); a symbol that two units claim denotes the unit
# without prefix
SPELLINGS = {}
for _p, (_ps, _) in PREFIXES.items():
    for _n, (_s, *_x) in UNITS.items():
        if _p and _n == 'unitless':
            continue
        for _w in (_p + _n, _ps + _s) + (('u' + _s,) if _p == 'micro' else ()):
            if _w not in SPELLINGS or not _p:
                SPELLINGS[_w] = (_p, _n)


class Unknown(Exception):
    pass


def symbol(prefix, name):
    """The symbol of a unit, or its name if the symbol denotes another one."""
    s = PREFIXES[prefix][0] + UNITS[name][0]
    return s if SPELLINGS[s] == (prefix, name) else prefix + name


def words(text):
    """The words of an expression."""
    import re
    return [w for w in re.split(r'[\s*/()]+', re.sub(r'\^[-+\d/.]+', ' ', text)) if w]


def spellings(prefix, name):
    """Every word that denotes a unit (no names of several words)."""
    ps = PREFIXES[prefix][0]
    symbol = UNITS[name][0]
    out = [ps + symbol]
    if ' ' not in name:
        out.append(prefix + name)
    if prefix == 'micro':
        out.append('u' + symbol)
    return [w for w in out if SPELLINGS[w] == (prefix, name)]


# -- expressions: {(prefix, name): exponent} ---------------------------------------
def freeze(e):
    return tuple(sorted((tuple(k), Fraction(v)) for k, v in e if v))


def merge(*terms):
    out = {}
    for (p, n), x in terms:
        if n != 'unitless':
            out[(p, n)] = out.get((p, n), Fraction(0)) + Fraction(x)
    return tuple(sorted((k, v) for k, v in out.items() if v))


def parse(text):
    """The meaning of a canonical text such as 'kg m^2 s^-1' or 'A / m'."""
    num, slash, den = text.partition('/')
    terms = []
    for part, sign in ((num, 1), (den, -1)):
        for token in part.replace('(', ' ').replace(')', ' ').replace('*', ' ').split():
            if '/' in token and '^' not in token:
                raise Unknown(text)
            base, _, power = token.partition('^')
            if base not in SPELLINGS:
                raise Unknown(text)
            try:
                x = Fraction(power) if power else Fraction(1)
            except ValueError:
                raise Unknown(text) from None
            terms.append((SPELLINGS[base], sign * x))
    return merge(*terms)


def parse_text(text):
    """Like `parse`, for text without division (in which '/' belongs to powers)."""
    terms = []
    for token in text.split():
        base, _, power = token.partition('^')
        if base not in SPELLINGS:
            raise Unknown(text)
        try:
            terms.append((SPELLINGS[base], Fraction(power) if power else Fraction(1)))
        except ValueError:
            raise Unknown(text) from None
    return merge(*terms)


def scale(e):
    out = 1.0
    for (p, n), x in e:
        out *= (PREFIXES[p][1] * UNITS[n][1]) ** float(x)
    return out


def dims(e):
    out = {}
    for (p, n), x in e:
        for k, v in UNITS[n][2].items():
            out[k] = out.get(k, 0) + v * x
    return {k: v for k, v in out.items() if v}


def kinds(e):
    return {UNITS[n][3] for (_, n), _ in e}


def judge(a, b):
    """('factor', x), ('impossible',) or ('unspecified',) for a conversion."""
    if a == b:
        return ('factor', 1.0)
    both = kinds(a) | kinds(b)
    if dims(a) == dims(b):
        if both & {'g', 'x'} and (len(a) > 1 or len(b) > 1):
            return ('unspecified',)
        if len(a) == len(b) == 1 and a[0][1] != b[0][1] and both & {'g', 'x'}:
            return ('unspecified',)
        return ('factor', scale(a) / scale(b))
    if both <= {'m', 'd', '1'} or both <= {'e'} or both <= {'y'}:
        return ('impossible',)
    return ('unspecified',)


# conversions between the systems, and impossible ones, by their usual spelling
SPECIAL = [
    ('S', 'cm / s', C * C * 1e-9), ('F', 'cm', C * C * 1e-9),
    ('H', 's^2 / cm', 1e9 / C ** 2), ('ohm', 's / cm', 1e9 / C ** 2),
    ('ohm', 'V', None), ('ohm', 'Wb / s', None), ('S', 'A / V', 1.0), ('F', 'C / V', 1.0),
    ('H', 'Wb / A', 1.0), ('F', 's / ohm', 1.0), ('S', 'A', None), ('F', 'C', None), ('H', 'Wb', None),
]

# quantities with their units in both systems, and how many of the second make one
# of the first (None: the system of units leaves it open)
BETWEEN = [
    ('capacitance', 'F', 'cm', C * C * 1e-9), ('length', 'm', 'cm', 1e2),
    ('time', 's', 's', 1.0), ('resistivity', 'm ohm', 's', 1e11 / C ** 2),
    ('magnetic intensity', 'A / m', 'Oe', 4e-3 * PI), ('magnetization', 'A m^-1', 'Oe', None),
    ('impedance', 'ohm', 's / cm', 1e9 / C ** 2), ('resistance', 'ohm', 's cm^-1', 1e9 / C ** 2),
    ('permeability', 'H / m', '1', 1e7 / (4 * PI)), ('permittivity', 'F / m', '1', 4e-11 * PI * C * C),
    ('inductance', 'H', 's^2 / cm', 1e9 / C ** 2), ('reluctance', 'A / Wb', '1 / cm', 4e-9 * PI),
    ('charge', 'C', 'statC', C / 10), ('current', 'A', 'statA', C / 10), ('current density', 'A m^-2', 'statA cm^-2', C * 1e-5),
    ('electric field', 'V m^-1', 'statV cm^-1', 1e6 / C), ('potential', 'V', 'statV', 1e8 / C),
    ('induction', 'T', 'G', 1e4), ('magnetic field', 'T', 'G', 1e4), ('magnetic flux', 'Wb', 'Mx', 1e8),
    ('vector potential', 'Wb / m', 'G * cm', 1e6), ('charge density', 'C m^-3', 'statC cm^-3', C * 1e-7),
    ('velocity', 'm s^-1', 'cm s^-1', 1e2), ('speed', 'm s^-1', 'cm s^-1', 1e2), ('wavenumber', 'm^-1', 'cm^-1', 1e-2),
    ('energy', 'J', 'erg', 1e7), ('work', 'J', 'erg', 1e7), ('pressure', 'Pa', 'dyn / cm^2', 10.0),
    ('energy density', 'J m^-3', 'erg cm^-3', 10.0), ('force', 'N', 'dyn', 1e5), ('mass', 'kg', 'g', 1e3),
    ('mass density', 'kg m^-3', 'g cm^-3', 1e-3), ('number density', 'm^-3', 'cm^-3', 1e-6),
    ('flux', 'J^-1 s^-1 sr^-1 m^-2', 'erg^-1 s^-1 sr^-1 cm^-2', 1e-11), ('fluence', 'J^-1 sr^-1 m^-2', 'erg^-1 sr^-1 cm^-2', 1e-11),
    ('integral flux', 's^-1 sr^-1 m^-2', 's^-1 sr^-1 cm^-2', 1e-4), ('particle distribution', 's^3 m^-6', 's^3 cm^-6', 1e-12),
    ('momentum', 'kg * m / s', 'g * cm / s', 1e5), ('power', 'W', 'erg / s', 1e7), ('power density', 'W m^-3', 'erg s^-1 cm^-3', 10.0),
    ('viscosity', 'kg / (m * s)', 'P', 10.0), ('volume', 'm^3', 'cm^3', 1e6), ('area', 'm^2', 'cm^2', 1e4),
    ('acceleration', 'm s^-2', 'cm s^-2', 1e2), ('frequency', 'Hz', 'Hz', 1.0), ('radioactivity', 'Bq', 'Ci', 1 / 3.7e10),
    ('dosage', 'Gy', 'erg / g', 1e4), ('thermal conductivity', 'W K^-1 m^-1', 'erg K^-1 cm^-1 s^-1', 1e5),
    ('illuminance', 'cd * sr / m^2', 'cd * sr / cm^2', 1e-4), ('conductivity', 'S m^-1', 's^-1', None),
    ('number', '1', '1', 1.0), ('identity', '1', '1', 1.0), ('plane angle', 'rad', 'rad', 1.0), ('temperature', 'K', 'K', 1.0),
]
