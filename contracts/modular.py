"""Callee contracts of the unit converters (proved in C01) with arbitrary units: a unit is a name with an
arbitrary positive SI value per kind of quantity, so callers are verified for every choice of units."""
from pyvc.vc import *
from pyvc import lib as L, arrays as A
from . import specs as sp

U = 'quantas.utils.physics.units.'
NOTE = 'callee contracts: the unit converters multiply by the ratio of SI values (proved in C01)'
SPECIAL = {('E', 'kjmol'): 1000 / sp.NA, ('V', 'm'): t.const(1, 'R'), ('P', 'Pa'): t.const(1, 'R'), ('F', 'Hz'): t.const(1, 'R')}


def SI(kind, unit):
    if (kind, unit) in SPECIAL: return SPECIAL[kind, unit]
    return t.sym('SI_%s_%s' % (kind, unit))


def unit_facts(v):
    for k, u in (('E', 'EU'), ('V', 'LU'), ('P', 'PU'), ('F', 'FU')): v.assume(t.gt(SI(k, u), 0))
    v.assume(t.gt(TS('TU')[0], 0))


def TS(u):
    if u == 'K': return t.const(1, 'R'), t.const(0, 'R')
    return t.sym('Tscale_' + u), t.sym('Toffset_' + u)


def emap(I, f, x):
    if L.isscalar(x): return f(L.num(x))
    return A.map_array(I, lambda z: f(L.num(z)), A.as_array(I, x), 'float')


def install(v):
    """replace the converters by their contracts"""
    def simple(kind):
        return lambda I, a, k: emap(I, lambda z: z * SI(kind, a[1]) / SI(kind, a[2]), a[0])
    def arg(a, k, i, n): return a[i] if len(a) > i else k[n]
    o = v.I.overrides
    for fn, kind in (('convert_energy', 'E'), ('convert_pressure', 'P'), ('convert_frequency', 'F'), ('convert_volume', 'V')):
        o[U + fn] = simple(kind)
    def temp(I, a, k):
        (s1, o1), (s2, o2) = TS(a[1]), TS(a[2])
        return emap(I, lambda z: (s1 * z + o1 - o2) / s2, a[0])
    o[U + 'convert_temperature'] = temp
    fac = lambda e, l, p: SI('E', e) / SI('V', l) / SI('P', p)
    o[U + 'energy_to_pressure'] = lambda I, a, k: emap(I, lambda z: z * fac(*a[1:4]), a[0])
    o[U + 'pressure_to_energy'] = lambda I, a, k: emap(I, lambda z: z / fac(*a[1:4]), a[0])
    v.assumptions.add(NOTE)
