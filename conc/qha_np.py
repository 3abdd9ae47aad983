"""A QHA calculator of the real code, configured as the command line does."""
import numpy as np
from spec_np import *
EU = {'Ha': EH, 'eV': EV, 'Ry': EH / 2}
LU = {'A': 1e-10, 'bohr': BOHR}
PU = {'GPa': 1e9, 'kbar': 1e8}
FU = {'cm^-1': 100 * CL, 'THz': 1e12, 'Hz': 1.}


def settings(**kw):
    d = {'silent': True, 'debug': False, 'logfile': None, 'trange': (0., 10., 10.), 'prange': (0., 10., 10.), 'qha_scheme': 'td',
         'minimization': 'poly', 'kieffer': False, 'eos_function': 'birchmurnaghan', 'edeg': 3, 'fdeg': 3, 'energy_unit': 'Ha',
         'lenght_unit': 'A', 'frequency_unit': 'cm^-1', 'temperature_unit': 'K', 'pressure_unit': 'GPa'}
    d.update(kw)
    return d


def units(rng):
    f = lambda d: list(d)[rng.integers(len(d))]
    return {'energy_unit': f(EU), 'lenght_unit': f(LU), 'pressure_unit': f(PU), 'frequency_unit': f(FU), 'temperature_unit': ['K', 'C'][rng.integers(2)]}


def pau(s): return EU[s['energy_unit']] / LU[s['lenght_unit']] ** 3 / PU[s['pressure_unit']]


def calc(h, **kw):
    C = h.need('quantas.qha.qha', 'QHACalculator')
    s = settings(**kw)
    return C(s), s


def bm3(V, E0, K0, KP, V0):
    n2 = (V0 / V) ** (2 / 3)
    return E0 + 9 * K0 * V0 / 16 * (KP * (n2 - 1) ** 3 + (n2 - 1) ** 2 * (6 - 4 * n2))


def d_bm3(V, E0, K0, KP, V0):
    n = (V0 / V) ** (1 / 3)
    return -1.5 * K0 * (n ** 7 - n ** 5) * (1 + .75 * (KP - 4) * (n * n - 1))
