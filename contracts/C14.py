"""Voigt-Reuss-Hill averages and isotropic velocities."""
from pyvc.vc import *
from .elastic import *


def spec(C, S):
    g = lambda M, i, j: M.get(i, j)
    KV = (g(C, 0, 0) + g(C, 1, 1) + g(C, 2, 2) + 2 * (g(C, 0, 1) + g(C, 0, 2) + g(C, 1, 2))) / 9
    KR = 1 / (g(S, 0, 0) + g(S, 1, 1) + g(S, 2, 2) + 2 * (g(S, 0, 1) + g(S, 0, 2) + g(S, 1, 2)))
    GV = (g(C, 0, 0) + g(C, 1, 1) + g(C, 2, 2) - g(C, 0, 1) - g(C, 0, 2) - g(C, 1, 2) + 3 * (g(C, 3, 3) + g(C, 4, 4) + g(C, 5, 5))) / 15
    GR = 15 / (4 * (g(S, 0, 0) + g(S, 1, 1) + g(S, 2, 2) - g(S, 0, 1) - g(S, 0, 2) - g(S, 1, 2)) + 3 * (g(S, 3, 3) + g(S, 4, 4) + g(S, 5, 5)))
    return (KV, GV), (KR, GR), ((KV + KR) / 2, (GV + GR) / 2)


def reparam(C, S):
    """bijective change of variables c11 <-> K_V, c44 <-> G_V, s11 <-> K_R, s44 <-> G_R (so the averages become symbols)"""
    kv, gv, kr, gr = [t.sym(x) for x in ('KV', 'GV', 'KR', 'GR')]
    g = lambda M, i, j: M.get(i, j)
    rest = lambda M: g(M, 1, 1) + g(M, 2, 2)
    off = lambda M: g(M, 0, 1) + g(M, 0, 2) + g(M, 1, 2)
    c00 = 9 * kv - rest(C) - 2 * off(C)
    c33 = (15 * gv - (c00 + rest(C) - off(C))) / 3 - g(C, 4, 4) - g(C, 5, 5)
    s00 = 1 / kr - rest(S) - 2 * off(S)
    s33 = (15 / gr - 4 * (s00 + rest(S) - off(S))) / 3 - g(S, 4, 4) - g(S, 5, 5)
    m = {C.get(0, 0): c00, C.get(3, 3): c33, S.get(0, 0): s00, S.get(3, 3): s33}
    return lambda e: P.replace(scal(e), m)


NOTE = 'precondition: positive definite stiffness (used as: K, G > 0 for both averages, so no denominator is zero), density > 0'


def setup(v, q):
    C, rho = voigt(), t.sym('rho')
    v.assume(t.gt(rho, 0))
    v.assumptions.add(NOTE)
    v.I.check_defined = False
    o = v.call(q, C, rho)
    S = v.attr(o, 'S')
    return o, rho, spec(C, S), reparam(C, S)


@unit('averages: K, E, G, nu of Voigt, Reuss and Hill')
def u_avg(v):
    def run():
        o, rho, sp, rp = setup(v, SO + 'SOEC')
        rows = vec(v.meth(o, 'averages'))
        v.fact('three rows', len(rows) == 3, str(len(rows)))
        for nm, row, (K, G) in zip(('Voigt', 'Reuss', 'Hill'), rows, sp):
            row = vec(row)
            v.fact('four columns', len(row) == 4, str(len(row)))
            for q, x, y in zip(('K', 'E', 'G', 'nu'), row, (K, 9 * K * G / (3 * K + G), G, (3 * K - 2 * G) / (2 * (3 * K + G)))):
                v.eq('%s %s' % (nm, q), rp(x), rp(y))
    v.paths('averages', run)


@unit('isotropic velocities in km/s from the Hill averages')
def u_vel(v):
    for q, nm in ((SO + 'SOEC', 'SOEC'), (SE + 'Seismic', 'Seismic')):
        def run():
            o, rho, sp, rp = setup(v, q)
            K, G = sp[2]
            # GPa -> Pa and m/s -> km/s
            vp, vs = t.sqrt(1000 * (K + 4 * G / 3) / rho), t.sqrt(1000 * G / rho)
            v.assume(t.gt(G, 0), t.gt(K, 0))
            r = v.meth(o, 'isotropic_velocities') if nm == 'SOEC' else v.attr(o, 'isotropic_velocity')
            v.arr_eq('%s velocities (Vs, Vs, Vp)' % nm, r, (3,), lambda i: vp if i == 2 else vs)
            if nm == 'Seismic':
                v.eq('bulk modulus', v.attr(o, 'bulk_modulus'), K)
                v.eq('shear modulus', v.attr(o, 'shear_modulus'), G)
                v.eq('iso_P', v.attr(o, 'iso_P'), vp)
                v.eq('iso_S', v.attr(o, 'iso_S'), vs)
        v.paths(nm, run)


@unit('printed averages and velocities stand under their own headings', timeout=300)
def u_printed(v):
    from . import printed
    printed.averages(v)
