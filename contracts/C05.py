"""H, G, K_S and gamma kernels."""
from pyvc.vc import *
from . import specs as sp
from .C02 import dims

TH = 'quantas.utils.physics.thermodynamics.'


def legendre(fn):
    @unit('%s: X + P V N_A / 1000' % fn)
    def u(v):
        def run():
            n, m = dims('n', 'm')
            v.assume(t.ge(n, 0), t.ge(m, 0))
            V, p, X = sym_array('V', (n, m)), sym_array('p', (m,)), sym_array('X', (n, m))
            r = v.call(TH + fn, V, p, X)
            v.arr_eq(fn, r, (n, m), lambda i, j: X.get(i, j) + p.get(j) * V.get(i, j) * sp.NA / 1000)
            i, j = v.index((n, m))
            v.eq('frame: V', V.get(i, j), t.app('V', i, j))
            v.eq('frame: p', p.get(j), t.app('p', j))
            v.eq('frame: X', X.get(i, j), t.app('X', i, j))
        v.paths(fn, run)


for _f in ('enthalpy', 'gibbs'): legendre(_f)


def grid(v):
    n, m = dims('n', 'm')
    v.assume(t.ge(n, 0), t.ge(m, 0))
    return n, m, [sym_array(x, (n, m)) for x in ('V', 'KT', 'alpha', 'Cv')]


@unit('adiabatic bulk modulus')
def u_ks(v):
    def run():
        n, m, (V, KT, al, Cv) = grid(v)
        T = sym_array('Tk', (n,))
        f = t.sym('factor')
        v.assume(t.gt(f, 0))
        r = v.call(TH + 'adiabatic_bulk_modulus', T, V, KT, al, Cv, f)

        def spec(i, j):
            K = KT.get(i, j)
            corr = al.get(i, j) ** 2 * V.get(i, j) * T.get(i) * (f * K) ** 2 / (Cv.get(i, j) / sp.NA) / f
            return t.ite(t.or_(t.eq(T.get(i), 0), t.eq(Cv.get(i, j), 0)), K, K + corr)
        v.arr_eq('KS', r, (n, m), spec)
        i, j = v.index((n, m))
        for nm, a in zip(('V', 'KT', 'alpha', 'Cv'), (V, KT, al, Cv)): v.eq('frame: ' + nm, a.get(i, j), t.app(nm, i, j))
    v.paths('KS', run)


@unit('Grueneisen parameter')
def u_g(v):
    def run():
        n, m, (V, KT, al, Cv) = grid(v)
        r = v.call(TH + 'gruneisen_parameter', V, KT, al, Cv)
        v.arr_eq('gamma', r, (n, m), lambda i, j: t.ite(t.eq(Cv.get(i, j), 0), t.const(0),
                 al.get(i, j) * V.get(i, j) * KT.get(i, j) / (Cv.get(i, j) / sp.NA)))
        i, j = v.index((n, m))
        for nm, a in zip(('V', 'KT', 'alpha', 'Cv'), (V, KT, al, Cv)): v.eq('frame: ' + nm, a.get(i, j), t.app(nm, i, j))
    v.paths('gamma', run)
