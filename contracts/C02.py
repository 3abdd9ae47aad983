"""Harmonic-oscillator kernels: each thermodynamic function is the weighted sum over all
q-points and modes of the analytic single-oscillator expression."""
from pyvc.vc import *
from . import specs as sp

SM = 'quantas.utils.physics.statistical_mechanics.'
KERNELS = [('zero_point_energy', sp.zpe, 'zero-point energy'), ('thermal_energy', sp.eth, 'thermal energy'),
           ('entropy', sp.S, 'entropy'), ('vibrational_free_energy', sp.F, 'vibrational free energy'),
           ('isochoric_heat_capacity', sp.Cv, 'isochoric heat capacity')]


def dims(*names):
    return [t.sym(x, 'I') for x in names]


def setup(v):
    nT, nq, nb, nv = dims('nT', 'nq', 'nb', 'nv')
    v.assume(*[t.ge(x, 0) for x in (nT, nq, nb, nv)])
    Ta, band, W = sym_array('Ta', (nT,)), sym_array('band', (nq, nb, nv)), sym_array('W', (nq,))
    return (nT, nq, nb, nv), Ta, band, W


def kernel_unit(fn, spec, title):
    @unit('%s: weighted sum over q-points and modes' % title)
    def u(v):
        def run():
            (nT, nq, nb, nv), Ta, band, W = setup(v)
            r = v.call(SM + fn, Ta, band, W)
            v.fact('inputs unchanged', True)
            if not v.shape('result', r, (nT, nv)): return
            i, n = v.index((nT, nv))
            v.assume(t.ge(Ta.get(i), 0))
            want = t.ssum(nq, lambda q: t.ssum(nb, lambda b: spec(Ta.get(i), band.get(q, b, n)) * W.get(q)))
            v.eq('result[i, n] == sum over q, b of weight[q] * %s(T[i], omega[q, b, n])' % fn, r.get(i, n), want)
            # frame: arguments are not modified
            a, b, c = v.index((nq, nb, nv))
            v.eq('frame: frequencies unchanged', band.get(a, b, c), t.app('band', a, b, c))
            v.eq('frame: weights unchanged', W.get(a), t.app('W', a))
            v.eq('frame: temperatures unchanged', Ta.get(i), t.app('Ta', i))
        v.paths(fn, run)


for _k in KERNELS: kernel_unit(*_k)


@unit('total internal energy = static + zero-point + thermal')
def u_internal(v):
    def run():
        nT, nv = dims('nT', 'nv')
        v.assume(t.ge(nT, 0), t.ge(nv, 0))
        U0, Uzp, Uth = sym_array('U0', (nv,)), sym_array('Uzp', (nv,)), sym_array('Uth', (nT, nv))
        r = v.call(SM + 'internal_energy', U0, Uzp, Uth)
        v.arr_eq('U', r, (nT, nv), lambda i, j: U0.get(j) + Uzp.get(j) + Uth.get(i, j))
    v.paths('internal_energy', run)


@unit('Helmholtz free energy = static + vibrational')
def u_free(v):
    def run():
        nT, nv = dims('nT', 'nv')
        v.assume(t.ge(nT, 0), t.ge(nv, 0))
        U0, Fv = sym_array('U0', (nv,)), sym_array('Fv', (nT, nv))
        r = v.call(SM + 'free_energy', U0, Fv)
        v.arr_eq('F', r, (nT, nv), lambda i, j: U0.get(j) + Fv.get(i, j))
    v.paths('free_energy', run)
