"""Thermodynamic identities between the separately coded kernels, for every input with T > 0, and
the T = 0 limits."""
from pyvc.vc import *
from .C02 import SM, dims


def kernels(v, T, names):
    nT, nq, nb, nv = dims('nT', 'nq', 'nb', 'nv')
    v.assume(*[t.ge(x, 1) for x in (nT, nq, nb, nv)])
    Ta = new_array((nT,), lambda i: T)
    band, W = sym_array('band', (nq, nb, nv)), sym_array('W', (nq,))
    i, n = v.index((nT, nv))
    out = []
    for nm in names:
        r = v.call(SM + nm, Ta, band, W)
        if not v.shape(nm, r, (nT, nv)): out.append(None)
        else: out.append(r.get(i, n))
    return out


ALL = ['zero_point_energy', 'thermal_energy', 'entropy', 'vibrational_free_energy', 'isochoric_heat_capacity']


@unit('F = U_zp + U_th - T S (kJ/mol, J/mol/K)')
def u1(v):
    def run():
        T = t.sym('T')
        v.assume(t.gt(T, 0))
        zp, th, S, F, _ = kernels(v, T, ALL)
        v.eq('F == Uzp + Uth - T*S/1000', F, zp + th - T * S / 1000)
    v.paths('identity', run)


@unit('C_V = dU/dT')
def u2(v):
    def run():
        T = t.sym('T')
        v.assume(t.gt(T, 0))
        zp, th, Cv = kernels(v, T, ['zero_point_energy', 'thermal_energy', 'isochoric_heat_capacity'])
        v.eq('Cv == 1000 * d(Uzp + Uth)/dT', Cv, 1000 * t.diff(zp + th, T))
    v.paths('identity', run)


@unit('S = -dF/dT')
def u3(v):
    def run():
        T = t.sym('T')
        v.assume(t.gt(T, 0))
        S, F = kernels(v, T, ['entropy', 'vibrational_free_energy'])
        v.eq('S == -1000 * dF/dT', S, -1000 * t.diff(F, T))
    v.paths('identity', run)


@unit('T dS/dT = C_V')
def u4(v):
    def run():
        T = t.sym('T')
        v.assume(t.gt(T, 0))
        S, Cv = kernels(v, T, ['entropy', 'isochoric_heat_capacity'])
        v.eq('Cv == T * dS/dT', Cv, T * t.diff(S, T))
    v.paths('identity', run)


@unit('limits at T = 0')
def u5(v):
    def run():
        zp, th, S, F, Cv = kernels(v, t.const(0, 'R'), ALL)
        v.eq('thermal energy', th, 0)
        v.eq('entropy', S, 0)
        v.eq('heat capacity', Cv, 0)
        v.eq('free energy == zero-point energy', F, zp)
    v.paths('T=0', run)


@unit('total F = total U - T S')
def u6(v):
    def run():
        T = t.sym('T')
        v.assume(t.gt(T, 0))
        nT, nq, nb, nv = dims('nT', 'nq', 'nb', 'nv')
        v.assume(*[t.ge(x, 1) for x in (nT, nq, nb, nv)])
        Ta = new_array((nT,), lambda i: T)
        band, W, U0 = sym_array('band', (nq, nb, nv)), sym_array('W', (nq,)), sym_array('U0', (nv,))
        i, n = v.index((nT, nv))
        zp, th, S, F, _ = [v.call(SM + nm, Ta, band, W) for nm in ALL]
        zp1 = v.call(SM + 'zero_point_energy', new_array((1,), lambda i: t.const(0, 'R')), band, W)
        U = v.call(SM + 'internal_energy', U0, v.I.lib.getitem(v.I, zp1, 0), th)
        Ft = v.call(SM + 'free_energy', U0, F)
        v.eq('F_tot == U_tot - T*S/1000', Ft.get(i, n), U.get(i, n) - T * S.get(i, n) / 1000)
    v.paths('identity', run)
