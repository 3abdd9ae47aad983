"""E(V) equations of state: the fitted function, the pressure derived from it, and what E0, K0, K0', V0 mean."""
from fractions import Fraction
from pyvc.vc import *
from pyvc import arrays as A
from pyvc import prove as P

E = 'quantas.qha.utils.ev_eos.EnergyEOS'
TAGS = ['murnaghan', 'birchmurnaghan', 'vinet', 'pouriertarantola']


def params(v, tag, *Vs):
    E0, K, k, V0 = [t.sym(n, pos=n in ('K0', 'V0')) for n in ('E0', 'K0', 'Kp', 'V0')]
    v.assume(t.gt(K, 0), t.gt(V0, 0), *[t.gt(V, 0) for V in Vs])
    if tag == 'murnaghan': v.assume(t.ne(k, 0), t.ne(k, 1))
    if tag == 'vinet': v.assume(t.ne(k, 1))
    return E0, K, k, V0


def num(r): return t.T(r if not isinstance(r, ArrV) else r.get())


def forms(tag):
    @unit('%s: E(V0) = E0, P(V0) = 0, K0 and K\' are the derivatives of E at V0' % tag)
    def u(v):
        def run():
            x = t.sym('V!', pos=True)
            E0, K, k, V0 = params(v, tag, x)
            o = v.call(E)
            e = num(v.meth(o, tag, x, E0, K, k, V0))
            p = -t.diff(e, x); p1 = t.diff(p, x); Kx = -x * p1; k1 = t.diff(Kx, x)
            at = lambda z: t.subst(z, {x: V0})
            v.eq('E(V0) = E0', at(e), E0)
            v.eq('-dE/dV at V0 = 0', at(p), 0)
            v.eq('V d2E/dV2 at V0 = K0', at(Kx), K)
            v.eq("dK/dP at V0 = K'", at(k1), k * at(p1))
        v.paths('meaning', run)

    @unit('%s: pressure of the fit = -dE/dV at every volume' % tag)
    def w(v):
        def run():
            n = t.sym('n', 'I')
            v.assume(t.ge(n, 2))
            V = sym_array('V', (n,), pos=True)
            i, = v.index((n,))
            x = t.sym('x', pos=True)
            E0, K, k, V0 = params(v, tag, V.get(i), x)
            v.I.check_defined = False
            o = v.call(E)
            pars = new_array((4,), lambda j: A.pick(j, [E0, K, k, V0]))
            r = v.meth(o, 'pressure', tag, pars, V)
            if not v.shape('pressure', r, (n,)): return
            dE = -t.diff(num(v.meth(o, tag, x, E0, K, k, V0)), x)
            v.eq('P(V) = -dE/dV', r.get(i), t.subst(dE, {x: V.get(i)}))
            for j, q in enumerate((E0, K, k, V0)): v.eq('frame: parameter %d' % j, pars.get(j), q)
            v.eq('frame: volumes', V.get(i), t.app('V', i))
            # array evaluation is elementwise
            ea = v.meth(o, tag, V, E0, K, k, V0)
            if v.shape('energy', ea, (n,)):
                v.eq('E of an array of volumes', ea.get(i), t.subst(num(v.meth(o, tag, x, E0, K, k, V0)), {x: V.get(i)}))
        v.paths('pressure', run)

    @unit('%s: the fit refines this function on the given data' % tag)
    def f(v):
        seen = []
        v.I.contracts['scipy.optimize.curve_fit'] = lambda I, a, k: (seen.append((a, k)), (sym_array('popt', (4,)), sym_array('pcov', (4, 4))))[1]
        def run():
            del seen[:]
            v.I.check_defined = False
            n = t.sym('n', 'I')
            v.assume(t.ge(n, 2))
            V, En = sym_array('V', (n,), pos=True), sym_array('E', (n,))
            g = [t.sym('g%d' % j) for j in range(4)]
            v.I.overrides[E + '.guess'] = lambda I, a, k: ListV(list(g))
            o = v.call(E)
            r = vec(v.meth(o, 'fit', tag, V, En))
            if not v.fact('one least-squares fit', len(seen) == 1): return
            a, k = seen[0]
            if 'sigma' in k or 'bounds' in k or 'method' in k or len(a) > 4: raise Unsupported('options of curve_fit')
            i, = v.index((n,))
            v.eq('abscissas', a[1].get(i), t.app('V', i))
            v.eq('ordinates', a[2].get(i), t.app('E', i))
            x = t.sym('x', pos=True)
            E0, K, kp, V0 = params(v, tag, x)
            v.eq('fitted function', num(v.call(a[0], x, E0, K, kp, V0)), num(v.meth(o, tag, x, E0, K, kp, V0)))
            for j in range(4): v.eq('optimum %d' % j, v.I.lib.getitem(v.I, r[0], j), t.app('popt', j))
            for j in range(4): v.eq('error %d' % j, v.I.lib.getitem(v.I, r[1], j), t.sqrt(t.app('pcov', j, j)))
        v.paths('fit', run)


for _t in TAGS: forms(_t)
