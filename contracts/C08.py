"""Kieffer model: quadrature of the sine-dispersion density of states.  The integral itself is the
library's (scipy.integrate.quad); its integrand and limits are proved."""
from pyvc.vc import *
from pyvc import lib as L, prove as P
from pyvc.loops import occurrences
from . import specs as sp

KC = 'quantas.qha.utils.kieffer.Kieffer'
X = t.sym('x!q')
NOTE = 'library contract: scipy.integrate.quad returns the integral of its integrand between its limits (and an error estimate)'


def install(v):
    def quad(I, a, k):
        extra = a[3] if len(a) > 3 else k.get('args', ())
        if not isinstance(extra, tuple): extra = (extra,)
        if any(x in k for x in ('weight', 'points', 'full_output', 'complex_func')) or len(a) > 4: raise Unsupported('quad options')
        lo, hi = t.T(L.num(a[1])), t.T(L.num(a[2]))
        c, I.check_defined = I.check_defined, False
        try: g = t.T(L.num(I.call(a[0], [X] + list(extra), {})))
        finally: I.check_defined = c
        return t.app('quad', g, lo, hi), t.sym('quaderr')
    v.I.contracts['scipy.integrate.quad'] = quad
    v.assumptions.add(NOTE)


def dos(x, xi): return t.power(t.app('asin', x / xi), 2) / t.sqrt(xi * xi - x * x)


SPEC = {     # integrand f(x, xi) and factor (J/mol, J/mol/K)
    'helmholtz': (lambda x, xi: dos(x, xi) * t.log(1 - t.exp(-x)), lambda T: T),
    'entropy': (lambda x, xi: dos(x, xi) * (x / (t.exp(x) - 1) - t.log(1 - t.exp(-x))), lambda T: 1),
    'heat_capacity': (lambda x, xi: dos(x, xi) * x * x * t.exp(x) / t.power(t.exp(x) - 1, 2), lambda T: 1)}


def kernel(name):
    f, pre = SPEC[name]

    @unit('%s: integrand, limits, prefactor and sum over the branches' % name)
    def u(v):
        install(v)
        def run():
            n, T = t.sym('n', 'I'), t.sym('T')
            v.assume(t.ge(n, 1), t.gt(T, 0))
            w = sym_array('w', (n,))
            v.assume(t.forall(n, lambda i: t.gt(w.get(i), 0)))
            o = v.call(KC, w)
            r = t.T(v.meth(o, name, T))
            q = sorted(occurrences(r, 'quad'), key=lambda z: z.id)
            if not q: raise Unsupported('no quadrature in the result')
            c3 = 3 * sp.NA * sp.k * t.power(2 / t.PI, 3)
            sub = {}
            for z in q:
                g, lo, hi = z.args[1:]
                v.true('lower limit: at most 1e-6', t.and_(t.ge(lo, 0), t.le(lo, t.lit(1e-6))))
                ys = t.sym('xi')
                # the integrand depends on the branch through the upper limit only
                free = occurrences(g, 'w')
                G = P.replace(g, {y: ys * sp.k * T / sp.h for y in free})
                v.assume(t.gt(ys, X), t.gt(X, 0))
                v.eq('integrand', G, f(X, ys))
                sub[z] = t.app('KI', hi)
            r = P.replace(r, sub)
            v.eq('value', r, t.ssum(n, lambda i: t.T(c3) * pre(T) * t.app('KI', sp.h * w.get(i) / (sp.k * T))))
            i, = v.index((n,))
            v.eq('frame: frequencies unchanged', w.get(i), t.app('w', i))
        v.paths(name, run)

    @unit('%s: vanishes at T = 0' % name)
    def u0(v):
        install(v)
        def run():
            n = t.sym('n', 'I')
            v.assume(t.ge(n, 0))
            for nm, z in (('0.0', t.const(0, 'R')), ('0', 0)):
                o = v.call(KC, sym_array('w', (n,)))
                v.eq('T = ' + nm, v.meth(o, name, z), 0)
        v.paths('T=0', run)


for _n in SPEC: kernel(_n)


@unit('lemmas: S = -dF/dT and C_V = T dS/dT under the integral sign')
def u_lemma(v):
    # x = xi u with xi = theta / T: the integrands over u in (0, 1) have the common density A(u) = asin(u)^2 / sqrt(1 - u^2)
    def run():
        u, th, T = t.sym('u'), t.sym('theta'), t.sym('T')
        v.assume(t.gt(u, 0), t.lt(u, 1), t.gt(th, 0), t.gt(T, 0))
        xi = th / T
        x = xi * u
        A = t.power(t.app('asin', u), 2) / t.sqrt(1 - u * u)
        v.eq('density: dx^2 / (xi^2 - x^2) = du^2 / (1 - u^2)', xi * xi / (xi * xi - x * x), 1 / (1 - u * u))
        F = A * T * t.log(1 - t.exp(-x))
        S = A * (x / (t.exp(x) - 1) - t.log(1 - t.exp(-x)))
        C = A * x * x * t.exp(x) / t.power(t.exp(x) - 1, 2)
        v.eq('S = -dF/dT', S, -t.diff(F, T))
        v.eq('C_V = T dS/dT', C, T * t.diff(S, T))
    v.paths('lemma', run)
