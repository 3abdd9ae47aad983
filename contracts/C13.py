"""Directional moduli from the compliance tensor."""
from contracts.sections import sections
from pyvc.vc import *
from .elastic import *

SP = 'quantas.soec.soec.'


def obj(v, cls=SO + 'SOEC', rho=None):
    C = voigt()
    o = v.call(cls, C, t.sym('rho') if rho is None else rho)
    return o, C, v.attr(o, 'S')


def young(S, n): return 1 / dsum(4, lambda i, j, k, l: S4(S, i, j, k, l) * n[i] * n[j] * n[k] * n[l])
def lincomp(S, n): return 1000 * dsum(3, lambda i, j, k: S4(S, i, j, k, k) * n[i] * n[j])
def shear(S, a, b): return 1 / (4 * dsum(4, lambda i, j, k, l: S4(S, i, j, k, l) * a[i] * b[j] * a[k] * b[l]))
def poisson(S, a, b):
    return -dsum(4, lambda i, j, k, l: S4(S, i, j, k, l) * a[i] * a[j] * b[k] * b[l]) / dsum(4, lambda i, j, k, l: S4(S, i, j, k, l) * a[i] * a[j] * a[k] * a[l])


@unit('direction vectors: unit vectors of the spherical angles, the second orthogonal to the first')
def u_vec(v):
    def comps(r):
        if isinstance(r, ArrV):
            v.shape('vector', r, (3,))
            return [r.get(i) for i in R3]
        r = r.items if isinstance(r, ListV) else list(r)
        v.fact('vector has three components', len(r) == 3, str(r))
        return r

    def run():
        th, ph, ch = angles('theta', 'phi', 'chi')
        a = comps(v.call(SO + 'vector', th, ph))
        for i in R3: v.eq('direction [%d]' % i, a[i], n_dir(th, ph)[i])
        b = comps(v.call(SO + 'vector', th, ph, ch))
        for i in R3: v.eq('measurement direction [%d]' % i, b[i], b_dir(th, ph, ch)[i])
        v.eq('|a| = 1', sum((x * x for x in a), t.const(0)), t.const(1), rewrites=trig)
        v.eq('|b| = 1', sum((x * x for x in b), t.const(0)), t.const(1), rewrites=trig)
        v.eq('a.b = 0', sum((x * y for x, y in zip(a, b)), t.const(0)), t.const(0), rewrites=trig)
        for q in (SE + 'vector', 'quantas.utils.math.fast_math.vector'):
            c = comps(v.call(q, th, ph))
            for i in R3: v.eq('%s [%d]' % (q, i), c[i], n_dir(th, ph)[i])
    v.paths('vectors', run)


@unit('directional moduli of the general tensor')
def u_gen(v):
    def run():
        o, C, S = obj(v)
        th, ph, ch = angles('theta', 'phi', 'chi')
        a, b = n_dir(th, ph), b_dir(th, ph, ch)
        v.assume(t.gt(1 / young(S, a), 0), t.gt(1 / shear(S, a, b), 0))
        v.assumptions.add('precondition: the compliance is positive definite (used as: the quadratic forms of the unit directions are > 0)')
        v.eq("Young's modulus", v.meth(o, 'young_modulus', ListV([th, ph])), young(S, a))
        v.eq('linear compressibility', v.meth(o, 'linear_compressibility', ListV([th, ph])), lincomp(S, a))
        v.eq('shear modulus', v.meth(o, 'shear_modulus', ListV([th, ph, ch])), shear(S, a, b))
        v.eq("Poisson's ratio", v.meth(o, 'poisson_ratio', ListV([th, ph, ch])), poisson(S, a, b))
    v.paths('moduli', run)


def minimizer(v, calls, name):
    """contract of scipy.optimize.minimize/brute: the returned point x and fun = f(x)"""
    def h(I, a, k):
        f = a[0] if a else k.get('fun', k.get('func'))
        dim = 1
        if name == 'brute':
            rg = [[float(t.evalf(scal(q), {})) for q in vec(b)] for b in vec(a[1] if len(a) > 1 else k['ranges'])]
            dim = len(rg)
            I.oblige_fact('the searched angles cover every direction (half turn of each angle)',
                          all(lo <= 1e-9 and hi >= 3.14159 for lo, hi in rg), str(rg))
        x = [t.fresh('opt') for _ in range(dim)]
        arg = ListV(list(x)) if name == 'brute' else x[0]
        fun = I.call(f, [new_array((dim,), lambda i: x[i]) if name == 'brute' else arg], {})
        calls.append((x, scal(fun)))
        I.trusted.add('scipy.optimize.%s: returns a point x with fun = f(x), the best found' % name)
        if name == 'brute': return (new_array((dim,), lambda i: x[i]), fun, None, None)
        return struct('OptimizeResult', x=x[0], fun=fun)
    return h


@unit('variation over all directions: extrema, anisotropy and axes belong together')
def u_var(v):
    calls = []
    v.I.contracts['scipy.optimize.brute'] = minimizer(v, calls, 'brute')
    for dim in (2, 3):
        def run():
            del calls[:]
            f = lambda I, a, k: scal(t.app('f', *[x for x in vec(a[0])]))
            r = v.call(v.get(SP + 'SOECCalculator.directional_variation'), None, Builtin('f', f), dim)
            v.fact('two searches', len(calls) == 2, str(calls))
            (x1, f1), (x2, f2) = calls
            F = lambda x: t.app('f', *x)
            v.eq('first search minimises f (dim %d)' % dim, f1, F(x1))
            v.eq('second search minimises -f (dim %d)' % dim, f2, -F(x2))
            r = list(r.items) if isinstance(r, ListV) else list(r)
            mm = list(r[0])
            v.eq('minimum', mm[0], F(x1))
            v.eq('maximum', mm[1], F(x2))
            if v.I.decide(t.gt(F(x1), 0)): v.eq('anisotropy = max/min', r[1], F(x2) / F(x1))
            else: v.fact('anisotropy infinite', str(r[1]).lower().find('inf') >= 0, str(r[1]))
            for nm, ax, x in (('minimum', r[2], x1), ('maximum', r[3], x2)):
                for i in R3: v.eq('first axis of the %s [%d] (dim %d)' % (nm, i, dim), vec(ax)[i], n_dir(*x[:2])[i])
            for nm, ax, x in (('minimum', r[4], x1), ('maximum', r[5], x2)):
                if dim == 2: v.fact('no second axis', ax is None, str(ax))
                else:
                    for i in R3: v.eq('second axis of the %s [%d]' % (nm, i), vec(ax)[i], b_dir(*x)[i])
        v.paths('variation', run)


@unit('polar scans: each row holds the moduli of its own direction', timeout=300)
def u_polar(v):
    v.I.check_defined = False
    v.assumptions.add('precondition: the compliance is positive definite, so no directional denominator is zero')

    def run():
        o, C, S = obj(v)
        n = t.sym('n', 'I')
        v.assume(t.ge(n, 0))
        TH, PH = sym_array('th', (n,)), sym_array('ph', (n,))
        r = v.meth(o, 'polar_young', TH, PH)
        v.arr_eq('polar_young', r, (n,), lambda i: young(S, n_dir(TH.get(i), PH.get(i))))
        r = v.meth(o, 'polar_compressibility', TH, PH)
        def lc(i, c):
            x = lincomp(S, n_dir(TH.get(i), PH.get(i)))
            return t.ite(t.eq(c, 0), t.maxv(t.const(0), x), t.maxv(t.const(0), -x))
        v.arr_eq('polar_compressibility', r, (n, 2), lc)
    v.paths('polar', run)


@unit('polar scans through the searches over the measurement direction', timeout=300)
def u_polar2(v):
    v.I.check_defined = False
    calls = []
    v.I.contracts['scipy.optimize.minimize'] = minimizer(v, calls, 'minimize')

    def run():
        o, C, S = obj(v)
        th, ph = angles('theta', 'phi')
        a = n_dir(th, ph)
        for fn, spec, fin in (('shear_2d', shear, lambda m, M: [m, M]),
                              ('poisson_2d', poisson, lambda m, M: [t.minv(t.const(0), m), t.maxv(t.const(0), m), M])):
            del calls[:]
            r = vec(v.meth(o, fn, ListV([th, ph])))
            v.fact('%s: two searches' % fn, len(calls) == 2, str(len(calls)))
            (x1, f1), (x2, f2) = calls
            g = lambda x: spec(S, a, b_dir(th, ph, x[0]))
            v.eq('%s: first search minimises the modulus' % fn, f1, g(x1))
            v.eq('%s: second search maximises the modulus' % fn, f2, -g(x2))
            want = fin(g(x1), g(x2))
            v.fact('%s: number of values' % fn, len(r) == len(want), str(r))
            for i, x in enumerate(want): v.eq('%s [%d]' % (fn, i), r[i], x)
    v.paths('2d', run)


@unit('polar scans of shear modulus and Poisson ratio: rows and columns in place', timeout=300)
def u_polar3(v):
    v.I.overrides[SO + 'SOEC.shear_2d'] = lambda I, a, k: tuple(t.app('G%d' % i, *vec(a[1])) for i in range(2))
    v.I.overrides[SO + 'SOEC.poisson_2d'] = lambda I, a, k: tuple(t.app('N%d' % i, *vec(a[1])) for i in range(3))

    def run():
        o, C, S = obj(v)
        n = t.sym('n', 'I')
        v.assume(t.ge(n, 0))
        TH, PH = sym_array('th', (n,)), sym_array('ph', (n,))
        for fn, nm, k in (('polar_shear', 'G', 2), ('polar_poisson', 'N', 3)):
            r = v.meth(o, fn, TH, PH)
            if not v.shape(fn, r, (n, k)): continue
            i, = v.index((n,))
            for c in range(k): v.eq('%s column %d' % (fn, c), r.get(i, c), t.app('%s%d' % (nm, c), TH.get(i), PH.get(i)))
    v.paths('polar', run)


@unit('sections (xy), (xz), (yz): each row belongs to its own direction of the plane', timeout=300)
def u_sections(v):
    sections(v, ('E', 'LC', 'G', 'Nu'))


@unit('printed extrema, anisotropies and axes stand under their own headings', timeout=300)
def u_printed(v):
    from . import printed
    printed.extrema(v, ('E', 'LC', 'G', 'Nu'))
