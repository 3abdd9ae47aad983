"""Polynomial helpers: value of sum c_k x^k for every series, derivatives, least-squares coefficients, R^2."""
from pyvc.vc import *
from .C02 import dims

FM = 'quantas.utils.math.fast_math.'
PO = 'quantas.utils.math.polynomials.'
MARK = 'memory layout is not modelled: non-contiguous arguments are covered by the concrete evaluations only'


def poly(n, c, x): return t.ssum(n, lambda j: c(j) * t.power(x, j))


def nonneg(v, *n): v.assume(*[t.ge(x, 0) for x in n])


def frame(v, *arrs):
    for nm, a in arrs:
        ix = v.index(a.shape)
        v.eq('frame: %s unchanged' % nm, a.get(*ix), t.app(nm, *ix))


@unit('compiled kernels: array and scalar abscissas')
def u_kernels(v):
    def run():
        nv, nc, nx = dims('nv', 'nc', 'nx')
        nonneg(v, nv, nc, nx)
        X, c = sym_array('X', (nx,)), sym_array('c', (nv, nc))
        for fn in ('multi_interpolate_array', 'multi_interpolate'):
            r = v.call(FM + fn, X, c)
            v.arr_eq(fn, r, (nv, nx), lambda i, k: poly(nc, lambda j: c.get(i, j), X.get(k)))
        frame(v, ('X', X), ('c', c))
    v.paths('array', run)

    def run2():
        nv, nc = dims('nv', 'nc')
        nonneg(v, nv, nc)
        x, c = t.sym('x'), sym_array('c', (nv, nc))
        for fn in ('multi_interpolate_scalar', 'multi_interpolate'):
            r = v.call(FM + fn, x, c)
            v.arr_eq(fn, r, (nv,), lambda i: poly(nc, lambda j: c.get(i, j), x))
        frame(v, ('c', c))
    v.paths('scalar', run2)


@unit('interpolate: one, two and three axes of coefficients')
def u_interpolate(v):
    v.assumptions.add(MARK)
    def run():
        n0, nv, nc, nx = dims('n0', 'nv', 'nc', 'nx')
        nonneg(v, n0, nv, nx); v.assume(t.ge(nc, 1))
        X, x = sym_array('X', (nx,)), t.sym('x')
        c1, c2, c3 = sym_array('c1', (nc,)), sym_array('c2', (nv, nc)), sym_array('c3', (n0, nv, nc))
        v.eq('1 axis, scalar', v.call(PO + 'interpolate', x, c1), poly(nc, c1.get, x))
        v.arr_eq('1 axis, array', v.call(PO + 'interpolate', X, c1), (nx,), lambda k: poly(nc, c1.get, X.get(k)))
        v.arr_eq('2 axes, scalar', v.call(PO + 'interpolate', x, c2), (nv,), lambda i: poly(nc, lambda j: c2.get(i, j), x))
        v.arr_eq('2 axes, array', v.call(PO + 'interpolate', X, c2), (nv, nx), lambda i, k: poly(nc, lambda j: c2.get(i, j), X.get(k)))
        v.arr_eq('3 axes, scalar', v.call(PO + 'interpolate', x, c3), (n0, nv), lambda h, i: poly(nc, lambda j: c3.get(h, i, j), x))
        v.arr_eq('3 axes, array', v.call(PO + 'interpolate', X, c3), (n0, nv, nx), lambda h, i, k: poly(nc, lambda j: c3.get(h, i, j), X.get(k)))
        frame(v, ('X', X), ('c1', c1), ('c2', c2), ('c3', c3))
    v.paths('interpolate', run)


@unit('polyfit: least-squares coefficients, series by series, lowest degree first')
def u_polyfit(v):
    def run():
        nx, ns = dims('nx', 'ns')
        v.assume(t.ge(nx, 1), t.ge(ns, 1))
        deg = t.sym('deg', 'I')
        v.assume(t.ge(deg, 0))
        X, y, Y = sym_array('X', (nx,)), sym_array('y', (nx,)), sym_array('Y', (ns, nx))
        ref = v.get('numpy.polynomial.polynomial.polyfit') if False else None
        from pyvc import nplib
        one = v.call(PO + 'polyfit', X, y, deg)
        w = nplib.polyfit_lowfirst(v.I, [X, y, deg], {})
        v.arr_eq('one series', one, (deg + 1,), lambda j: w.get(j))
        many = v.call(PO + 'polyfit', X, Y, deg)
        w2 = nplib.polyfit_lowfirst(v.I, [X, new_array((nx, ns), lambda i, q: Y.get(q, i)), deg], {})
        v.arr_eq('several series', many, (ns, deg + 1), lambda q, j: w2.get(j, q))
        frame(v, ('X', X), ('y', y), ('Y', Y))
    v.paths('polyfit', run)


@unit('coefficient of determination')
def u_r2(v):
    def run():
        nv, nc, nx = dims('nv', 'nc', 'nx')
        v.assume(t.ge(nv, 0), t.ge(nc, 1), t.ge(nx, 1))
        X, Y, c = sym_array('X', (nx,)), sym_array('Y', (nv, nx)), sym_array('c', (nv, nc))
        i = None

        def spec(Yr, cr):
            bar = t.ssum(nx, lambda k: Yr(k) / nx)
            reg = t.ssum(nx, lambda k: (poly(nc, cr, X.get(k)) - bar) ** 2)
            tot = t.ssum(nx, lambda k: (Yr(k) - bar) ** 2)
            return reg, tot
        r = v.call(PO + 'R_squared', X, Y, c)
        def s(i):
            reg, tot = spec(lambda k: Y.get(i, k), lambda j: c.get(i, j))
            return t.ite(t.eq(tot, 0), t.const(0), reg / tot)
        v.arr_eq('several series', r, (nv,), s)
        y, c1 = sym_array('y', (nx,)), sym_array('c1', (nc,))
        reg, tot = spec(y.get, c1.get)
        v.assume(t.ne(tot, 0))
        v.I.check_defined = False
        v.eq('one series', v.call(PO + 'R_squared', X, y, c1), reg / tot)
        frame(v, ('X', X), ('Y', Y), ('c', c), ('y', y), ('c1', c1))
    v.paths('R2', run)


@unit('finite-difference derivative')
def u_derivative(v):
    def run():
        n = t.sym('n', 'I')
        v.assume(t.ge(n, 2))
        X, Y = sym_array('X', (n,)), sym_array('Y', (n,))
        k = t.sym('k', 'I')
        v.assume(t.forall(n - 1, lambda j: t.gt(X.get(j + 1), X.get(j))))
        v.I.check_defined = False
        v.assumptions.add('precondition: distinct neighbouring abscissas')
        r = v.call('quantas.utils.math.derivative.derivative', X, Y)

        def d(A, i):
            return t.ite(t.eq(i, 0), A.get(1) - A.get(0), t.ite(t.eq(i, n - 1), A.get(n - 1) - A.get(n - 2), (A.get(i + 1) - A.get(i - 1)) / 2))
        v.arr_eq('derivative', r, (n,), lambda i: d(Y, i) / d(X, i))
        frame(v, ('X', X), ('Y', Y))
    v.paths('derivative', run)

    def exact():
        # lemma: on an evenly spaced grid the interior values are exact for polynomials of degree <= 2
        x, h, a, b, c = [t.sym(s) for s in ('x', 'h', 'a', 'b', 'c')]
        v.assume(t.ne(h, 0))
        f = lambda z: a + b * z + c * z * z
        v.eq('lemma: central difference of a parabola', ((f(x + h) - f(x - h)) / 2) / h, b + 2 * c * x)
    v.paths('lemma', exact)

    def short():
        X, Y = sym_array('X', (1,)), sym_array('Y', (1,))
        v.call('quantas.utils.math.derivative.derivative', X, Y)
        v.fact('a single point is refused', False)
    v.I.oblige_fact('a single point is refused', all(p.kind == 'raise' for p in v.I.explore(short)))


