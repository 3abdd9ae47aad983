import numpy as np
PO, FM = 'quantas.utils.math.polynomials', 'quantas.utils.math.fast_math'


def val(c, x): return sum(c[..., j] * x ** j for j in range(c.shape[-1])) if np.ndim(x) == 0 else \
    sum(c[..., j, None] * np.asarray(x, float) ** j for j in range(c.shape[-1]))


def layouts(rng, a):
    """the same values in different memory layouts"""
    k = rng.integers(4)
    if k == 0: return a
    if k == 1: return np.asfortranarray(a)
    if k == 2:
        b = np.zeros(tuple(2 * s for s in a.shape)); v = b[tuple(slice(None, None, 2) for _ in a.shape)]; v[...] = a
        return v
    return np.ascontiguousarray(a[::-1])[::-1]


def case_interpolate(h):
    f = h.need(PO, 'interpolate')
    rng = h.rng('C29')
    for _ in range(h.n(400, 6000)):
        nc = int(rng.integers(1, 9)); nx = int(rng.integers(1, 40))
        sh = tuple(int(x) for x in rng.integers(1, 7, rng.integers(0, 3)))
        c = layouts(rng, rng.normal(size=sh + (nc,)))
        X = layouts(rng, np.sort(rng.uniform(-3, 3, nx)))
        if rng.random() < .2: X = np.zeros(nx)
        if rng.random() < .2: X = np.arange(nx)
        h.current = {'X': X, 'coefficients': c}
        c0, X0 = c.copy(), X.copy()
        sc = np.abs(val(np.abs(c), np.abs(X))).max()
        h.close('interpolate', h.current, f(X, c), val(c, X), 1e-10, 1e-12 * sc)
        x = X[rng.integers(nx)]
        x = [float(x), x, int(rng.integers(-3, 4))][rng.integers(3)]
        h.close('interpolate', dict(h.current, x=x), f(x, c), val(c, float(x)), 1e-10, 1e-12 * max(sc, np.abs(val(np.abs(c), 3.)).max()))
        h.record('interpolate', h.current, np.array_equal(c, c0) and np.array_equal(X, X0), 'arguments unchanged', 'modified')


def case_kernels(h):
    a, s, m = h.need(FM, 'multi_interpolate_array', 'multi_interpolate_scalar', 'multi_interpolate')
    rng = h.rng('C29k')
    for _ in range(h.n(200, 4000)):
        nv, nc, nx = [int(x) for x in rng.integers(1, 30, 3)]
        nc = min(nc, 9)
        c, X = rng.normal(size=(nv, nc)), rng.uniform(-2, 2, nx)
        h.current = {'X': X, 'coefficients': c}
        for f in (a, m): h.close('kernels', h.current, f(X, c), val(c, X), 1e-9, 1e-9)
        for f in (s, m): h.close('kernels', dict(h.current, x=X[0]), f(X[0], c), val(c, X[0]), 1e-9, 1e-9)


def case_polyfit(h):
    f, g, R = h.need(PO, 'polyfit', 'interpolate', 'R_squared')
    rng = h.rng('C29p')
    for _ in range(h.n(300, 5000)):
        deg = int(rng.integers(0, 6)); nx = deg + int(rng.integers(1, 8))
        sh = tuple(int(x) for x in rng.integers(1, 7, rng.integers(0, 2)))
        c = rng.normal(size=sh + (deg + 1,))
        X = np.linspace(-1, 1.3, nx) + rng.uniform(-.3, .3, nx) / nx
        Y = val(c, X)
        h.current = {'X': X, 'coefficients': c}
        r = f(layouts(rng, X), layouts(rng, Y), deg)
        h.close('polyfit', h.current, r, c, 1e-6, 1e-7)
        h.close('polyfit', dict(h.current, fn='interpolate(polyfit)'), g(X, r), Y, 1e-6, 1e-7)
        if nx > deg + 1 or True:
            Yn = Y + rng.normal(size=Y.shape) * .1
            p = f(X, Yn, deg)
            # normal equations of the least-squares problem
            res = Yn - g(X, p)
            h.close('polyfit', dict(h.current, fn='least squares'), [(res * X ** j).sum(-1) for j in range(deg + 1)], np.zeros((deg + 1,) + sh), 0, 1e-7)
            bar = Yn.mean(-1, keepdims=True)
            with np.errstate(all='ignore'): want = ((g(X, p) - bar) ** 2).sum(-1) / ((Yn - bar) ** 2).sum(-1)
            if np.all(((Yn - bar) ** 2).sum(-1) > 1e-6): h.close('R2', h.current, R(layouts(rng, X), layouts(rng, Yn), p), want, 1e-7, 1e-9)


def case_derivative(h):
    f = h.need('quantas.utils.math.derivative', 'derivative')
    rng = h.rng('C29d')
    for _ in range(h.n(200, 2000)):
        n = int(rng.integers(2, 30))
        X, Y = np.cumsum(rng.uniform(.1, 1, n)), rng.normal(size=n)
        h.current = {'X': X, 'Y': Y}
        d = lambda A: np.array([A[1] - A[0]] + [(A[i + 1] - A[i - 1]) / 2 for i in range(1, n - 1)] + [A[-1] - A[-2]])
        h.close('derivative', h.current, f(X, Y), d(Y) / d(X), 1e-10, 1e-12)
