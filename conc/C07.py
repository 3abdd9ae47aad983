import numpy as np
from numpy.polynomial import polynomial as pl
from qha_np import *


def case_minimum(h):
    f = h.need('quantas.utils.math.polynomials', 'find_polynomial_minimum')
    rng = h.rng('C07')
    for _ in range(h.n(500, 8000)):
        k = int(rng.integers(1, 6))
        r = np.sort(rng.uniform(-4, 4, k))
        if k > 1 and np.min(np.diff(r)) < .3: continue
        d = np.array([rng.choice([-1., 1.]) * rng.uniform(.2, 3)])
        for x in r: d = pl.polymul(d, [-x, 1.])
        for _ in range(int(rng.integers(0, 2))):          # complex conjugate critical points
            a, b = rng.uniform(-3, 3), rng.uniform(.5, 2)
            d = pl.polymul(d, [a * a + b * b, -2 * a, 1.])
        P = float(rng.normal()) if rng.random() < .6 else None
        c = pl.polyint(d, k=rng.normal())
        if P is not None: c[1] -= P
        want = np.array([x for x in r if pl.polyval(x, pl.polyder(d)) > 0])
        c0 = c.copy()
        h.current = {'coefficients': c, 'P': P}
        got = f(c, P) if P is not None else f(c)
        h.close('minimum', h.current, np.sort(got), want, 1e-6, 1e-6, 'minima of F + PV')
        h.record('minimum', h.current, np.array_equal(c, c0), 'coefficients unchanged', 'modified')


def curve(rng, s, K=None):
    u = EU[s['energy_unit']]; l3 = LU[s['lenght_unit']] ** 3
    V0 = rng.uniform(40, 400) * 1e-30 / l3
    K0 = rng.uniform(30, 250) * 1e9 * l3 / u
    E0 = -rng.uniform(1, 500) * EH / u
    V = np.linspace(rng.uniform(.88, .93), rng.uniform(1.04, 1.1), int(rng.integers(7, 12))) * V0
    return V0, K0, E0, V


def case_poly(h):
    rng = h.rng('C07p')
    for _ in range(h.n(200, 3000)):
        o, s = calc(h, edeg=int(rng.integers(2, 6)), **units(rng))
        V0, K0, E0, V = curve(rng, s)
        F = bm3(V, E0, K0, rng.uniform(3, 5), V0)
        c = pl.polyfit(V, F, s['edeg'])
        lo, hi = sorted(-pl.polyval(np.array([V[1], V[-2]]), pl.polyder(c)) * pau(s))
        P = rng.uniform(lo, hi)
        h.current = {'V': V, 'F': F, 'P': P, 'settings': s}
        give = rng.random() < .5
        r = o.minimize_volume(V, F, P, c) if give else o.minimize_volume(V, F, P)
        v = float(r[0])
        h.close('poly', h.current, -pl.polyval(v, pl.polyder(c)) * pau(s), P, 1e-6, 1e-7 * K0 * pau(s), 'dF/dV = -P')
        h.record('poly', h.current, pl.polyval(v, pl.polyder(c, 2)) > 0, 'positive curvature', v)
        h.close('poly', h.current, r[1:], [0, 0])
        # bulk modulus of the polynomial
        g = rng.uniform(V[1], V[-2]) * (1 + .01 * np.linspace(-.1, .1, 2 * int(rng.integers(2, 5)) + 1))
        i = int(rng.integers(len(g)))
        Fg = bm3(g, 0., K0, rng.uniform(3, 5), V0)
        k, kp = o.numerical_bulk_modulus(g, Fg, i)
        pc = pl.polyfit(g, Fg, s['edeg'])
        h.close('bulk modulus', dict(h.current, grid=g, F=Fg, index=i), k, g[i] * pl.polyval(g[i], pl.polyder(pc, 2)) * pau(s), 1e-6)


def case_grid(h):
    C = h.need('quantas.qha.qha', 'QHACalculator')
    rng = h.rng('C07g')
    for _ in range(h.n(30, 200)):
        n, sep = 2 * int(rng.integers(1, 8)) + 1, float(rng.uniform(.001, 1))
        h.current = {'points': n, 'separation': sep}
        o, s = calc(h)
        e, i = o.fine_grid(n, sep)
        h.close('grid', h.current, np.asarray(e), (np.arange(n) - n // 2) * sep / 100, 1e-9, 1e-15)
        h.same('grid', h.current, int(i), n // 2)
    e, i = o.fine_grid()
    h.record('grid', {}, abs(e[i]) == 0, 'the default grid is centred', [e, i])


def case_eos(h):
    rng = h.rng('C07e')
    for _ in range(h.n(60, 600)):
        o, s = calc(h, minimization='eos', **units(rng))
        V0, K0, E0, V = curve(rng, s)
        Kp = rng.uniform(3.2, 5.5)
        F = bm3(V, E0, K0, Kp, V0)
        F0, Vc = F.copy(), V.copy()
        h.current = {'V': V, 'F': F, 'parameters': [E0, K0, Kp, V0], 'settings': s}
        r = o.minimize_volume(V, F, 0.)
        h.close('eos', h.current, np.asarray(r, float) / [V0, K0 * pau(s), Kp], [1, 1, 1], 2e-3)
        P = rng.uniform(0, .05) * K0 * pau(s)
        r = o.minimize_volume(V, F, P)
        h.close('eos', dict(h.current, P=P), -d_bm3(r[0], E0, K0, Kp, V0) * pau(s), P, 5e-2, 5e-3 * K0 * pau(s), 'pressure at the minimum')
        h.record('eos', h.current, np.array_equal(F, F0) and np.array_equal(V, Vc), 'arguments unchanged', 'modified')
