import numpy as np
from spec_np import NA
TH = 'quantas.utils.physics.thermodynamics'


def arrays(h, rng, lits):
    n, m = [int(x) for x in rng.integers(1, 9, 2)]
    T = rng.uniform(0, 2000, n)
    p = rng.uniform(-5e9, 2e11, m)
    V = rng.uniform(1e-29, 1e-27, (n, m))
    K = rng.uniform(1e9, 6e11, (n, m))
    al = rng.uniform(-2e-5, 9e-5, (n, m))
    Cv = rng.uniform(.1, 900, (n, m))
    X = rng.uniform(-1e5, 1e4, (n, m))
    if rng.random() < .5:
        T[0] = 0.
        Cv[rng.random((n, m)) < .2] = 0.
        al[rng.random((n, m)) < .2] = 0.
    if rng.random() < .3: p[0] = 0.
    if rng.random() < .4 and lits:
        T[rng.integers(n)] = rng.choice(lits)
        Cv[rng.integers(n), rng.integers(m)] = rng.choice(lits) * rng.choice([.98, 1., 1.02])
    return T, p, V, K, al, Cv, X


def case_kernels(h):
    H, G, KS, g = h.need(TH, 'enthalpy', 'gibbs', 'adiabatic_bulk_modulus', 'gruneisen_parameter')
    rng = h.rng('C05')
    lits = [x for x in h.lits(TH) if x < 2000]
    for _ in range(h.n(500, 8000)):
        T, p, V, K, al, Cv, X = a = arrays(h, rng, lits)
        b = [x.copy() for x in a]
        h.current = dict(zip(('T', 'p', 'V', 'KT', 'alpha', 'Cv', 'X'), b))
        h.close('kernels', dict(h.current, fn='enthalpy'), H(V, p, X), X + p * V * NA / 1000, 1e-9)
        h.close('kernels', dict(h.current, fn='gibbs'), G(V, p, X), X + p * V * NA / 1000, 1e-9)
        with np.errstate(all='ignore'):
            for f, Kf in ((1., K), (1e9, K / 1e9), (2.9e13, K / 2.9e13)):
                w = np.where((T[:, None] == 0) | (Cv == 0), Kf, Kf + al ** 2 * V * T[:, None] * (f * Kf) ** 2 / (Cv / NA) / f)
                h.close('kernels', dict(h.current, fn='KS', factor=f), KS(T, V, Kf, al, Cv, f), w, 1e-9, floor=0)
            w = np.where(Cv == 0, 0., al * V * K / (Cv / NA))
        h.close('kernels', dict(h.current, fn='gamma'), g(V, K, al, Cv), w, 1e-9, floor=0)
        if not all(np.array_equal(x, y) for x, y in zip(a, b)): h.record('kernels', h.current, False, 'arguments unchanged', 'modified')
