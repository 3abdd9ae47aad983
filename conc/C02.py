import numpy as np
from spec_np import osc, NA, KB, HP

SM = 'quantas.utils.physics.statistical_mechanics'
NAMES = {'zero_point_energy': 'zpe', 'thermal_energy': 'eth', 'entropy': 'S', 'vibrational_free_energy': 'F', 'isochoric_heat_capacity': 'Cv'}


def gen(rng, lits=()):
    nT, nq, nb, nv = [int(x) for x in rng.integers(1, 6, 4)]
    T = np.sort(rng.uniform(0, 2000, nT))
    lits = [x for x in lits if x < 1e16]
    if rng.random() < .5: T[0] = 0.
    if rng.random() < .2: T = rng.uniform(1, 30, nT)
    if rng.random() < .1: T = T * 0.
    band = 10 ** rng.uniform(11, 14, (nq, nb, nv))
    if rng.random() < .3:
        T = 10 ** rng.uniform(-2, 3.5, nT)
        band = 10 ** rng.uniform(-1.5, 1.5, (nq, nb, nv)) * 2.1e10 * T[0]
    if rng.random() < .4 and len(lits):
        T[rng.integers(nT)] = rng.choice(lits) * rng.choice([.99, 1., 1.01])
        band[:] = np.where(rng.random(band.shape) < .3, rng.choice(lits, band.shape) * rng.choice([.99, 1., 1.01]), band)
        if rng.random() < .5: band = 10 ** rng.uniform(-1.5, 1.5, (nq, nb, nv)) * 2.1e10 * max(T.max(), 1e-3)
    m = rng.random(band.shape)
    band = np.where(m < .08, 0., np.where(m < .16, -band, band))
    W = rng.integers(1, 9, nq).astype(float)
    if rng.random() < .7: W /= W.sum()
    return np.ascontiguousarray(T), np.ascontiguousarray(band), W


def group(h, fn):
    f = h.need(SM, fn)
    rng = h.rng('C02' + fn)
    lits = h.lits(SM)
    for _ in range(h.n(400, 6000)):
        T, band, W = gen(rng, lits)
        c = (T.copy(), band.copy(), W.copy())
        h.current = {'T': T, 'band': band, 'weights': W}
        r = np.asarray(f(T, band, W))
        want = np.einsum('q,qbiv->iv', W, osc(NAMES[fn], T[None, None, :, None], band[:, :, None, :]))
        pw, pT = band[band > 0], T[T > 0]
        xmin = (HP * pw.min() / (KB * pT.max())) if len(pw) and len(pT) else 1.
        if xmin < 1e-15: continue        # below the resolution of machine arithmetic
        h.close(fn, h.current, r, want, max(1e-9, 1e-14 / xmin), 1e-10 * W.sum() * band[0].size * max(1., T.max() if fn == 'vibrational_free_energy' else 1.), floor=0)
        if not all(np.array_equal(a, b) for a, b in zip(c, (T, band, W))):
            h.record(fn, h.current, False, 'arguments unchanged', 'arguments modified')


def case_zero_point_energy(h): group(h, 'zero_point_energy')
def case_thermal_energy(h): group(h, 'thermal_energy')
def case_entropy(h): group(h, 'entropy')
def case_vibrational_free_energy(h): group(h, 'vibrational_free_energy')
def case_isochoric_heat_capacity(h): group(h, 'isochoric_heat_capacity')


def case_totals(h):
    fu, ff = h.need(SM, 'internal_energy', 'free_energy')
    rng = h.rng('C02tot')
    for _ in range(h.n(100, 2000)):
        nT, nv = [int(x) for x in rng.integers(1, 8, 2)]
        U0, Uzp, X = rng.uniform(-1e4, 1e4, nv), rng.uniform(0, 100, nv), rng.uniform(-50, 500, (nT, nv))
        h.current = {'U0': U0, 'Uzp': Uzp, 'X': X}
        h.close('totals', h.current, fu(U0, Uzp, X), U0 + Uzp + X, 1e-12)
        h.close('totals', h.current, ff(U0, X), U0 + X, 1e-12)
