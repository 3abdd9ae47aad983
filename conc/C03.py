import numpy as np
from C02 import gen, SM


def case_identities(h):
    zp, th, S, F, Cv, fu, ff = h.need(SM, 'zero_point_energy', 'thermal_energy', 'entropy', 'vibrational_free_energy',
                                      'isochoric_heat_capacity', 'internal_energy', 'free_energy')
    rng = h.rng('C03')
    lits = h.lits(SM)
    for _ in range(h.n(500, 6000)):
        T, band, W = gen(rng, lits)
        band = np.where(np.abs(band) < 1e9, 0., band)
        T = np.where(T > 0, np.maximum(T, 1e-2), 0.)
        h.current = {'T': T, 'band': band, 'weights': W}
        a, b, s, f, c = [np.asarray(x(T, band, W)) for x in (zp, th, S, F, Cv)]
        sc = W.sum() * band[0].size
        h.close('identities', dict(h.current, identity='F=U-TS'), f, a + b - T[:, None] * s / 1000, 1e-9, 1e-9 * sc, floor=0)
        U0 = rng.uniform(-10, 10, band.shape[2])
        h.close('identities', dict(h.current, identity='total F=U-TS'), ff(U0, f), fu(U0, a[0].copy(), b) - T[:, None] * s / 1000, 1e-9, 1e-9 * sc, floor=0)
        z = T == 0
        if z.any():
            h.close('identities', dict(h.current, identity='T=0'), np.array([f[z] - a[z], b[z], s[z], c[z]]), np.zeros((4, z.sum(), band.shape[2])), 0, 1e-13 * sc)
        Th = T[T > 0]
        if len(Th):
            d = 1e-4 * Th
            pw = band[band > 0]
            if len(pw) and 4.8e-11 * pw.min() / Th.max() < 1e-4: continue
            up, dn = np.ascontiguousarray(Th + d), np.ascontiguousarray(Th - d)
            mid = np.ascontiguousarray(Th)
            cc, ss = np.asarray(Cv(mid, band, W)), np.asarray(S(mid, band, W))
            dU = (np.asarray(th(up, band, W)) - np.asarray(th(dn, band, W))) / (2 * d)[:, None] * 1000
            dF = -(np.asarray(F(up, band, W)) - np.asarray(F(dn, band, W))) / (2 * d)[:, None] * 1000
            h.close('identities', dict(h.current, identity='Cv=dU/dT'), cc, dU, 1e-4, 1e-5 * sc, floor=0)
            h.close('identities', dict(h.current, identity='S=-dF/dT'), ss, dF, 1e-4, 1e-5 * sc, floor=0)
