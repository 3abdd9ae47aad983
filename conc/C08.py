import numpy as np
from spec_np import *


def gauss(f, n=400):
    """int_0^{pi/2} f(theta) dtheta, Gauss-Legendre"""
    x, w = np.polynomial.legendre.leggauss(n)
    return np.sum(w * f((x + 1) * np.pi / 4)) * np.pi / 4


def kieffer(kind, T, nus):
    """3 (2/pi)^3 int asin(u)^2/sqrt(1-u^2) f(theta u / T) du, with u = sin a"""
    out = 0.
    if T == 0: return 0.
    for nu in nus:
        xi = HP * nu / (KB * T)
        def g(a):
            x = xi * np.sin(a)
            l = np.log(-np.expm1(-x))
            f = {'helmholtz': T * l, 'entropy': x * np.exp(-x) / -np.expm1(-x) - l, 'heat_capacity': x * x * np.exp(-x) / np.expm1(-x) ** 2}[kind]
            return a * a * f
        out += 3 * NA * KB * (2 / np.pi) ** 3 * gauss(g)
    return out


def case_kieffer(h):
    K = h.need('quantas.qha.utils.kieffer', 'Kieffer')
    rng = h.rng('C08')
    for _ in range(h.n(25, 400)):
        nus = rng.uniform(.5, 8, int(rng.integers(1, 7))) * 1e12
        o = K(nus)
        keep = nus.copy()
        Ts = list(rng.uniform(5, 2500, 2)) + list(rng.uniform(3, 30, 2)) + [0., 300.]
        rng.shuffle(Ts)
        for T in Ts:
            for kind in ('helmholtz', 'entropy', 'heat_capacity'):
                h.current = {'kind': kind, 'T': T, 'frequencies': nus}
                h.close(kind, h.current, getattr(o, kind)(T), kieffer(kind, T, keep), 2e-5, 1e-9)
        h.record('kieffer', {'frequencies': keep}, np.array_equal(nus, keep) and np.array_equal(o.acofreq, keep), 'frequencies unchanged', 'modified')
