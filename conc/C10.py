import numpy as np
from eos_np import *
M = 'quantas.eosfit.utils.pv_eos'


def case_forms(h):
    rng, kept = h.rng('C10'), {}
    for _ in range(h.n(60, 1500)):
        for cls in EOS:
            C = h.need(M, cls)
            for order in EOS[cls][2]:
                lin = bool(rng.random() < .4)
                K, k, V0 = rng.uniform(20, 400) * (3 if lin else 1), rng.uniform(2.5, 6), rng.uniform(3, 10) if lin else rng.uniform(40, 900)
                kk = rng.uniform(-.08, .01) * 4 / K
                p = np.array([K, k, kk, V0])
                n = int(rng.integers(2, 9))
                V = V0 * rng.uniform(.85, 1.06, n)
                V[rng.integers(n)] = V0
                V1 = V.copy()
                h.current = {'class': cls, 'order': order, 'linear': lin, 'p': p.copy(), 'V': V}
                fit = rng.random() < .7
                o = kept.setdefault(cls, C()) if rng.random() < .5 else C()
                r = o.eos(p, V, order, lin, fit) if rng.random() < .5 else o.eos(p, V, order=order, linear=lin, dofit=fit)
                ki, kki = implied(cls, order, lin, K, k, kk) if fit else (k, kk)
                h.close(cls, h.current, r, EOS[cls][0](V, K, ki, kki, V0), 1e-8, 1e-9 * K)
                if fit: h.close('implied', h.current, p, [K, ki, kki, V0], 1e-12, 1e-15)
                else: h.close('given parameters', h.current, p[[0, 1, 3]], [K, k, V0], 1e-15)
                h.record('volumes unchanged', h.current, np.array_equal(V, V1), V1, V)
                # scalar volume
                h.close(cls, h.current, o.eos(np.array([K, k, kk, V0]), float(V[0]), order, lin, fit), EOS[cls][0](V[0], K, ki, kki, V0), 1e-8, 1e-9 * K)
