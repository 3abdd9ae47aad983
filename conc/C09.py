import numpy as np
from eos_np import *
M = 'quantas.qha.utils.ev_eos'
CS = np.array([1 / 280, -4 / 105, 1 / 5, -4 / 5, 0, 4 / 5, -1 / 5, 4 / 105, -1 / 280])
PV = {'murnaghan': lambda V, K, k, V0: murnaghan(V, K, k, 0, V0),
      'birchmurnaghan': lambda V, K, k, V0: bm(V, K, k, -((3 - k) * (4 - k) + 35 / 9) / K, V0),
      'vinet': lambda V, K, k, V0: vinet(V, K, k, 0, V0),
      'pouriertarantola': lambda V, K, k, V0: ns(V, K, k, -(1 + (k - 2) + (k - 2) ** 2) / K, V0)}


def case_forms(h):
    rng = h.rng('C09')
    C = h.need(M, 'EnergyEOS')
    kept = C()
    for _ in range(h.n(80, 2000)):
        for tag in PV:
            V0 = rng.uniform(20, 900)
            K, k, E0 = 10 ** rng.uniform(-4, 2), rng.uniform(2.2, 7), rng.uniform(-3000, 10) * (rng.random() < .5)
            o = kept if rng.random() < .5 else C()
            n = int(rng.integers(2, 9))
            V = V0 * rng.uniform(.85, 1.1, n)
            V[rng.integers(n)] = V0
            h.current = dict(tag=tag, K=K, k=k, E0=E0, V0=V0, V=V.copy())
            e = getattr(o, tag)
            sc = K * V0
            h.close('E(V0)', h.current, e(V0, E0, K, k, V0), E0, 1e-12, 1e-11 * sc)
            P = PV[tag](V, K, k, V0)
            V1, pars = V.copy(), np.array([E0, K, k, V0])
            r = o.pressure(tag, pars, V)
            h.close('pressure', h.current, r, P, 1e-8, 1e-9 * K)
            h.record('frame', h.current, np.array_equal(V, V1) and np.array_equal(pars, [E0, K, k, V0]), [V1, [E0, K, k, V0]], [V, pars])
            st = 2e-3 * V0
            d = np.array([sum(c * e(v + (i - 4) * st, 0., K, k, V0) for i, c in enumerate(CS)) / st for v in V])
            h.close('pressure is -dE/dV', h.current, r, -d, 1e-5, 1e-7 * K)
            h.close('array energies', h.current, e(V, E0, K, k, V0), [e(v, E0, K, k, V0) for v in V], 1e-13, 1e-12 * sc)


def case_fit(h):
    rng = h.rng('C09f')
    C = h.need(M, 'EnergyEOS')
    kept = C()
    for _ in range(h.n(12, 200)):
        for tag in PV:
            V0, K, k, E0 = rng.uniform(40, 300), rng.uniform(.005, .05), rng.uniform(3, 5.5), rng.uniform(-20, 0)
            o = kept if rng.random() < .5 else C()
            V = np.linspace(.94, 1.05, int(rng.integers(7, 12))) * V0
            E = getattr(o, tag)(V, E0, K, k, V0)
            h.current = dict(tag=tag, K=K, k=k, E0=E0, V0=V0, V=V)
            p, err = o.fit(tag, V, E)
            h.close('fit recovers the curve', h.current, p, [E0, K, k, V0], 2e-4, 1e-7)
