"""numpy specification of elasticity and generators of stiffness matrices"""
import itertools
import numpy as np


def V(i, j): return i if i == j else 6 - i - j
def w(I): return 1. if I < 3 else 2.
IJ = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]


def C4(C):
    r = np.zeros((3,) * 4)
    for i, j, k, l in itertools.product(range(3), repeat=4): r[i, j, k, l] = C[V(i, j), V(k, l)]
    return r


def S4(S):
    r = np.zeros((3,) * 4)
    for i, j, k, l in itertools.product(range(3), repeat=4): r[i, j, k, l] = S[V(i, j), V(k, l)] / w(V(i, j)) / w(V(k, l))
    return r


ORTHO_ZERO = [(i, j) for i in range(6) for j in range(i + 1, 6) if j >= 3]


def spd(rng, scale=100., cls='tri'):
    """random stable stiffness matrix (GPa) of a crystal class in standard orientation"""
    while True:
        a = rng.normal(size=(6, 6))
        m = a @ a.T + 2.5 * np.eye(6)
        m = m * scale / 6
        m[:3, :3] += scale * rng.uniform(0, .5)
        m = mask(m, cls)
        e = np.linalg.eigvalsh(m)
        if e[0] > 1e-3 * e[-1]: return m


def mask(m, cls):
    m = (m + m.T) / 2
    if cls == 'tri': return m
    z = m.copy()
    keep = lambda *ps: [z.__setitem__((i, j), 0.) for i in range(6) for j in range(6) if i != j and (min(i, j), max(i, j)) not in ps]
    def put(i, j, x): z[i, j] = z[j, i] = x
    base = [(0, 1), (0, 2), (1, 2)]
    if cls == 'mono': keep(*(base + [(0, 4), (1, 4), (2, 4), (3, 5)])); return z
    if cls == 'ortho': keep(*base); return z
    if cls in ('tet_low', 'tet_high', 'trig_low', 'trig_high', 'hex', 'cubic'):
        ex = {'tet_low': [(0, 5), (1, 5)], 'trig_low': [(0, 3), (1, 3), (4, 5), (0, 4), (1, 4), (3, 5)], 'trig_high': [(0, 3), (1, 3), (4, 5)]}.get(cls, [])
        keep(*(base + ex))
        put(1, 1, z[0, 0]); put(1, 2, z[0, 2]); put(4, 4, z[3, 3])
        if cls == 'tet_low': put(1, 5, -z[0, 5])
        if cls.startswith('trig'): put(1, 3, -z[0, 3]); put(4, 5, z[0, 3])
        if cls == 'trig_low': put(1, 4, -z[0, 4]); put(3, 5, -z[0, 4])
        if cls in ('trig_low', 'trig_high', 'hex'): put(5, 5, (z[0, 0] - z[0, 1]) / 2)
        if cls == 'cubic': put(2, 2, z[0, 0]); put(0, 2, z[0, 1]); put(1, 2, z[0, 1]); put(5, 5, z[3, 3])
    return z


CLASSES = ('tri', 'mono', 'ortho', 'tet_low', 'tet_high', 'trig_low', 'trig_high', 'hex', 'cubic')


def n_dir(th, ph): return np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)])


def b_dir(th, ph, ch):
    return np.array([np.cos(th) * np.cos(ph) * np.cos(ch) - np.sin(ph) * np.sin(ch),
                     np.cos(th) * np.sin(ph) * np.cos(ch) + np.cos(ph) * np.sin(ch), -np.sin(th) * np.cos(ch)])


def angle(rng, n):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < .25: out.append(rng.choice([0., np.pi / 2, np.pi, np.pi / 4, 2 * np.pi, 3 * np.pi / 2]))
        else: out.append(rng.uniform(0, 2 * np.pi))
    return out


class Near(object):
    """now and then an input next to the previous one (one entry or one angle apart), so that a value kept from
    an earlier evaluation under too coarse a key shows"""
    def __init__(self, rng): self.rng, self.m, self.a = rng, None, None

    def matrix(self, C):
        if self.m is not None and self.rng.random() < .3:
            i, j = sorted(self.rng.integers(0, 6, 2)) if self.rng.random() < .5 else [int(self.rng.integers(0, 6))] * 2
            n = self.m.copy()
            n[i, j] *= 1.1
            n[j, i] = n[i, j]
            e = np.linalg.eigvalsh(n)
            if e[0] > 1e-3 * e[-1]: C = n
        self.m = C.copy()
        return C

    def angles(self, x):
        x = list(x)
        if self.a is not None and self.rng.random() < .4:
            k = int(self.rng.integers(0, len(x)))
            y = list(self.a)
            y[k] += float(self.rng.choice([1e-7, 1e-5, 1e-3, 1e-2, .3]))
            x = y
        self.a = list(x)
        return x
