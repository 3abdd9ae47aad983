"""Closed forms of the P(V) equations of state (independent of the repository)."""
import numpy as np


def murnaghan(V, K, k, kk, V0): return K / k * ((V0 / V) ** k - 1)


def bm(V, K, k, kk, V0):
    f = ((V0 / V) ** (2 / 3) - 1) / 2
    return 3 * K * f * (1 + 2 * f) ** 2.5 * (1 + 1.5 * (k - 4) * f + 1.5 * (K * kk + (k - 4) * (k - 3) + 35 / 9) * f * f)


def ns(V, K, k, kk, V0):
    f = np.log(V0 / V) / 3
    return 3 * K * (V0 / V) * f * (1 + 1.5 * (k - 2) * f + 1.5 * (1 + K * kk + (k - 2) + (k - 2) ** 2) * f * f)


def vinet(V, K, k, kk, V0):
    f = 1 - (V / V0) ** (1 / 3)
    return 3 * K * f / (1 - f) ** 2 * np.exp(1.5 * (k - 1) * f)


def tait(V, K, k, kk, V0):
    a, b, c = (1 + k) / (1 + k + K * kk), k / K - kk / (1 + k), (1 + k + K * kk) / (k * k + k - K * kk)
    return (((V / V0 + a - 1) / a) ** (-1 / c) - 1) / b


EOS = {'Murnaghan': (murnaghan, lambda K, k: 0., {3: (None, 1)}),
       'BirchMurnaghan': (bm, lambda K, k: -((3 - k) * (4 - k) + 35 / 9) / K, {2: (4, 1), 3: (None, 1), 4: (None, 0)}),
       'NaturalStrain': (ns, lambda K, k: -(1 + (k - 2) + (k - 2) ** 2) / K, {2: (2, 1), 3: (None, 1), 4: (None, 0)}),
       'Vinet': (vinet, lambda K, k: -(k * k / 4 + k / 2 - 19 / 36) / K, {2: (1, 1), 3: (None, 1)}),
       'Tait': (tait, lambda K, k: -k / K, {2: (4, 1), 3: (None, 1), 4: (None, 0)})}


def implied(cls, order, lin, K, k, kk):
    f, imp, od = EOS[cls]
    k1, i2 = od[order]
    if k1 is not None: k = float(k1 * (3 if lin else 1))
    if i2: kk = imp(K, k)
    return k, kk
