"""Reference formulas in numpy (independent of the repository)."""
import numpy as np
HP, KB, NA = 6.62607015e-34, 1.380649e-23, 6.02214076e23
HBAR = HP / (2 * np.pi)
EH = 4.3597447222071e-18       # CODATA 2018, J
EV = 1.602176634e-19
BOHR = 5.29177210903e-11
CL = 299792458.


def osc(kind, T, w):
    T, w = np.broadcast_arrays(np.asarray(T, float), np.asarray(w, float))
    p = w > 0
    ws = np.where(p, w, 1e12)
    Ts = np.where(T > 0, T, 1.)
    hot = p & (T > 0)
    x = HP * ws / (KB * Ts)
    ex = np.exp(-x)
    if kind == 'zpe': return np.where(p, NA * HP * ws / 2000, 0.)
    if kind == 'eth': return np.where(hot, NA * HP * ws / 1000 * ex / -np.expm1(-x), 0.)
    if kind == 'S': return np.where(hot, NA * KB * (x * ex / -np.expm1(-x) - np.log(-np.expm1(-x))), 0.)
    if kind == 'F': return np.where(p, NA / 1000 * (HP * ws / 2 + np.where(hot, KB * Ts * np.log(-np.expm1(-x)), 0.)), 0.)
    if kind == 'Cv': return np.where(hot, NA * KB * x * x * ex / np.expm1(-x) ** 2, 0.)
    raise KeyError(kind)
