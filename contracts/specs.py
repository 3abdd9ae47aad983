"""Specification functions (mathematical terms), independent of the repository."""
from fractions import Fraction
from pyvc import terms as t
from pyvc.syslib import constant as _c

h, k, NA = _c('h'), _c('k'), _c('N_A')


def n(x): return t.T(x)


def pos(w): return t.gt(w, 0)


# single harmonic oscillator, kJ/mol (energies) and J/mol/K
def zpe(T, w): return t.ite(pos(w), h * w * NA / 2000, t.const(0))


def x_(T, w): return t.div(t.mul(h, w), t.mul(k, T))


def act(T, w): return t.and_(pos(w), t.ne(T, 0))


def eth(T, w): return t.ite(act(T, w), t.div(NA * h * w, 1000 * (t.exp(x_(T, w)) - 1)), t.const(0))


def S(T, w):
    x = x_(T, w)
    return t.ite(act(T, w), NA * k * (x / (t.exp(x) - 1) - t.log(1 - t.exp(-x))), t.const(0))


def F(T, w):
    x = x_(T, w)
    return t.ite(pos(w), NA / 1000 * (h * w / 2 + t.ite(t.ne(T, 0), k * T * t.log(1 - t.exp(-x)), t.const(0))), t.const(0))


def Cv(T, w):
    x = x_(T, w)
    return t.ite(act(T, w), NA * k * x * x * t.exp(x) / ((t.exp(x) - 1) * (t.exp(x) - 1)), t.const(0))
