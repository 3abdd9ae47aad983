"""Specification of elasticity in Voigt notation, shared by C12-C19."""
import itertools
from pyvc.vc import *

SO = 'quantas.soec.utils.soec_obj.'
SE = 'quantas.seismic.utils.seismic_obj.'
R3 = range(3)
ALL4 = list(itertools.product(R3, repeat=4))


def V(i, j): return i if i == j else 6 - i - j
def w(I): return 1 if I < 3 else 2


def voigt(name='c', zero=None):
    """symmetric 6x6 matrix of free reals; zero(i, j) (i <= j) tells entries that are exactly 0"""
    def f(i, j):
        i, j = min(i, j), max(i, j)
        if zero is not None and zero(i, j): return t.const(0)
        return t.app(name, i, j)
    return new_array((6, 6), f)


def C4(C, i, j, k, l): return C.get(V(i, j), V(k, l))
def S4(S, i, j, k, l): return S.get(V(i, j), V(k, l)) / (w(V(i, j)) * w(V(k, l)))


def angles(*names): return [t.sym(n) for n in names]


def n_dir(th, ph): return [t.sin(th) * t.cos(ph), t.sin(th) * t.sin(ph), t.cos(th)]


def b_dir(th, ph, ch):
    """second vector: rotation by chi in the plane orthogonal to n_dir"""
    return [t.cos(th) * t.cos(ph) * t.cos(ch) - t.sin(ph) * t.sin(ch),
            t.cos(th) * t.sin(ph) * t.cos(ch) + t.cos(ph) * t.sin(ch),
            -t.sin(th) * t.cos(ch)]


def trig(p):
    """sin(x)^2 -> 1 - cos(x)^2 in a polynomial {monomial: coefficient}"""
    from fractions import Fraction
    for _ in range(40):
        hit = next((m for m in p if any(a.op == 'app' and a.args[0] == 'sin' and e >= 2 for a, e in m)), None)
        if hit is None: return p
        out = {}
        for m, c in p.items():
            k = next((i for i, (a, e) in enumerate(m) if a.op == 'app' and a.args[0] == 'sin' and e >= 2), None)
            if k is None:
                out[m] = out.get(m, 0) + c
                continue
            a, e = m[k]
            rest = t.polynode({m[:k] + m[k + 1:]: Fraction(1)})
            co = t.app('cos', *a.args[1:]) if False else t.cos(a.args[1])
            q = t.mul(rest, t.power(a, e % 2) if e % 2 else t.const(1))
            f = t.sub(t.const(1), t.mul(co, co))
            for _k in range(e // 2): q = t.mul(q, f)
            for mm, cc in t.nf(q).items(): out[mm] = out.get(mm, 0) + c * cc
        p = {m: c for m, c in out.items() if c}
    return p


def dsum(n, f):
    r = t.const(0)
    for ix in itertools.product(R3, repeat=n): r = r + f(*ix)
    return r


def soec(v, C, density=None, cls='SOEC'):
    return v.call(SO + cls, C) if density is None else v.call(SO + cls, C, density)


def inv_rules(C, S):
    """rewriting modulo C S = 1 (the 36 equations, row-reduced over the monomials C_ij S_jk)"""
    from fractions import Fraction
    rows = []
    for i in range(6):
        for k in range(6):
            e = t.const(-1 if i == k else 0)
            for j in range(6): e = e + C.get(i, j) * S.get(j, k)
            rows.append(dict(t.nf(e)))
    rules = {}
    for r in rows:
        for m, q in rules.items():
            if m in r:
                c = r[m]
                for mm, cc in q.items(): r[mm] = r.get(mm, 0) - c * cc
                r = {mm: cc for mm, cc in r.items() if cc}
        piv = next((m for m in r if m), None)
        if piv is None: continue
        c = r[piv]
        r = {mm: cc / c for mm, cc in r.items()}
        for m, q in list(rules.items()):
            if piv in q:
                c = q[piv]
                for mm, cc in r.items(): q[mm] = q.get(mm, 0) - c * cc
                rules[m] = {mm: cc for mm, cc in q.items() if cc}
        rules[piv] = r
    pairs = {m: t.sub(t.polynode({m: Fraction(1)}), t.polynode(q)) for m, q in rules.items()}

    def rw(p):
        out = {}
        for m, c in p.items():
            s = dict(m)
            hit = next((q for q in pairs if all(a in s for a, _ in q)), None)
            if hit is None: out[m] = out.get(m, 0) + c
            else:
                h = {a for a, _ in hit}
                mm = tuple((x, e - (x in h)) for x, e in m if e - (x in h) > 0)
                for q, cc in t.nf(t.mul(t.polynode({mm: Fraction(1)}), pairs[hit])).items(): out[q] = out.get(q, 0) + c * cc
        return {m: c for m, c in out.items() if c}
    return rw
