"""P(V) equations of state: published closed forms, truncation-implied parameters, and the meaning of
K0, K0', K0'' as derivatives of the pressure the code returns."""
from pyvc.vc import *
from fractions import Fraction
from pyvc import arrays as A

PV = 'quantas.eosfit.utils.pv_eos.'


def Q(a, b=1): return t.const(Fraction(a, b), 'R')


def murnaghan(V, K, k, kk, V0): return K / k * (t.power(V0 / V, k) - 1)


def bm(V, K, k, kk, V0):
    f = (t.power(V0 / V, Q(2, 3)) - 1) / 2
    return 3 * K * f * t.power(1 + 2 * f, Q(5, 2)) * (1 + Q(3, 2) * (k - 4) * f + Q(3, 2) * (K * kk + (k - 4) * (k - 3) + Q(35, 9)) * f * f)


def ns(V, K, k, kk, V0):
    f = t.log(V0 / V) / 3
    return 3 * K * (V0 / V) * f * (1 + Q(3, 2) * (k - 2) * f + Q(3, 2) * (1 + K * kk + (k - 2) + (k - 2) * (k - 2)) * f * f)


def vinet(V, K, k, kk, V0):
    f = 1 - t.power(V / V0, Q(1, 3))
    return 3 * K * f / t.power(1 - f, 2) * t.exp(Q(3, 2) * (k - 1) * f)


def tait(V, K, k, kk, V0):
    a = (1 + k) / (1 + k + K * kk)
    b = k / K - kk / (1 + k)
    c = (1 + k + K * kk) / (k * k + k - K * kk)
    return (t.power((V / V0 + a - 1) / a, -1 / c) - 1) / b


def k2(lin): return 3 if lin else 1


# class -> closed form, {order: (implied K' or None, implied K'' or None)}
def bm_kk(K, k): return -((3 - k) * (4 - k) + Q(35, 9)) / K
def ns_kk(K, k): return -(1 + (k - 2) + (k - 2) * (k - 2)) / K
def vinet_kk(K, k): return -(k * k / 4 + k / 2 - Q(19, 36)) / K
def tait_kk(K, k): return -k / K
def zero(K, k): return Q(0)


EOS = {'Murnaghan': (murnaghan, zero, {3: (None, True)}),
       'BirchMurnaghan': (bm, bm_kk, {2: (4, True), 3: (None, True), 4: (None, False)}),
       'NaturalStrain': (ns, ns_kk, {2: (2, True), 3: (None, True), 4: (None, False)}),
       'Vinet': (vinet, vinet_kk, {2: (1, True), 3: (None, True)}),
       'Tait': (tait, tait_kk, {2: (4, True), 3: (None, True), 4: (None, False)})}


def implied(cls, order, lin, K, k, kk):
    f, imp, orders = EOS[cls]
    k1, ikk = orders[order]
    if k1 is not None: k = Q(k1 * k2(lin))
    if ikk: kk = imp(K, k)
    return k, kk


def domain(v, cls, K, k, kk, V0, *Vs):
    v.assume(t.gt(K, 0), t.gt(V0, 0), *[t.gt(V, 0) for V in Vs])
    if cls == 'Murnaghan': v.assume(t.ne(k, 0))
    if cls == 'Tait':
        a = (1 + k) / (1 + k + K * kk)
        v.assume(t.ne(1 + k, 0), t.ne(1 + k + K * kk, 0), t.ne(k * k + k - K * kk, 0), t.ne(k / K - kk / (1 + k), 0), t.gt(a, 0), *[t.gt(V / V0 + a - 1, 0) for V in Vs])


def forms(cls):
    f, imp, orders = EOS[cls]

    @unit('%s: published closed form and implied parameters' % cls)
    def u(v):
        for order in orders:
            for lin in (False, True):
                tag = 'order %d, %s' % (order, 'axial' if lin else 'volume')
                def run():
                    K, k, kk, V0, n = t.sym('K0'), t.sym('Kp'), t.sym('Kpp'), t.sym('V0'), t.sym('n', 'I')
                    v.assume(t.ge(n, 2))
                    p = new_array((4,), lambda i: A.pick(i, [K, k, kk, V0]))
                    V = sym_array('V', (n,))
                    i, = v.index((n,))
                    V_ = V.get(i)
                    ki, kki = implied(cls, order, lin, K, k, kk)
                    domain(v, cls, K, ki, kki, V0, V_)
                    v.I.check_defined = False
                    r = v.call(PV + cls + '.eos', v.call(PV + cls), p, V, order=order, linear=lin, dofit=True)
                    if not v.shape(tag, r, (n,)): return
                    v.eq('%s: P(V)' % tag, r.get(i), f(V_, K, ki, kki, V0))
                    for j, nm, want in ((0, 'K0', K), (1, "K'", ki), (2, "K''", kki), (3, 'V0', V0)):
                        v.eq('%s: %s afterwards' % (tag, nm), p.get(j), want)
                    v.eq('%s: volumes unchanged' % tag, V.get(i), t.app('V', i))
                v.paths(tag, run)
                def plain():
                    # evaluation with given parameters (dofit off): same closed form, scalar volume
                    K, k, kk, V0, V_ = t.sym('K0'), t.sym('Kp'), t.sym('Kpp'), t.sym('V0'), t.sym('V')
                    domain(v, cls, K, k, kk, V0, V_)
                    v.I.check_defined = False
                    p = new_array((4,), lambda i: A.pick(i, [K, k, kk, V0]))
                    r = v.call(PV + cls + '.eos', v.call(PV + cls), p, V_, order, lin)
                    v.eq('%s: P(V) of given parameters' % tag, t.T(r if not isinstance(r, ArrV) else r.get()), f(V_, K, k, kk, V0))
                    for j, w in ((0, K), (1, k), (3, V0)): v.eq('%s: parameter %d unchanged' % (tag, j), p.get(j), w)
                v.paths(tag + ' (evaluation)', plain)

    @unit("%s: P(V0) = 0, K = -V dP/dV and its pressure derivatives are K0, K', K''" % cls)
    def d(v):
        for order in orders:
            for lin in (False, True):
                tag = 'order %d, %s' % (order, 'axial' if lin else 'volume')
                def run():
                    K, k, kk, V0, x = t.sym('K0'), t.sym('Kp'), t.sym('Kpp'), t.sym('V0'), t.sym('V')
                    ki, kki = implied(cls, order, lin, K, k, kk)
                    domain(v, cls, K, ki, kki, V0, x, V0)
                    v.I.check_defined = False
                    p = new_array((4,), lambda i: A.pick(i, [K, k, kk, V0]))
                    r = v.call(PV + cls + '.eos', v.call(PV + cls), p, x, order=order, linear=lin, dofit=True)
                    r = t.T(r if not isinstance(r, ArrV) else r.get())
                    # the code's pressure as a function of V
                    p1 = t.diff(r, x); Kx = -x * p1; k1 = t.diff(Kx, x); p2 = t.diff(p1, x); k2 = t.diff(k1, x)
                    at = lambda e: t.subst(e, {x: V0})
                    v.eq('%s: P(V0) = 0' % tag, at(r), 0)
                    v.eq('%s: K(V0) = K0' % tag, at(Kx), K)
                    v.eq("%s: dK/dP at V0 = K'" % tag, at(k1), p.get(1) * at(p1))
                    v.eq("%s: d2K/dP2 at V0 = K''" % tag, at(k2 * p1 - k1 * p2), p.get(2) * t.power(at(p1), 3))
                v.paths(tag, run)


for _c in EOS: forms(_c)
