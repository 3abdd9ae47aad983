"""Voigt <-> tensor."""
from pyvc.vc import *
from .elastic import *


def tensors(prefix, cls, scale):
    @unit('%s: stiffness and compliance tensors of the Voigt matrix' % cls)
    def u(v):
        def run():
            C, rho = voigt(), t.sym('rho')
            v.assume(t.gt(rho, 0))
            o = v.call(prefix + cls, C, rho)
            S = v.attr(o, 'S')
            f = scale(rho)
            v.arr_eq('C6', v.attr(o, 'C'), (6, 6), lambda i, j: t.app('c', min(i, j), max(i, j)))
            for nm, pr in (('stiffness', 'C'), ('compliance', 'S')):
                v.arr_eq('property ' + nm, v.attr(o, nm), (6, 6), lambda i, j: v.attr(o, pr).get(i, j))
            v.arr_eq('Cmat', v.attr(o, 'Cmat'), (3, 3, 3, 3), lambda i, j, k, l: C4(C, i, j, k, l) * f)
            v.arr_eq('Smat', v.attr(o, 'Smat'), (3, 3, 3, 3), lambda i, j, k, l: S4(S, i, j, k, l))
            rw = inv_rules(C, S)
            for i in range(6):
                for j in range(6):
                    v.eq('S is the inverse of C [%d,%d]' % (i, j), sum((C.get(i, k) * S.get(k, j) for k in range(6)), t.const(0)), t.const(int(i == j)), rewrites=rw)
            cm, sm = v.attr(o, 'Cmat'), v.attr(o, 'Smat')
            for i, j, k, l in ALL4:
                v.eq('C minor symmetry %d%d%d%d' % (i, j, k, l), cm.get(i, j, k, l), cm.get(j, i, k, l))
                v.eq('C major symmetry %d%d%d%d' % (i, j, k, l), cm.get(i, j, k, l), cm.get(k, l, i, j))
                v.eq('S minor symmetry %d%d%d%d' % (i, j, k, l), sm.get(i, j, k, l), sm.get(i, j, l, k))
                v.eq('S major symmetry %d%d%d%d' % (i, j, k, l), sm.get(i, j, k, l), sm.get(k, l, i, j))
                if V(i, j) <= 5 and i <= j and k <= l:
                    tot = t.const(0)
                    for m in R3:
                        for n in R3: tot = tot + cm.get(i, j, m, n) * sm.get(m, n, k, l)
                    iden = t.T(int(i == k and j == l) + int(i == l and j == k)) / 2
                    v.eq('C:S = symmetric identity %d%d%d%d' % (i, j, k, l), tot / f, iden, rewrites=rw)
            v.eq('density', v.attr(o, 'density'), rho)
        v.paths('tensors', run)


tensors(SO, 'SOEC', lambda r: t.const(1))
tensors(SE, 'Seismic', lambda r: 1000 / r)


@unit('SOECOrtho takes the tensors over unchanged and accepts nothing but a SOEC')
def u_ortho(v):
    def run():
        C, rho = voigt(), t.sym('rho')
        o = v.call(SO + 'SOEC', C, rho)
        q = v.call(SO + 'SOECOrtho', o)
        for nm, n in (('C', 2), ('S', 2), ('Smat', 4), ('Cmat', 4)):
            v.arr_eq(nm, v.attr(q, nm), (6, 6) if n == 2 else (3,) * 4, lambda *ix: v.attr(o, nm).get(*ix))
        v.eq('density', v.attr(q, 'density'), rho)
    v.paths('ortho', run)
    out = v.I.explore(lambda: v.call(SO + 'SOECOrtho', voigt()))
    v.fact('a bare matrix is rejected with TypeError', bool(out) and all(p.kind == 'raise' and p.value.cls.name == 'TypeError' for p in out), str([p.kind for p in out]))


@unit('the printed matrices are the stiffness in GPa and the compliance in TPa^-1, entry by entry', timeout=300)
def u_printed(v):
    from . import printed
    printed.matrices(v)
