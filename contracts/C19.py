"""Christoffel analysis of seismic waves."""
from pyvc.vc import *
from pyvc import nplib
from .elastic import *

NOTE = 'precondition: stable crystal and non-degenerate phase velocities > 0, |v_g| > 0'


def seismic(v, direction=True):
    v.I.check_defined = False
    v.assumptions.add(NOTE)
    C, rho = voigt(), t.sym('rho')
    v.assume(t.gt(rho, 0))
    o = v.call(SE + 'Seismic', C, rho)
    th, ph = angles('theta', 'phi')
    if direction: v.meth(o, 'spherical_direction', th, ph)
    return o, C, rho, th, ph


DERIVED = ('grad_M', 'phase_velocity', 'group_velocity', 'powerflow_angle')


def christoffel(C, rho, n):
    return lambda i, l: 1000 / rho * dsum(2, lambda j, k: C4(C, i, j, k, l) * n[j] * n[k])


def grad(C, rho, n):
    """d M_il / d n_b"""
    return lambda b, i, l: 1000 / rho * dsum(1, lambda k: (C4(C, i, b, k, l) + C4(C, i, k, b, l)) * n[k])


def hess(C, rho): return lambda a, b, i, l: 1000 / rho * (C4(C, i, a, b, l) + C4(C, i, b, a, l))


def kind(v, pre): return [k for k in v.I.memo if isinstance(k, str) and k.split('!')[0] == pre]


@unit('Christoffel matrix, its gradient and second derivatives')
def u_m(v):
    def run():
        o, C, rho, th, ph = seismic(v)
        n = n_dir(th, ph)
        v.arr_eq('direction', v.attr(o, 'direction'), (3,), lambda i: n[i])
        v.eq('theta', v.attr(o, 'theta'), th)
        v.eq('phi', v.attr(o, 'phi'), ph)
        v.arr_eq('M', v.attr(o, 'M'), (3, 3), lambda i, l: christoffel(C, rho, n)(i, l))
        v.arr_eq('christoffel', v.attr(o, 'christoffel'), (3, 3), lambda i, l: christoffel(C, rho, n)(i, l))
        v.arr_eq('q', v.attr(o, 'q'), (3,), lambda i: n[i])
        v.arr_eq('grad_M', v.attr(o, 'grad_M'), (3, 3, 3), lambda b, i, l: grad(C, rho, n)(b, i, l))
        v.arr_eq('hessM', v.attr(o, 'hessM'), (3, 3, 3, 3), lambda a, b, i, l: hess(C, rho)(a, b, i, l))
    v.paths('spherical', run)

    def lemma():
        C, rho = voigt(), t.sym('rho')
        q = [t.sym('n%d' % i) for i in R3]
        for i in R3:
            for l in R3:
                for b in R3:
                    g = t.diff(christoffel(C, rho, q)(i, l), q[b])
                    v.eq('lemma: gradient of M_%d%d along %d' % (i, l, b), g, grad(C, rho, q)(b, i, l))
                    for a in R3: v.eq('lemma: second derivative of M_%d%d along %d,%d' % (i, l, a, b), t.diff(g, q[a]), hess(C, rho)(a, b, i, l))
    v.paths('lemma', lemma)

    def run2():
        o, C, rho, _, _ = seismic(v, False)
        q = [t.sym('q%d' % i) for i in R3]
        v.assume(t.gt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2], 0))
        v.meth(o, 'cartesian_direction', new_array((3,), lambda i: q[i]))
        r = t.sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2])
        n = [x / r for x in q]
        d = v.attr(o, 'direction')
        v.arr_eq('direction', d, (3,), lambda i: n[i])
        v.arr_eq('M', v.attr(o, 'M'), (3, 3), lambda i, l: christoffel(C, rho, n)(i, l))
        polar_angles(v, 'direction', n, v.attr(o, 'theta'), v.attr(o, 'phi'))
    v.paths('cartesian', run2)

    def run3(how):
        o, C, rho, _, _ = seismic(v, False)
        q = [t.sym('q%d' % i) for i in R3]
        v.assume(t.gt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2], 0))
        v.meth(o, 'spherical_direction', *angles('alpha', 'beta'))
        for f in DERIVED: v.attr(o, f)
        if how == 'cartesian': v.meth(o, 'cartesian_direction', new_array((3,), lambda i: q[i]))
        else: v.meth(o, 'spherical_direction', *angles('theta', 'phi'))
        n = [v.attr(o, 'direction').get(i) for i in R3]
        v.arr_eq('after an earlier direction: grad_M', v.attr(o, 'grad_M'), (3, 3, 3), lambda b, i, l: grad(C, rho, n)(b, i, l))
        v.attr(o, 'phase_velocity')
        ks = kind(v, 'eigh')
        if v.fact('after an earlier direction: an eigenvalue problem is solved', len(ks) > 0, str(ks)):
            m = v.I.memo[ks[-1]]
            for i in R3:
                for l in R3: v.eq('after an earlier direction: diagonalised matrix [%d,%d]' % (i, l), m[i][l], christoffel(C, rho, n)(i, l))
            w, e = [t.app(ks[-1] + 'w', i) for i in R3], lambda i, a: t.app(ks[-1] + 'v', a, i)
            v.arr_eq('after an earlier direction: eigenval', v.attr(o, 'eigenval'), (3,), lambda i: w[i])
            v.arr_eq('after an earlier direction: eigenvec', v.attr(o, 'eigenvec'), (3, 3), e)
            pv, gm = v.attr(o, 'phase_velocity'), v.attr(o, 'grad_M')
            v.arr_eq('after an earlier direction: group velocity', v.attr(o, 'group_velocity'), (3, 3),
                     lambda i, j: dsum(2, lambda a, b: e(i, a) * gm.get(j, a, b) * e(i, b)) / (2 * pv.get(i)))
    v.paths('earlier direction, then cartesian', lambda: run3('cartesian'))
    v.paths('earlier direction, then spherical', lambda: run3('spherical'))


def polar_angles(v, nm, n, th, ph):
    v.eq('%s: phi is the azimuth of the vector' % nm, ph, t.app('atan2', n[1], n[0]))
    v.eq('%s: theta is the polar angle of the vector' % nm, th, t.app('atan2', t.sqrt(n[0] * n[0] + n[1] * n[1]), n[2]))


@unit('phase velocities and eigenvectors')
def u_phase(v):
    def run():
        o, C, rho, th, ph = seismic(v)
        n = n_dir(th, ph)
        pv = v.attr(o, 'phase_velocity')
        ks = kind(v, 'eigh')
        if not v.fact('one eigenvalue problem', len(ks) == 1, str(ks)): return
        m = v.I.memo[ks[0]]
        for i in R3:
            for l in R3: v.eq('diagonalised matrix is the Christoffel matrix [%d,%d]' % (i, l), m[i][l], christoffel(C, rho, n)(i, l))
        w = [t.app(ks[0] + 'w', i) for i in R3]
        e = lambda i, a: t.app(ks[0] + 'v', a, i)
        v.arr_eq('eigenval', v.attr(o, 'eigenval'), (3,), lambda i: w[i])
        v.arr_eq('eigenvec: row i belongs to eigenvalue i', v.attr(o, 'eigenvec'), (3, 3), e)
        v.arr_eq('phase velocity (signed root)', pv, (3,), lambda i: t.ite(t.lt(w[i], 0), -t.sqrt(-w[i]), t.ite(t.gt(w[i], 0), t.sqrt(w[i]), 0)))
        iso = v.attr(o, 'isotropic_velocity')
        v.arr_eq('relative phase velocity', v.attr(o, 'rel_phase_velocity'), (3,), lambda i: pv.get(i) / iso.get(i))
    v.paths('phase', run)


@unit('group velocity is the gradient of the phase velocity', timeout=300)
def u_group(v):
    def run():
        o, C, rho, th, ph = seismic(v)
        n = n_dir(th, ph)
        gv = v.attr(o, 'group_velocity')
        ks = kind(v, 'eigh')
        if not v.fact('one eigenvalue problem', len(ks) == 1, str(ks)): return
        w = [t.app(ks[0] + 'w', i) for i in R3]
        for x in w: v.assume(t.gt(x, 0))
        e = lambda i, a: t.app(ks[0] + 'v', a, i)
        G, M = grad(C, rho, n), christoffel(C, rho, n)
        dl = lambda i, j: dsum(2, lambda a, b: e(i, a) * G(j, a, b) * e(i, b))
        pv = [t.sqrt(x) for x in w]
        v.arr_eq('gradient of the eigenvalue', v.attr(o, 'grad_eigenval'), (3, 3), dl)
        v.arr_eq('group velocity', gv, (3, 3), lambda i, j: dl(i, j) / (2 * pv[i]))
        for i in R3:
            v.eq('v_g . n = e.M.e / v_p (= v_p by the eigen equation) [%d]' % i, dsum(1, lambda j: gv.get(i, j) * n[j]),
                 dsum(2, lambda a, b: e(i, a) * M(a, b) * e(i, b)) / pv[i])
    v.paths('group', run)


@unit('absolute value, direction, angles and power flow of the group velocity', timeout=300)
def u_gdir(v):
    # the group velocity components are abstracted: grad_M and the eigenvectors are arbitrary
    def run():
        o, C, rho, th, ph = seismic(v)
        n = [t.sym('n%d' % i) for i in R3]
        v.set(o, 'direction', new_array((3,), lambda i: n[i]))
        v.set(o, '_eigenval', new_array((3,), lambda i: t.sym('w%d' % i)))
        for i in R3: v.assume(t.gt(t.sym('w%d' % i), 0))
        v.set(o, '_eigenvec', new_array((3, 3), lambda i, j: t.const(int(j == 0))))
        g = [[t.sym('g%d%d' % (i, j)) for j in R3] for i in R3]
        # with e_i = x, dlambda_i/dn_j = gradM[j][0][0]: one wave mode with an arbitrary gradient
        v.set(o, '_grad_M', new_array((3, 3, 3), lambda j, a, b: t.sym('g%d' % j) if a == b == 0 else t.const(0)))
        v.call(v.get(SE + 'Seismic.solve_group'), o)
        vg = [[t.sym('g%d' % j) / (2 * t.sqrt(t.sym('w%d' % i))) for j in R3] for i in R3]
        v.arr_eq('group velocity', v.attr(o, 'group_velocity'), (3, 3), lambda i, j: vg[i][j])
        ab = [t.sqrt(sum((x * x for x in r), t.const(0))) for r in vg]
        v.arr_eq('absolute value', v.attr(o, 'group_abs'), (3,), lambda i: ab[i])
        v.arr_eq('direction', v.attr(o, 'group_dir'), (3, 3), lambda i, j: vg[i][j] / ab[i])
        d = v.attr(o, 'group_dir')
        for i in R3:
            polar_angles(v, 'group %d' % i, [d.get(i, j) for j in R3], v.attr(o, 'group_theta').get(i), v.attr(o, 'group_phi').get(i))
            c = dsum(1, lambda j: d.get(i, j) * n[j])
            v.eq('power flow angle %d' % i, v.attr(o, 'powerflow_angle').get(i), t.app('acos', t.app('roundn', c, 10)))
        iso = v.attr(o, 'isotropic_velocity')
        v.arr_eq('relative group velocity', v.attr(o, 'rel_group_velocity'), (3,), lambda i: ab[i] / iso.get(i))
    v.paths('group direction', run)


@unit('second derivatives of the eigenvalues and enhancement factor', timeout=300)
def u_enh(v):
    def run():
        o, C, rho, th, ph = seismic(v)
        n = [t.sym('n%d' % i) for i in R3]
        v.set(o, 'direction', new_array((3,), lambda i: n[i]))
        w = [t.sym('w%d' % i) for i in R3]
        for x in w: v.assume(t.gt(x, 0))
        m = lambda i, j: t.app('m', min(i, j), max(i, j))
        H = lambda a, b, i, l: t.app('H', min(a, b), max(a, b), min(i, l), max(i, l))
        G = lambda b, i, l: t.app('dM', b, min(i, l), max(i, l))
        e = lambda i, j: t.app('e', i, j)
        v.set(o, 'M', new_array((3, 3), m))
        v.set(o, 'hessM', new_array((3,) * 4, H))
        v.set(o, '_grad_M', new_array((3,) * 3, G))
        v.set(o, '_eigenval', new_array((3,), lambda i: w[i]))
        v.set(o, '_eigenvec', new_array((3, 3), e))
        h = v.attr(o, 'hessian_eigenval')
        for i in R3:
            pin = nplib.np_pinv(v.I, [new_array((3, 3), lambda a, b: (w[i] if a == b else t.const(0)) - m(a, b))], {})
            d = lambda b, a: dsum(1, lambda l: G(b, a, l) * e(i, l))
            for a in R3:
                for b in R3:
                    s = dsum(2, lambda k, l: H(a, b, k, l) * e(i, k) * e(i, l)) + 2 * dsum(2, lambda k, l: d(a, k) * pin.get(k, l) * d(b, l))
                    v.eq('hessian of eigenvalue %d [%d,%d]' % (i, a, b), h.get(i, a, b), s)
    v.paths('hessian', run)


@unit('cofactor matrix', timeout=300)
def u_cof(v):
    def cof(A, i, j):
        p, q = [x for x in R3 if x != i], [x for x in R3 if x != j]
        d = A.get(p[0], q[0]) * A.get(p[1], q[1]) - A.get(p[0], q[1]) * A.get(p[1], q[0])
        return d if (i + j) % 2 == 0 else -d

    for q in (SE + 'cofactor', 'quantas.utils.math.fast_math.cofactor'):
        def run():
            A = sym_array('A', (3, 3))
            r = v.call(q, A)
            v.arr_eq(q, r, (3, 3), lambda i, j: cof(A, i, j))
        v.paths(q, run)


@unit('enhancement factor: inverse norm of the cofactor of the group-direction gradient applied to n', timeout=300)
def u_enh2(v):
    v.I.overrides[SE + 'cofactor'] = lambda I, a, k: (lambda A: new_array((3, 3), lambda i, j: t.app('cof', *([A.get(x, y) for x in R3 for y in R3] + [i, j]))))(a[0])

    def run():
        o, C, rho, th, ph = seismic(v)
        n = [t.sym('n%d' % i) for i in R3]
        v.set(o, 'direction', new_array((3,), lambda i: n[i]))
        w = [t.sym('w%d' % i) for i in R3]
        for x in w: v.assume(t.gt(x, 0))
        v.set(o, '_eigenval', new_array((3,), lambda i: w[i]))
        v.set(o, '_eigenvec', new_array((3, 3), lambda i, j: t.const(int(j == 0))))
        v.set(o, 'M', new_array((3, 3), lambda a, b: t.const(0)))
        hs = lambda a, b: t.app('h', min(a, b), max(a, b))
        v.set(o, 'hessM', new_array((3,) * 4, lambda a, b, k, l: hs(a, b) if k == l == 0 else t.const(0)))
        v.set(o, '_grad_M', new_array((3,) * 3, lambda b, k, l: t.const(0)))
        v.set(o, '_group_velocity', sym_array('vg', (3, 3)))
        v.set(o, '_group_abs', sym_array('ga', (3,)))
        for i in R3: v.assume(t.gt(t.app('ga', i), 0))
        r = v.attr(o, 'enhancement')
        for i in R3:
            ga, vg = t.app('ga', i), [t.app('vg', i, j) for j in R3]
            hv = [dsum(1, lambda k: hs(j, k) * vg[k]) for j in R3]
            A = [[(hs(a, b) / ga - vg[a] * hv[b] / (ga * ga * ga)) / (2 * t.sqrt(w[i])) for b in R3] for a in R3]
            c = [dsum(1, lambda b: t.app('cof', *([A[x][y] for x in R3 for y in R3] + [a, b])) * n[b]) for a in R3]
            v.eq('enhancement %d' % i, r.get(i), 1 / t.sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]))
    v.paths('enhancement', run)
