"""Phase velocities from the Christoffel matrix."""
from contracts.sections import sections
from pyvc.vc import *
from .elastic import *


@unit('velocities are sqrt(lambda / rho) of the Christoffel matrix, slow to fast')
def u_vel(v):
    def run():
        v.I.check_defined = False
        C, rho = voigt(), t.sym('rho')
        v.assume(t.gt(rho, 0))
        o = v.call(SO + 'SOEC', C, rho)
        th, ph = angles('theta', 'phi')
        n = n_dir(th, ph)
        r = v.meth(o, 'phase_velocity', ListV([th, ph]))
        names = [k for k in v.I.memo if isinstance(k, str) and k.split('!')[0] == 'eigh']
        if not v.fact('one eigenvalue problem', len(names) == 1, str(names)): return
        m = v.I.memo[names[0]]
        # the matrix may be diagonalised at any of these scales; the velocities must undo it
        ch = lambda i, l: dsum(2, lambda j, k: C4(C, i, j, k, l) * n[j] * n[k])
        pa = t.T(10 ** 9)
        for s in (pa, pa / rho, t.T(1), 1 / rho, 1000 / rho, t.T(1000)):
            if P.prove_eq(m[0][0], s * ch(0, 0))[0]:
                pa = s
                break
        for i in R3:
            for l in R3: v.eq('matrix [%d,%d] is C_ijkl n_j n_k (scaled)' % (i, l), m[i][l], pa * ch(i, l))
        w = [t.app(names[0] + 'w', i) for i in R3]
        v.assume(t.gt(w[0], 0))
        v.assumptions.add('precondition: the Christoffel matrix is positive definite (stable crystal), so the eigenvalues are > 0')
        v.arr_eq('velocity', r, (3,), lambda i: t.sqrt(w[i] * 10 ** 9 / pa / rho) / 1000)
        for i in (0, 1): v.true('ascending order [%d]' % i, t.le(r.get(i), r.get(i + 1)))
        for nm, i in (('longitudinal_wave', 2), ('shear_wave_1', 0), ('shear_wave_2', 1)):
            v.eq(nm, v.meth(o, nm, ListV([th, ph])), t.sqrt(w[i] * 10 ** 9 / pa / rho) / 1000)
    v.paths('velocities', run)


@unit('polar scan of the velocities: rows and columns in place')
def u_polar(v):
    v.I.overrides[SO + 'SOEC.phase_velocity'] = lambda I, a, k: (lambda x: new_array((3,), lambda c: t.app('vel', x[0], x[1], c)))(vec(a[1]))

    def run():
        v.I.check_defined = False
        o = v.call(SO + 'SOEC', voigt(), t.sym('rho'))
        n = t.sym('n', 'I')
        v.assume(t.ge(n, 0))
        TH, PH = sym_array('th', (n,)), sym_array('ph', (n,))
        r = v.meth(o, 'polar_waves', TH, PH)
        if not v.shape('polar_waves', r, (n, 3)): return
        i, = v.index((n,))
        for c in range(3): v.eq('polar_waves column %d' % c, r.get(i, c), t.app('vel', TH.get(i), PH.get(i), c))
    v.paths('polar', run)


@unit('sections (xy), (xz), (yz): each row holds the velocities of its own direction of the plane', timeout=300)
def u_sections(v):
    sections(v, ('waves',))


@unit('printed extrema of the velocities stand under their own headings', timeout=300)
def u_printed(v):
    from . import printed
    printed.extrema(v, ('V_p', 'V_s1', 'V_s2'))
