import numpy as np
import elastic_np as el


def gdir(C, rho, q):
    """phase velocities (homogeneous of degree one in q)"""
    return np.sqrt(np.linalg.eigvalsh(np.einsum('ijkl,j,k->il', el.C4(C), q, q) * 1000. / rho))


def gvel(C, rho, n):
    c4 = el.C4(C)
    w, e = np.linalg.eigh(np.einsum('ijkl,j,k->il', c4, n, n) * 1000. / rho)
    g = 1000. / rho * (np.einsum('ibkl,k->bil', c4, n) + np.einsum('ikbl,k->bil', c4, n))
    return w, e.T, np.array([[e[:, i] @ g[b] @ e[:, i] for b in range(3)] / (2 * np.sqrt(w[i])) for i in range(3)]), g


def polar(x): return np.arctan2(np.hypot(x[0], x[1]), x[2]), np.arctan2(x[1], x[0])


def hessian(c4, rho, w, e, g):
    """second derivatives of the eigenvalues: exact perturbation theory"""
    H2 = (np.einsum('iabl->abil', c4) + np.einsum('ibal->abil', c4)) * 1000. / rho
    hs = np.zeros((3, 3, 3))
    for i in range(3):
        hs[i] = np.einsum('abil,i,l->ab', H2, e[i], e[i])
        for j in range(3):
            if j != i:
                x = np.einsum('bil,i,l->b', g, e[i], e[j])
                hs[i] += 2 * np.outer(x, x) / (w[i] - w[j])
    return hs


def case_near_degenerate(h):
    """modes of nearly (not exactly) the same velocity: still differentiable"""
    K = h.need('quantas.seismic.utils.seismic_obj', 'Seismic')
    rng = h.rng('C19n')
    for k in range(h.n(150, 2000)):
        C = np.zeros((6, 6))
        l, m = rng.uniform(30, 150), rng.uniform(30, 150)
        C[:3, :3] = l
        for i in range(3): C[i, i], C[i + 3, i + 3] = l + 2 * m, m       # isotropic,
        d = 10 ** rng.uniform(-5, -2)
        if k % 2: d *= np.array([1, 1, 1, .1, .1, .1])
        q = rng.normal(size=(6, 6)) * d
        C = C + m * (q + q.T)                                            # slightly distorted
        rho = rng.uniform(800, 15000)
        n = rng.normal(size=3)
        n /= np.linalg.norm(n)
        w, e, vg, g = gvel(C, rho, n)
        if min(w[1] - w[0], w[2] - w[1]) < 1e-6 * w[2]: continue
        inp = h.current = {'C': C, 'density': rho, 'direction': n}
        o = K(C.copy(), rho)
        o.cartesian_direction(n.copy())
        h.close('group', inp, o.group_velocity, vg, 1e-5, 1e-8)
        hs = hessian(el.C4(C), rho, w, e, g)
        for i in range(3): h.close('hessian', dict(inp, mode=i), np.asarray(o.hessian_eigenval)[i], hs[i], 1e-4, 1e-5 * np.abs(hs[i]).max())


def case_seismic(h):
    K = h.need('quantas.seismic.utils.seismic_obj', 'Seismic')
    rng = h.rng('C19')
    near = el.Near(rng)
    for k in range(h.n(120, 2500)):
        C = near.matrix(el.spd(rng, 10 ** rng.uniform(1, 3), rng.choice(el.CLASSES)))
        rho = rng.uniform(800, 15000)
        c4 = el.C4(C)
        o = K(C.copy(), rho)
        for _ in range(3):
            th, ph = near.angles(el.angle(rng, 2))
            th = th % np.pi
            n = el.n_dir(th, ph)
            inp = h.current = {'C': C, 'density': rho, 'theta': th, 'phi': ph}
            if rng.random() < .5:
                o.spherical_direction(th, ph)
                h.close('angles', inp, [o.theta, o.phi], [th, ph], 1e-12, 1e-12)
            else:
                s = 10 ** rng.uniform(-1, 1)
                o.cartesian_direction(n * s)
                inp = h.current = dict(inp, scale=s)
                if np.hypot(n[0], n[1]) > 1e-6:
                    h.close('angles', inp, el.n_dir(o.theta, o.phi), n, 1e-9, 1e-9)
            h.close('M', inp, o.christoffel, np.einsum('ijkl,j,k->il', c4, n, n) * 1000. / rho, 1e-9, 1e-12)
            w, e, vg, g = gvel(C, rho, n)
            h.close('grad_M', inp, o.grad_M, g, 1e-9, 1e-12)
            h.close('eigenval', inp, o.eigenval, w, 1e-8)
            h.close('phase', inp, o.phase_velocity, np.sqrt(w), 1e-8)
            if min(w[1] - w[0], w[2] - w[1]) < 2e-2 * w[2]: continue
            h.close('eigenvec', inp, np.abs(np.sum(np.asarray(o.eigenvec) * e, 1)), np.ones(3), 1e-7)
            h.close('group', inp, o.group_velocity, vg, 1e-7, 1e-9)
            h.close('group', dict(inp, what='v_g.n = v_p'), np.asarray(o.group_velocity) @ n, np.sqrt(w), 1e-7)
            ab = np.linalg.norm(vg, axis=1)
            h.close('group', dict(inp, what='abs'), o.group_abs, ab, 1e-7)
            d = vg / ab[:, None]
            h.close('group', dict(inp, what='dir'), o.group_dir, d, 1e-7, 1e-9)
            for i in range(3):
                if np.hypot(d[i][0], d[i][1]) > 1e-4:
                    h.close('group angles', dict(inp, mode=i), el.n_dir(o.group_theta[i], o.group_phi[i]), d[i], 1e-7, 1e-8)
                else:
                    h.close('group angles', dict(inp, mode=i), np.cos(o.group_theta[i]), d[i][2], 1e-7, 1e-8)
            h.close('power flow', inp, np.cos(o.powerflow_angle), d @ n, 1e-7, 1e-9)
            iso = np.asarray(o.isotropic_velocity)
            h.close('relative', inp, [o.rel_phase_velocity, o.rel_group_velocity], [np.sqrt(w) / iso, ab / iso], 1e-7)
            hs = hessian(c4, rho, w, e, g)
            h.close('hessian', inp, o.hessian_eigenval, hs, 1e-6, 1e-8 * np.abs(hs).max())
            # enhancement: 1 / |cof(d n_g / d q) n|
            en, cond = [], True
            for i in range(3):
                P = (np.eye(3) - np.outer(d[i], d[i])) @ hs[i] / (2 * np.sqrt(w[i]) * ab[i])
                cf = np.array([[(P[(a + 1) % 3, (b + 1) % 3] * P[(a + 2) % 3, (b + 2) % 3] - P[(a + 1) % 3, (b + 2) % 3] * P[(a + 2) % 3, (b + 1) % 3]) for b in range(3)] for a in range(3)])
                x = np.linalg.norm(cf @ n)
                cond = cond and x > 1e-3 * np.abs(P).max() ** 2
                en.append(1 / x if x else np.inf)
            if cond: h.close('enhancement', inp, o.enhancement, en, 1e-2)


def case_cofactor(h):
    rng = h.rng('C19c')
    for mod in ('quantas.seismic.utils.seismic_obj', 'quantas.utils.math.fast_math'):
        f = h.need(mod, 'cofactor')
        for k in range(h.n(150, 2000)):
            A = rng.normal(size=(3, 3)) * 10 ** rng.uniform(-2, 2)
            if k % 3 == 0: A = np.round(A); A[2] = A[0] + A[1]
            if k % 7 == 0: A[1] = 0.
            h.current = {'fn': mod, 'A': A}
            if k % 3 and k % 7 and abs(np.linalg.det(A / np.abs(A).max())) < 1e-6: continue
            e = np.array([[(A[(a + 1) % 3, (b + 1) % 3] * A[(a + 2) % 3, (b + 2) % 3] - A[(a + 1) % 3, (b + 2) % 3] * A[(a + 2) % 3, (b + 1) % 3]) for b in range(3)] for a in range(3)])
            if k % 7 and not k % 3 and np.linalg.det(A) != 0: continue
            h.close('cofactor', h.current, f(A), e, 1e-6, 1e-8 * np.abs(A).max() ** 2)
