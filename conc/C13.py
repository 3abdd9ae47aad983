import itertools
import numpy as np
import elastic_np as el
import soec_run


def moduli(S):
    E = lambda a: 1 / np.einsum('ijkl,i,j,k,l', S, a, a, a, a)
    LC = lambda a: 1000 * np.einsum('ijkk,i,j', S, a, a)
    G = lambda a, b: 1 / (4 * np.einsum('ijkl,i,j,k,l', S, a, b, a, b))
    N = lambda a, b: -np.einsum('ijkl,i,j,k,l', S, a, a, b, b) / np.einsum('ijkl,i,j,k,l', S, a, a, a, a)
    return E, LC, G, N


def case_vectors(h):
    f1 = h.need('quantas.soec.utils.soec_obj', 'vector')
    f2 = h.need('quantas.utils.math.fast_math', 'vector')
    f3 = h.need('quantas.seismic.utils.seismic_obj', 'vector')
    rng = h.rng('C13v')
    for _ in range(h.n(200, 2000)):
        th, ph, ch = el.angle(rng, 3)
        h.current = {'theta': th, 'phi': ph, 'chi': ch}
        for nm, f in (('soec', f1), ('fast_math', f2), ('seismic', f3)):
            h.close('vectors', dict(h.current, fn=nm), np.array(f(th, ph)), el.n_dir(th, ph), 1e-12, 1e-12)
        h.close('vectors', h.current, np.array(f1(th, ph, ch)), el.b_dir(th, ph, ch), 1e-12, 1e-12)


def case_moduli(h):
    K = h.need('quantas.soec.utils.soec_obj', 'SOEC')
    rng = h.rng('C13')
    near = el.Near(rng)
    for _ in range(h.n(60, 1500)):
        C = near.matrix(el.spd(rng, 10 ** rng.uniform(.5, 3), rng.choice(el.CLASSES)))
        E, LC, G, N = moduli(el.S4(np.linalg.inv(C)))
        o = K(C.copy(), 3000.)
        for _ in range(6):
            th, ph, ch = near.angles(el.angle(rng, 3))
            a, b = el.n_dir(th, ph), el.b_dir(th, ph, ch)
            h.current = {'C': C, 'theta': th, 'phi': ph, 'chi': ch}
            h.close('moduli', dict(h.current, fn='E'), o.young_modulus([th, ph]), E(a), 1e-8)
            h.close('moduli', dict(h.current, fn='LC'), o.linear_compressibility([th, ph]), LC(a), 1e-8, 1e-9)
            h.close('moduli', dict(h.current, fn='G'), o.shear_modulus([th, ph, ch]), G(a, b), 1e-8)
            h.close('moduli', dict(h.current, fn='nu'), o.poisson_ratio([th, ph, ch]), N(a, b), 1e-8, 1e-9)


def case_variation(h):
    K = h.need('quantas.soec.utils.soec_obj', 'SOEC')
    CC = h.need('quantas.soec.soec', 'SOECCalculator')
    rng = h.rng('C13s')
    for k in range(h.n(2, 12)):
        C = el.spd(rng, 100., rng.choice(el.CLASSES))
        E, LC, G, N = moduli(el.S4(np.linalg.inv(C)))
        o = K(C.copy(), 3000.)
        h.current = {'C': C}
        for dim, fn, f in ((2, o.young_modulus, E), (2, o.linear_compressibility, LC), (3, o.shear_modulus, G)):
            r = CC.directional_variation(None, fn, dim)
            for i in (0, 1):
                ax = [np.array(r[2 + i])] + ([np.array(r[4 + i])] if dim == 3 else [])
                h.close('variation', dict(h.current, dim=dim), f(*ax), r[0][i], 1e-6, 1e-8)
            h.close('variation', dict(h.current, dim=dim), r[1], r[0][1] / r[0][0] if r[0][0] > 0 else np.inf, 1e-9)
            d = [f(el.n_dir(*x[:2]), *([el.b_dir(*x)] if dim == 3 else [])) for x in rng.uniform(0, 2 * np.pi, (200, 3))]
            h.record('variation', dict(h.current, dim=dim), r[0][0] <= min(d) + .05 * abs(min(d)) and r[0][1] >= max(d) - .05 * abs(max(d)), [min(d), max(d)], r[0])


def case_polar(h):
    K = h.need('quantas.soec.utils.soec_obj', 'SOEC')
    rng = h.rng('C13p')
    for _ in range(h.n(4, 40)):
        C = el.spd(rng, 100., rng.choice(el.CLASSES))
        E, LC, G, N = moduli(el.S4(np.linalg.inv(C)))
        o = K(C.copy(), 3000.)
        n = int(rng.integers(1, 5))
        th, ph = np.array(el.angle(rng, n)), np.array(el.angle(rng, n))
        h.current = {'C': C, 'theta': th, 'phi': ph}
        A = [el.n_dir(x, y) for x, y in zip(th, ph)]
        h.close('polar', dict(h.current, fn='E'), o.polar_young(th, ph), [E(a) for a in A], 1e-8)
        h.close('polar', dict(h.current, fn='LC'), o.polar_compressibility(th, ph), [[max(0, LC(a)), max(0, -LC(a))] for a in A], 1e-8, 1e-8)
        g, nu = o.polar_shear(th, ph), o.polar_poisson(th, ph)
        ch = np.linspace(0, np.pi, 91)
        for i in range(n):
            gs = [G(A[i], el.b_dir(th[i], ph[i], c)) for c in ch]
            ns = [N(A[i], el.b_dir(th[i], ph[i], c)) for c in ch]
            ok = abs(g[i, 0] - min(gs)) < .02 * max(gs) and abs(g[i, 1] - max(gs)) < .02 * max(gs)
            h.record('polar', dict(h.current, fn='G', i=i), ok, [min(gs), max(gs)], g[i])
            w = [min(0, min(ns)), max(0, min(ns)), max(ns)]
            h.record('polar', dict(h.current, fn='nu', i=i), bool(np.max(np.abs(nu[i] - w)) < .02), w, nu[i])


def case_sections(h):
    """the sections of the calculator: row i holds the moduli of its own direction of the plane"""
    rng = h.rng('C13x')
    for it in range(h.n(3, 20)):
        C = np.round(el.spd(rng, 100., rng.choice(el.CLASSES)), 9)
        E, LC, G, N = moduli(el.S4(np.linalg.inv(C)))
        h.current = {'C': C}
        c, err = soec_run.calculator(h, C, 0. if it % 2 else 3000., polar=True)
        if err is not None: continue
        nr = int(rng.integers(5, 20))
        c.calculate_polar_properties(nrad=nr)
        pol = c.results['polar']
        for p in ('xy', 'xz', 'yz'):
            for i in range(nr):
                a = 2 * np.pi * i / (nr - 1)
                n = {'xy': np.array([np.cos(a), np.sin(a), 0]), 'xz': np.array([np.sin(a), 0, np.cos(a)]), 'yz': np.array([0, np.sin(a), np.cos(a)])}[p]
                cur = dict(h.current, plane=p, angle=a)
                for x in ('E', 'LC', 'G', 'Nu'): h.close('sections', dict(cur, fn=x + ' angle'), pol[p][x][i, 0], np.degrees(a), 1e-9, 1e-9)
                h.close('sections', dict(cur, fn='E'), pol[p]['E'][i, 1], E(n), 1e-8)
                h.close('sections', dict(cur, fn='LC'), pol[p]['LC'][i, 1:], [max(0, LC(n)), max(0, -LC(n))], 1e-7, 1e-7)
                e1 = np.array([-n[1], n[0], 0]) if abs(n[2]) < .9 else np.array([0, -n[2], n[1]])
                e1 = e1 / np.linalg.norm(e1)
                B = [np.cos(x) * e1 + np.sin(x) * np.cross(n, e1) for x in np.linspace(0, np.pi, 181)]
                gs, ns = [G(n, b) for b in B], [N(n, b) for b in B]
                h.close('sections', dict(cur, fn='G'), pol[p]['G'][i, 1:], [min(gs), max(gs)], 0, .02 * max(gs))
                w = [min(0, min(ns)), max(0, min(ns)), max(ns)]
                h.close('sections', dict(cur, fn='nu'), pol[p]['Nu'][i, 1:], w, 0, .02)


def case_printed(h):
    import soec_print
    soec_print.check(h, 'printed', ('E', 'LC', 'G', 'Nu'))
