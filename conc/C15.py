import numpy as np
import elastic_np as el
import soec_run as sr
from C13 import moduli


def case_forms(h):
    G0, O = h.need('quantas.soec.utils.soec_obj', 'SOEC', 'SOECOrtho')
    rng = h.rng('C15')
    for _ in range(h.n(100, 2000)):
        C = el.spd(rng, 10 ** rng.uniform(.5, 3), rng.choice(('ortho', 'hex', 'cubic', 'tet_high')))
        o = O(G0(C.copy(), 3000.))
        E, LC, G, N = moduli(el.S4(np.linalg.inv(C)))
        for _ in range(6):
            th, ph, ch = el.angle(rng, 3)
            a, b = el.n_dir(th, ph), el.b_dir(th, ph, ch)
            h.current = {'C': C, 'theta': th, 'phi': ph, 'chi': ch}
            h.close('forms', dict(h.current, fn='E'), o.young_modulus([th, ph]), E(a), 1e-7)
            h.close('forms', dict(h.current, fn='LC'), o.linear_compressibility([th, ph]), LC(a), 1e-7, 1e-8)
            h.close('forms', dict(h.current, fn='G'), o.shear_modulus([th, ph, ch]), G(a, b), 1e-7)
            h.close('forms', dict(h.current, fn='nu'), o.poisson_ratio([th, ph, ch]), N(a, b), 1e-7, 1e-8)


def case_selection(h):
    O = h.need('quantas.soec.utils.soec_obj', 'SOECOrtho')
    rng = h.rng('C15s')
    for k in range(h.n(60, 600)):
        C = el.spd(rng, 100., rng.choice(el.CLASSES) if k % 2 else 'ortho')
        if k % 4 == 2:
            i, j = el.ORTHO_ZERO[k % len(el.ORTHO_ZERO)]
            C[i, j] = C[j, i] = rng.choice([-1, 1]) * 10 ** rng.uniform(-2, 0)
        h.current = {'C': C}
        c, err = sr.calculator(h, C)
        used = isinstance(c.soec, O)
        off = max(abs(C[i, j]) for i, j in el.ORTHO_ZERO)
        h.record('selection', h.current, not used or off <= 2e-3, 'general evaluation', 'orthorhombic closed forms with off-pattern entry %g' % off)
        h.close('selection', h.current, c.soec.stiffness, C, 1e-9, 1e-9)
