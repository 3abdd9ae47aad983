import itertools
import numpy as np
import elastic_np as el


def case_tensors(h):
    rng = h.rng('C12')
    near = el.Near(rng)
    for modname, cls in (('quantas.soec.utils.soec_obj', 'SOEC'), ('quantas.seismic.utils.seismic_obj', 'Seismic')):
        K = h.need(modname, cls)
        for _ in range(h.n(150, 3000)):
            C = near.matrix(el.spd(rng, 10 ** rng.uniform(.5, 3), rng.choice(el.CLASSES)))
            rho = rng.uniform(500, 20000)
            h.current = {'class': cls, 'C': C.copy(), 'density': rho}
            o = K(C.copy(), rho)
            S = np.linalg.inv(C)
            f = 1000 / rho if cls == 'Seismic' else 1.
            h.close('tensors', h.current, o.Cmat, el.C4(C) * f, 1e-9, floor=1e-6)
            h.close('tensors', h.current, o.Smat, el.S4(S), 1e-7, floor=1e-3)
            h.close('tensors', h.current, o.stiffness, C, 1e-12)
            h.close('tensors', h.current, o.compliance, S, 1e-7, floor=1e-3)


def case_ortho(h):
    S, O = h.need('quantas.soec.utils.soec_obj', 'SOEC', 'SOECOrtho')
    rng = h.rng('C12o')
    for _ in range(h.n(40, 400)):
        C = el.spd(rng, 100., 'ortho')
        h.current = {'C': C.copy()}
        a = S(C, 3000.)
        b = O(a)
        for nm in ('C', 'S', 'Smat', 'Cmat', 'density'): h.close('ortho', dict(h.current, attr=nm), getattr(b, nm), getattr(a, nm), 1e-12)


def case_printed(h):
    import soec_print
    soec_print.check_matrices(h, 'printed')
