import numpy as np
import elastic_np as el


def case_averages(h):
    K = h.need('quantas.soec.utils.soec_obj', 'SOEC')
    rng = h.rng('C14')
    near = el.Near(rng)
    for _ in range(h.n(300, 5000)):
        C = near.matrix(el.spd(rng, 10 ** rng.uniform(.5, 3), rng.choice(el.CLASSES)))
        rho = rng.uniform(500, 20000)
        S = np.linalg.inv(C)
        KV, KR = C[:3, :3].sum() / 9, 1 / S[:3, :3].sum()
        o3 = lambda M: M[0, 1] + M[0, 2] + M[1, 2]
        GV = (np.trace(C[:3, :3]) - o3(C) + 3 * np.trace(C[3:, 3:])) / 15
        GR = 15 / (4 * (np.trace(S[:3, :3]) - o3(S)) + 3 * np.trace(S[3:, 3:]))
        row = lambda k, g: [k, 9 * k * g / (3 * k + g), g, (3 * k - 2 * g) / (2 * (3 * k + g))]
        Kh, Gh = (KV + KR) / 2, (GV + GR) / 2
        h.current = {'C': C.copy(), 'density': rho}
        o = K(C.copy(), rho)
        h.close('averages', h.current, np.array(o.averages(), dtype=float), np.array([row(KV, GV), row(KR, GR), row(Kh, Gh)]), 1e-8)
        vp, vs = np.sqrt(1e9 * (Kh + 4 * Gh / 3) / rho) / 1e3, np.sqrt(1e9 * Gh / rho) / 1e3
        h.close('averages', dict(h.current, fn='velocities'), o.isotropic_velocities(), [vs, vs, vp], 1e-8)


def case_seismic(h):
    Q = h.need('quantas.seismic.utils.seismic_obj', 'Seismic')
    rng = h.rng('C14s')
    near = el.Near(rng)
    for _ in range(h.n(60, 600)):
        C = near.matrix(el.spd(rng, 10 ** rng.uniform(.5, 3), rng.choice(el.CLASSES)))
        rho = rng.uniform(500, 20000)
        S = np.linalg.inv(C)
        o3 = lambda M: M[0, 1] + M[0, 2] + M[1, 2]
        Kh = (C[:3, :3].sum() / 9 + 1 / S[:3, :3].sum()) / 2
        Gh = ((np.trace(C[:3, :3]) - o3(C) + 3 * np.trace(C[3:, 3:])) / 15 + 15 / (4 * (np.trace(S[:3, :3]) - o3(S)) + 3 * np.trace(S[3:, 3:]))) / 2
        h.current = {'C': C.copy(), 'density': rho}
        o = Q(C.copy(), rho)
        vp, vs = np.sqrt(1e3 * (Kh + 4 * Gh / 3) / rho), np.sqrt(1e3 * Gh / rho)
        h.close('seismic', dict(h.current, fn='K'), o.bulk_modulus, Kh, 1e-8)
        h.close('seismic', dict(h.current, fn='G'), o.shear_modulus, Gh, 1e-8)
        h.close('seismic', dict(h.current, fn='v'), o.isotropic_velocity, [vs, vs, vp], 1e-8)
        h.close('seismic', dict(h.current, fn='iso'), [o.iso_S, o.iso_P], [vs, vp], 1e-8)


def case_printed(h):
    import soec_print
    soec_print.check_averages(h, 'printed')
