import numpy as np
import elastic_np as el
import soec_run


def case_velocity(h):
    K = h.need('quantas.soec.utils.soec_obj', 'SOEC')
    rng = h.rng('C16')
    near = el.Near(rng)
    for _ in range(h.n(150, 3000)):
        C = near.matrix(el.spd(rng, 10 ** rng.uniform(.5, 3), rng.choice(el.CLASSES)))
        rho = rng.uniform(500, 20000)
        o = K(C.copy(), rho)
        c4 = el.C4(C)
        th, ph = np.array([near.angles(el.angle(rng, 2)) for _ in range(4)]).T
        h.current = {'C': C, 'density': rho, 'theta': th, 'phi': ph}
        w = []
        for x, y in zip(th, ph):
            n = el.n_dir(x, y)
            w.append(np.sqrt(np.linalg.eigvalsh(np.einsum('ijkl,j,k->il', c4, n, n)) * 1e9 / rho) / 1e3)
            h.close('velocity', h.current, o.phase_velocity([x, y]), w[-1], 1e-7)
            h.close('velocity', h.current, [o.shear_wave_1([x, y]), o.shear_wave_2([x, y]), o.longitudinal_wave([x, y])], w[-1], 1e-7)
        h.close('velocity', dict(h.current, fn='polar'), o.polar_waves(th, ph), w, 1e-7)


def case_sections(h):
    """the sections of the calculator: row i holds the velocities of its own direction of the plane"""
    rng = h.rng('C16x')
    for it in range(h.n(2, 12)):
        C = np.round(el.spd(rng, 100., rng.choice(el.CLASSES)), 9)
        rho = round(float(rng.uniform(1000, 8000)), 3)
        c4 = el.C4(C * 1e9)
        h.current = {'C': C, 'density': rho}
        c, err = soec_run.calculator(h, C, rho, polar=True)
        if err is not None: continue
        nr = int(rng.integers(3, 9))
        c.calculate_polar_properties(nrad=nr)
        pol = c.results['polar']
        for p in ('xy', 'xz', 'yz'):
            for i in range(nr):
                a = 2 * np.pi * i / (nr - 1)
                n = {'xy': np.array([np.cos(a), np.sin(a), 0]), 'xz': np.array([np.sin(a), 0, np.cos(a)]), 'yz': np.array([0, np.sin(a), np.cos(a)])}[p]
                cur = dict(h.current, plane=p, angle=a)
                h.close('sections', cur, pol[p]['waves'][i], np.append(np.degrees(a), np.sqrt(np.linalg.eigvalsh(np.einsum('ijkl,j,k->il', c4, n, n)) / rho) / 1e3), 1e-7, 1e-9)


def case_printed(h):
    import soec_print
    soec_print.check(h, 'printed', ('V_s1', 'V_s2', 'V_p'))
