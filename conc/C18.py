import numpy as np
import elastic_np as el
import soec_run as sr


def case_gate(h):
    h.need('quantas.soec.soec')
    rng = h.rng('C18')
    for k in range(h.n(60, 600)):
        C = el.spd(rng, 100., rng.choice(el.CLASSES))
        w, q = np.linalg.eigh(C)
        style = k % 4
        if style:
            i = rng.choice(6, size=style if style < 3 else int(rng.integers(1, 7)), replace=False)
            w[i] = -np.abs(w[i]) * rng.uniform(.05, 1, len(i))
            C = q @ np.diag(w) @ q.T
            C = (C + C.T) / 2
        h.current = {'C': C, 'eigenvalues': w}
        c, err = sr.calculator(h, C)
        if not h.record('gate', h.current, err is None, 'input accepted', err): continue
        steps, said = [], []
        c.single_vector_variation = lambda: steps.append(1) or (None, None)
        c.dual_vector_variation = lambda: steps.append(2) or (None, None)
        c.phase_velocity_variation = lambda: steps.append(3) or (None, None, None)
        for nm in ('report_variation_single', 'report_variation_dual', 'report_variation_seismic'): setattr(c, nm, lambda *a: None)
        echo = c.echo
        c.echo = lambda m: said.append(m)
        c.run()
        if style: h.record('gate', h.current, not c.completed and not steps and any('unstable' in str(s) for s in said), 'reported unstable, no analysis', [bool(c.completed), steps, said[-2:]])
        else: h.record('gate', h.current, bool(c.completed) and steps == [1, 2, 3], 'analysed', [bool(c.completed), steps])


def case_printed(h):
    import soec_print
    soec_print.check_eigenvalues(h, 'printed')
