import numpy as np
import elastic_np as el

NAMES = {'tri': 'triclinic', 'mono': 'monoclinic', 'ortho': 'orthorhombic', 'tet_low': 'tetragonal_low', 'tet_high': 'tetragonal_high',
         'trig_low': 'trigonal_low', 'trig_high': 'trigonal_high', 'hex': 'hexagonal', 'cubic': 'cubic'}
MORE = {'tri': ['mono', 'ortho', 'tet_low', 'tet_high', 'trig_low', 'trig_high', 'hex', 'cubic'], 'mono': ['ortho', 'tet_high', 'hex', 'cubic'],
        'ortho': ['tet_high', 'hex', 'cubic'], 'tet_low': ['tet_high', 'hex', 'cubic'], 'tet_high': ['hex', 'cubic'],
        'trig_low': ['trig_high', 'hex'], 'trig_high': ['hex'], 'hex': [], 'cubic': []}


def exact(C, cls, tol): return np.max(np.abs(el.mask(C, cls) - C)) <= tol


def case_class(h):
    f = h.need('quantas.soec.utils.symmetry', 'check_symmetry')
    inv = {v: k for k, v in NAMES.items()}
    rng = h.rng('C17')
    for k in range(h.n(600, 6000)):
        cls = el.CLASSES[k % len(el.CLASSES)]
        C = el.mask(np.round(el.spd(rng, 10 ** rng.uniform(1, 2.6), cls), 3), cls)
        style = rng.integers(3)
        if style == 1:      # break one relation by more than the tolerance
            i, j = sorted(rng.integers(0, 6, 2))
            C[i, j] += rng.choice([-1, 1]) * 10 ** rng.uniform(-1.3, 1)
            C[j, i] = C[i, j]
        elif style == 2 and cls not in ('tri', 'cubic'):   # flip the sign of one off-diagonal block entry
            off = [(i, j) for i in range(6) for j in range(i + 1, 6) if j >= 3 and C[i, j] != 0]
            if off:
                i, j = off[rng.integers(len(off))]
                C[i, j] = C[j, i] = -C[i, j]
        h.current = {'C': C.copy()}
        r = f(C.copy())
        if not h.record('class', h.current, r in inv, 'a known class', r): continue
        q = inv[r]
        h.record('class', h.current, exact(C, q, 6e-3), 'pattern of %s satisfied' % r, 'largest deviation %g' % np.max(np.abs(el.mask(C, q) - C)))
        better = [NAMES[m] for m in MORE[q] if exact(C, m, 1e-9)]
        h.record('class', h.current, not better, 'most symmetric matching class', '%s although %s' % (r, better))
