"""Random (Q)HA inputs and their YAML text."""
import numpy as np


def data(rng, nv=None):
    nq, na = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    nv = nv or int(rng.integers(1, 6))
    f = rng.uniform(50, 1500, (nq, 3 * na, nv))
    f[0, :3] = 0.
    if rng.random() < .3: f[rng.integers(nq), rng.integers(3 * na)] = -rng.uniform(10, 90, nv)
    return {'job': 'job %d' % rng.integers(1000), 'natom': na, 'qpoints': nq, 'volume': np.sort(rng.uniform(20, 40, nv)), 'energy': rng.uniform(-300, -5, nv),
            'weight': rng.integers(1, 9, nq), 'q': rng.uniform(0, .5, (nq, 3)), 'frequency': f}


def text(d):
    L = lambda a: '[ ' + ', '.join('%.12f' % x for x in a) + ' ]'
    s = 'job: %s\nnatom: %d\nsupercell:\n- [ 1, 0, 0 ]\n- [ 0, 1, 0 ]\n- [ 0, 0, 1 ]\nqpoints: %d\nvolume: %s\nenergy: %s\nphonon:\n' % (d['job'], d['natom'], d['qpoints'], L(d['volume']), L(d['energy']))
    for q in range(d['qpoints']):
        s += '- q-position: %s\n  weight: %d\n  band:\n' % (L(d['q'][q]), d['weight'][q])
        for b in range(3 * d['natom']): s += '  - # %d\n    frequency: %s\n' % (b + 1, L(d['frequency'][q, b]))
        s += '\n'
    return s


def rounded(d):
    r = lambda a: np.array([float('%.12f' % x) for x in np.ravel(a)]).reshape(np.shape(a))
    return dict(d, volume=r(d['volume']), energy=r(d['energy']), frequency=r(d['frequency']))
