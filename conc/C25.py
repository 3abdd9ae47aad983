import os, signal
import numpy as np
from itertools import count
CR, PY = 'quantas.interfaces.crystal', 'quantas.interfaces.phonopy'
ELEMENTS = {'H': 1, 'O': 8, 'Mg': 12, 'Si': 14, 'Ca': 20, 'Fe': 26, 'Zr': 40}
DUMMY = [' some line\n', '\n', ' MAX GRADIENT      0.000112  THRESHOLD     0.000450\n', ' 1 2 3\n', ' TTTTTT SCF  TELAPSE 4.71 TCPU 4.45\n', ' * a * b\n', '   0.1  0.2\n']


class Late(Exception): pass


def limited(fn, *a):
    """a reader that does not end is as bad as one that gives wrong data"""
    def stop(*_): raise Late('no answer after 20 s')
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(20)
    try: return fn(*a)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def filler(rng, k=7): return [DUMMY[int(i)] for i in rng.integers(0, len(DUMMY), int(rng.integers(0, k)))]
def pr(x, fmt='%.12E'): return fmt % x


def lattice(rng, vol=None):
    A = np.round(rng.normal(0, 3, (3, 3)) + 4 * np.eye(3), 9)
    if rng.random() < .5: A = A[[1, 0, 2]]
    return A


def lat_lines(A):
    return [' DIRECT LATTICE VECTORS CARTESIAN COMPONENTS (ANGSTROM)\n', '          X                    Y                    Z\n'] + ['  '.join('%20.12E' % x for x in r) + '\n' for r in A]


def geometry(rng, title, extra, n):
    L = [title, ' (NON PERIODIC DIRECTION: LATTICE PARAMETER FORMALLY SET TO 500)\n'] + [' ' + '*' * 79 + '\n'] * extra
    L += [' LATTICE PARAMETERS (ANGSTROMS AND DEGREES) - BOHR = 0.5291772083 ANGSTROM\n', ' PRIMITIVE CELL - CENTRING CODE 5/0 VOLUME=    18.1 - DENSITY  3.675 g/cm^3\n',
          '         A              B              C           ALPHA      BETA       GAMMA \n', '     2.95   2.95  2.95   60.0   60.0  60.0\n', ' ' + '*' * 79 + '\n',
          ' ATOMS IN THE ASYMMETRIC UNIT    1 - ATOMS IN THE UNIT CELL: %4d\n' % n, '     ATOM                 X/A                 Y/B                 Z/C    \n', ' ' + '*' * 79 + '\n']
    return L + ['%7d T %3d %-4s %20.12E %20.12E %20.12E\n' % (k + 1, int(rng.integers(1, 90)), 'AB', *rng.uniform(-.5, .5, 3)) for k in range(n)]


WF, OPT, GROUP = ' GEOMETRY FOR WAVE FUNCTION - DIMENSIONALITY OF THE SYSTEM    3\n', ' FINAL OPTIMIZED GEOMETRY - DIMENSIONALITY OF THE SYSTEM      3\n', ' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP\n'


def degeneracies(rng, n):
    g = []
    while sum(g) < n: g.append(int(min(rng.integers(1, 4), n - sum(g))))
    return g


def band(rng, nb):
    """lines of one table of modes, and the frequencies"""
    L, F, n = ['     MODES         EIGV          FREQUENCIES     IRREP  IR   INTENS    RAMAN\n', '             (HARTREE**2)   (CM**-1)     (THZ)             (KM/MOL)\n'], [], 0
    for g in degeneracies(rng, nb):
        f = round(float(rng.uniform(-50, 1500)), 4)
        if n < 4 and rng.random() < .5: f = [0., -0., round(float(rng.uniform(-.1, .1)), 4)][int(rng.integers(3))]
        L.append('%5d-%4d   %.4E  %10.4f  %9.4f  (Fu )   A (     0.00)   I\n' % (n + 1, n + g, (f / 219474.63) ** 2, f, f * .0299792458))
        F += [f] * g
        n += g
    return L + ['\n'], F


EXP = [np.diag([2, 1, 1]), np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]), np.diag([1, 3, 2]), np.array([[0, 1, 0], [1, 0, 0], [0, 0, 3]]), np.diag([2, 2, 2]), np.array([[1, 1, 0], [0, 1, 1], [1, 0, 1]])]
def idet(D): return abs(int(round(np.linalg.det(D))))
def exp_lines(D): return ['  EXPANSION MATRIX OF PRIMITIVE CELL\n'] + ['  E%d   %s\n' % (i + 1, '  '.join(['%.3f', '%10.5f'][i % 2] % x for x in r)) for i, r in enumerate(D)]


def phonon_output(rng, kind, big=False):
    """(lines, what they mean); kind: gamma, super (supercell, Gamma point only), disp, interp"""
    nat = int(rng.integers(1, 5)) if not big else int(rng.integers(105, 140))
    D = EXP[int(rng.integers(len(EXP)))] if kind != 'gamma' else np.eye(3, dtype=int)
    n, nq = idet(D), 1 if kind in ('gamma', 'super') else int(rng.integers(1, 6)) if rng.random() < .9 else int(rng.integers(30, 70))
    E, A = float(pr(rng.uniform(-3000, -10))), lattice(rng)
    f = lambda: filler(rng)
    L = f()
    if kind != 'gamma': L += [' * SUPERCELL OPTION\n'] + f() + exp_lines(D) + f() + geometry(rng, GROUP, 0, nat) + f()
    if kind in ('disp', 'interp'): L += ['  PHONON FREQUENCIES AT A SET OF K POINTS BY USING A SUPERCELL\n'] + f()
    L += geometry(rng, WF, 1, nat * n) + f() + lat_lines(A) + f()
    if rng.random() < .5: L += lat_lines(lattice(rng)) + f()
    W, Q, S = [1.] * nq, np.zeros((nq, 3)), [1., 1., 1.]
    if kind in ('disp', 'interp'):
        W, Q, S = [round(float(x), 3) for x in rng.uniform(.5, 9, nq)], np.round(rng.uniform(-.5, .5, (nq, 3)), 6), [float(x) for x in rng.integers(1, 9, 3)]
        if kind == 'interp': L += [' * ACTIVATED INTERPOLATION OF THE HESSIAN UP TO %4d K POINTS AND\n' % nq] + ['\n'] * 2 + [' *\n'] * 6
        else: L += [' * THAT PERMITS THE CALCULATION OF MODES AT %4d K POINTS COMMENSURATE\n' % nq] + f() + [' *      K       WEIGHT       COORD\n']
        L += [' * %4d %9.3f  %s\n' % (k + 1, W[k], '  '.join('%9.6f' % x for x in Q[k])) for k in range(nq)]
        L += [' * WITH SHRINKING FACTORS: IS1 = %d IS2 = %d IS3 = %d\n' % tuple(S)] + f()
    if kind == 'super' or kind == 'gamma': nat *= n
    L += ['    CENTRAL POINT     %s    12     0.0000E+00   48\n' % pr(E)]
    if rng.random() < .5: L += ['    CENTRAL POINT     %s    12     0.0000E+00   48\n' % pr(E - 1)]
    L += f() + [' EIGENVALUES (EIGV) OF THE MASS WEIGHTED HESSIAN MATRIX AND HARMONIC TRANSVERSE OPTICAL (TO) FREQUENCIES\n'] + f()
    F, bands = [], []
    for q in range(nq):
        b, fr = band(rng, 3 * nat)
        L += f()
        bands.append((len(L), len(b)))
        L += b
        F.append(fr)
    end = len(L)
    if kind in ('gamma', 'super') and rng.random() < .3: L += band(rng, 3 * nat)[0]
    L += f()
    per = n if kind in ('disp', 'interp') else 1
    return L, {'natom': nat, 'qpoints': nq, 'nphonon': 3 * nat, 'volume': abs(np.linalg.det(A)) / per, 'energy': E / per, 'weights': W, 'qcoords': Q, 'F': F, 'shrinkf': S, 'bands': bands, 'end': end,
               'expansion': D if kind in ('disp', 'interp') else None}


def load(h, cls, L, name='out', enc='utf-8'):
    p = os.path.join(h.scratch, name)
    with open(p, 'w', encoding=enc) as f: f.writelines(L)
    return limited(cls, p)


def same(h, case, text, r, want):
    ok = h.record(case, text, r.completed is True and r.error is None, 'completed', str(r.error), 'the output is read')
    if r.completed is not True: return
    for what in ('natom', 'qpoints', 'nphonon'): h.same(case, text, int(getattr(r, what)), want[what], msg=what)
    for what in ('volume', 'energy'): h.close(case, text, getattr(r, what), want[what], 1e-9, 0, what)
    for q in range(want['qpoints']):
        h.close(case, text, r.weights[q], want['weights'][q], 1e-12, 0, 'weight of q-point %d' % (q + 1))
        h.close(case, text, np.asarray(r.qcoords[q], dtype=float), want['qcoords'][q], 1e-12, 1e-14, 'coordinates of q-point %d' % (q + 1))
        h.close(case, text, np.asarray(r.phonons[q], dtype=float), np.asarray(want['F'][q]), 1e-10, 1e-12, 'frequencies of q-point %d' % (q + 1))
    h.close(case, text, np.asarray(r.shrinkf, dtype=float), np.asarray(want['shrinkf'], dtype=float), 1e-12, 0, 'shrinking factors')


def case_phonons(h):
    cls = h.need(CR, 'CrystalPhononReader')
    rng = h.rng('phonons')
    for k in range(h.n(60, 1500)):
        L, want = phonon_output(rng, ('gamma', 'super', 'disp', 'interp')[k % 4], k % 20 == 11 or k % 20 == 4)
        text = {'file': ''.join(L)}
        h.current = text
        r = load(h, cls, L)
        same(h, 'phonons', text, r, want)
        if want['expansion'] is not None and r.completed:
            h.close('phonons', text, np.asarray(r.dim, dtype=float), want['expansion'], 1e-12, 1e-12, 'expansion matrix')
            h.same('phonons', text, int(r.kpoints), idet(want['expansion']), msg='number of k-points')
    h.current = None


def reported(h, case, text, r):
    h.record(case, text, r.completed is not True and bool(r.error), 'an error', 'completed %r, error %r' % (r.completed, r.error), 'an unusable output is reported')


def case_incomplete(h):
    """outputs that stop, or lack a part, are reported; none is accepted with missing data and none keeps the reader busy for ever"""
    cls = h.need(CR, 'CrystalPhononReader')
    rng = h.rng('incomplete')
    for k in range(h.n(60, 1200)):
        kind = ('gamma', 'super', 'disp', 'interp')[k % 4]
        L, want = phonon_output(rng, kind)
        q = int(rng.integers(want['qpoints']))
        a, n = want['bands'][q]
        how = k // 4 % 5
        if how == 0: L = L[:int(rng.integers(0, a))]                      # cut before a band
        elif how == 1: L = L[:a + int(rng.integers(0, n - 1))]              # cut within a band (the blank line after it and its last mode)
        elif how == 2 and n > 4: L = L[:a + n - 2] + L[a + n - 1:]           # a row of the band missing
        elif how == 3: L = [x for x in L if 'CENTRAL POINT' not in x]
        else: L = [x for x in L if 'EIGENVALUES (EIGV)' not in x]
        text = {'file': ''.join(L)}
        h.current = text
        reported(h, 'incomplete', text, load(h, cls, L))
    h.current = None


def case_qha(h):
    cls = h.need(CR, 'CrystalQHAReader')
    rng = h.rng('qha')
    for k in range(h.n(40, 800)):
        nat, nv = int(rng.integers(1, 4)), int(rng.integers(4, 10))
        D = EXP[int(rng.integers(len(EXP)))] if k % 2 else None
        n = 1 if D is None else idet(D)
        vols = np.sort(rng.uniform(20, 60, nv)) * n
        if np.min(np.diff(vols)) < .05: continue
        A0 = lattice(rng)
        As = [np.round(A0 * (v / abs(np.linalg.det(A0))) ** (1. / 3), 11) for v in vols]
        As = [A[[0, 2, 1]] if rng.random() < .4 else A for A in As]
        E = np.round(rng.uniform(-3000, -10, nv), 9)
        f = lambda: filler(rng)
        L = f() + [' *   QUASI-HARMONIC APPROXIMATION   *\n'] + f()
        if D is not None: L += [' * SUPERCELL OPTION\n'] + f() + exp_lines(D) + f()
        for j in rng.permutation(nv): L += geometry(rng, OPT, 1, nat * n) + f() + lat_lines(As[j]) + f()
        L += [' SORTING VOLUMES/ENERGIES\n', '\n', '    VOLUME      ENERGY\n', '\n'] + ['   %14.8f   %18.10f\n' % (abs(np.linalg.det(As[j])), E[j]) for j in range(nv)]
        nf = 3 * nat * n
        F = np.round(rng.uniform(-30, 1500, (nf, nv)), 5)
        L += ['\n'] + f()
        for i in range(nf):
            L += [' FREQUENCY #%5d\n' % (i + 1) if False else ' FREQUENCY # %5d\n' % (i + 1), '   VOLUME    FREQUENCY\n', '\n'] + ['   %14.8f   %12.5f\n' % (vols[j], F[i, j]) for j in range(nv)] + f()
        cut = k % 8 >= 6
        if cut: L = L[:int(rng.integers(3, len(L) - 12 - nv))]
        text = {'file': ''.join(L)}
        h.current = text
        r = load(h, cls, L)
        if cut:
            reported(h, 'qha', text, r)
            continue
        h.record('qha', text, r.completed is True and r.error is None, 'completed', str(r.error), 'the output is read')
        if r.completed is not True: continue
        for what, x in (('natom', nat), ('qpoints', n), ('nphonon', 3 * nat), ('points', nv), ('kpoints', n)): h.same('qha', text, int(getattr(r, what)), x, msg=what)
        h.close('qha', text, np.asarray(r.volume), np.array([abs(np.linalg.det(A)) for A in As]) / n, 1e-9, 0, 'volumes in increasing order')
        h.close('qha', text, np.asarray(r.energy), E / n, 1e-9, 0, 'energies of the sorted volumes')
        for q in range(n): h.close('qha', text, np.asarray(r.phonons[q]), F[3 * nat * q:3 * nat * (q + 1)], 1e-10, 1e-12, 'frequencies %d to %d' % (3 * nat * q + 1, 3 * nat * (q + 1)))
    h.current = None


def case_phonopy(h):
    cls = h.need(PY, 'PhonopyReader')
    rng = h.rng('phonopy')
    names = list(ELEMENTS)
    for k in count():
        if k >= h.n(40, 800): break
        nat, nq, D = int(rng.integers(1, 5)) if k % 10 != 3 else int(rng.integers(105, 130)), int(rng.integers(1, 5)), EXP[int(rng.integers(len(EXP)))]
        syms = [names[int(rng.integers(len(names)))] for _ in range(nat)]
        A, X = lattice(rng), np.round(rng.uniform(-1, 1, (nat, 3)), 8)
        W, Q, F = rng.integers(1, 49, nq), np.round(rng.uniform(-.5, .5, (nq, 3)), 7), np.round(rng.uniform(-2, 45, (nq, 3 * nat)) * (rng.random((nq, 3 * nat)) < .95), 8)
        vec = lambda r: '[ ' + ', '.join('%.12f' % x for x in r) + ' ]'
        Y = ['mesh: [ 4, 4, 4 ]', 'nqpoint: %d' % nq, 'natom: %d' % nat, 'lattice:'] + ['- ' + vec(r) for r in A] + ['points:']
        for s, x in zip(syms, X): Y += ['- symbol: %s # 1' % s, '  coordinates: ' + vec(x), '  mass: 24.3']
        Y += ['', 'phonon:']
        for q in range(nq):
            Y += ['- q-position: ' + vec(Q[q]), '  distance_from_gamma: 0.1', '  weight: %d' % W[q], '  band:']
            for j in range(3 * nat): Y += ['  - # %d' % (j + 1), '    frequency: %16.10f' % F[q, j]]
            Y.append('')
        S = ['supercell_matrix:'] + ['- [ %d, %d, %d ]' % tuple(r) for r in D] + ['supercell:', '  lattice:'] + ['  - ' + vec(r) for r in D @ A] + ['  points:']
        for c in range(idet(D) if nat < 100 else 1):
            for s, x in zip(syms, X): S += ['  - symbol: %s' % s, '    coordinates: ' + vec(x)]
        E, steps = [], int(rng.integers(0, 4))
        xml = '<?xml version="1.0"?>\n<modeling>\n <incar><i name="e_wo_entrp">1.0</i></incar>\n'
        for _ in range(steps):
            E.append(round(float(rng.uniform(-200, -1)), 8))
            xml += ' <calculation>\n  <scstep><energy><i name="e_wo_entrp"> 7.0 </i></energy></scstep>\n  <energy>\n   <i name="e_fr_energy">  %.8f </i>\n   <i name="e_wo_entrp">  %.8f </i>\n   <i name="e_0_energy"> %.8f </i>\n  </energy>\n </calculation>\n' % (
                E[-1] - 1, E[-1], E[-1] + 1)
        xml += '</modeling>\n'
        p = os.path.join(h.scratch, 'mesh.yaml')
        for g in (p, p[:-5] + '_disp.yaml', p[:-5] + '.xml'):
            if os.path.exists(g): os.remove(g)
        bad = k % 8 if k % 8 >= 4 and k % 16 >= 8 else None
        if bad == 4: Y.insert(int(rng.integers(1, len(Y))), '  : [ }')
        if bad == 5: S.insert(int(rng.integers(1, len(S))), ' : [ }')
        if bad != 6: open(p, 'w').write('\n'.join(Y) + '\n')
        if bad != 7: open(p[:-5] + '_disp.yaml', 'w').write('\n'.join(S) + '\n')
        if steps: open(p[:-5] + '.xml', 'w').write(xml)
        text = {'mesh.yaml': '\n'.join(Y), 'mesh_disp.yaml': '\n'.join(S), 'mesh.xml': xml if steps else None, 'bad': bad}
        h.current = text
        r = limited(cls, p)
        if bad is not None:
            reported(h, 'phonopy', text, r)
            continue
        same(h, 'phonopy', text, r, {'natom': nat, 'qpoints': nq, 'nphonon': 3 * nat, 'volume': abs(np.linalg.det(A)), 'energy': E[-1] if steps else 0., 'weights': W, 'qcoords': Q, 'F': F * 1e10 / 299792458., 'shrinkf': [1., 1., 1.]})
        if r.completed is not True: continue
        h.same('phonopy', text, [[int(x) for x in row] for row in np.asarray(r.dim)], D.tolist(), msg='expansion matrix')
        h.close('phonopy', text, np.asarray(r._data['unitcell']['positions'], dtype=float) if 'positions' in r._data['unitcell'] else X, X, 1e-10, 1e-12, 'coordinates')
    h.current = None
