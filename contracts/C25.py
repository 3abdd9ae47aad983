"""Phonon data extracted from CRYSTAL and phonopy results.

The CRYSTAL outputs are texts: the blocks the reader looks for, with symbolic numbers, between runs of any number of other lines (of which only
is known that they hold none of the texts searched for).  phonopy files are symbolic documents (yaml.safe_load and the XML parser are trusted).
Numbers of modes, q-points and volumes are bounded where the name of the unit says so; the numbers printed are not."""
from fractions import Fraction
from pyvc.vc import *
from pyvc import lib as L
from pyvc.syslib import constant
from .textfile import *
from . import textfile as X

PR, QR, PY = 'quantas.interfaces.crystal.CrystalPhononReader', 'quantas.interfaces.crystal.CrystalQHAReader', 'quantas.interfaces.phonopy.PhonopyReader'
FREQCALC = 'EIGENVALUES (EIGV) OF THE MASS WEIGHTED HESSIAN MATRIX AND HARMONIC'
SCEL = 'PHONON FREQUENCIES AT A SET OF K POINTS BY USING A SUPERCELL'
GROUP, WF, OPT = 'GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP', 'GEOMETRY FOR WAVE FUNCTION - ', 'FINAL OPTIMIZED GEOMETRY'
SUPER, EXPANSION, LATTICE = ' * SUPERCELL OPTION', 'EXPANSION MATRIX OF PRIMITIVE CELL', 'DIRECT LATTICE VECTORS CARTESIAN COMPONENTS'
HESS, MODES, KTABLE = 'ACTIVATED INTERPOLATION OF THE HESSIAN UP TO', 'THAT PERMITS THE CALCULATION OF MODES AT', 'K       WEIGHT       COORD'
CENTRAL, HEADER = '    CENTRAL POINT', 'MODES         EIGV          FREQUENCIES     IRREP'
QHA, FREQ, SORT, RESTART = 'QUASI-HARMONIC APPROXIMATION', 'FREQUENCY #', 'SORTING VOLUMES/ENERGIES', 'READING DATA FROM RESTART UNIT'
MARKS = (FREQCALC, SCEL, GROUP, WF, OPT, SUPER, EXPANSION, LATTICE, HESS, MODES, KTABLE, CENTRAL, HEADER, QHA, FREQ, SORT, RESTART)
STARS = ' ' + '*' * 79 + '\n'
def T(*ws): return tuple(ws)


def atom(pre, k):
    return line(num(t.add(k, 1)), 'T', num(t.app(pre + 'Z', k, sort='I')), word(t.app(pre + 'symbol', k)), *[num(t.app(pre + 'x', k, c)) for c in range(3)], lead='  ', sep='   ')


def atoms(pre, n):
    return tuple(atom(pre, t.T(k)) for k in range(n)) if isinstance(n, int) else ('run', n, lambda k: atom(pre, k))


def geometry(title, extra, pre, n):
    """pieces of a printed geometry of n atoms"""
    head = [title, ' (NON PERIODIC DIRECTION: LATTICE PARAMETER FORMALLY SET TO 500)\n'] + [STARS] * extra + [
        ' LATTICE PARAMETERS (ANGSTROMS AND DEGREES) - BOHR = 0.5291772083 ANGSTROM\n',
        line(' PRIMITIVE CELL - CENTRING CODE', '5/0', 'VOLUME=', num('vol' + pre), '-', 'DENSITY', num('rho' + pre), 'g/cm^3'),
        '         A              B              C           ALPHA      BETA       GAMMA \n', line(*[num('cell%s%d' % (pre, j)) for j in range(6)], lead='  '), STARS,
        line(' ATOMS IN THE ASYMMETRIC UNIT', num('asym' + pre), '-', 'ATOMS IN THE UNIT CELL:', num(t.T(n))),
        '     ATOM                 X/A                 Y/B                 Z/C    \n', STARS]
    return [tuple(head), atoms(pre, n)]


def wf(pre, n): return geometry(' ' + WF + 'DIMENSIONALITY OF THE SYSTEM    3\n', 1, pre, n)
def opt(pre, n): return geometry(' ' + OPT + ' - DIMENSIONALITY OF THE SYSTEM      3\n', 1, pre, n)
def group(pre, n): return geometry(' ' + GROUP + '\n', 0, pre, n)


def lattice(pre, rows=None):
    if rows is None: rows = lat(pre)
    return (' ' + LATTICE + ' (ANGSTROM)\n', '          X                    Y                    Z\n') + tuple(line(*[x if isinstance(x, str) else num(x) for x in r], lead='   ', sep='   ') for r in rows)


def lat(pre): return [[t.sym('%s%d%d' % (pre, i, j)) for j in range(3)] for i in range(3)]


def det(D): return sum((D[0][i] * (D[1][(i + 1) % 3] * D[2][(i + 2) % 3] - D[1][(i + 2) % 3] * D[2][(i + 1) % 3]) for i in range(3)), t.T(0))


def expansion(D):
    return (' ' + EXPANSION + '\n',) + tuple(line('E%d' % (i + 1), *[D[i][j] if isinstance(D[i][j], str) else num(D[i][j]) for j in range(3)], lead=' ', sep='   ') for i in range(3))


def central(E): return (line('    CENTRAL POINT', num(E), num('cycles', 'num'), '0.0000E+00', '48', sep='     '),)


def table(q, groups):
    """one q-point: modes n1..n2 with one frequency each"""
    rows, n = [' ' + HEADER + '  IR   INTENS    RAMAN\n', '             (HARTREE**2)   (CM**-1)     (THZ)             (KM/MOL)\n'], 0
    for r, g in enumerate(groups):
        rows.append(line('%5d-%4d' % (n + 1, n + g), num(t.app('eig', q, r)), num(t.app('freq', q, r)), num(t.app('thz', q, r)), '(Fu )   A (     0.00)   I', sep='   '))
        n += g
    return tuple(rows + ['\n'])


def spread(groups): return [r for r, g in enumerate(groups) for _ in range(g)]


def mesh(nq, hess):
    """the table of q-points with weights and coordinates, and the shrinking factors"""
    row = lambda k: line('*', num(t.add(k, 1)), num(t.app('weight', k)), *[num(t.app('coord', k, c)) for c in range(3)], lead=' ', sep='   ')
    rows = tuple(row(t.T(k)) for k in range(nq)) if isinstance(nq, int) else ('run', nq, row)
    shrink = (line(' * WITH SHRINKING FACTORS: IS1', '=', num('s0'), 'IS2', '=', num('s1'), 'IS3', '=', num('s2')),)
    n = num(t.T(nq))
    if hess:
        return [(line(' * ' + HESS, n, 'K', 'POINTS', 'AND'),) + ('\n',) * 2 + (' *\n',) * 6, rows, shrink]
    return [(line(' * ' + MODES, n, 'K', 'POINTS', 'COMMENSURATE'),), gap(None, 'k'), (' *      ' + KTABLE + '\n',), rows, shrink]


def num_of(x): return t.T(x.get() if isinstance(x, ArrV) else x)


def physical(v):
    v.assume(t.ne(t.sym('E'), 0))
    v.assume(t.or_(*[t.ne(x, 0) for r in lat('L') for x in r]))


def absv(x): return t.ite(t.lt(x, 0), t.mul(-1, x), x)


def item(v, d, k): return v.I.lib.getitem(v.I, d, k)


def check(v, tag, r, natom, nq, nb, V, E, W, Q, S, F):
    if not v.fact('%s: completed without an error' % tag, v.attr(r, 'completed') is True and v.attr(r, 'error') is None, str(v.attr(r, 'error'))): return
    v.eq('%s: number of atoms' % tag, num_of(v.attr(r, 'natom')), t.T(natom))
    v.eq('%s: number of q-points' % tag, num_of(v.attr(r, 'qpoints')), t.T(nq))
    v.eq('%s: number of modes' % tag, num_of(v.attr(r, 'nphonon')), t.T(nb))
    if V is not None: v.eq('%s: volume' % tag, num_of(v.attr(r, 'volume')), V)
    v.eq('%s: energy' % tag, num_of(v.attr(r, 'energy')), E)
    for q in range(nq):
        v.eq('%s: weight of q-point %d' % (tag, q + 1), num_of(item(v, v.attr(r, 'weights'), q)), W(q))
        for c in range(3):
            v.eq('%s: coordinate %d of q-point %d' % (tag, c + 1, q + 1), num_of(item(v, item(v, v.attr(r, 'qcoords'), q), c)), Q(q, c))
        v.arr_eq('%s: frequencies of q-point %d' % (tag, q + 1), item(v, v.attr(r, 'phonons'), q), (nb,), lambda j: F(q, j))
    for c in range(3): v.eq('%s: shrinking factor %d' % (tag, c + 1), num_of(item(v, v.attr(r, 'shrinkf'), c)), S(c))


G = [gap(None, 'abcdefghijklmn'[j]) for j in range(14)]
GROUPS = {1: ([3], [1, 1, 1], [1, 2], [2, 1]), 2: ([3, 3], [1, 2, 1, 2], [1] * 6), 3: ([3, 2, 1, 1, 2],)}


@unit('CRYSTAL, Gamma point: volume, energy and every frequency as printed', bounded='up to three atoms, the degeneracies listed; text around and values symbolic')
def u_gamma(v):
    for nat, patterns in GROUPS.items():
        for gr in patterns:
            tag = '%d atoms, modes %s' % (nat, gr)
            output(v, 'out', MARKS, [G[0], (' ' + FREQCALC + '\n',), G[1]] + wf('w', nat) + [G[2], lattice('L'), G[3], central('E'), G[4], table(0, gr), G[5], table(7, gr), G[6]])
            ix = spread(gr)
            def run():
                nonneg(v)
                physical(v)
                v.I.check_defined = False
                r = v.call(PR, 'out')
                check(v, tag, r, nat, 1, 3 * nat, absv(det(lat('L'))), t.sym('E'), lambda q: t.T(1), lambda q, c: t.T(0), lambda c: t.T(1),
                      lambda q, j: A.pick(j, [t.app('freq', 0, i) for i in ix]))
            v.paths(tag, run)


DS = [[t.sym('D%d%d' % (i, j)) for j in range(3)] for i in range(3)]


def kp(v, D):
    """number of primitive cells in the supercell: the determinant of the expansion matrix, rounded; returns (facts, value)"""
    return t.app('roundn', absv(det(D)), t.T(0))


def ints(D): return [['%d' % x for x in r] for r in D]


DIMS = ([[2, 0, 0], [0, 1, 0], [0, 0, 1]], [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], [[0, 1, 0], [1, 0, 0], [0, 0, 3]])
def idet(D): return abs(round(sum(D[0][i] * (D[1][(i + 1) % 3] * D[2][(i + 2) % 3] - D[1][(i + 2) % 3] * D[2][(i + 1) % 3]) for i in range(3))))


def dispersion(nat, nq, groups, hess, D, before=True):
    p = [G[0], (' ' + SUPER + '\n',)] + [G[1]] + [expansion(D), G[2]] + group('u', nat) + [G[3], (' ' + SCEL + '\n',), G[4]] + wf('w', 2 * nat) + [G[5], lattice('L'), G[6]]
    m = mesh(nq, hess)
    p += m[:1] + [G[12]] * 0 + m[1:]
    p += [G[7], central('E'), G[8], (' ' + FREQCALC + '\n',), G[9]]
    for q in range(nq): p += [gap(None, 'q%d' % q), table(q, groups[q])]
    return p + [gap(None, 'end')]


@unit('CRYSTAL, phonon dispersion: every q-point has its coordinates, weight and frequencies; volume and energy per primitive cell',
      bounded='up to three q-points and two atoms; text around and values symbolic, expansion matrices concrete')
def u_disp(v):
    for nat, nq, groups, hess, D in ((1, 1, ([3],), False, DIMS[0]), (1, 2, ([3], [1, 2]), False, DIMS[1]), (2, 2, ([3, 3], [1] * 6), True, DIMS[0]), (1, 3, ([3], [1, 1, 1], [2, 1]), True, DIMS[2])):
        tag = '%d atoms, %d q-points%s, expansion %s' % (nat, nq, ', interpolated' if hess else '', D)
        output(v, 'out', MARKS, dispersion(nat, nq, groups, hess, ints(D)))
        n = idet(D)
        def run():
            nonneg(v)
            physical(v)
            v.I.check_defined = False
            r = v.call(PR, 'out')
            Lm = lat('L')
            check(v, tag, r, nat, nq, 3 * nat, None, t.div(t.sym('E'), n), lambda q: t.app('weight', q), lambda q, c: t.app('coord', q, c), lambda c: t.sym('s%d' % c),
                  lambda q, j: A.pick(j, [t.app('freq', q, i) for i in spread(groups[q])]))
            V = num_of(v.attr(r, 'volume'))
            v.eq('%s: volume, up to its sign' % tag, t.mul(V, V), t.div(t.mul(det(Lm), det(Lm)), n * n))
            v.true('%s: the volume is not negative' % tag, t.ge(V, 0))
            v.eq('%s: number of k-points' % tag, num_of(v.attr(r, 'kpoints')), t.T(n))
            for i in range(3):
                for j in range(3): v.eq('%s: expansion %d %d' % (tag, i + 1, j + 1), num_of(v.attr(r, 'dim').get(i, j)), t.T(D[i][j]))
        v.paths(tag, run)


@unit('CRYSTAL, supercell at the Gamma point only: the supercell is the cell', bounded='one atom in the primitive cell; text around and values symbolic')
def u_super(v):
    for D, gr in ((DIMS[0], [3, 3]), (DIMS[2], [3, 2, 1, 3])):
        n = idet(D)
        tag = 'expansion %s' % D
        output(v, 'out', MARKS, [G[0], (' ' + SUPER + '\n',), G[1], expansion(ints(D)), G[2]] + group('u', 1) + [G[3]] + wf('w', n) + [G[5], lattice('L'), G[6], central('E'), G[7],
               (' ' + FREQCALC + '\n',), G[8], table(0, gr), G[9]])
        def run():
            nonneg(v)
            physical(v)
            v.I.check_defined = False
            check(v, tag, v.call(PR, 'out'), n, 1, 3 * n, absv(det(lat('L'))), t.sym('E'), lambda q: t.T(1), lambda q, c: t.T(0), lambda c: t.T(1),
                  lambda q, j: A.pick(j, [t.app('freq', 0, i) for i in spread(gr)]))
        v.paths(tag, run)


def bare(v):
    """a reader that has read nothing yet"""
    o = InstV({})
    o.cls = v.get(PR)
    v.set(o, '_data', DictV({'unitcell': DictV({}), 'supercell': DictV({}), 'qpoints': 1}))
    return o


@unit('CRYSTAL: meshes of any number of q-points, cells of any number of atoms')
def u_any(v):
    nq, nat = t.sym('nq', 'I'), t.sym('nat', 'I')
    for hess in (True, False):
        m = mesh(nq, hess)
        output(v, 'out', MARKS, [G[0]] + m + [G[1]])
        tag = 'interpolated' if hess else 'commensurate'
        def run():
            nonneg(v)
            v.assume(t.ge(nq, 1))
            v.I.check_defined = False
            k, co, w, s = v.meth(bare(v), 'set_q_mesh', 'out')
            v.eq('%s: number of q-points' % tag, num_of(k), nq)
            v.arr_eq('%s: weights' % tag, w, (nq,), lambda q: t.app('weight', q))
            v.arr_eq('%s: coordinates' % tag, co, (nq, 3), lambda q, c: A.pick(c, [t.app('coord', q, j) for j in range(3)]))
            v.arr_eq('%s: shrinking factors' % tag, s, (3,), lambda c: A.pick(c, [t.sym('s%d' % j) for j in range(3)]))
        v.paths(tag, run)
    for what, block, meth in (('wave function', wf, 'set_wf_cell'), ('input', group, 'set_init_cell')):
        output(v, 'out', MARKS, [G[0]] + block('w', nat) + [G[1], lattice('L'), G[2], lattice('M'), G[3]])
        def run():
            nonneg(v)
            v.assume(t.ge(nat, 1))
            v.I.check_defined = False
            n, z, x, a = v.meth(bare(v), meth, 'out')
            v.eq('%s cell: number of atoms' % what, num_of(n), nat)
            v.arr_eq('%s cell: atomic numbers' % what, z, (nat,), lambda k: t.app('wZ', k, sort='I'))
            v.arr_eq('%s cell: coordinates' % what, x, (nat, 3), lambda k, c: A.pick(c, [t.app('wx', k, j) for j in range(3)]))
            if meth == 'set_wf_cell': v.arr_eq('%s cell: lattice' % what, a, (3, 3), lambda i, j: A.pick(i, [A.pick(j, r) for r in lat('L')]))
        v.paths(what, run)
    output(v, 'out', MARKS, [G[0], expansion(DS), G[1], central('E'), G[2], central('E2'), G[3]])
    def run():
        nonneg(v)
        o = bare(v)
        v.arr_eq('expansion matrix', v.meth(o, 'set_expansion', 'out'), (3, 3), lambda i, j: A.pick(i, [A.pick(j, r) for r in DS]))
        v.eq('energy of the central point', num_of(v.meth(o, 'set_energy', 'out')), t.sym('E'))
    v.paths('expansion', run)


def refused(v, cls, tag, pieces):
    output(v, 'out', MARKS, pieces)
    def run():
        nonneg(v)
        v.I.check_defined = False
        r = v.call(cls, 'out')
        v.fact('%s: not completed' % tag, v.attr(r, 'completed') is False)
        v.fact('%s: an error is reported' % tag, L.isstr(v.attr(r, 'error')))
    v.paths(tag, run)


@unit('CRYSTAL: outputs without phonons, or cut short, are reported', bounded='one or two atoms; text around and values symbolic')
def u_bad(v):
    refused(v, PR, 'no frequency calculation', [G[0]] + wf('w', 1) + [G[1], lattice('L'), G[2]])
    head = [G[0], (' ' + FREQCALC + '\n',), G[1]] + wf('w', 2) + [G[2], lattice('L'), G[3], central('E'), G[4]]
    full = table(0, [3, 3])
    refused(v, PR, 'no frequencies', head)
    refused(v, PR, 'no energy', head[:-2] + [full, G[5]])
    refused(v, PR, 'no geometry', [G[0], (' ' + FREQCALC + '\n',), G[1], central('E'), full, G[5]])
    for k in range(1, len(full) - 1):
        if k > 1: refused(v, PR, 'band cut after %d lines' % k, head + [full[:k] + ('\n',), G[5]])
        refused(v, PR, 'file cut after %d lines of the band' % k, head + [full[:k]])
    refused(v, PR, 'more modes than three per atom', head + [table(0, [3, 3, 1]), G[5]])
    disp = dispersion(1, 2, ([3], [3]), False, ints(DIMS[0]))
    refused(v, PR, 'a q-point without frequencies', disp[:-2])


# ---------------------------------------------------------------- phonopy
SYMBOLS = {'Mg': 12, 'O': 8, 'Ca': 20}


def ldoc(pre): return ListV([ListV([t.sym('%s%d%d' % (pre, i, j)) for j in range(3)]) for i in range(3)])


def points(pre, syms): return ListV([DictV({'symbol': s, 'coordinates': ListV([t.app(pre + 'x', k, c) for c in range(3)])}) for k, s in enumerate(syms)])


def phonopy(v, nat, nq, syms, energies, bad=None):
    F = lambda q, j: t.app('freq', t.T(q), t.T(j))
    mesh = DictV({'natom': nat, 'lattice': ldoc('L'), 'points': points('u', syms), 'nqpoint': nq,
                  'phonon': ListV([DictV({'q-position': ListV([t.app('coord', q, c) for c in range(3)]), 'weight': t.app('weight', q, sort='I'),
                                          'band': ListV([DictV({'frequency': F(q, j)}) for j in range(3 * nat)])}) for q in range(nq)])})
    disp = DictV({'supercell_matrix': ListV([ListV([t.sym('D%d%d' % (i, j), 'I') for j in range(3)]) for i in range(3)]),
                  'supercell': DictV({'lattice': ldoc('M'), 'points': points('s', syms * 2)})})
    v.I.files['a.yaml'], v.I.files['a_disp.yaml'] = ('mesh\n',), ('disp\n',)
    docs = {'mesh\n': mesh, 'disp\n': disp}
    def load(I, a, k):
        what = a[0].rest(I)[0]
        if what == bad: raise PyRaise(I.call(I.getattr(I.import_module('yaml'), 'YAMLError'), [], {}))
        return docs[what]
    v.I.contracts['yaml.safe_load'] = load
    v.I.files.pop('a.xml', None)
    if energies is not None:
        v.I.files['a.xml'] = ('xml\n',)
        el = ListV([struct('i', attrib=DictV({'name': n}), text=L.SStr((' ', L.Tok(e, 'num'), ' '))) for n, e in energies])
        root = struct('root', findall=Builtin('findall', lambda I, a, k: el if a[0] == 'calculation/energy/i' else ListV([])))
        def parse(I, a, k):
            if a[0] != 'a.xml': raise Unsupported('parse of another file')
            return struct('tree', getroot=Builtin('getroot', lambda I, a, k: root))
        v.I.contracts['ElementTree.parse'] = parse


@unit('phonopy: volume, energy, q-points, weights and every frequency as listed, in cm^-1', bounded='up to two atoms and three q-points; every value symbolic')
def u_phonopy(v):
    E = lambda j: t.sym('E%d' % j)
    step = lambda j: [('e_fr_energy', t.sym('a%d' % j)), ('e_wo_entrp', E(j)), ('e_0_energy', t.sym('b%d' % j))]
    for nat, nq, syms, en in ((1, 1, ['Mg'], None), (1, 3, ['O'], step(0)), (2, 2, ['O', 'Mg'], step(0) + step(1) + step(2)), (2, 1, ['Ca', 'O'], step(0))):
        tag = '%d atoms, %d q-points, %s energies' % (nat, nq, 0 if en is None else len(en) // 3)
        phonopy(v, nat, nq, syms, en)
        def run():
            v.I.check_defined = False
            r = v.call(PY, 'a.yaml')
            check(v, tag, r, nat, nq, 3 * nat, absv(det(lat('L'))), t.T(0) if en is None else E(len(en) // 3 - 1), lambda q: t.app('weight', q, sort='I'), lambda q, c: t.app('coord', q, c), lambda c: t.T(1),
                  lambda q, j: t.mul(t.app('freq', q, j), t.div(10 ** 10, constant('c'))))
            D = v.attr(r, 'dim')
            for i in range(3):
                for j in range(3): v.eq('%s: expansion %d %d' % (tag, i + 1, j + 1), num_of(D.get(i, j)), t.sym('D%d%d' % (i, j), 'I'))
            u = v.attr(r, '_data')
            c = item(v, u, 'unitcell')
            v.arr_eq('%s: atomic numbers' % tag, item(v, c, 'numbers'), (nat,), lambda k: A.pick(k, [t.T(SYMBOLS[s]) for s in syms]))
            v.arr_eq('%s: atomic coordinates' % tag, item(v, c, 'positions'), (nat, 3), lambda k, j: t.app('ux', k, j))
        v.paths(tag, run)
    for tag, gone in (('no displacement file', 'a_disp.yaml'), ('no results', 'a.yaml')):
        phonopy(v, 1, 1, ['O'], step(0))
        del v.I.files[gone]
        def run():
            r = v.call(PY, 'a.yaml')
            v.fact('%s: reported' % tag, v.attr(r, 'completed') is False and L.isstr(v.attr(r, 'error')))
        v.paths(tag, run)
    for bad in ('mesh\n', 'disp\n'):
        phonopy(v, 1, 1, ['O'], step(0), bad)
        def run():
            r = v.call(PY, 'a.yaml')
            v.fact('malformed YAML: reported', v.attr(r, 'completed') is False and v.attr(r, 'error') is not None)
        v.paths('malformed %s' % bad[:4], run)


# ---------------------------------------------------------------- quasi-harmonic outputs
def sorted_table(n):
    return (' ' + SORT + '\n', '\n', '    VOLUME      ENERGY\n', '\n') + tuple(line(num('V%d' % k), num('E%d' % k), lead='   ', sep='   ') for k in range(n)) + ('\n',)


def freq_block(i, n):
    return (line(' ' + FREQ, num(t.T(i + 1))), '   VOLUME    FREQUENCY\n', '\n') + tuple(line(num(t.app('fv', i, k)), num(t.app('freq', i, k)), lead='   ', sep='   ') for k in range(n)) + ('\n',)


def sheared(k):
    """a lattice of volume a_k, right- or left-handed"""
    a = [[t.sym('a%d' % k), t.sym('p%d' % k), t.sym('q%d' % k)], ['0.000', '1.000', t.sym('r%d' % k)], ['0.0', '0.0', '1.0']]
    return [a[1], a[0], a[2]] if k % 2 else a


def isclose(a, b): return t.le(t.absv(t.sub(a, b)), t.add(t.lit(1e-8), t.mul(t.lit(1e-5), t.absv(b))))


def quasiharmonic(nv, order, D):
    @unit('CRYSTAL, quasi-harmonic: volumes in increasing order with the energy and the frequencies printed for each of them, %d volumes optimised in the order %s, expansion %s' % (nv, order, D),
          bounded='one atom in the primitive cell, four or five volumes; text around and values symbolic, expansion matrices concrete')
    def u_qha(v):
        n = 1 if D is None else idet(D)
        tag = '%d volumes optimised in the order %s, expansion %s' % (nv, order, D)
        p = [G[0], (' ' + QHA + '\n',), G[1]] + ([(' ' + SUPER + '\n',), G[2], expansion(ints(D)), G[3]] if D else [])
        for k in order: p += [gap(None, 'o%d' % k)] + opt('o%d' % k, n) + ([] if D else [gap(None, 'p%d' % k)]) + [lattice('', sheared(k))]
        p += [G[4], sorted_table(nv), G[5]]
        for i in range(3 * n): p += [freq_block(i, nv)] + ([gap(None, 'f%d' % i)] if not D or i in (0, 3 * n - 1) else [])
        output(v, 'out', MARKS, p)
        def run():
            nonneg(v)
            v.I.check_defined = False
            dets = [t.sym('a%d' % k) for k in range(nv)]
            for d in dets: v.assume(t.gt(d, 0))
            for k in range(nv):
                for j in range(nv):
                    c = isclose(dets[k], t.sym('V%d' % j))
                    v.assume(c if j == k else t.not_(c))
            r = v.call(QR, 'out')
            if not v.fact('%s: completed without an error' % tag, v.attr(r, 'completed') is True and v.attr(r, 'error') is None, str(v.attr(r, 'error'))): return
            for what, x in (('natom', 1), ('qpoints', n), ('nphonon', 3), ('points', nv), ('kpoints', n)): v.eq('%s: %s' % (tag, what), num_of(v.attr(r, what)), t.T(x))
            v.arr_eq('%s: volumes' % tag, v.attr(r, 'volume'), (nv,), lambda k: t.div(A.pick(k, dets), n))
            v.arr_eq('%s: energies' % tag, v.attr(r, 'energy'), (nv,), lambda k: t.div(A.pick(k, [t.sym('E%d' % j) for j in range(nv)]), n))
            for q in range(n):
                v.eq('%s: weight of q-point %d' % (tag, q + 1), num_of(item(v, v.attr(r, 'weights'), q)), t.T(1))
                v.arr_eq('%s: frequencies of q-point %d' % (tag, q + 1), item(v, v.attr(r, 'phonons'), q), (3, nv), lambda j, k: t.app('freq', t.add(3 * q, j), k))
        v.paths(tag, run)


for _case in ((4, (0, 1, 2, 3), None), (5, (2, 0, 4, 1, 3), None), (4, (3, 1, 0, 2), DIMS[0]), (4, (1, 0, 3, 2), DIMS[2])): quasiharmonic(*_case)


@unit('CRYSTAL, quasi-harmonic: volumes and energies of any number of cells are those of the primitive cell')
def u_qhacells(v):
    n, np_ = t.sym('nv', 'I'), v.I.import_module('numpy')
    def run():
        v.assume(t.ge(n, 1))
        v.I.check_defined = False
        o = InstV({})
        o.cls = v.get(QR)
        L_, E = sym_array('L', (n, 3, 3)), sym_array('E', (n,))
        cells = ListV(SymSeq(n, lambda k: DictV({'lattice': v.index_of(L_, k) if hasattr(v, 'index_of') else v.I.lib.getitem(v.I, L_, k), 'natom': t.sym('nat', 'I')})))
        v.set(o, '_data', DictV({'unitcell': cells, 'energy': E, 'expansion': A.as_array(v.I, ldoc('D')), 'points': n, 'qpoints': 1}))
        K = v.attr(o, 'kpoints')
        V = v.attr(o, 'volume')
        D = lambda k: det([[t.app('L', k, t.T(i), t.T(j)) for j in range(3)] for i in range(3)])
        v.arr_eq('squares of the volumes', V * 1 if False else new_array((n,), lambda k: t.mul(V.get(k), V.get(k))), (n,), lambda k: t.div(t.mul(D(k), D(k)), t.mul(num_of(K), num_of(K))))
        v.arr_eq('energies', v.attr(o, 'energy'), (n,), lambda k: t.div(t.app('E', k), num_of(K)))
    v.paths('cells', run)
