"""Generated input files: what the writers print is read back by the readers as the same data, to the printed digits.

Elastic constants: the text written by the writer for a symbolic symmetric matrix and density is given to the reader itself.  Phonon data: the
text written for symbolic data is parsed by PyYAML (the numbers are put in as text in three different renderings, which must all give the same
document), and the document is given to the reader itself.  Numbers of atoms, volumes and q-points are bounded for the phonon files (stated in
the names of the obligations), the values are not.
Trusted: PyYAML; a number printed with d decimals reads back as that rounded number (round.<d> below); input() returns one line of text."""
from fractions import Fraction
from pyvc.vc import *
from pyvc import lib as L
from pyvc.interp import InstV
import yaml

SW, SR = 'quantas.IO.soec_writer.SOECInputCreator', 'quantas.IO.soec_reader.SOECInputFileReader'
QW, QR = 'quantas.IO.qha_writer.QHAInputCreator', 'quantas.IO.qha_reader.QHAInputFileReader'


def printed(spec, x):
    """the number read from x printed this way"""
    from pyvc.objects import fmt_digits
    return t.app("round" + fmt_digits(spec), t.toreal(t.T(x)))


def num(x): return t.T(x.get() if isinstance(x, ArrV) else x)


# ---------------------------------------------------------------- elastic constants
JOBS = ['Unknown', 'MgO', 'calcite at 300 K', '2H-MoS2 bulk', '10 GPa', "Bob's run: #1", '-phase', '1 2 3 4 5 x', 'x 1 2 3 4 5', 'a,b\\c "d"']


@unit('elastic constants: job name, matrix and density written are read back')
def u_soec(v):
    C = [[t.sym('c%d%d' % (min(i, j), max(i, j))) for j in range(6)] for i in range(6)]
    rho = t.sym('rho')
    for job in JOBS:
        def run():
            v.I.check_defined = False
            w = v.call(SW, 'crystal')
            v.set(w, 'soec_data', struct('data', stiffness=A.as_array(v.I, ListV([ListV(r) for r in C])), density=rho))
            v.meth(w, 'write', 'out.dat', job) if job != 'Unknown' else v.meth(w, 'write', 'out.dat')
            r = v.call(SR, 'out.dat')
            T = 'job %r: ' % job
            v.fact(T + 'read back without an error', v.attr(r, 'completed') is True and v.attr(r, 'error') is None, str(v.attr(r, 'error')))
            v.fact(T + 'job name', v.attr(r, 'jobname') == job, str(v.attr(r, 'jobname')))
            S = v.attr(r, 'stiffness')
            if v.shape(T + 'stiffness', S, (6, 6)):
                for i in range(6):
                    for j in range(6): v.eq(T + 'C%d%d to four decimals' % (i + 1, j + 1), S.get(i, j), printed('.4f', C[i][j]))
            v.eq(T + 'density to one decimal', num(v.attr(r, 'density')), printed('.1f', rho))
        v.paths('job %r' % job, run)


# ---------------------------------------------------------------- phonon data
import random
RJOBS = ['MgO phonons', "it's: a [test] - #1", '2024', 'yes', '', 'null', '- item {x}', 'a: b', 'back\\slash "quoted" %d {0}', "''", '@`|>&*!?', 'calcite, 300 K ']


def renderings(parts, k):
    """the text with its numbers put in, in one of several ways; also the way back from a number read to what was printed there"""
    rnd, back, out = random.Random(k), {}, []
    for p in parts:
        if isinstance(p, str): out.append(p); continue
        if not isinstance(p, L.Fmt) or not L.isnum(p.value): raise Unsupported('text %r in the written file' % (p,))
        x = L.num(p.value)
        while True:
            if x.sort == 'I':
                n = rnd.choice([1, 10, 10 ** 5, 10 ** 9]) * rnd.randint(1, 9) * 7 + rnd.randint(0, 99)
                n = n if k != 2 else -n
                s = format(n, p.spec)
                w = n
            else:
                n = rnd.uniform(0.5, 1) * 10 ** rnd.choice([1, 3, 6, 9]) * (-1 if k == 2 else 1)
                s = format(n, p.spec)
                w = float(s)
            if w not in back: break
        back[w] = printed(p.spec, x) if x.sort == 'R' else x
        out.append(s)
    return ''.join(out), back


def parse(I, a, k):
    """yaml.safe_load of a text whose numbers are symbolic"""
    parts = L.sparts(L.sconcat(list(a[0].rest(I))))
    docs = []
    for m in range(3):
        text, back = renderings(parts, m)
        try: docs.append(yaml.safe_load(text))
        except yaml.YAMLError as e:
            I.throw('YAMLError', str(e))
        def lift(x):
            if isinstance(x, dict): return {y: lift(z) for y, z in x.items()}
            if isinstance(x, list): return [lift(z) for z in x]
            if isinstance(x, bool) or x is None or isinstance(x, str): return x
            if x in back: return back[x]
            return x
        docs[-1] = lift(docs[-1])
    if not all(repr(d) == repr(docs[0]) for d in docs[1:]): raise Unsupported('the written document depends on the values')
    def wrap(x):
        if isinstance(x, dict): return DictV({y: wrap(z) for y, z in x.items()})
        if isinstance(x, list): return ListV([wrap(z) for z in x])
        return x
    return wrap(docs[0])


def arr(name, *shape, sort='R'): return sym_array(name, shape, sort)


def check(v, T, nq, nb, nv, natom, job, F, V, E, W, Q, D):
    r = v.call(QR, 'out.yaml')
    v.fact(T + 'read back without an error', v.attr(r, 'completed') is True and v.attr(r, 'error') is None, str(v.attr(r, 'error')))
    v.fact(T + 'job name', v.attr(r, 'jobname') == job.rstrip(), str(v.attr(r, 'jobname')))
    v.eq(T + 'number of atoms', num(v.attr(r, 'natoms')), t.T(natom))
    v.eq(T + 'number of q-points', num(v.attr(r, 'qpoints')), t.T(nq))
    if nv > 1:
        v.arr_eq(T + 'volumes to eight decimals', v.attr(r, 'volume'), (nv,), lambda k: printed('.8f', V(k)))
        v.arr_eq(T + 'energies to twelve decimals', v.attr(r, 'energy'), (nv,), lambda k: printed('.12E', E(k)))
    else:
        v.arr_eq(T + 'volume to eight decimals', L_ravel(v, v.attr(r, 'volume')), (1,), lambda k: printed('.8f', V(k)))
        v.arr_eq(T + 'energy to twelve decimals', L_ravel(v, v.attr(r, 'energy')), (1,), lambda k: printed('.12E', E(k)))
    v.arr_eq(T + 'weights', v.attr(r, 'weights'), (nq,), lambda q: t.toreal(W(q)))
    v.arr_eq(T + 'frequencies to ten decimals', v.attr(r, 'frequencies'), (nq, nb, nv), lambda q, b, k: printed('.10f', F(q, b, k)))
    doc = v.attr(r, '_data')
    get = lambda x, y: v.I.lib.getitem(v.I, x, y)
    for q in range(nq):
        for c in range(3): v.eq(T + 'coordinate %d of q-point %d' % (c + 1, q + 1), num(get(get(get(get(doc, 'phonon'), q), 'q-position'), c)), printed('.7f', Q(q, c)))
    for i in range(3):
        for j in range(3): v.eq(T + 'supercell %d %d' % (i + 1, j + 1), num(get(get(get(doc, 'supercell'), i), j)), t.T(D(i, j)))


def L_ravel(v, x):
    return A.np_ravel(v.I, x)


def generator(v, flag, job):
    v.I.contracts['yaml.safe_load'] = parse
    v.I.contracts['input'] = lambda I, a, k: job
    return v.call(QW, flag)


def lits(*ix): return tuple(t.T(i) for i in ix)


def many(v, nq, nat, nv, ref, job, flag='crystal'):
    nb = 3 * nat
    T = '%d q-points, %d atoms, %d files, reference %d, job %r: ' % (nq, nat, nv, ref, job)
    def run():
        v.I.check_defined = False
        g = generator(v, flag, job)
        D, W, Q, s = arr('D', nv, 3, 3, sort='I'), arr('W', nv, nq, sort='I'), arr('Q', nv, nq, 3), arr('s', nv, 3)
        V, E, F = arr('V', nv), arr('E', nv), arr('F', nv, nq, nb)
        part = lambda a, k, *shape: new_array(shape, lambda *ix: a.get(t.T(k), *ix), a.dtype)
        files = [struct('file%d' % k, natom=nat, dim=part(D, k, 3, 3), qpoints=nq, nphonon=nb, volume=V.get(t.T(k)), energy=E.get(t.T(k)),
                        qcoords=part(Q, k, nq, 3), shrinkf=part(s, k, 3), weights=part(W, k, nq), phonons=part(F, k, nq, nb)) for k in range(nv)]
        v.set(g, 'phondata', ListV(files))
        v.meth(g, 'write', 'out.yaml', ref)
        R = t.T(ref)
        check(v, T, nq, nb, nv, nat, job, lambda q, b, k: F.get(k, q, b), lambda k: V.get(k), lambda k: E.get(k), lambda q: W.get(R, q),
              lambda q, c: t.div(Q.get(R, *lits(q, c)), s.get(R, t.T(c))), lambda i, j: D.get(R, *lits(i, j)))
    v.paths(T, run)


def single(v, nq, nat, nv, job):
    nb = 3 * nat
    T = '%d q-points, %d atoms, %d volumes in one file, job %r: ' % (nq, nat, nv, job)
    def run():
        v.I.check_defined = False
        g = generator(v, 'crystal-qha', job)
        D, W, Q, s = arr('D', 3, 3, sort='I'), arr('W', nq, sort='I'), arr('Q', nq, 3), arr('s', 3)
        V, E, F = arr('V', nv), arr('E', nv), arr('F', nq, nb, nv)
        v.set(g, 'phondata', struct('data', natom=nat, dim=D, qpoints=nq, nphonon=nb, volume=V, energy=E, points=nv, qcoords=Q, shrinkf=s, weights=W, phonons=F))
        v.meth(g, 'write', 'out.yaml')
        check(v, T, nq, nb, nv, nat, job, lambda q, b, k: F.get(q, b, k), lambda k: V.get(k), lambda k: E.get(k), lambda q: W.get(q),
              lambda q, c: t.div(Q.get(*lits(q, c)), s.get(t.T(c))), lambda i, j: D.get(*lits(i, j)))
    v.paths(T, run)


SHAPES = [(1, 1, 1), (1, 1, 3), (2, 1, 2), (3, 1, 1), (2, 2, 4), (1, 4, 2), (12, 1, 2)]


@unit('phonon files: data of several outputs', bounded='numbers of q-points, atoms and files up to those in the names; every value symbolic')
def u_many(v):
    for nq, nat, nv in SHAPES:
        for ref in sorted({0, nv - 1, nv // 2}): many(v, nq, nat, nv, ref, 'MgO phonons', 'phonopy' if nq == 2 else 'crystal')
    for job in RJOBS: many(v, 1, 1, 2, 0, job)


@unit('phonon files: data of one quasi-harmonic output', bounded='numbers of q-points, atoms and volumes up to those in the names; every value symbolic')
def u_single(v):
    for nq, nat, nv in SHAPES:
        if nv > 1: single(v, nq, nat, nv, 'MgO phonons')
    single(v, 1, 1, 11, 'MgO phonons')
    for job in RJOBS: single(v, 1, 1, 4, job)
