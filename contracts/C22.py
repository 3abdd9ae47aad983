"""Phonon input files: from the parsed YAML document to the arrays used by the calculations.  yaml.safe_load is a trusted dependency
(its result is an arbitrary document of the documented form; numbers may be given as numbers or as blank-separated text)."""
from pyvc.vc import *
from pyvc import lib as L
from pyvc.interp import SymSeq, ClassV, PyRaise

RD = 'quantas.IO.qha_reader.QHAInputFileReader'


def parsed(v, doc):
    v.I.files['in.yaml'] = ('x\n',)
    v.I.contracts['yaml.safe_load'] = lambda I, a, k: doc


def seq(n, f):
    """list of n elements f(k); n may be a symbol"""
    return ListV([f(t.T(k)) for k in range(n)]) if isinstance(n, int) else ListV(SymSeq(n, f))


def document(nq, nat, nv, natom=None, qpoints=None, drop=(), job='job', **kw):
    F = lambda q, b: seq(kw.get('nf', nv), lambda k: t.app('F', q, b, k))
    def band(q, b):
        d = {'frequency': F(q, b)}
        if 'frequency' in drop: del d['frequency']
        return DictV(d)
    def point(q):
        d = {'q-position': ListV([t.app('Q', q, c) for c in range(3)]), 'weight': t.app('W', q),
             'band': seq(kw.get('nb', 3 * nat if isinstance(nat, int) else t.mul(3, nat)), lambda b: band(q, b))}
        for x in drop: d.pop(x, None)
        return DictV(d)
    d = {'job': job, 'natom': nat if natom is None else natom, 'supercell': ListV([ListV([t.sym('D%d%d' % (i, j), 'I') for j in range(3)]) for i in range(3)]),
         'qpoints': nq if qpoints is None else qpoints, 'volume': seq(nv, lambda k: t.app('V', k)),
         'energy': seq(kw.get('ne', nv), lambda k: t.app('E', k)), 'phonon': seq(nq, point)}
    for x in drop: d.pop(x, None)
    return DictV(d)


def num(r): return t.T(r if not isinstance(r, ArrV) else r.get())


def as_stated(v, tag, r, nq, nb, nv):
    v.fact('%s: completed' % tag, v.attr(r, 'completed') is True, str(v.attr(r, 'error')))
    v.fact('%s: no error' % tag, v.attr(r, 'error') is None)
    v.eq('%s: number of atoms' % tag, num(v.attr(r, 'natoms')) * 3, t.T(nb))
    v.eq('%s: number of q-points' % tag, num(v.attr(r, 'qpoints')), t.T(nq))
    v.eq('%s: number of volumes' % tag, num(v.attr(r, 'nvol')), t.T(nv))
    v.arr_eq('%s: volumes' % tag, v.attr(r, 'volume'), (nv,), lambda k: t.app('V', k))
    v.arr_eq('%s: energies' % tag, v.attr(r, 'energy'), (nv,), lambda k: t.app('E', k))
    v.arr_eq('%s: weights' % tag, v.attr(r, 'weights'), (nq,), lambda q: t.app('W', q))
    v.arr_eq('%s: frequencies' % tag, v.attr(r, 'frequencies'), (nq, nb, nv), lambda q, b, k: t.app('F', q, b, k))
    w = t.ssum(nq, lambda q: t.app('W', q)) if not isinstance(nq, int) else sum((t.app('W', t.T(q)) for q in range(nq)), t.T(0))
    v.eq('%s: total of the weights' % tag, num(v.attr(r, 'total_q_points')), w)


@unit('any document of the documented form: every entry ends in its own place')
def u_good(v):
    def run():
        v.I.check_defined = False
        nq, nat, nv = t.sym('nq', 'I'), t.sym('nat', 'I'), t.sym('nv', 'I')
        for x in (nq, nat, nv): v.assume(t.ge(x, 1))
        parsed(v, document(nq, nat, nv))
        r = v.call(RD, 'in.yaml')
        as_stated(v, 'document', r, nq, t.mul(3, nat), nv)
        v.fact('job name', v.attr(r, 'jobname') == 'job', str(v.attr(r, 'jobname')))
    v.paths('document', run)


@unit('job name: any text or number, Unknown when absent')
def u_job(v):
    for job, want in ((None, 'Unknown'), ('MgO  ', 'MgO'), (2020, '2020'), ('a: b # c', 'a: b # c'), ('', '')):
        def run():
            v.I.check_defined = False
            parsed(v, document(1, 1, 2, job=job))
            r = v.call(RD, 'in.yaml')
            v.fact('job %r' % (job,), v.attr(r, 'completed') is True and v.attr(r, 'jobname') == want, str(v.attr(r, 'jobname')))
        v.paths('job %r' % (job,), run)
    def none():
        v.I.check_defined = False
        parsed(v, document(1, 1, 2, drop=('job',)))
        r = v.call(RD, 'in.yaml')
        v.fact('no job', v.attr(r, 'completed') is True and v.attr(r, 'jobname') == 'Unknown', str(v.attr(r, 'jobname')))
    v.paths('no job', none)


@unit('supercell: number of k-points is the rounded absolute determinant of the stated matrix')
def u_super(v):
    def run():
        v.I.check_defined = False
        parsed(v, document(1, 1, 2))
        r = v.call(RD, 'in.yaml')
        D = [[t.sym('D%d%d' % (i, j), 'I') for j in range(3)] for i in range(3)]
        det = sum((D[0][i] * (D[1][(i + 1) % 3] * D[2][(i + 2) % 3] - D[1][(i + 2) % 3] * D[2][(i + 1) % 3]) for i in range(3)), t.T(0))
        k = num(v.attr(r, 'kpoints'))
        h, m = t.lit(0.5), t.mul(-1, det)
        near = lambda d: t.and_(t.le(t.sub(k, d), h), t.le(t.sub(d, k), h))
        v.true('at most half from the absolute value of the determinant', t.and_(t.or_(t.lt(det, 0), near(det)), t.or_(t.ge(det, 0), near(m))))
    v.paths('supercell', run)


def tokens(*vals, sep='   '):
    out = []
    for j, x in enumerate(vals): out += ([sep] if j else []) + [L.SStr((L.Tok(x, 'num'),))]
    return L.sconcat(out)


@unit('values separated by blanks instead of commas', bounded='lists of 3 values')
def u_text(v):
    for form in ('in brackets', 'plain'):
        def run():
            v.I.check_defined = False
            d = document(1, 1, 3)
            w = (lambda *x: ListV([tokens(*x)])) if form == 'in brackets' else tokens
            d.d['volume'] = w(*[t.app('V', t.T(k)) for k in range(3)])
            d.d['energy'] = w(*[t.app('E', t.T(k)) for k in range(3)])
            for b in range(3): d.d['phonon'].items[0].d['band'].items[b].d['frequency'] = w(*[t.app('F', t.T(0), t.T(b), t.T(k)) for k in range(3)])
            parsed(v, d)
            as_stated(v, form, v.call(RD, 'in.yaml'), 1, 3, 3)
        v.paths(form, run)


def rejected(v, tag, doc):
    def run():
        v.I.check_defined = False
        parsed(v, doc() if callable(doc) else doc)
        r = v.call(RD, 'in.yaml')
        v.fact('%s: not completed' % tag, v.attr(r, 'completed') is False)
        v.fact('%s: an error is reported' % tag, L.isstr(v.attr(r, 'error')))
    v.paths(tag, run)


@unit('missing or inconsistent mandatory entries are reported as errors')
def u_bad(v):
    for x in ('volume', 'energy', 'phonon', 'natom', 'qpoints', 'supercell', 'weight', 'band', 'frequency'):
        rejected(v, 'no ' + x, lambda: document(2, 2, 3, drop=(x,)))
        def empty():
            d = document(2, 2, 3)
            if x in d.d: d.d[x] = None
            else:
                q = d.d['phonon'].items[1]
                if x == 'frequency': q.d['band'].items[4].d[x] = None
                else: q.d[x] = None
            return d
        rejected(v, 'empty ' + x, empty)
        def last():
            d = document(2, 2, 3)
            q = d.d['phonon'].items[1]
            if x == 'frequency': del q.d['band'].items[5].d[x]
            elif x in q.d: del q.d[x]
            else: del d.d[x]
            return d
        rejected(v, 'no %s at the last place' % x, last)
    for doc in (None, 'text', ListV(['volume', 'energy', 'phonon']), 12, ListV([])): rejected(v, 'document %s' % (doc,), doc)
    N = lambda n, lo=1: t.sym(n, 'I')
    def sized(tag, make, conds):
        def run():
            v.I.check_defined = False
            s = {n: t.sym(n, 'I') for n in ('nq', 'nat', 'nv', 'm')}
            for x in s.values(): v.assume(t.ge(x, 1))
            v.assume(conds(s))
            parsed(v, make(s))
            r = v.call(RD, 'in.yaml')
            v.true('%s: not completed' % tag, t.TRUE if v.attr(r, 'completed') is False else t.FALSE)
            v.true('%s: an error is reported' % tag, t.TRUE if L.isstr(v.attr(r, 'error')) else t.FALSE)
        v.paths(tag, run)
    sized('number of energies', lambda s: document(s['nq'], s['nat'], s['nv'], ne=s['m']), lambda s: t.ne(s['m'], s['nv']))
    sized('number of bands', lambda s: document(s['nq'], s['nat'], s['nv'], nb=s['m']), lambda s: t.ne(s['m'], t.mul(3, s['nat'])))
    sized('number of frequencies', lambda s: document(s['nq'], s['nat'], s['nv'], nf=s['m']), lambda s: t.ne(s['m'], s['nv']))
    sized('number of q-points', lambda s: document(s['nq'], s['nat'], s['nv'], qpoints=s['m']), lambda s: t.lt(s['m'], s['nq']))
    v.I.files['in.yaml'] = ('x\n',)
    for exc in ('YAMLError', 'UnicodeDecodeError'):
        def run():
            v.I.contracts['yaml.safe_load'] = lambda I, a, k: fail(I, exc)
            r = v.call(RD, 'in.yaml')
            v.fact('%s: not completed' % exc, v.attr(r, 'completed') is False)
            v.fact('%s: an error is reported' % exc, L.isstr(v.attr(r, 'error')))
        v.paths(exc, run)


def fail(I, exc):
    if exc == 'YAMLError': raise PyRaise(I.call(I.getattr(I.import_module('yaml'), 'YAMLError'), [], {}))
    I.throw(exc, 'utf-8', b'', 0, 1, 'bad')
