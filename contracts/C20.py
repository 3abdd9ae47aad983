"""Elastic-constant input files: job name, 6x6 block (full, upper, lower), density."""
from pyvc.vc import *
from pyvc import lib as L

RD = 'quantas.IO.soec_reader.SOECInputFileReader'
SC = 'quantas.soec.soec.SOECCalculator'
SHAPES = {'full': [6] * 6, 'upper': [6, 5, 4, 3, 2, 1], 'lower': [1, 2, 3, 4, 5, 6]}


def num(x, kind='num'): return L.SStr((L.Tok(x if not isinstance(x, str) else t.sym(x), kind),))
def word(x): return num(x, 'word')
def line(*ws, end='\n', lead='', sep=' '):
    out = [lead]
    for j, w in enumerate(ws): out += ([sep] if j else []) + [w]
    return L.sconcat(out + [end])


def value(form, i, j):
    """Entry (i,j) of the matrix the block describes."""
    if form == 'upper' and i > j or form == 'lower' and i < j: i, j = j, i
    return t.sym('c%d_%d' % (i, j))


def block(form):
    out = []
    for i, n in enumerate(SHAPES[form]):
        out.append(line(*[num('c%d_%d' % (i, j + (6 - n if form == 'upper' else 0))) for j in range(n)], lead='  ', sep='   '))
    return out


JOBS = {'none': None, 'one word': [word('w0')], 'words': [word('w0'), word('w1'), word('w2')], 'number first': [num('n0'), word('w0')],
        'number last': [word('w0'), num('n0')], 'numbers around': [num('n0'), num('n1'), word('w0'), num('n2')],
        'six words, the last not a number': [num('n%d' % j) for j in range(5)] + [word('w0')],
        'polytype': ['2H-MoS2'], 'sign': ['-phase', num('n0')], 'digit': ['3C', 'SiC']}
DENS = {'absent': [], 'given': [line(num('rho'))], 'blank': ['\n'], 'spaces': ['   \n'], 'with text': [line(num('rho'), word('w9'))], 'and more lines': [line(num('rho')), line(word('w8')), '\n']}


def text(job):
    return L.sconcat([x for j, w in enumerate(job) for x in ([' '] if j else []) + [w]])


def same_text(a, b):
    flat = lambda s: [(p.value, p.kind) if isinstance(p, L.Tok) else p for p in L.sparts(s)]
    if not L.isstr(a): return False
    x, y = flat(a), flat(b)
    return len(x) == len(y) and all((p[1] == q[1] and t.T(p[0]) is t.T(q[0])) if isinstance(p, tuple) and isinstance(q, tuple) else p == q for p, q in zip(x, y))


def scenario(v, form, job, dens):
    tag = '%s, job %s, density %s' % (form, job, dens)
    lines = ([line(*JOBS[job])] if JOBS[job] is not None else []) + block(form) + DENS[dens]
    v.I.files['in.dat'] = tuple(lines)

    def run():
        v.I.check_defined = False
        r = v.call(RD, 'in.dat')
        A = [[value(form, i, j) for j in range(6)] for i in range(6)]
        asym = t.sqrt(sum(((A[i][j] - A[j][i]) ** 2 for i in range(6) for j in range(6)), t.T(0)))
        done = v.attr(r, 'completed')
        if not v.fact('%s: outcome' % tag, done in (True, False)): return
        err = v.attr(r, 'error')
        if done is False:
            v.fact('%s: reported' % tag, L.isstr(err))
            v.true('%s: refused only if the matrix is not symmetric' % tag, t.gt(asym, t.lit(1e-3)))
            return
        v.fact('%s: no error' % tag, err is None, str(err))
        v.true('%s: accepted only if symmetric' % tag, t.le(asym, t.lit(1e-3)))
        C = v.attr(r, 'stiffness')
        if v.shape('%s: stiffness' % tag, C, (6, 6)):
            for i in range(6):
                for j in range(6): v.eq('%s: C%d%d' % (tag, i + 1, j + 1), C.get(i, j), A[i][j])
        v.eq('%s: density' % tag, v.attr(r, 'density'), t.sym('rho') if any(k in dens for k in ('given', 'text', 'more')) else t.T(0))
        want = 'Unknown' if JOBS[job] is None else text(JOBS[job])
        v.fact('%s: job name' % tag, same_text(v.attr(r, 'jobname'), want), str(v.attr(r, 'jobname')))
    v.paths(tag, run)


def forms(form):
    @unit('%s block: matrix, job name and density as stated' % form)
    def u(v):
        for job in JOBS: scenario(v, form, job, 'given')
        for dens in DENS:
            if dens != 'given':
                for job in ('none', 'words'): scenario(v, form, job, dens)
for _f in SHAPES: forms(_f)


def rejected(v, tag, lines):
    v.I.files['in.dat'] = tuple(lines)
    def run():
        v.I.check_defined = False
        r = v.call(RD, 'in.dat')
        v.fact('%s: not completed' % tag, v.attr(r, 'completed') is False)
        v.fact('%s: error reported' % tag, L.isstr(v.attr(r, 'error')))
    v.paths(tag, run)


@unit('malformed files are reported as errors')
def u_bad(v):
    full = lambda n=6: [line(*[num('c%d_%d' % (i, j)) for j in range(6)]) for i in range(n)]
    job, rho = [line(word('w0'))], [line(num('rho'))]
    for j in ([], job):
        n = ' with a job name' if j else ''
        rejected(v, 'short file' + n, j + full(5))
        rejected(v, 'five rows and a density' + n, j + full(5) + rho)
        rejected(v, 'five rows and blank lines' + n, j + full(5) + ['\n', '\n', '\n'])
        for f in SHAPES:
            for i in range(6):
                b = block(f)
                for d in (-1, 1, 2):
                    if SHAPES[f][i] + d <= 0: continue
                    c = list(b)
                    c[i] = line(*[num('d%d' % q) for q in range(SHAPES[f][i] + d)])
                    rejected(v, '%s block, row %d with %d values%s' % (f, i + 1, SHAPES[f][i] + d, n), j + c + rho)
                if True:
                    for q in (0, SHAPES[f][i] - 1):
                        c = list(b)
                        c[i] = line(*[word('w5') if q == p else num('d%d' % p) for p in range(SHAPES[f][i])])
                        rejected(v, '%s block, row %d value %d is not a number%s' % (f, i + 1, q + 1, n), j + c + rho)
            b = block(f)
            rejected(v, '%s block, blank line inside%s' % (f, n), j + b[:3] + ['\n'] + b[3:] + rho)
            s = '%s block, density is not a number%s' % (f, n)
            if f != 'full': rejected(v, s, j + b + [line(word('w5'))])
            else: rejected(v, s, j + [line(*[num(t.lit(1 if a == c else 0)) for c in range(6)]) for a in range(6)] + [line(word('w5'))])


@unit('the analysis uses the matrix, density and job name that were read')
def u_use(v):
    made = []
    v.I.overrides['quantas.soec.utils.soec_obj.SOEC.__init__'] = lambda I, a, k: made.append((a[1], a[2] if len(a) > 2 else k.get('density')))
    v.I.overrides['quantas.core.calculator.BasicCalculator.echo'] = lambda I, a, k: None
    v.I.overrides['quantas.soec.soec.check_symmetry'] = lambda I, a, k: 'triclinic'
    v.set(v.I.import_module('quantas.soec.soec'), 'check_symmetry', Builtin('check_symmetry', lambda I, a, k: 'triclinic'))
    C = sym_array('C', (6, 6))
    for ok in (True, False):
        del made[:]
        def init(I, a, k):
            I.put(a[0], 'completed', ok)
            I.put(a[0], 'error', None if ok else 'bad file')
            I.put(a[0], '_data', DictV({'job': 'my job', 'stiffness': C, 'density': t.sym('rho')}))
        v.I.overrides[RD + '.__init__'] = init
        c = v.call(SC, DictV({'polar': True, 'silent': True, 'debug': False, 'logfile': None, 'pressure_unit': 'GPa', 'plotting': False, 'outfig': '', 'dpi': 80}))
        v.I.overrides['quantas.soec.utils.soec_obj.SOEC.stiffness'] = lambda I, a, k: C
        r = v.meth(c, 'read_input', 'in.dat')
        if ok:
            v.fact('no error returned', r is None)
            if v.fact('one elastic object', len(made) == 1):
                A = made[0][0]
                if v.shape('stiffness handed over', A, (6, 6)):
                    for i in range(6):
                        for j in range(6): v.eq('handed over C%d%d' % (i + 1, j + 1), A.get(i, j), C.get(i, j))
                if v.fact('a density is handed over', made[0][1] is not None): v.eq('density handed over', made[0][1], t.sym('rho'))
            v.fact('job name handed over', v.attr(c, '_job') == 'my job')
        else:
            v.fact('the error is returned', r == 'bad file')
            v.fact('no elastic object is built', not made)
