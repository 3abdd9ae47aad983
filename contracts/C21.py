"""Equation-of-state data files.  Files are made of given lines and of runs of any number of lines (comments, blank lines, data lines with arbitrary numbers)."""
import itertools
from pyvc.vc import *
from pyvc import lib as L
from pyvc.interp import FileSeq
from contracts.textfile import num, word, line, nonneg

RD = 'quantas.IO.eos_reader.EoSInputFileReader'
NAMES = {'p': ['p'], 'v': ['v'], 'a': ['a'], 'b': ['b'], 'c': ['c'], 'sigmap': ['sigmap', 'sigp'], 'sigmav': ['sigmav', 'sigv'],
         'sigmaa': ['sigmaa', 'siga'], 'sigmab': ['sigmab', 'sigb'], 'sigmac': ['sigmac', 'sigc']}
KEYS = list(NAMES)


def comments(name):
    c = lambda k: L.SStr(('# ', L.Tok(t.app('text!' + name, k), 'text')))
    return [('run', t.sym('c1!' + name, 'I'), c), ('run', t.sym('c2!' + name, 'I'), lambda k: '\n'), ('run', t.sym('c3!' + name, 'I'), lambda k: '  \t\n'),
            ('run', t.sym('c4!' + name, 'I'), lambda k: L.sconcat(['  '] + [c(k)]))]


def data(name, n, cols, extra=()):
    return ('run', n, lambda k: line(*([num(t.app('%s!%d' % (name, j), k)) for j in range(cols)] + list(extra)), lead=' ', sep='  '))


def eosfile(v, pieces):
    del v.I.filelike[:]
    v.runs = [p[1] for p in pieces if len(p) == 3 and p[0] == 'run' and not isinstance(p[1], int)]
    v.I.files['in.dat'] = FileSeq(v.I, pieces)
    nonneg(v)


def build(v, cols, job=('JOB\n', 'Quartz (Angel et al., 2000)\n'), full=True, words=None, extra=(), fmt='FORMAT\n', dat='DATA\n'):
    """cols: word of each column.  Two runs of data lines, with comments in between when `full`."""
    n1, n2 = t.sym('n1', 'I'), t.sym('n2', 'I')
    c = comments if full else (lambda x: [])
    k = len(cols)
    p = c('top') + [job] + c('job') + [(fmt, '\t'.join(cols) + '\n')] + c('format') + [(dat,)] + c('data') + [data('x', n1, k, extra)]
    if full: p += c('mid') + [data('y', n2, k, extra)] + c('end')
    eosfile(v, p)
    return n1, (n2 if full else 0)


def column(cols, key):
    js = [j for j, w in enumerate(cols) if w.lower() in NAMES[key]]
    return js[0] if js else None


def as_declared(v, tag, r, cols, n1, n2):
    ok = v.attr(r, 'completed') is True and v.attr(r, 'error') is None
    v.true('%s: read completely' % tag, t.TRUE if ok else t.FALSE)
    if not ok: return
    d = v.attr(r, 'data')
    for key in KEYS:
        j = column(cols, key)
        got = v.I.lib.getitem(v.I, d, key)
        if j is None: v.fact('%s: no %s' % (tag, key), got is None, str(got))
        else: v.arr_eq('%s: %s' % (tag, key), got, (t.add(n1, t.T(n2)),), lambda k: t.ite(t.lt(k, n1), t.app('x!%d' % j, k), t.app('y!%d' % j, t.sub(k, n1))))


@unit('all columns: any number of data lines, comments and blank lines anywhere')
def u_all(v):
    for cols in (['P', 'sigmaP', 'V', 'sigmaV', 'a', 'sigmaA', 'b', 'sigmaB', 'c', 'sigmaC'], ['sigc', 'c', 'sigb', 'B', 'SIGA', 'A', 'sigV', 'v', 'sigP', 'p']):
        def run():
            v.I.check_defined = False
            n1, n2 = build(v, cols)
            v.assume(t.ge(t.add(n1, n2), 1))
            as_declared(v, ' '.join(cols), v.call(RD, 'in.dat'), cols, n1, n2)
        v.paths(' '.join(cols), run)


def orders():
    """every ordered selection of two and three columns with P and a structural quantity, with every alias; and all ten in 40 orders"""
    words = [w for k in KEYS for w in NAMES[k]]
    out = []
    for m in 'vabc':
        for w in words:
            rest = [w] if column([w], 'p') is None and column([w], m) is None else []
            out += list(itertools.permutations(['p', m] + rest))
    full = [n[-1] for n in NAMES.values()]
    for j in range(10):
        r = full[j:] + full[:j]
        out += [r, r[::-1], r[::3] + r[1::3] + r[2::3], [x.upper() if (i + j) % 2 else x for i, x in enumerate(r[::2] + r[1::2])]]
    return sorted(set(tuple(x) for x in out))


@unit('order of the columns', bounded='ordered selections of two or three columns (all aliases) and 40 orders of all ten; any number of data lines')
def u_order(v):
    for cols in orders():
        def run():
            v.I.check_defined = False
            n1, n2 = build(v, cols, full=False)
            v.assume(t.ge(n1, 1))
            as_declared(v, ' '.join(cols), v.call(RD, 'in.dat'), cols, n1, n2)
        v.paths(' '.join(cols), run)


def name(*ws): return line(*[word(t.sym(w)) if w.startswith('w!') else w for w in ws])


@unit('job name: any text, also one that starts with a keyword; Unknown when absent')
def u_job(v):
    names = [('w!1', 'w!2'), ('w!1', '(2014)', 'w!2'), ('Unknown',), ('Data', 'w!1'), ('FORMAT', 'of', 'w!1'), ('job', 'w!1'), ('Quartz',), ('1.0', '2.0'), ('P', 'V')]
    for ws in names:
        for pre in ((), ('# comment\n',), ('\n', ' \t \n', '  # x\n')):
            tag = ' '.join(ws) + ' after %d lines' % len(pre)
            def run():
                v.I.check_defined = False
                cols, n = ['P', 'V'], t.sym('n1', 'I')
                eosfile(v, [('JOB\n',) + pre + (name(*ws), 'FORMAT\n', 'P V\n', 'DATA\n'), data('x', n, 2)])
                v.assume(t.ge(n, 1))
                r = v.call(RD, 'in.dat')
                as_declared(v, tag, r, cols, n, 0)
                want = L.sconcat(sum([[' ', word(t.sym(w)) if w.startswith('w!') else w] for w in ws], [])[1:])
                got = v.attr(r, 'jobname')
                v.fact('%s: job name' % tag, repr(got) == repr(want), repr(got))
            v.paths(tag, run)
    for tag, pieces in (('no job', lambda n: [('FORMAT\n', 'P V\n', 'DATA\n'), data('x', n, 2)]),):
        def run():
            v.I.check_defined = False
            n = t.sym('n1', 'I')
            eosfile(v, pieces(n))
            v.assume(t.ge(n, 1))
            r = v.call(RD, 'in.dat')
            as_declared(v, tag, r, ['P', 'V'], n, 0)
            v.fact('%s: job name' % tag, v.attr(r, 'jobname') == 'Unknown', repr(v.attr(r, 'jobname')))
        v.paths(tag, run)
    def after():
        v.I.check_defined = False
        n = t.sym('n1', 'I')
        eosfile(v, [('format P\n', 'P V\n', 'Job\n', 'MgO\n', ' data ! \n'), data('x', n, 2)])
        v.assume(t.ge(n, 1))
        r = v.call(RD, 'in.dat')
        as_declared(v, 'job after format', r, ['P', 'V'], n, 0)
        v.fact('job after format: job name', v.attr(r, 'jobname') == 'MgO', repr(v.attr(r, 'jobname')))
    v.paths('job after format', after)


def rejected(v, tag, pieces, *conds):
    def run():
        v.I.check_defined = False
        eosfile(v, pieces)
        for c in conds: v.assume(c)
        r = v.call(RD, 'in.dat')
        v.true('%s: not completed' % tag, t.TRUE if v.attr(r, 'completed') is False else t.FALSE)
        v.true('%s: an error is reported' % tag, t.TRUE if L.isstr(v.attr(r, 'error')) else t.FALSE)
    v.paths(tag, run)


@unit('mandatory columns, missing data and wrong data lines are reported, and reading ends')
def u_bad(v):
    n, m = t.sym('n1', 'I'), t.sym('m', 'I')
    F = lambda cols: ('FORMAT\n', ' '.join(cols) + '\n', 'DATA\n')
    rejected(v, 'empty file', [()])
    rejected(v, 'comments only', comments('top'))
    for cols in (['V'], ['V', 'sigmaP', 'sigmaV'], ['a', 'b', 'c', 'sigma'], ['P', 'sigmaP'], ['p', 'sigv'], ['P'], ['T', 'E']):
        rejected(v, 'columns ' + ' '.join(cols), [F(cols), data('x', n, len(cols))])
    rejected(v, 'no format', [('DATA\n',), data('x', n, 2)])
    rejected(v, 'format after data', [('DATA\n', 'FORMAT\n', 'P V\n')])
    rejected(v, 'no data keyword', [('JOB\n', 'MgO\n', 'FORMAT\n', 'P V\n')] + comments('end'))
    rejected(v, 'no data lines', [F(['P', 'V'])] + comments('end'))
    rejected(v, 'format at the end', [('FORMAT\n',)] + comments('end'))
    rejected(v, 'format at the very end', [('FORMAT\n',)])
    rejected(v, 'job at the end', [('JOB\n',)] + comments('end'))
    rejected(v, 'job at the very end', [('JOB\n',)])
    for k in (1, 2, 3):
        rejected(v, 'lines with %d values' % k, [F(['P', 'x', 'y', 'V'])] + comments('data') + [data('x', n, 4), data('z', m, k), data('y', t.sym('n2', 'I'), 4)], t.ge(m, 1))
    rejected(v, 'a word for a value', [F(['P', 'V']), data('x', n, 2), (line(num(t.sym('u')), word(t.sym('w'))),), data('y', m, 2)])
    rejected(v, 'a word for a pressure', [F(['P', 'V']), data('x', n, 2), (line(word(t.sym('w')), num(t.sym('u'))),), data('y', m, 2)])
