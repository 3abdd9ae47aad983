import os
import numpy as np
M = 'quantas.IO.eos_reader'
NAMES = {'p': ['P', 'p'], 'v': ['V', 'v'], 'a': ['a', 'A'], 'b': ['b', 'B'], 'c': ['c', 'C'], 'sigmap': ['sigmaP', 'sigP', 'SIGMAP'], 'sigmav': ['sigmaV', 'SIGV', 'sigmav'],
         'sigmaa': ['sigmaA', 'siga'], 'sigmab': ['sigmaB', 'sigB'], 'sigmac': ['sigmac', 'sigC']}
KEYS = list(NAMES)
PROPS = {'p': 'pressure', 'v': 'volume', 'a': 'a', 'b': 'b', 'c': 'c', 'sigmap': 'sigma_p', 'sigmav': 'sigma_v', 'sigmaa': 'sigma_a', 'sigmab': 'sigma_b', 'sigmac': 'sigma_c'}
JOBS = ['Topaz (Gatta et al., 2014)', 'Quartz', 'Unknown', 'Data of Angel et al.', 'format 2020 paper', 'JOB number 5', '12.5 3.0', 'P V', 'data x', 'Format A', 'job two', '  MgO, B1', 'x' * 200, 'α-quartz']


def fmt(rng, x): return ['%.4f', '%.1f', '%.6e', '%g', '%+.3f'][int(rng.integers(5))] % x
def junk(rng): return ['\n', '   \n', '# comment\n', '  # P V a\n', '#\n', '\t\n', '# DATA\n', '#FORMAT\n'][int(rng.integers(8))]
def gap(rng, p=.3): return [junk(rng) for _ in range(int(rng.integers(0, 4)))] if rng.random() < p else []


def read(h, text):
    p = os.path.join(h.scratch, 'in.dat')
    with open(p, 'w', encoding='utf-8') as f: f.write(text)
    return h.need(M, 'EoSInputFileReader')(p)


def build(rng, keys, job, extra=False, nl=None):
    cols = [NAMES[k][int(rng.integers(len(NAMES[k])))] if k in NAMES else k for k in keys]
    n = int(rng.integers(1, 30)) if nl is None else nl
    sep = [' ', '   ', '\t'][int(rng.integers(3))]
    lines, X = [], []
    for _ in range(n):
        x = [fmt(rng, rng.normal() * 10. ** int(rng.integers(-3, 4))) for _ in keys]
        X.append([float(y) for y in x])
        lines += gap(rng, .1) + [sep.join(x) + ('  # note' if extra and rng.random() < .3 else '') + '\n']
    kw = lambda s: [s, s.lower(), s.title(), '  ' + s][int(rng.integers(4))] + '\n'
    head = (gap(rng) + [kw('JOB')] + gap(rng) + [job + '\n']) if job is not None else []
    f = gap(rng) + [kw('FORMAT')] + [sep.join(cols) + '\n'] + gap(rng)
    return ''.join((head + f if rng.random() < .7 else f + head) + [kw('DATA')] + gap(rng) + lines + gap(rng)), np.array(X).reshape(n, len(keys)), cols


def case_good(h):
    rng = h.rng('C21')
    for _ in range(h.n(250, 3000)):
        ks = ['p', 'vabc'[int(rng.integers(4))]]
        ks += [k for k in KEYS if k not in ks and rng.random() < .4] + ['T', 'number'][:int(rng.integers(3))]
        ks = [ks[i] for i in rng.permutation(len(ks))]
        job = JOBS[int(rng.integers(len(JOBS)))] if rng.random() < .85 else None
        text, X, cols = build(rng, ks, job, extra=rng.random() < .3)
        h.current = ('good', {'text': text})
        r = read(h, text)
        i = {'text': text}
        h.record('good', i, r.completed is True and r.error is None, True, str(r.error), 'a complete file is not accepted')
        if r.completed is not True: continue
        h.record('good', i, r.jobname == ('Unknown' if job is None else job), job, r.jobname, 'job name')
        for k in KEYS:
            x = r.data[k]
            h.record('good', i, getattr(r, PROPS[k]) is x, 'data[%r]' % k, 'another object', 'property ' + PROPS[k])
            if k in ks: h.record('good', i, x is not None and np.array_equal(x, X[:, ks.index(k)]), str(X[:, ks.index(k)]), str(x), 'column %s' % k)
            else: h.record('good', i, x is None, None, str(x), 'column %s is not in the file' % k)


def case_bad(h):
    rng = h.rng('C21-bad')
    def bad(name, text):
        h.current = (name, {'text': text})
        r = read(h, text)
        h.record(name, {'text': text}, r.completed is False and isinstance(r.error, str) and r.error != '', 'an error', str((r.completed, r.error)), 'accepted')
    for _ in range(h.n(4, 40)):
        for ks in (['v'], ['a', 'sigmaa', 'sigmap'], ['sigmap', 'v'], ['T']): bad('no pressure', build(rng, ks, 'x')[0])
        for ks in (['p'], ['p', 'sigmap'], ['sigmav', 'p', 'sigmaa'], ['p', 'T']): bad('no structure', build(rng, ks, 'x')[0])
        bad('no data lines', build(rng, ['p', 'v'], 'x', nl=0)[0])
        t, X, c = build(rng, ['p', 'sigmap', 'v', 'sigmav'], 'x y')
        body = t.rstrip().split('\n')
        for cut in range(1, 6): bad('cut', '\n'.join(t.split('\n')[:cut]) if 'DATA' not in '\n'.join(t.split('\n')[:cut]).upper().replace('# DATA', '') else '')
        bad('short line', t + ' 1.0 2.0\n')
        bad('short line', t + ' 1.0 2.0\n1.0 2.0 3.0 4.0\n')
        bad('not a number', t + ' 1.0 2.0 x 3.0\n')
        bad('text after data', t + 'END\n')
    for text in ('', '\n\n', '# only\n', 'JOB\n', 'JOB\n\n# x\n', 'FORMAT\n', 'FORMAT\n\n', 'DATA\n', 'DATA\n1 2\n', 'FORMAT\nP V\n', 'FORMAT\nP V\nDATA\n', 'JOB\nUnknown\n', 'JOB\n  \t\nMgO\n', 'hello\n'):
        bad('incomplete', text)


def case_two(h):
    rng = h.rng('C21-two')
    for _ in range(h.n(10, 60)):
        a, A, _c = build(rng, ['p', 'v', 'sigmap'], 'first')
        b, B, _c = build(rng, ['a', 'p'], 'second')
        h.current = ('two readers', {'first': a, 'second': b})
        ra = read(h, a)
        rb = read(h, b)
        ok = np.array_equal(ra.data['v'], A[:, 1]) and ra.data['a'] is None and rb.data['v'] is None and np.array_equal(rb.data['a'], B[:, 0]) and ra.jobname == 'first' and rb.jobname == 'second'
        h.record('two readers', {'first': a, 'second': b}, ok, 'their own data', str((ra.data, rb.data)), 'one reader sees the data of another')
