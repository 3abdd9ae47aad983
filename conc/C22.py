import os
import numpy as np
M = 'quantas.IO.qha_reader'
JOBS = ['MgO', '2020', "'2020'", "'a: b'", '"quartz # low"', '-5.5', "'it''s'", 'α-SiO2', 'yes', '1e3', 'x'*150, "''"]
VALUE = ['2020', 'a: b', 'quartz # low', "it's"]


def fmt(rng, x):
    return ['%.4f', '%.12E', '%.6e', '%.10f', '%+.3f', '%5.1f'][int(rng.integers(6))] % x


def flist(rng, xs, style):
    s = [fmt(rng, x) for x in xs]
    if style == 'comma': return '[ ' + ', '.join(s) + ' ]', [float(x) for x in s]
    if style == 'block': return None, [float(x) for x in s]
    if len(s) == 1 and style == 'plain': return s[0], [float(s[0])]
    return ('[ %s ]' if style == 'blank' else '%s') % '   '.join(s), [float(x) for x in s]


def build(rng, drop=(), edit=None, big=False):
    nq, nat, nv = int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 9))
    if big: nq, nat, nv = int(rng.integers(12, 40)), int(rng.integers(10, 40)), int(rng.integers(7, 16))
    style = ['comma', 'blank', 'plain'][int(rng.integers(3))]
    want = {'nq': nq, 'nat': nat, 'nv': nv}
    V, want['V'] = flist(rng, rng.uniform(5, 500, nv), style)
    E, want['E'] = flist(rng, rng.uniform(-9000, 0, nv), style)
    S = rng.integers(-3, 4, (3, 3))
    want['k'] = abs(int(round(np.linalg.det(S))))
    job = JOBS[int(rng.integers(len(JOBS)))]
    want['W'], want['F'] = np.zeros(nq), np.zeros((nq, 3 * nat, nv))
    top = [('job', 'job: %s' % job), ('natom', 'natom: %d' % nat), ('supercell', 'supercell:\n' + '\n'.join('- [ %d, %d, %d ]' % tuple(r) for r in S)),
           ('qpoints', 'qpoints: %d' % nq), ('volume', 'volume: ' + V), ('energy', 'energy: ' + E)]
    ph = ['phonon:']
    for q in range(nq):
        w = int(rng.integers(1, 49)) if rng.random() < .7 else float(fmt(rng, rng.uniform(.1, 3)))
        want['W'][q] = w
        lines = ['q-position: [ %.7f, %.7f, %.7f ]' % tuple(rng.uniform(-.5, .5, 3))]
        if not ('weight' in drop and q == want['nq'] - 1): lines.append('weight: %r' % w)
        if not ('band' in drop and q == nq - 1):
            lines.append('band:')
            for b in range(3 * nat):
                T, f = flist(rng, rng.uniform(-50, 1500, nv), style)
                want['F'][q, b] = f
                if 'frequency' in drop and q == nq - 1 and b == 3 * nat - 1: lines.append('- nothing: 1')
                elif edit == 'frequencies' and q == nq - 1 and b == 3 * nat - 1:
                    lines.append('- frequency: ' + flist(rng, list(f) + [1.], 'comma')[0])
                else: lines += ['- # %d' % (b + 1), '  frequency: ' + T]
            if edit == 'fewer bands' and q == nq - 1: del lines[-1], lines[-1]
            if edit == 'bands' and q == nq - 1: lines.append('- frequency: ' + flist(rng, want['F'][q, b], 'comma')[0])
        ph += ['- ' + lines[0]] + ['  ' + x for x in lines[1:]] + ['']
    top.append(('phonon', '\n'.join(ph)))
    if edit == 'energies': top[5] = ('energy', 'energy: ' + flist(rng, list(want['E']) + [1.], 'comma')[0])
    if edit == 'qpoints': top[3] = ('qpoints', 'qpoints: %d' % (nq - 1))
    parts = [s for k, s in top if k not in drop]
    if rng.random() < .5: parts = [parts[i] for i in rng.permutation(len(parts))]
    return '\n'.join(parts) + '\n', want, job if 'job' not in drop else None


def read(h, text, enc='utf-8'):
    p = os.path.join(h.scratch, 'in.yaml')
    with open(p, 'wb') as f: f.write(text if isinstance(text, bytes) else text.encode(enc))
    return h.need(M, 'QHAInputFileReader')(p)


def case_good(h):
    import yaml
    rng = h.rng('C22')
    for n in range(h.n(120, 1500)):
        drop = ('job',) if rng.random() < .15 else ()
        text, w, job = build(rng, drop, big=n % 40 == 7)
        h.current = ('good', {'text': text})
        r = read(h, text)
        i = {'text': text}
        h.record('good', i, r.completed is True and r.error is None, True, str(r.error), 'a complete input is not accepted')
        if r.completed is not True: continue
        name = 'Unknown' if job is None else str(yaml.safe_load(job)).rstrip()
        h.record('good', i, r.jobname == name, name, str(r.jobname), 'job name')
        h.record('good', i, (int(r.natoms), int(r.qpoints), int(r.nvol), int(r.kpoints)) == (w['nat'], w['nq'], w['nv'], w['k']),
                 str((w['nat'], w['nq'], w['nv'], w['k'])), str((r.natoms, r.qpoints, r.nvol, r.kpoints)), 'atoms, q-points, volumes, k-points')
        for nm, x, y in (('volume', r.volume, w['V']), ('energy', r.energy, w['E']), ('weights', r.weights, w['W']), ('frequencies', r.frequencies, w['F'])):
            x, y = np.atleast_1d(np.array(x)), np.array(y)
            h.record('good', i, x.shape == y.shape and np.array_equal(x, y), str(y), str(x), nm)
        h.close('good', i, float(r.total_q_points), float(w['W'].sum()), 1e-13, msg='total weight')


def case_bad(h):
    rng = h.rng('C22-bad')
    bad = [('no ' + k, (k,), None) for k in ('volume', 'energy', 'phonon', 'natom', 'qpoints', 'supercell', 'weight', 'band', 'frequency')]
    bad += [('number of ' + k, (), k) for k in ('energies', 'frequencies', 'bands', 'fewer bands', 'qpoints')]
    for name, drop, edit in bad * h.n(3, 30):
        text, w, job = build(rng, drop, edit)
        h.current = (name, {'text': text})
        r = read(h, text)
        h.record(name, {'text': text}, r.completed is False and isinstance(r.error, str) and r.error != '', 'an error', str((r.completed, r.error)), 'incomplete input accepted')
    for text in ('', 'job: x\n', '[1, 2', 'volume: : :\n', '- 1\n- 2\n', 'just text\n', b'\xff\xfe\x00\x01', b'\x80abc', 'a\tb: \x01\n', 'volume: [1,2]\nenergy: [1,2]\n', '12\n'):
        h.current = ('not an input', {'text': repr(text)})
        r = read(h, text)
        h.record('not an input', {'text': repr(text)}, r.completed is False and isinstance(r.error, str), 'an error', str((r.completed, r.error)), 'not an input file, accepted')


    for name, old, new in (('phonon', None, '5'), ('phonon', None, '[1, 2]'), ('phonon', None, 'none at all'), ('natom', None, 'two'), ('natom', None, '[2, 3, 4]'),
                           ('volume', None, 'a b c'), ('volume', None, '[[1, 2], 3]'), ('energy', None, '{a: 1}'), ('qpoints', None, 'all'), ('phonon', None, '[{weight: 1, band: 3}]'),
                           ('phonon', None, '[{weight: 1, band: [1, 2, 3]}]'), ('phonon', None, '[{weight: x, band: [{frequency: [1]}]}]')):
        text, w, job = build(rng, (name,))
        text += '%s: %s\n' % (name, new)
        h.current = ('wrong kind of value', {'text': text})
        r = read(h, text)
        h.record('wrong kind of value', {'text': text}, r.completed is False and isinstance(r.error, str), 'an error', str((r.completed, r.error)), 'accepted')


def case_two(h):
    rng = h.rng('C22-two')
    for _ in range(h.n(10, 60)):
        a, wa, _j = build(rng)
        b, wb, _k = build(rng)
        h.current = ('two readers', {'first': a, 'second': b})
        ra = read(h, a)
        rb = read(h, b)
        h.record('two readers', {'first': a, 'second': b}, np.array_equal(np.atleast_1d(ra.volume), wa['V']) and np.array_equal(np.atleast_1d(rb.volume), wb['V']),
                 str((wa['V'], wb['V'])), str((ra.volume, rb.volume)), 'one reader sees the data of another')
