import os
import numpy as np
M = 'quantas.IO.soec_reader'
WORDS = ['MgO', '2H-MoS2', '3C', '-phase', '+x', 'calcite', '.5x', '4-fold', 'e5', '1.2.3', 'α-SiO2', '#1', 'C11:', '10GPa', '1,5', '(2)', '3-5', '½', 'a-very-long-name-of-a-mineral-that-goes-on-and-on-and-on-for-more-than-a-hundred-characters-before-its-end', '0x1A', '1/2', '2d3']
NUMS = ['3', '12.5', '-1', '1e3', '+7.', '.5', '300', '0']


def fmt(rng, x):
    return ['%.4f', '%.1f', '%.6e', '%g', '%+.3f'][int(rng.integers(5))] % x


def jobs(rng):
    k = int(rng.integers(1, 8))
    w = [WORDS[int(rng.integers(len(WORDS)))] if rng.random() < .6 else NUMS[int(rng.integers(len(NUMS)))] for _ in range(k)]
    if all(x in NUMS for x in w): w[int(rng.integers(k))] = WORDS[int(rng.integers(len(WORDS)))]
    return w


def build(rng, form):
    A = rng.normal(size=(6, 6)) * 100
    A = A + A.T
    S = [[fmt(rng, A[i, j]) for j in range(6)] for i in range(6)]
    for i in range(6):
        for j in range(i): S[i][j] = S[j][i]
    A = np.array([[float(x) for x in r] for r in S])
    sep = [' ', '   ', '\t'][int(rng.integers(3))]
    rows = [S[i] if form == 'full' else S[i][i:] if form == 'upper' else S[i][:i + 1] for i in range(6)]
    return A, rows, sep


def read(h, text):
    p = os.path.join(h.scratch, 'in.dat')
    with open(p, 'w', encoding='utf-8') as f: f.write(text)
    return h.need(M, 'SOECInputFileReader')(p)


def case_good(h):
    rng = h.rng('C20')
    for _ in range(h.n(150, 2000)):
        form = ['full', 'upper', 'lower'][int(rng.integers(3))]
        A, rows, sep = build(rng, form)
        job = jobs(rng) if rng.random() < .7 else None
        lines = [' '.join(job)] if job is not None else []
        lines += [' ' * int(rng.integers(3)) + sep.join(r) + ' ' * int(rng.integers(3)) for r in rows]
        rho = None
        x = rng.random()
        if x < .6:
            rho = round(float(rng.uniform(500, 20000)), 2)
            lines.append('%.2f%s' % (rho, ' kg/m3' if x < .2 else ''))
            if x < .1: lines += ['', 'trailing text 1 2 3']
        elif x < .7: lines.append('')
        t = '\n'.join(lines) + ('\n' if rng.random() < .8 else '')
        h.current = dict(text=t)
        r = read(h, t)
        h.record('accepted', h.current, r.completed is True and r.error is None, True, r.error)
        h.close('matrix', h.current, r.stiffness, A, 1e-14)
        h.record('job name', h.current, r.jobname == (' '.join(job) if job is not None else 'Unknown'), job, r.jobname)
        h.record('density', h.current, float(r.density) == (rho or 0.), rho, r.density)


def case_calculator(h):
    rng = h.rng('C20c')
    for _ in range(h.n(6, 40)):
        A = np.diag(rng.uniform(200, 400, 6)) + 20 * np.ones((6, 6))
        rho = round(float(rng.uniform(500, 20000)), 2)
        p = os.path.join(h.scratch, 'calc.dat')
        with open(p, 'w') as f: f.write('job x\n' + ''.join(' '.join('%.4f' % x for x in r) + '\n' for r in A) + '%.2f\n' % rho)
        h.current = dict(A=A, rho=rho)
        c = h.need('quantas.soec.soec', 'SOECCalculator')({'polar': True, 'silent': True, 'debug': False, 'logfile': None, 'pressure_unit': 'GPa', 'plotting': False, 'outfig': '', 'dpi': 80})
        r = c.read_input(p)
        h.record('no error', h.current, r is None, None, r)
        h.close('matrix', h.current, c.soec.stiffness, np.round(A, 4), 1e-12)
        h.close('density', h.current, c.soec.density, rho, 1e-12)
        h.record('job', h.current, c._job == 'job x', 'job x', c._job)


def case_bad(h):
    rng = h.rng('C20b')
    for _ in range(h.n(150, 2000)):
        form = ['full', 'upper', 'lower'][int(rng.integers(3))]
        A, rows, sep = build(rng, form)
        kind = int(rng.integers(6))
        rows = [list(r) for r in rows]
        i = int(rng.integers(6))
        dens = ['2500.0']
        if kind == 0: rows[i] = rows[i] + [fmt(rng, 1.)] * int(rng.integers(1, 4))
        elif kind == 1:
            if len(rows[i]) < 2: continue
            rows[i] = rows[i][:-1]
        elif kind == 2: rows[i][int(rng.integers(len(rows[i])))] = ['x', '1,5', '--', 'C11'][int(rng.integers(4))]
        elif kind == 3:
            if form == 'upper' and i == 5: continue      # the density reads as the missing value
            del rows[i]
        elif kind == 4: dens = ['dense']
        elif form != 'full': continue
        else:
            j = (i + int(rng.integers(1, 6))) % 6
            rows[i][j] = '%.4f' % (float(rows[i][j]) + float(rng.choice([-1, 1])) * 10 ** float(rng.uniform(-2, 2)))
        lines = ([' '.join(jobs(rng))] if rng.random() < .6 or kind == 2 else []) + [sep.join(r) for r in rows] + dens
        t = '\n'.join(lines) + '\n'
        h.current = dict(text=t)
        r = read(h, t)
        h.record('rejected', h.current, r.completed is False and isinstance(r.error, str), 'an error', r.error)
