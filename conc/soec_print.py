"""the printed report of an elastic analysis, and the contracts it has to satisfy"""
import contextlib, io, re
import numpy as np
import elastic_np as el
import soec_run

NUM = re.compile(r'(?<![\w.])[-+]?(?:\d+\.\d*|\d+|inf|nan)(?![\w])')
NAMES = {"Young's modulus": 'E', 'Linear compressibility': 'LC', 'Shear modulus': 'G', "Poisson's ratio": 'Nu', 'V_s1': 'V_s1', 'V_s2': 'V_s2', 'V_p': 'V_p'}
ENDS = ('E_min', 'E_max', 'beta_min', 'beta_max', 'G_min', 'G_max', 'nu_min', 'nu_max')
ENDQ = {'E': 'E', 'beta': 'LC', 'G': 'G', 'nu': 'Nu'}


def report(h, C, rho):
    c, err = soec_run.calculator(h, C, rho, silent=False)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf): c.run()
    return c, buf.getvalue()


def in_order(s, names): return [n for _, n in sorted((s.index(n), n) for n in names if n in s)]


def tables(txt):
    """{quantity: {'min', 'max', 'ratio', 'axes': [axis][component] -> (at min, at max)}}"""
    out, head, cols, rows = {}, [], [], []
    for s in txt.split('\n'):
        names, ends = in_order(s, NAMES), in_order(s, ENDS)
        body = re.sub(r'\d(st|nd)', '', s)
        x = [float(y) for y in NUM.findall(body)]
        ws = s.replace('|', ' ').split()
        if names and '|' in s:
            head, cols = [NAMES[n] for n in names], []
            for q in head: out[q] = {'axes': []}
        elif ends and '|' in s and not x: cols = [(ENDQ[n.split('_')[0]], n.split('_')[1]) for n in ends]
        elif head and ws and set(ws) <= {'min', 'max'}: cols = [(head[i // 2], m) for i, m in enumerate(ws)]
        elif cols and 'Values' in s:
            for a, (q, m) in zip(x, cols): out[q][m] = a
        elif cols and 'Anisotropy' in s:
            for a, q in zip(x, head): out[q]['ratio'] = a
        elif cols and len(x) == len(cols) and '|' in s:
            for q in head: out[q]['axes'].append({m: a for a, (p, m) in zip(x, cols) if p == q})
    return out


def unit(v): return v / np.linalg.norm(v)


def check(h, case, quantities):
    """an extremum is attained at the axes printed below it, and the anisotropy is the ratio"""
    rng = h.rng(case + 'print')
    for _ in range(h.n(2, 12)):
        C, rho = np.round(el.spd(rng, 100., rng.choice(el.CLASSES)), 9), round(float(rng.uniform(1000, 9000)), 3)
        S, c4 = el.S4(np.linalg.inv(C)), el.C4(C)
        h.current = {'C': C, 'density': rho}
        c, txt = report(h, C, rho)
        out = tables(txt)
        inp = dict(h.current, printed=txt[-6000:])
        wave = lambda k: lambda a: np.sqrt(np.linalg.eigvalsh(np.einsum('ijkl,j,k->il', c4, a, a))[k] * 1e9 / rho) / 1e3
        f = {'E': lambda a: 1 / np.einsum('ijkl,i,j,k,l', S, a, a, a, a), 'LC': lambda a: 1e3 * np.einsum('ijkk,i,j', S, a, a),
             'G': lambda a, b: 1 / (4 * np.einsum('ijkl,i,j,k,l', S, a, b, a, b)),
             'Nu': lambda a, b: -np.einsum('ijkl,i,j,k,l', S, a, a, b, b) / np.einsum('ijkl,i,j,k,l', S, a, a, a, a),
             'V_s1': wave(0), 'V_s2': wave(1), 'V_p': wave(2)}
        for q in quantities:
            t = out.get(q, {})
            two = q in ('G', 'Nu')
            if not h.record(case, inp, {'min', 'max', 'ratio'} <= set(t) and len(t['axes']) == (6 if two else 3), 'a table for %s' % q, t, 'printed %s' % q): continue
            h.record(case, inp, t['min'] <= t['max'], '%s: minimum <= maximum' % q, [t['min'], t['max']])
            for m in ('min', 'max'):
                a = np.array([r[m] for r in t['axes']])
                ax = [unit(a[:3])] + ([unit(a[3:])] if two else [])
                h.close(case, inp, t[m], f[q](*ax), 2e-3, 2e-4 + 1e-3 * abs(t['max']), 'printed %s of %s at its printed axes' % (m, q))
            if t['min'] > 1e-3 * abs(t['max']) and t['min'] > .02: h.close(case, inp, t['ratio'], t['max'] / t['min'], 1e-4 + 1e-4 / t['min'], 1e-4, 'anisotropy of %s' % q)


def check_averages(h, case):
    rng = h.rng(case + 'print')
    for _ in range(h.n(2, 12)):
        C, rho = np.round(el.spd(rng, 100., rng.choice(el.CLASSES)), 9), round(float(rng.uniform(1000, 9000)), 3)
        h.current = {'C': C, 'density': rho}
        c, txt = report(h, C, rho)
        avg, awv = np.array(c.soec.averages(), dtype=float), np.array(c.soec.isotropic_velocities(), dtype=float)
        inp = dict(h.current, printed=txt[:3000])
        L = txt.split('\n')
        head = [s for s in L if all(n in s for n in ('Bulk', "Young's", 'Shear', "Poisson's"))]
        if not h.record(case, inp, len(head) >= 1, 'a heading', L[:10]): continue
        col = [('Bulk', "Young's", 'Shear', "Poisson's").index(n) for n in in_order(head[0], ('Bulk', "Young's", 'Shear', "Poisson's"))]
        for i, n in enumerate(('Voigt', 'Reuss', 'Hill')):
            r = [s for s in L if s.strip().startswith(n)]
            h.close(case, inp, [float(y) for y in NUM.findall(r[0])] if r else [], avg[i][col], 1e-9, 6e-6, 'printed averages: ' + n)
        for n, j in (('(Vs)', 0), ('(Vp)', 2)):
            r = [s for s in L if n in s]
            h.close(case, inp, [float(y) for y in NUM.findall(r[0])] if r else [], [awv[j]], 1e-9, 6e-6, 'printed velocity ' + n)


def check_matrices(h, case):
    """the printed stiffness, compliance and density are those of the crystal which was read"""
    rng = h.rng(case + 'print')
    for _ in range(h.n(8, 40)):
        C, rho = np.round(el.spd(rng, float(rng.choice([20., 100.])), rng.choice(el.CLASSES)), 9), round(float(rng.uniform(1000, 9000)), 3)
        h.current = {'C': C, 'density': rho}
        c, err = soec_run.calculator(h, C, rho, silent=False)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf): c.report_input_data()
        txt = buf.getvalue()
        inp, now, got = dict(h.current, printed=txt[:3000]), None, {'C': [], 'S': []}
        for s in txt.split('\n'):
            x = [float(y) for y in NUM.findall(s)]
            if 'Stiffness matrix' in s: now = 'C'
            elif 'Compliance' in s: now = 'S'
            elif 'Density' in s: h.close(case, inp, x[:1], [rho], 1e-9, 1e-9, 'printed density')
            elif now and len(x) == 6 and len(got[now]) < 6: got[now].append(x)
        h.close(case, inp, got['C'], C, 1e-9, 6e-5, 'printed stiffness')
        h.close(case, inp, got['S'], 1e3 * np.linalg.inv(C), 1e-7, 6e-7, 'printed compliance')


def check_eigenvalues(h, case):
    """an unstable crystal is reported with the eigenvalues of its stiffness matrix, the smallest first"""
    rng = h.rng(case + 'print')
    for _ in range(h.n(8, 40)):
        C = el.spd(rng, 100., rng.choice(el.CLASSES))
        w, x = np.linalg.eigh(C)
        if rng.random() < .5: C = C - 2 * w[0] * np.outer(x[:, 0], x[:, 0])
        else: C = C - np.eye(6) * w[0] * rng.uniform(1.1, 1.4)
        C = np.round((C + C.T) / 2, 6)
        if np.min(np.abs(np.linalg.eigvalsh(C))) < .2 or np.linalg.eigvalsh(C)[0] > 0: continue
        h.current = {'C': C}
        c, err = soec_run.calculator(h, C, 3000., silent=False)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf): c.run()
        txt = buf.getvalue()
        ev = [float(s.split(':')[1]) for s in txt.split('\n') if 'lambda_' in s]
        h.close(case, dict(h.current, printed=txt[:3000]), ev, np.linalg.eigvalsh(C), 1e-7, 2e-5, 'printed eigenvalues')
