import os, re
import numpy as np
from eos_np import *
from scipy.odr import ODR, Model, RealData
M = 'quantas.eosfit.utils.pv_eos'
MASK = {2: [1, 0, 0, 1], 3: [1, 1, 0, 1], 4: [1, 1, 1, 1]}


def reference(cls, V, P, guess, sV, sP, order, lin, fixed):
    def f(p, V):
        k, kk = implied(cls, order, lin, p[0], p[1], p[2])
        p[1], p[2] = k, kk
        return EOS[cls][0](V, p[0], k, kk, p[3])
    o = ODR(RealData(V, P, sV, sP), Model(f), np.array(guess, dtype=float), ifixb=list(fixed), maxit=500)
    o.set_job(fit_type=2 if sV is None else 0)
    return o.run()


def dataset(rng, cls, order, lin, noise=True):
    K, k, V0 = rng.uniform(60, 250) * (3 if lin else 1), rng.uniform(3.5, 5) * (3 if lin else 1), rng.uniform(4, 10) if lin else rng.uniform(60, 700)
    k, kk = implied(cls, order, lin, K, k, implied(cls, 3, lin, K, k, 0)[1])
    n = int(rng.integers(8, 16))
    V = np.sort(V0 * rng.uniform(.96 if lin else .88, 1.0, n))[::-1]
    V[0] = V0
    P = EOS[cls][0](V, K, k, kk, V0)
    sP, sV = rng.uniform(.02, .1, n), V0 * rng.uniform(2e-5, 1e-4, n)
    if noise: P, V = P + sP * rng.normal(size=n), V + sV * rng.normal(size=n)
    return V, P, sV, sP, [K, k, kk, V0]


def case_fit(h):
    rng, kept = h.rng('C11'), {}
    for _ in range(h.n(6, 60)):
        for cls in EOS:
            C = h.need(M, cls)
            for order in EOS[cls][2]:
                if order == 4: continue
                lin = bool(rng.random() < .5)
                V, P, sV, sP, true = dataset(rng, cls, order, lin)
                sV, sP = (sV if rng.random() < .6 else None), (sP if rng.random() < .6 else None)
                fixed = None
                guess = np.array([true[0] * rng.uniform(.9, 1.1), true[1] * rng.uniform(.95, 1.05), true[2], true[3] * rng.uniform(.999, 1.001)])
                r = rng.random()
                if r < .3: fixed = [1, 0, 0, 1]
                elif r < .5: fixed = [1, 1, 0, 0]
                elif r < .6: fixed = [0, 1 if order > 2 else 0, 0, 1]
                g0 = [guess.copy(), V.copy(), P.copy(), None if sV is None else sV.copy(), None if sP is None else sP.copy()]
                h.current = dict(cls=cls, order=order, lin=lin, V=g0[1], P=g0[2], sV=g0[3], sP=g0[4], guess=g0[0], fixed=fixed)
                o = kept.setdefault(cls, C()) if rng.random() < .5 else C()
                out = o.fit(V, P, guess=guess, sigmaV=sV, sigmaP=sP, order=order, linear=lin, fixed=fixed)
                ref = reference(cls, V, P, g0[0], sV, sP, order, lin, fixed or MASK[order])
                for j in range(4):
                    if fixed and not fixed[j] and (j in (0, 3) or (j == 1 and order > 2)):
                        h.close('fixed parameter keeps its value', h.current, out.beta[j], g0[0][j], 1e-13)
                h.close('optimum', h.current, out.beta[[0, 3]], ref.beta[[0, 3]], 1e-4)
                h.close('K prime', h.current, out.beta[1], ref.beta[1], 1e-3)
                h.close('errors', h.current, out.sd_beta[[0, 3]], ref.sd_beta[[0, 3]], 1e-2)
                h.close('fitted pressures', h.current, out.y, ref.y, 1e-5, 1e-5)
                h.record('frame', h.current, all((a is None) if b is None else np.array_equal(a, b) for a, b in zip((guess, V, P, sV, sP), g0)))
                # no uncertainties and no guess: noise-free data give back the parameters
                V, P, sV, sP, true = dataset(rng, cls, order, lin, noise=False)
                h.current = dict(cls=cls, order=order, lin=lin, V=V, P=P, true=true)
                out = o.fit(V, P, order=order, linear=lin)
                h.close('noise-free data', h.current, out.beta[[0, 1, 3]], np.array(true)[[0, 1, 3]], 1e-3)


NAMES = {'v': ('Volume', "K0", 'V0'), 'a': ('a-axis', 'M0(a)', 'a0'), 'b': ('b-axis', 'M0(b)', 'b0'), 'c': ('c-axis', 'M0(c)', 'c0')}


def case_session(h):
    """the command-line session end to end"""
    from click.testing import CliRunner
    cmd = h.need('quantas.eosfit.commands.cmd_eosfit', 'eos_calculation')
    rng = h.rng('C11s')
    classes = ['Murnaghan', 'BirchMurnaghan', 'NaturalStrain', 'Vinet', 'Tait']
    for it in range(h.n(10, 60)):
        cls = classes[it % 5]
        order = 3
        d = {q: dataset(rng, cls, order, q != 'v') for q in 'vabc'}
        n = min(len(d[q][0]) for q in 'vabc')
        P = d['v'][1][:n]
        cols = {'P': P, 'sigmaP': d['v'][3][:n]}
        for q in 'vabc':
            # data consistent with the pressures of the volumes
            K, k, kk, V0 = d[q][4]
            vs = np.linspace(V0 * (.9 if q != 'v' else .75), V0 * 1.02, 4001)
            ps = EOS[cls][0](vs, K, k, kk, V0)
            cols[q] = np.interp(P, ps[::-1], vs[::-1]) + 0.
            cols['sigma' + q] = d[q][2][:n]
        cols = {k: np.array([float('%.6f' % x) for x in v]) for k, v in cols.items()}
        keys = list(cols)
        rng.shuffle(keys)
        td = h.scratch
        fn = os.path.join(td, 's%d.dat' % it)
        with open(fn, 'w') as f:
            f.write('JOB\nsession %d\nFORMAT\n%s\nDATA\n' % (it, ' '.join(keys)))
            for i in range(n): f.write(' '.join('%.6f' % cols[k][i] for k in keys) + '\n')
        q = 'vabc'[rng.integers(4)]
        useP, useV, fix = bool(rng.random() < .5), bool(rng.random() < .5), bool(rng.random() < .5)
        ans = [q, str(it % 5 + 1), '3', 'n', 'y' if fix else 'n'] + (['n', 'y', 'y' if cls != 'Murnaghan' else 'y', 'n'] if fix else [])
        ans += ['y', 'y' if useP else 'n', 'y' if useV else 'n', 'n', 'n', 'n']
        h.current = dict(cls=cls, q=q, weights=[useP, useV], fix=fix, data={k: v.tolist() for k, v in cols.items()})
        log = os.path.join(td, 'out%d' % it)
        r = CliRunner().invoke(cmd, [fn, '-o', log], input='\n'.join(ans) + '\n')
        if r.exception is not None and not isinstance(r.exception, SystemExit): raise r.exception
        if not h.record('session ends', h.current, r.exit_code == 0, 0, r.exit_code, r.output[-800:]): continue
        with open(log + '.log', encoding='utf-8') as f: txt = f.read()
        lin = q != 'v'
        V, P = cols[q], cols['P']
        V0 = np.polyval(np.polyfit(P, V, 3), 0.)
        g = [-V0 * np.polyval(np.polyder(np.polyfit(V, P, 3)), V0), 4., 0., V0]
        ref = reference(cls, V, P, g, cols['sigma' + q] if useV else None, cols['sigmaP'] if useP else None, order, lin, [1, 0, 0, 1] if fix else [1, 1, 1, 1])
        for j, lab in enumerate(("K0", "K'", "K''", 'V0') if q == 'v' else ('M0(%s)' % q, "M'(%s)" % q, "M''(%s)" % q, q + '0')):
            m = [x for x in re.findall(r'^\s*(\S+)\s*=\s*(\S+) \+/-\s*(\S+)(.*)$', txt, re.M) if x[0] == lab]
            if not h.record('parameter reported', h.current, len(m) == 1, lab, m): continue
            h.close('reported ' + ('first', 'second', 'third', 'fourth')[j], h.current, float(m[0][1]), ref.beta[j], 1e-4, 2e-4 if j != 1 else 2e-3)
            if j in (0, 3): h.close('reported error', h.current, float(m[0][2]), ref.sd_beta[j], 2e-2, 2e-5)
            h.record('fixed mark', h.current, ('(FIXED)' in m[0][3]) == (fix and j in (1, 2)), fix, m[0])
        rows = [l.split() for l in txt.split('P_obs')[-1].split('\n') if re.match(r'^\s*-?\d+\.\d+(\s+-?\d+\.\d+){4}\s*$', l)]
        if h.record('table', h.current, len(rows) == n, n, len(rows)):
            T = np.array(rows, dtype=float)
            h.close('table volumes', h.current, T[:, 0], V, 1e-9, 6e-6)
            h.close('table pressures', h.current, T[:, 2], P, 1e-9, 6e-6)
            h.close('table fitted', h.current, T[:, 3], ref.y, 1e-4, 1e-4)
            h.close('table residual', h.current, T[:, 4], ref.eps, 1e-2, 1e-3)
