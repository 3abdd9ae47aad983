import contextlib, io, os, re
import numpy as np
from numpy.polynomial import polynomial as pl
from qha_np import *
from spec_np import osc, NA
import ha_np
DIRECT = ('Uzp', 'Uth', 'S', 'Cv', 'Fvib', 'Utot', 'F')


def make(rng, u):
    """a physically sensible crystal: F(V) has a minimum inside the sampled volumes"""
    d = ha_np.data(rng, int(rng.integers(6, 10)))
    l3, e = LU[u['lenght_unit']] ** 3, EU[u['energy_unit']]
    V0 = rng.uniform(40, 300) * 1e-30 / l3
    K0 = rng.uniform(80, 250) * 1e9 * l3 / e
    V = np.linspace(.90, 1.08, len(d['volume'])) * V0
    d['volume'], d['energy'] = V, bm3(V, -rng.uniform(1, 300) * EH / e, K0, rng.uniform(3.5, 5), V0)
    f0 = rng.uniform(80, 1200, d['frequency'].shape[:2]) * FU['cm^-1'] / FU[u['frequency_unit']]
    g = rng.uniform(.5, 2.2, f0.shape)
    f = f0[:, :, None] * (V / V0)[None, None, :] ** -g[:, :, None]
    f[0, :3] = 0.
    d['frequency'] = f
    return ha_np.rounded(d), V0, K0


def kernels(d, T, freq, w):
    """oscillator sums: T (nt), freq (q, b, nv) in Hz"""
    f = lambda k, T: np.einsum('q,qbtv->tv', w, osc(k, T[None, None, :, None], freq[:, :, None, :]))
    return {'Uzp': f('zpe', np.zeros(1)), 'Uth': f('eth', T), 'S': f('S', T), 'Cv': f('Cv', T), 'Fvib': f('F', T)}


def fitcols(V, Y, deg): return pl.polyfit(V, np.atleast_2d(Y).T, deg).T


def check_scheme(h, s, d, T, P, r):
    """T in kelvin; P in the units of the run; r: results"""
    kj, hz = 1000 / NA / EU[s['energy_unit']], FU[s['frequency_unit']]
    V, E, w = d['volume'], d['energy'], d['weight'] / np.sum(d['weight'])
    ha = {k: kj * x for k, x in kernels(d, T, d['frequency'] * hz, w).items()}
    ha['Utot'], ha['F'] = E + ha['Uzp'] + ha['Uth'], E + ha['Fvib']
    pau_ = pau(s)
    VT = np.asarray(r['VT'])
    cur = h.current
    if s['minimization'] == 'poly':
        c = fitcols(V, ha['F'], s['edeg'])
        K = np.array([[x * pl.polyval(x, pl.polyder(c[i], 2)) for x in VT[i]] for i in range(len(T))])
        p = np.array([[-pl.polyval(x, pl.polyder(c[i])) for x in VT[i]] for i in range(len(T))]) * pau_
        h.close('dF/dV = -P', cur, p - P[None, :], np.zeros_like(p), 0, 1e-6 * np.max(np.abs(K)) * pau_, 'stationary', floor=0)
        h.record('d2F/dV2 > 0', cur, bool(np.all(K > 0)), 'positive', K)
    else:
        from scipy.optimize import curve_fit
        for i in range(min(len(T), 3)):
            for j in range(len(P)):
                y = ha['F'][i] + P[j] / pau_ * V
                f = {'birchmurnaghan': bm3}.get(s['eos_function'])
                if f is None: continue
                q = pl.polyfit(V / V.mean(), y, 4)
                x0 = V[np.argmin(y)]
                try: po, _ = curve_fit(f, V, y, [y.min(), V.mean() * abs(np.gradient(np.gradient(y, V), V)[len(V) // 2]), 4., x0], ftol=1e-14, xtol=1e-14, maxfev=20000)
                except RuntimeError: continue
                h.close('volume of the equation of state', cur, VT[i, j], po[3], 1e-5)
                h.close('modulus of the equation of state', cur, r['KT'][i, j], po[1] * pau_, 1e-3)
                h.close("K' of the equation of state", cur, r['Kp'][i, j], po[2], 2e-2)
    if s['qha_scheme'] == 'td':
        at = {k: np.array([pl.polyval(VT[i], fitcols(V, y, s['edeg'])[0 if k == 'Uzp' else i]) for i in range(len(T))]) for k, y in ha.items()}
        Fat = lambda i, x: pl.polyval(x, fitcols(V, ha['F'], s['edeg'])[i])
    else:
        nq, nb, nv = d['frequency'].shape
        cf = pl.polyfit(V, (d['frequency'] * hz).reshape(nq * nb, nv).T, s['fdeg'])
        ce = pl.polyfit(V, E, s['edeg'])
        def fx(x): return pl.polyval(np.atleast_1d(x), cf).reshape(nq, nb, -1)
        at = {k: np.zeros_like(VT) for k in DIRECT}
        for i in range(len(T)):
            q = {k: kj * x[0] for k, x in kernels(d, T[i:i + 1], fx(VT[i]), w).items()}
            q['Utot'], q['F'] = pl.polyval(VT[i], ce) + q['Uzp'] + q['Uth'], pl.polyval(VT[i], ce) + q['Fvib']
            for k in q: at[k][i] = q[k]
        Fat = lambda i, x: pl.polyval(x, ce) + kj * kernels(d, T[i:i + 1], fx(x), w)['Fvib'][0]
    for k in DIRECT: h.close('%s at V(T, P)' % k, cur, r[k], at[k], 1e-6, 1e-9 * np.max(np.abs(at[k])) + 1e-14)
    if s['minimization'] == 'poly':
        for i in range(min(len(T), 4)):
            for j in range(len(P)):
                z = np.linspace(-1, 1, 5)
                y = Fat(i, VT[i, j] * (1 + .01 * z))
                cc = pl.polyfit(z * .01, y - y[2], 4)
                h.close('K_T = V d2F/dV2', cur, r['KT'][i, j], 2 * cc[2] / VT[i, j] * pau_, 1e-3)


def check_derived(h, s, T, P, r):
    e, l3, pu = EU[s['energy_unit']], LU[s['lenght_unit']] ** 3, PU[s['pressure_unit']]
    cur = h.current
    VT = np.asarray(r['VT'])
    pv = P[None, :] * pu * VT * l3 / e
    h.close('H = U + PV', cur, r['H'], r['Utot'] + pv, 1e-9)
    h.close('G = F + PV', cur, r['G'], r['F'] + pv, 1e-9)
    z = np.zeros_like(VT)
    if len(T) < 50:
        for k in ('alphaV', 'Cp-Cv', 'Cp', 'gruneisen'): h.close('few temperatures: ' + k, cur, r[k], z)
        h.close('few temperatures: KS', cur, r['KS'], r['KT'], 1e-14)
        return
    a = np.vstack([np.diff(VT, axis=0) / np.diff(T)[:, None], [(VT[-1] - VT[-2]) / (T[-1] - T[-2])]]) / VT
    h.close('alpha = (1/V) dV/dT', cur, r['alphaV'], a, 1e-7, 1e-13)
    a = np.asarray(r['alphaV'])
    K, V, cv = r['KT'] * pu, VT * l3, r['Cv'] * NA / 1000 * e / NA
    h.close('Cp - Cv', cur, r['Cp-Cv'], a * a * V * K * T[:, None] * 1000 / e, 1e-8, 1e-15)
    h.close('Cp', cur, r['Cp'], r['Cv'] + r['Cp-Cv'], 1e-12)
    cold = (T[:, None] == 0) | (cv == 0)
    with np.errstate(all='ignore'):
        h.close('KS', cur, r['KS'], np.where(cold, r['KT'], (K + a * a * V * T[:, None] * K * K / cv) / pu), 1e-8)
        h.close('gamma', cur, r['gruneisen'], np.where(cv == 0, 0., a * V * K / cv), 1e-8, 1e-13)


NUM = re.compile(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)')


def printed(h, s, o, T, P, r):
    """the printed tables: each value of the results under its own heading, row by row"""
    buf = io.StringIO()
    o.silent = False
    with contextlib.redirect_stdout(buf): o.report_results()
    o.silent = True
    k = {'T (': None, 'V(T)': 'VT', 'a_V': 'alphaV', 'KT': 'KT', 'KS': 'KS', 'Cp-Cv': 'Cp-Cv'}
    fac = EU[s['energy_unit']] * 6.02214076e23 / 1e3
    cols, got, where, inp = [], [], [], dict(h.current, printed=buf.getvalue()[:3000])
    for line in buf.getvalue().split('\n'):
        x = [float(y) for y in NUM.findall(line)]
        if 'Results at' in line: where.append(x[0])
        elif all(n in line for n in k):
            cols = sorted(k, key=line.index)
            for u in ('T (%s)' % s['temperature_unit'], 'V(T) (%s^3)' % s['lenght_unit'], 'KT (%s)' % s['pressure_unit'], 'KS (%s)' % s['pressure_unit']):
                h.record('printed results', inp, u in line, u, line)
        elif cols and len(x) == len(cols): got.append(x)
    if not h.record('printed results', inp, len(got) == len(T) * len(P) and len(where) == len(P), 'one row per temperature and pressure', len(got)): return
    h.close('printed results', inp, where, P, 1e-9, 1e-9)
    got = np.array(got).reshape(len(P), len(T), len(cols))
    for c, n in enumerate(cols):
        want = np.tile(T, (len(P), 1)) if k[n] is None else (r[k[n]] * (fac if n == 'Cp-Cv' else 1.)).T
        atol = {'T (': .06, 'V(T)': 1e-6, 'KT': 6e-4, 'KS': 6e-4, 'Cp-Cv': 2e-6, 'a_V': 1e-30}[n]
        h.close('printed results', inp, got[:, :, c], want, 1e-6 if n == 'Cp-Cv' else 1e-8, atol, 'printed ' + n)


def case_run(h):
    C = h.need('quantas.qha.qha', 'QHACalculator')
    rng = h.rng('C06')
    for it in range(h.n(32, 400)):
        u = units(rng)
        d, V0, K0 = make(rng, u)
        fn = os.path.join(h.scratch, 'q%d.yaml' % it)
        with open(fn, 'w') as f: f.write(ha_np.text(d))
        scheme, mini = [('td', 'poly'), ('freq', 'poly'), ('td', 'eos'), ('freq', 'eos')][it % 4]
        many = it % 3 == 0
        n = int(rng.integers(50, 56)) if many else int(rng.integers(1, 5))
        dt = float(rng.choice([5., 10., 8.5])) if many else float(rng.choice([50., 100.]))
        t0 = (0. if u['temperature_unit'] == 'K' else -273.15) + float(rng.choice([0., 10., 150.]))
        p0, p1 = (0., 5.) if u['pressure_unit'] == 'GPa' else (0., 50.)
        npr = int(rng.integers(1, 4))
        s = settings(**u)
        s.update(qha_scheme=scheme, minimization=mini, edeg=int(rng.integers(2, 5)), fdeg=int(rng.integers(2, 5)),
                 trange=(t0, t0 + (n - 1) * dt, dt), prange=(p0, p0 + (npr - 1) * p1 / 3, p1 / 3))
        h.current = dict(s, input=ha_np.text(d)[:3000])
        o = C(s)
        e = o.read_input(fn)
        if not h.record('input accepted', h.current, e is None, None, e): continue
        o.run()
        h.record('completed', h.current, o.completed is True)
        Tu, P = np.asarray(o.temperature), np.asarray(o.pressure)
        h.record('temperatures', h.current, len(Tu) >= n and np.allclose(Tu[:n], t0 + dt * np.arange(n), rtol=1e-12, atol=1e-9), (t0, dt, n), Tu)
        h.record('pressures', h.current, len(P) >= npr and np.allclose(P[:npr], p0 + p1 / 3 * np.arange(npr), rtol=1e-12, atol=1e-9), (p0, p1 / 3, npr), P)
        T = Tu + (273.15 if u['temperature_unit'] == 'C' else 0.)
        T = np.where(np.abs(T) < 1e-9, 0., T)
        r = {k: np.asarray(x) for k, x in o.results.items()}
        check_scheme(h, s, d, T, P, r)
        check_derived(h, s, T, P, r)
        printed(h, s, o, Tu, P, r)


def case_command(h):
    """the command line: options reach the calculation"""
    from click.testing import CliRunner
    import h5py
    cmd = h.need('quantas.qha.commands.cmd_qha', 'qha_calculation')
    rng = h.rng('C06c')
    for it in range(h.n(8, 60)):
        u = units(rng)
        d, V0, K0 = make(rng, u)
        fn = os.path.join(h.scratch, 'qc%d.yaml' % it)
        with open(fn, 'w') as f: f.write(ha_np.text(d))
        out = os.path.join(h.scratch, 'qco%d' % it)
        p1 = 3. if u['pressure_unit'] == 'GPa' else 30.
        eos = ['BM', 'M', 'V', 'PT'][it % 4]
        s = settings(**u)
        s.update(qha_scheme=['td', 'freq'][it % 2], minimization=['poly', 'eos'][it // 2 % 2], edeg=int(rng.integers(2, 5)), fdeg=int(rng.integers(2, 5)),
                 eos_function={'BM': 'birchmurnaghan', 'M': 'murnaghan', 'V': 'vinet', 'PT': 'pouriertarantola'}[eos])
        args = [fn, '-o', out, '-s', s['qha_scheme'], '-m', s['minimization'], '-T', '100', '300', '100', '-P', '0', str(p1), str(p1), '--edeg', str(s['edeg']), '--fdeg', str(s['fdeg']),
                '--eos', eos, '--eunit', u['energy_unit'], '--vunit', u['lenght_unit'], '--funit', u['frequency_unit'].replace('^', ''), '--tunit', u['temperature_unit'],
                '--punit', u['pressure_unit'], '-q']
        h.current = dict(args=args, input=ha_np.text(d)[:3000])
        r = CliRunner().invoke(cmd, args)
        if r.exception is not None and not isinstance(r.exception, SystemExit): raise r.exception
        if not h.record('command succeeds', h.current, r.exit_code == 0 and os.path.isfile(out + '.hdf5'), 0, [r.exit_code, r.output[-500:]]): continue
        with h5py.File(out + '.hdf5', 'r') as f:
            res = {k: f[k][()] for k in f}
        nT = 3
        h.close('command temperatures', h.current, res['T'][:3], [100., 200., 300.], 1e-12)
        h.close('command pressures', h.current, res['P'][:2], [0., p1], 1e-12)
        T = res['T'] + (273.15 if u['temperature_unit'] == 'C' else 0.)
        check_scheme(h, s, d, T, res['P'], res)
        check_derived(h, s, T, res['P'], res)
