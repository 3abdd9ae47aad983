"""Quasi-harmonic run.  (1) Whatever the interpolation scheme produced for V, U, F, K_T and C_V, the derived
quantities follow from them at every (T, P) and in every unit.  (2) Either scheme evaluates every function at the
volume that minimises F(V, T) + P V for its own T and P: the minimisation (C07), the bulk modulus (C07), the
oscillator sums (C02), the polynomial helpers (C29) and the unit conversions (C01) are replaced by, or proved
against, their contracts.  (3) Every command-line option reaches the setting it is meant for."""
from pyvc.vc import *
from pyvc import arrays as A, nplib, lib as L
from . import specs as sp
from .modular import *
from .C02 import dims
from .C04 import quantas_input, NOTE as INPUT

QC = 'quantas.qha.qha.QHACalculator'
MIN = 'callee contract: minimize_volume is a function of (V, F(V) at this T, P, fitted coefficients) (C07)'
KTN = 'callee contract: numerical_bulk_modulus is a function of (V, F) and the index (C07)'
ALL = ('Uzp', 'Uth', 'Utot', 'S', 'Fvib', 'F', 'Cv', 'VT', 'KT', 'Kp', 'H', 'G', 'alphaV', 'Cp-Cv', 'Cp', 'KS', 'gruneisen')
ED, FD = t.sym('edeg', 'I'), t.sym('fdeg', 'I')


def calculator(v, scheme, mini, few=None):
    """symbolic ranges of temperature and pressure, units and degrees"""
    install(v); unit_facts(v)
    v.assume(t.ge(ED, 2), t.ge(FD, 2))
    a, b, d, p, q, e = [t.sym(x) for x in ('tmin', 'tmax', 'dt', 'pmin', 'pmax', 'dp')]
    v.assume(t.gt(d, 0), t.ge(b, a), t.gt(e, 0), t.ge(q, p))
    s = DictV({'silent': True, 'debug': False, 'logfile': None, 'trange': (a, b, d), 'prange': (p, q, e), 'qha_scheme': scheme,
               'minimization': mini, 'kieffer': False, 'eos_function': 'birchmurnaghan', 'eos': 'BM', 'edeg': ED, 'fdeg': FD, 'energy_unit': 'EU',
               'lenght_unit': 'LU', 'frequency_unit': 'FU', 'temperature_unit': 'TU', 'pressure_unit': 'PU'})
    o = v.call(QC, s)
    T, P = v.attr(o, 'temperature'), v.attr(o, 'pressure')
    nT, nP = T.shape[0], P.shape[0]
    return o, nT, nP, (lambda i: a + i * d), (lambda j: p + j * e)


def kelvin(T):
    s, off = TS('TU')
    return lambda i: s * T(i) + off


def derived(scheme):
    @unit('derived quantities at every temperature and pressure (%s scheme)' % scheme)
    def u(v):
        v.assumptions.add(INPUT)
        def run():
            o, nT, nP, T, P = calculator(v, scheme, 'poly')
            v.I.check_defined = False
            v.assumptions.add('definedness: equilibrium volumes, and consecutive temperatures, are non-zero / distinct')
            nq, nb, nv = dims('nq', 'nb', 'nv')
            v.assume(*[t.ge(x, 1) for x in (nq, nb, nv)])
            v.set(o, 'input', quantas_input(v, nq, nb, nv)[0])
            R = {k: sym_array('R_' + k, (nT, nP)) for k in ('Uzp', 'Uth', 'Utot', 'S', 'Fvib', 'F', 'Cv', 'VT', 'KT', 'Kp')}
            ran = []
            def scheme_contract(nm):
                def f(I, a, k):
                    ran.append(nm)
                    res = I.getattr(a[0], '_results')
                    for x, arr in R.items(): res.d[x] = new_array((nT, nP), arr.get)
                return f
            v.I.overrides[QC + '.run_thermodynamics_interpolation'] = scheme_contract('td')
            v.I.overrides[QC + '.run_frequency_interpolation'] = scheme_contract('freq')
            try:
                v.meth(o, 'run')
            finally:
                if not ran: raise Unsupported('the interpolation schemes are organised differently')
            v.fact('the requested scheme is run, once', ran == [scheme], repr(ran))
            v.fact('completed', v.attr(o, 'completed') is True)
            r = v.attr(o, 'results').d
            i, j = v.index((nT, nP))
            if not v.fact('all quantities', all(x in r for x in ALL)): return
            if not all([v.shape(x, r[x], (nT, nP)) for x in ALL]): return
            for x, arr in R.items(): v.eq('%s is what the scheme produced' % x, r[x].get(i, j), t.app('R_' + x, i, j))
            g = lambda x, *ix: t.app('R_' + x, *ix)
            pv = P(j) * SI('P', 'PU') * g('VT', i, j) * SI('V', 'LU') / SI('E', 'EU')
            v.eq('H = U + PV', r['H'].get(i, j), g('Utot', i, j) + pv)
            v.eq('G = F + PV', r['G'].get(i, j), g('F', i, j) + pv)
            K = kelvin(T)
            if v.I.decide(t.lt(nT, 50)):
                for x in ('alphaV', 'Cp-Cv', 'Cp', 'gruneisen'): v.eq('fewer than 50 temperatures: %s not given' % x, r[x].get(i, j), 0)
                v.eq('fewer than 50 temperatures: KS = KT', r['KS'].get(i, j), g('KT', i, j))
                return
            V = lambda m: g('VT', m, j)
            slope = lambda m: (V(m + 1) - V(m)) / (K(m + 1) - K(m))
            last = not v.I.decide(t.lt(i, nT - 1))
            if last: i = nT - 1
            v.eq('alpha = (1/V) dV/dT', r['alphaV'].get(i, j), slope(nT - 2 if last else i) / V(i))
            at = r['alphaV'].get(i, j)
            VV, KK = V(i) * SI('V', 'LU'), g('KT', i, j) * SI('P', 'PU')
            molar = sp.NA / 1000 * SI('E', 'EU')                # reported heat capacity -> J/(mol K), together with the factor 1000 of "m"
            v.eq('Cp - Cv = alpha^2 V T K_T', r['Cp-Cv'].get(i, j), at * at * VV * KK * sp.NA * K(i) / molar)
            v.eq('Cp = Cv + (Cp - Cv)', r['Cp'].get(i, j), g('Cv', i, j) + r['Cp-Cv'].get(i, j))
            cv = g('Cv', i, j) * molar / sp.NA
            none = t.or_(t.eq(K(i), 0), t.eq(g('Cv', i, j), 0))
            v.eq('K_S = K_T + alpha^2 V T K_T^2 / C_V', r['KS'].get(i, j),
                 t.ite(none, g('KT', i, j), (KK + at * at * VV * K(i) * KK * KK / cv) / SI('P', 'PU')))
            v.eq('gamma = alpha V K_T / C_V', r['gruneisen'].get(i, j), t.ite(t.eq(g('Cv', i, j), 0), t.const(0), at * VV * KK / cv))
            for nm, n in (('temperature', T), ('pressure', P)):
                ix = i if nm == 'temperature' else j
                v.eq('frame: ' + nm, v.attr(o, nm).get(ix), n(ix))
        v.paths('run', run)


for _s in ('td', 'freq'): derived(_s)


def generic(I, x):
    """arguments standing for an array: its elements when they are few, else a generic element"""
    g = A.getter(x)
    if isinstance(x.shape[0], int) and x.shape[0] <= 12: return tuple(t.canon(t.toreal(t.T(g(k)))) for k in range(x.shape[0]))
    return (t.T(x.shape[0]), t.canon(t.toreal(t.T(g(t.sym('ix!arg', 'I'))))))


def minimum(I, V, F, P, c):
    a = generic(I, V) + generic(I, F) + (t.T(P),) + generic(I, c)
    return [t.app(n, *a) for n in ('Vmin', 'Kmin', 'Kpmin')]


KER = 'callee contracts: the harmonic-oscillator kernels are the weighted oscillator sums (C02)'


def kernels(v):
    SM = 'quantas.utils.physics.statistical_mechanics.'
    v.assumptions.add(KER)
    def kernel(f):
        def k(I, a, kw):
            T, band, W = A.as_array(I, a[0]), A.as_array(I, a[1]), A.as_array(I, a[2])
            nq, nb, nv = band.shape
            if not A.same_dim(I, nq, W.shape[0]): I.throw('ValueError', 'one weight per q-point')
            gT, g, gW = A.getter(T), A.getter(band), A.getter(W)
            return new_array((T.shape[0], nv), lambda i, m: t.ssum(nq, lambda q: t.ssum(nb, lambda b: f(t.T(gT(i)), t.T(g(q, b, m))) * gW(q))))
        return k
    for nm, f in (('zero_point_energy', sp.zpe), ('thermal_energy', sp.eth), ('entropy', sp.S), ('isochoric_heat_capacity', sp.Cv), ('vibrational_free_energy', sp.F)):
        v.I.overrides[SM + nm] = kernel(f)


def interpolation(scheme, mini):
    @unit('%s interpolation, %s minimisation: every function at the equilibrium volume' % (scheme, mini), timeout=400)
    def u(v):
        v.assumptions |= {INPUT, MIN}
        if mini == 'poly': v.assumptions.add(KTN)
        def run():
            o, nT, nP, Tf, Pf = calculator(v, scheme, mini)
            v.assume(t.lt(nT, 50))
            v.I.check_defined = False
            nq, nb, nv = dims('nq', 'nb', 'nv')
            v.assume(t.ge(nq, 1), t.ge(nb, 1), t.ge(nv, 4))
            inp, fr, W, E, V, tot = quantas_input(v, nq, nb, nv)
            v.set(o, 'input', inp)
            ran = []
            def mini_contract(I, a, k):
                names = ('self', 'volume', 'free_energy', 'pressure', 'parameters')
                g = dict(zip(names, a)); g.update(k)
                ran.append(1)
                c = g.get('parameters')
                if c is None: c = nplib.polyfit_lowfirst(I, [g['volume'], g['free_energy'], ED], {})
                x = minimum(I, g['volume'], g['free_energy'], g['pressure'], c)
                return (x[0], t.const(0), t.const(0)) if mini == 'poly' else tuple(x)
            def k_contract(I, a, k):
                names = ('self', 'V', 'F', 'idx')
                g = dict(zip(names, a)); g.update(k)
                key = generic(I, g['V']) + generic(I, g['F']) + (t.T(g['idx']),)
                return (t.app('KTnum', *key), t.app('Kpnum', *key))
            kernels(v)
            v.I.overrides[QC + '.minimize_volume'] = mini_contract
            v.I.overrides[QC + '.numerical_bulk_modulus'] = k_contract
            K = kelvin(Tf)
            i, j = v.index((nT, nP))
            v.assume(t.ge(K(i), 0))
            v.meth(o, 'run')
            if not ran: raise Unsupported('minimize_volume is not used')
            r = v.attr(o, 'results').d
            kj, hz, n = 1000 / sp.NA / SI('E', 'EU'), SI('F', 'FU'), ED + 1
            zero = t.const(0)
            def osc(f, T, freq): return kj * t.ssum(nq, lambda q: t.ssum(nb, lambda b: f(T, freq(q, b)) * W.get(q) / tot))
            ha = lambda f, T: (lambda m: osc(f, T, lambda q, b: fr.get(q, b, m) * hz))
            harm = {'Uzp': ha(sp.zpe, zero), 'Uth': ha(sp.eth, K(i)), 'S': ha(sp.S, K(i)), 'Cv': ha(sp.Cv, K(i)), 'Fvib': ha(sp.F, K(i))}
            harm['Utot'] = lambda m: E.get(m) + harm['Uzp'](m) + harm['Uth'](m)
            harm['F'] = lambda m: E.get(m) + harm['Fvib'](m)
            fit = lambda y, deg=ED: A.getter(nplib.polyfit_lowfirst(v.I, [V, new_array((nv,), y), deg], {}))
            cF = new_array((n,), fit(harm['F']))
            vm, km, kpm = minimum(v.I, V, new_array((nv,), harm['F']), Pf(j), cF)
            v.eq('V(T, P) minimises F(V, T) + P V', r['VT'].get(i, j), vm)
            x = r['VT'].get(i, j)
            pol = lambda c, x, n=n: t.ssum(n, lambda k: c(k) * t.power(x, k))
            if scheme == 'td':
                at = lambda q, x: pol(fit(harm[q]), x)
            else:
                cE = fit(E.get)
                fx = lambda x: (lambda q, b: pol(fit(lambda m: fr.get(q, b, m) * hz, FD), x, FD + 1))
                def at(q, x):
                    one = lambda f, T: osc(f, T, fx(x))
                    if q == 'Utot': return pol(cE, x) + one(sp.zpe, zero) + one(sp.eth, K(i))
                    if q == 'F': return pol(cE, x) + one(sp.F, K(i))
                    return one({'Uzp': sp.zpe, 'Uth': sp.eth, 'S': sp.S, 'Cv': sp.Cv, 'Fvib': sp.F}[q], zero if q == 'Uzp' else K(i))
            for q in ('Uzp', 'Uth', 'S', 'Cv', 'Fvib', 'Utot', 'F'): v.eq('%s at V(T, P)' % q, r[q].get(i, j), at(q, x))
            if mini == 'eos':
                v.eq('K_T of the equation of state', r['KT'].get(i, j), km)
                v.eq("K' of the equation of state", r['Kp'].get(i, j), kpm)
            else:
                grid = [x + x * t.lit(s * 0.05) / 100 for s in range(-2, 3)]
                grid = [x * (1 + t.const(s) * t.lit(0.05) / 100) for s in range(-2, 3)]
                key = tuple(t.canon(y) for y in grid) + tuple(t.canon(at('F', y)) for y in grid) + (t.const(2, 'I'),)
                v.eq('K_T of F(V) around V(T, P)', r['KT'].get(i, j), t.app('KTnum', *key))
                v.eq("K' of F(V) around V(T, P)", r['Kp'].get(i, j), t.app('Kpnum', *key))
            m, = v.index((nv,))
            for nm, y in (('U0', E), ('V', V)): v.eq('frame: ' + nm, y.get(m), t.app(nm, m))
            q, b = v.index((nq, nb))
            v.eq('frame: frequencies', fr.get(q, b, m), t.app('freq', q, b, m))
            v.eq('frame: weights', W.get(q), t.app('W', q))
        v.paths('run', run)


for _s in ('td', 'freq'):
    for _m in ('poly', 'eos'): interpolation(_s, _m)


@unit('command line: every option reaches the calculation it is meant for')
def u_cmd(v):
    for funit, want in (('cm-1', 'cm^-1'), ('THz', 'THz'), ('Hz', 'Hz')):
        for eos, fn in (('M', 'murnaghan'), ('BM', 'birchmurnaghan'), ('PT', 'pouriertarantola'), ('V', 'vinet')):
            tag = '%s %s' % (funit, eos)
            def run():
                seen = []
                v.I.files['in.yaml'] = ()
                def init(I, a, k):
                    seen.append(a[1] if len(a) > 1 else k['settings'])
                    I.throw('RuntimeError', 'calculation starts here')
                v.I.overrides[QC + '.__init__'] = init
                tr, pr = [t.sym(x) for x in ('tmin', 'tmax', 'dt')], [t.sym(x) for x in ('pmin', 'pmax', 'dp')]
                try:
                    v.call('quantas.qha.commands.cmd_qha.qha_calculation', filename='in.yaml', outfile=None, qha_scheme='freq', minimization='eos', kieffer=False,
                           temperature=tuple(tr), pressure=tuple(pr), fdeg=FD, edeg=ED, eos=eos, eunit='EU', vunit='LU', funit=funit, tunit='TU', punit='PU', silent=True, debug=False)
                finally:
                    if v.fact('%s: one calculator' % tag, len(seen) == 1):
                        s = seen[0].d
                        for k, w in (('energy_unit', 'EU'), ('lenght_unit', 'LU'), ('frequency_unit', want), ('temperature_unit', 'TU'), ('pressure_unit', 'PU'),
                                     ('qha_scheme', 'freq'), ('minimization', 'eos'), ('kieffer', False), ('eos_function', fn), ('silent', True)):
                            v.fact('%s: %s' % (tag, k), s.get(k) == w, repr(s.get(k)))
                        for x, y in zip(vec(s['trange']), tr): v.eq('%s: temperature range' % tag, x, y)
                        for x, y in zip(vec(s['prange']), pr): v.eq('%s: pressure range' % tag, x, y)
                        v.eq('%s: degree of the energy fits' % tag, s['edeg'], ED)
                        v.eq('%s: degree of the frequency fits' % tag, s['fdeg'], FD)
            v.paths(tag, run, raises=lambda nm, p: nm == 'RuntimeError')


@unit('settings reach the calculation they are meant for')
def u_settings(v):
    for eos in ('murnaghan', 'birchmurnaghan', 'vinet', 'pouriertarantola'):
        def run():
            install(v); unit_facts(v)
            s = DictV({'silent': True, 'debug': False, 'logfile': None, 'trange': (0., 10., 10.), 'prange': (0., 10., 10.), 'qha_scheme': 'td',
                       'minimization': 'eos', 'kieffer': False, 'eos_function': eos, 'eos': 'X', 'edeg': 3, 'fdeg': 3, 'energy_unit': 'EU',
                       'lenght_unit': 'LU', 'frequency_unit': 'FU', 'temperature_unit': 'TU', 'pressure_unit': 'PU'})
            o = v.call(QC, s)
            v.fact('equation of state: ' + eos, v.attr(o, 'eos_formulation') == eos)
        v.paths(eos, run)


@unit('printed results: every value under its own heading and at its own temperature and pressure')
def u_printed(v):
    from .C11 import messages, text_of
    def run():
        install(v); unit_facts(v)
        out = messages(v)
        v.I.check_defined = False
        n_T, few = t.sym('n', 'I'), 2
        v.assume(t.ge(n_T, 2))
        s = DictV({'silent': False, 'debug': False, 'logfile': None, 'trange': (0., 10., 10.), 'prange': (0., 10., 10.), 'qha_scheme': 'td',
                   'minimization': 'poly', 'kieffer': False, 'eos_function': 'vinet', 'eos': 'V', 'edeg': 3, 'fdeg': 3, 'energy_unit': 'EU',
                   'lenght_unit': 'LU', 'frequency_unit': 'FU', 'temperature_unit': 'TU', 'pressure_unit': 'PU'})
        o = v.call(QC, s)
        T, P = sym_array('T', (n_T,)), sym_array('P', (few,))
        v.set(o, '_temperature', T)
        v.set(o, '_pressure', P)
        R = v.attr(o, '_results')
        for k in ALL: v.I.lib.setitem(v.I, R, k, sym_array('r_' + k, (n_T, few)))
        start = len(out.items)
        v.meth(o, 'report_results')
        flat, rows = text_of(ListV(out.items[start:]) if isinstance(out.items, tuple) else out)
        def vals(x): return [p.value for p in L.sparts(x) if isinstance(p, L.Fmt)] if not isinstance(x, str) else []
        def text(x): return x if isinstance(x, str) else ''.join(p for p in L.sparts(x) if isinstance(p, str))
        unit = {'T (': 'T (TU)', 'V(T)': 'V(T) (LU^3)', 'a_V': 'a_V (K^-1)', 'KT': 'KT (PU)', 'KS': 'KS (PU)', 'Cp-Cv': 'Cp-Cv (J/mol K)'}
        head = [text(x) for x in flat if all(n in text(x) for n in unit)]
        where = [vals(x) for x in flat if 'Results at' in text(x)]
        if len(rows) != few or len(head) != few or [len(x) for x in where] != [1] * few: raise Unsupported('layout of the printed results')
        for j in range(few):
            v.eq('pressure of table %d' % j, where[j][0], P.get(j))
            for n, u in unit.items(): v.fact('unit of the column ' + n, u in head[j], head[j])
            v.true('one row per temperature', t.eq(rows[j][0], n_T))
            k, = v.index((n_T,))
            x = [y for r in rows[j][1](k) for y in vals(r)]
            if len(x) != len(unit): raise Unsupported('columns of the printed results')
            r = lambda nm: t.app('r_' + nm, k, j)
            want = {'T (': T.get(k), 'V(T)': r('VT'), 'a_V': r('alphaV'), 'KT': r('KT'), 'KS': r('KS'), 'Cp-Cv': v.call('quantas.utils.physics.units.convert_energy', r('Cp-Cv'), 'EU', 'kjmol')}
            for y, nm in zip(x, sorted(unit, key=head[j].index)): v.eq('table %d, column %s' % (j, nm), y, want[nm])
    v.paths('printed', run)
