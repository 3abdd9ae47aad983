"""Equation-of-state fits: what reaches the least-squares solver, what is reported, and the interactive protocol around it."""
from fractions import Fraction
from pyvc.vc import *
from pyvc import arrays as A
from pyvc import lib as L
from pyvc.interp import ClassV, Unsupported
from pyvc.objects import list_method

PV = 'quantas.eosfit.utils.pv_eos.'
IN = 'quantas.eosfit.utils.interactive.'
CLASSES = {'Murnaghan': (3,), 'BirchMurnaghan': (2, 3, 4), 'NaturalStrain': (2, 3, 4), 'Vinet': (2, 3), 'Tait': (2, 3, 4)}
MASK = {2: (1, 0, 0, 1), 3: (1, 1, 0, 1), 4: (1, 1, 1, 1)}


def none(x): return x is None


class Solver(object):
    """Contracts of scipy.odr: Model, RealData, ODR.set_job and ODR.run record their arguments."""
    def __init__(self, v):
        self.v, self.runs = v, []
        c = v.I.contracts
        def bind(names, a, k, known):
            d = dict(zip(names, a))
            for n, x in k.items():
                if n not in known and n not in names: raise Unsupported('option %s of the solver' % n)
                d[n] = x
            return d
        def model(I, a, k): return struct('Model', **bind(('fcn', 'fjacb', 'fjacd', 'extra_args'), a, k, ('meta',)))
        def data(I, a, k): return struct('RealData', **bind(('x', 'y', 'sx', 'sy', 'covx', 'covy', 'fix'), a, k, ('meta',)))
        def odr(I, a, k):
            o = struct('ODR', **bind(('data', 'model', 'beta0', 'delta0', 'ifixb', 'ifixx', 'job'), a, k, ('maxit', 'sstol', 'partol', 'iprint')))
            I.put(o, 'job_type', None)
            def set_job(I, a, k):
                d = bind(('fit_type', 'deriv', 'var_calc', 'del_init', 'restart'), a, k, ())
                if set(d) - {'fit_type'}: raise Unsupported('set_job options')
                I.put(o, 'job_type', d.get('fit_type'))
            I.put(o, 'set_job', Builtin('set_job', set_job))
            def run(I, a, k):
                g = o.d['beta0']
                beta = vec(g)
                self.runs.append((o, beta))
                self.out = struct('Output', beta=sym_array('beta', (4,)), sd_beta=sym_array('sd', (4,)), cov_beta=sym_array('cov', (4, 4)),
                                  eps=sym_array('eps', (t.sym('n', 'I'),)), delta=sym_array('delta', (t.sym('n', 'I'),)), y=sym_array('yhat', (t.sym('n', 'I'),)),
                                  res_var=t.sym('resvar'), stopreason=ListV(['converged']))
                return self.out
            I.put(o, 'run', Builtin('run', run))
            return o
        c['scipy.odr.Model'], c['scipy.odr.RealData'], c['scipy.odr.ODR'] = model, data, odr


def same_data(v, name, arr, app, n):
    if not v.shape(name, arr, (n,)): return
    i, = v.index((n,))
    v.eq(name, arr.get(i), t.app(app, i))


def fits(cls):
    @unit('%s: data, uncertainties, fixed parameters and guess reach the solver' % cls)
    def u(v):
        S = Solver(v)
        for order in CLASSES[cls]:
          for lin in (False, True):
            for sv in (False, True):
              for sp in (False, True):
                for fx in ('default', 'mask'):
                  for gs in ('given', 'auto'):
                    if (sv, sp) == (True, False) and gs == 'auto': continue
                    tag = 'order %d, %s, %s%s%s, %s guess' % (order, 'axial' if lin else 'volume', 'sigmaV ' if sv else '', 'sigmaP ' if sp else '', fx + ' mask', gs)
                    def run():
                        del S.runs[:]
                        v.I.check_defined = False
                        n = t.sym('n', 'I')
                        v.assume(t.ge(n, 4))
                        V, P_ = sym_array('V', (n,), pos=True), sym_array('P', (n,))
                        sV = sym_array('sV', (n,), pos=True) if sv else None
                        sP = sym_array('sP', (n,), pos=True) if sp else None
                        g = [t.sym('g%d' % j) for j in range(4)]
                        guess = new_array((4,), lambda j: A.pick(j, g)) if gs == 'given' else None
                        mask = ListV([1, 0, 1, 0]) if fx == 'mask' else None
                        v.I.overrides[PV + 'EOS.guess'] = lambda I, a, k: ListV([t.sym('h%d' % j) for j in range(4)])
                        o = v.call(PV + cls)
                        r = v.meth(o, 'fit', V, P_, guess=guess, sigmaV=sV, sigmaP=sP, order=order, linear=lin, fixed=mask)
                        if not v.fact('%s: one solver run' % tag, len(S.runs) == 1): return
                        od, beta = S.runs[0]
                        v.fact('%s: the solver output is returned' % tag, r is S.out)
                        d, m = od.d['data'].d, od.d['model'].d
                        for q in ('covx', 'covy', 'fix', 'delta0', 'ifixx'):
                            if not none(d.get(q)) or not none(od.d.get(q)): raise Unsupported('solver option ' + q)
                        same_data(v, '%s: abscissas are the volumes' % tag, d['x'], 'V', n)
                        same_data(v, '%s: ordinates are the pressures' % tag, d['y'], 'P', n)
                        for q, on, app in (('sx', sv, 'sV'), ('sy', sp, 'sP')):
                            if on: same_data(v, '%s: uncertainty %s' % (tag, q), d.get(q), app, n)
                            else: v.fact('%s: no uncertainty %s' % (tag, q), none(d.get(q)))
                        v.fact('%s: fixed parameters' % tag, tuple(vec(od.d['ifixb'])) == ((1, 0, 1, 0) if mask is not None else MASK[order]), str(od.d['ifixb']))
                        for j in range(4):
                            want = g[j] if gs == 'given' else t.sym('h%d' % j) * (3 if lin and j == 0 else 1)
                            v.eq('%s: initial parameter %d' % (tag, j), beta[j], want)
                        jt = od.d['job_type'] if od.d['job_type'] is not None else 0
                        v.fact('%s: distance minimised' % tag, jt == (0 if sv else 2), 'fit type %s' % (jt,))
                        # the model function handed over is the equation of state of this order and data type
                        q = [t.sym('q0', pos=True), t.sym('q1'), t.sym('q2'), t.sym('q3', pos=True)]
                        p1, p2 = (new_array((4,), lambda j: A.pick(j, q)) for _ in range(2))
                        x = t.sym('x', pos=True)
                        ex = m.get('extra_args')
                        a = v.call(m['fcn'], p1, x, *(vec(ex) if ex is not None else []))
                        b = v.meth(o, 'eos', p2, x, order=order, linear=lin, dofit=True)
                        v.eq('%s: model function' % tag, num(a), num(b))
                        for j in range(4): v.eq('%s: implied parameter %d' % (tag, j), p1.get(j), p2.get(j))
                        for j in range(4):
                            if guess is not None: v.eq("%s: frame: caller's guess %d" % (tag, j), guess.get(j), g[j])
                        for nm, arr in (('V', V), ('P', P_), ('sV', sV), ('sP', sP)):
                            if arr is not None: same_data(v, '%s: frame: %s' % (tag, nm), arr, nm, n)
                    v.paths(tag, run)


def num(r): return t.T(r if not isinstance(r, ArrV) else r.get())
for _c in CLASSES: fits(_c)


@unit('automatic guess: cubic fits of P(V) and V(P)')
def guess(v):
    from pyvc import nplib as N
    def run():
        n = t.sym('n', 'I')
        v.assume(t.ge(n, 4))
        v.I.check_defined = False
        V, P_ = sym_array('V', (n,), pos=True), sym_array('P', (n,))
        r = vec(v.meth(v.call(PV + 'BirchMurnaghan'), 'guess', V, P_))
        if not v.fact('four parameters', len(r) == 4): return
        c = N.polyfit_lowfirst(v.I, [P_, V, 3], {})
        d = N.polyfit_lowfirst(v.I, [V, P_, 3], {})
        V0 = c.get(0)
        v.eq('V0 = V(P=0)', num(r[3]), V0)
        v.eq('K0 = -V0 dP/dV', num(r[0]), -V0 * (d.get(1) + 2 * d.get(2) * V0 + 3 * d.get(3) * V0 * V0))
        v.eq("K' = 4", num(r[1]), 4)
        v.eq("K'' = 0", num(r[2]), 0)
    v.paths('guess', run)


# ------------------------------------------------------------ interactive session
def text_of(out):
    """printed items: (those printed once, in order; the repeated groups as (count, k -> group))"""
    it = out.items
    if isinstance(it, tuple): return list(it), []
    flat, rows = [], []
    for n, g in it.segs:
        if n is t.const(1, 'I'): flat.extend(g(t.const(0, 'I')))
        else: rows.append((n, g))
    return flat, rows


def messages(v, answers=None):
    M = 'quantas.cmdline.utils.messages.'
    out = ListV(())
    def say(I, a, k):
        list_method(I, out, 'append').fn(I, [a[0]], {})
    for f in ('echo', 'echo_error', 'echo_warning', 'echo_highlight'): v.I.overrides[M + f] = say
    if answers:
        for f in ('confirm', 'prompt'):
            v.I.overrides[M + f] = lambda I, a, k, f=f: answers(f, a[0] if a else k.get('msg', k.get('text')), a, k)
            v.I.contracts['click.' + f] = v.I.overrides[M + f]
    return out


def calculator(v, n):
    C = v.get('quantas.eosfit.eosfit.EoSFitCalculator')
    o = v.call(C, DictV({'lenght_unit': 'A', 'pressure_unit': 'GPa', 'logfile': None}))
    return o


QS = ('p', 'v', 'a', 'b', 'c')


def reader(v, n, sig):
    d = {'job': 'test'}
    for q in QS: d[q] = sym_array(q, (n,))
    for q in QS: d['sigma' + q] = sym_array('s' + q, (n,)) if sig else None
    data = DictV(d)
    names = {'volume': 'v', 'pressure': 'p', 'a': 'a', 'b': 'b', 'c': 'c'}
    f = {k: d[q] for k, q in names.items()}
    f.update({'sigma_' + q: d['sigma' + q] for q in QS})
    return struct('Reader', data=data, _data=data, jobname='test', **f), d


@unit('interactive session: the selected data, its own uncertainties and the entered parameters are fitted', timeout=400)
def session(v):
    for q, lin in (('v', False), ('a', True), ('b', True), ('c', True)):
        for sig in (False, True):
            for useP, useV in (((True, True), (True, False), (False, True)) if sig else ((True, True),)):
                for fixK in (False, True):
                    tag = '%s%s%s' % (q, '' if not sig else ', weights %s%s' % ('P' if useP else '', 'V' if useV else ''), ', second parameter fixed and entered' if fixK else '')
                    def run():
                        calls = []
                        n = t.sym('n', 'I')
                        v.assume(t.ge(n, 4))
                        v.I.check_defined = False
                        inp, d = reader(v, n, sig)
                        state = {'fix': 0, 'mod': 0}
                        def answers(kind, msg, a, k):
                            m = str(msg).lower()
                            if kind == 'prompt':
                                if 'values' in m: return q
                                if 'order' in m: return 3
                                if 'formulation' in m: return '2'
                                state['mod'] += 1
                                if state['mod'] == 2: return t.sym('entered')
                                return t.sym('kept%d' % (state['mod'] - 1))
                            if 'modify' in m: return fixK
                            if 'to fix any' in m: return fixK
                            if 'fix' in m and 'fitting' not in m and 'fit ' not in m:
                                state['fix'] += 1
                                return state['fix'] == 2
                            if 'weight the data' in m: return True
                            if 'weights' in m: return useP if 'pressure' in m else useV
                            if 'update' in m or 'continue' in m or 'change' in m or 'other data' in m: return False
                            raise Unsupported('question %r' % (msg,))
                        messages(v, answers)
                        o = calculator(v, n)
                        v.set(o, 'input', inp)
                        v.I.overrides[PV + 'EOS.guess'] = lambda I, a, k: (calls.append(('guess', a, k)), ListV([t.sym('h%d' % j) for j in range(4)]))[1]
                        def fit(I, a, k):
                            names = ('self', 'V', 'P', 'guess', 'sigmaV', 'sigmaP', 'order', 'linear', 'fixed')
                            dd = dict(zip(names, a)); dd.update(k)
                            dd['guess'] = [t.T(x) for x in vec(dd['guess'])]
                            calls.append(('fit', dd))
                            return struct('Output', beta=sym_array('beta', (4,)))
                        v.I.overrides[PV + 'EOS.fit'] = fit
                        rep = []
                        v.I.overrides['quantas.eosfit.eosfit.EoSFitCalculator.report_fit'] = lambda I, a, k: rep.append((a, k))
                        v.meth(o, 'run')
                        fits_ = [c[1] for c in calls if c[0] == 'fit']
                        if not v.fact('%s: one fit' % tag, len(fits_) == 1): return
                        f = fits_[0]
                        v.fact('%s: formulation' % tag, f['self'].cls.name == 'BirchMurnaghan' and f.get('order') == 3, repr(f['self']))
                        v.fact('%s: axial or volume data' % tag, bool(f.get('linear', False)) == lin)
                        same_data(v, '%s: selected data' % tag, f['V'], q, n)
                        same_data(v, '%s: pressures' % tag, f['P'], 'p', n)
                        for arg, src, on in (('sigmaV', 's' + q, sig and useV), ('sigmaP', 'sp', sig and useP)):
                            if on: same_data(v, '%s: %s' % (tag, arg), f.get(arg), src, n)
                            else: v.fact('%s: no %s' % (tag, arg), none(f.get(arg)))
                        v.fact('%s: fixed' % tag, tuple(vec(f['fixed'])) == ((1, 0, 1, 1) if fixK else (1, 1, 1, 1)), str(f['fixed']))
                        for j in range(4):
                            if not fixK: v.eq('%s: parameter %d' % (tag, j), f['guess'][j], t.sym('h%d' % j))
                            else: v.eq('%s: entered parameter %d' % (tag, j), f['guess'][j], t.sym('entered') if j == 1 else t.sym('kept%d' % j))
                        v.fact('%s: the fit is reported' % tag, len(rep) == 1)
                    v.paths(tag, run)


@unit('interactive session: later fits start from the accepted parameters, other data from their own guess')
def history(v):
    for update in (True, False):
        def run():
            calls, guesses = [], []
            n = t.sym('n', 'I')
            v.assume(t.ge(n, 4))
            v.I.check_defined = False
            inp, d = reader(v, n, False)
            st = {'cont': 0, 'data': 0, 'other': 0}
            def answers(kind, msg, a, k):
                m = str(msg).lower()
                if kind == 'prompt':
                    if 'values' in m:
                        st['data'] += 1
                        return 'va'[st['data'] - 1]
                    if 'order' in m: return 3
                    if 'formulation' in m: return '2'
                if 'modify' in m or 'to fix any' in m: return False
                if 'update' in m: return update
                if 'same data' in m:
                    st['cont'] += 1
                    return st['cont'] == 1
                if 'change' in m: return False
                if 'other data' in m:
                    st['other'] += 1
                    return st['other'] == 1
                raise Unsupported('question %r' % (msg,))
            messages(v, answers)
            o = calculator(v, n)
            v.set(o, 'input', inp)
            def guess(I, a, k):
                guesses.append((a, k))
                return ListV([t.sym('h%d_%d' % (len(guesses), j)) for j in range(4)])
            v.I.overrides[PV + 'EOS.guess'] = guess
            def fit(I, a, k):
                names = ('self', 'V', 'P', 'guess', 'sigmaV', 'sigmaP', 'order', 'linear', 'fixed')
                dd = dict(zip(names, a)); dd.update(k)
                dd['guess'] = [t.T(x) for x in vec(dd['guess'])]
                calls.append(dd)
                return struct('Output', beta=sym_array('beta%d' % len(calls), (4,)))
            v.I.overrides[PV + 'EOS.fit'] = fit
            v.I.overrides['quantas.eosfit.eosfit.EoSFitCalculator.report_fit'] = lambda I, a, k: None
            v.meth(o, 'run')
            tag = 'updating' if update else 'not updating'
            if not v.fact('%s: three fits' % tag, len(calls) == 3 and len(guesses) == 2, '%d fits, %d guesses' % (len(calls), len(guesses))): return
            for c, q in zip(calls, 'vva'): same_data(v, '%s: data %s' % (tag, q), c['V'], q, n)
            for g, q in zip(guesses, 'va'):
                same_data(v, '%s: guess from %s' % (tag, q), g[0][1], q, n)
                same_data(v, '%s: guess from the pressures' % tag, g[0][2], 'p', n)
            for j in range(4):
                v.eq('%s: first start %d' % (tag, j), calls[0]['guess'][j], t.sym('h1_%d' % j))
                v.eq('%s: second start %d' % (tag, j), calls[1]['guess'][j], t.app('beta1', j) if update else t.sym('h1_%d' % j))
                v.eq('%s: start on the axis %d' % (tag, j), calls[2]['guess'][j], t.sym('h2_%d' % j))
            v.fact('%s: axial only for the axis' % tag, [bool(c.get('linear', False)) for c in calls] == [False, False, True])
        v.paths('update %s' % update, run)


@unit('report: every refined parameter, error, covariance and residual under its own label', timeout=300)
def report(v):
    S = Solver(v)
    for q in ('v', 'a', 'b', 'c'):
        def run():
            out = messages(v)
            n = t.sym('n', 'I')
            v.assume(t.ge(n, 4))
            v.I.check_defined = False
            inp, d = reader(v, n, False)
            o = calculator(v, n)
            v.set(o, 'input', inp)
            labels = v.call(IN + 'get_label', q)
            want = ("K0", "K'", "K''", 'V0') if q == 'v' else tuple(x % q for x in ("M0(%s)", "M'(%s)", "M''(%s)", '%s0'))
            v.fact('%s: labels' % q, tuple(vec(labels)) == want, str(labels))
            res = struct('Output', beta=sym_array('beta', (4,)), sd_beta=sym_array('sd', (4,)), cov_beta=sym_array('cov', (4, 4)),
                         eps=sym_array('eps', (n,)), delta=sym_array('delta', (n,)), y=sym_array('yhat', (n,)), res_var=t.sym('resvar'), stopreason=ListV(['converged']))
            start = len(out.items)
            v.meth(o, 'report_fit', res, d[q], {'v': 'Volume'}.get(q, q + '-axis'), 'Birch-Murnaghan', 3, ListV([None, None]), ListV([1, 0, 1, 1]), labels)
            flat, rows = text_of(out)
            def vals(s): return [p.value for p in L.sparts(s) if isinstance(p, L.Fmt)]
            def text(s): return ''.join(p for p in L.sparts(s) if isinstance(p, str))
            for j in range(4):
                hit = [s for s in flat if isinstance(s, L.SStr) and text(s).strip().split()[:1] == [want[j]]]
                if not v.fact('%s: one line for %s' % (q, want[j]), len(hit) == 1, str(hit)): continue
                x = vals(hit[0])
                if not v.fact('%s: value and error of %s' % (q, want[j]), len(x) == 2, str(x)): continue
                v.eq('%s: value of %s' % (q, want[j]), x[0], t.app('beta', j))
                v.eq('%s: error of %s' % (q, want[j]), x[1], t.app('sd', j))
                v.fact('%s: %s marked fixed' % (q, want[j]), ('(FIXED)' in text(hit[0])) == (j == 1))
                v.fact('%s: %s marked implied' % (q, want[j]), ('[IMPLIED]' in text(hit[0])) == (j == 2))
            cov = [vals(s) for s in flat if isinstance(s, L.SStr) and len(vals(s)) == 4]
            if v.fact('%s: covariance rows' % q, len(cov) == 4, str(len(cov))):
                for a in range(4):
                    for b in range(4): v.eq('%s: covariance %d,%d' % (q, a, b), cov[a][b], t.app('cov', a, b))
            if not v.fact('%s: one table row per datum' % q, len(rows) == 1, str(len(rows))): return
            v.true('%s: number of rows' % q, t.eq(rows[0][0], n))
            i, = v.index((n,))
            x = [y for s in rows[0][1](i) for y in vals(s)]
            if v.fact('%s: five columns' % q, len(x) == 5, str(len(x))):
                for a, app in zip(x, (q, 'delta', 'p', 'yhat', 'eps')): v.eq('%s: column %s' % (q, app), a, t.app(app, i))
        v.paths(q, run)
