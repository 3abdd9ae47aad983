"""Volume minimisation and bulk modulus of the free-energy curve."""
from pyvc.vc import *
from pyvc import arrays as A, nplib, prove as P
from .C02 import dims
from .modular import *
from pyvc.loops import occurrences, app_names

PO = 'quantas.utils.math.polynomials.'
QC = 'quantas.qha.qha.QHACalculator'
RNOTE = 'library contract: numpy returns all roots of the derivative polynomial; a real one satisfies p(r) = 0'


def dpoly(n, c, x): return t.ssum(n - 1, lambda k: (t.T(k) + 1) * c(k + 1) * t.power(x, k))
def d2poly(n, c, x): return t.ssum(n - 2, lambda k: (t.T(k) + 1) * (t.T(k) + 2) * c(k + 2) * t.power(x, k))


def root_apps(v, term):
    """(re, im, coefficients) of the polynomial roots occurring in a term"""
    out = []
    for nm in sorted(app_names(term)):
        if nm.startswith('roots!') and nm.endswith('re'):
            for a in occurrences(term, nm):
                out.append((a, t.app(nm[:-2] + 'im', *a.args[1:]), v.I.memo[nm[:-2]]))
    return out


def stationary(v, name, x, n, c, P):
    """x is a real root of F' + P with F'' > 0"""
    rs = root_apps(v, x)
    if len(rs) != 1 or rs[0][0] is not x: raise Unsupported('the minimum is not one of the roots: %s' % t.show(x, 80))
    re, im, co = rs[0]
    v.true(name + ': is a real root', t.eq(im, 0))
    g = A.getter(co)
    v.eq(name + ': root of dF/dV + P', t.ssum(co.shape[0], lambda k: g(k) * t.power(x, k)), dpoly(n, c, x) + P)
    v.true(name + ': positive curvature', t.gt(d2poly(n, c, x), 0))


def degree(v):
    n = t.sym('n', 'I')
    v.assume(t.ge(n, 3))
    return n


def complete(v, j, names):
    """chain the selection axioms from root j to its place in the result"""
    ix, known = j, {}
    for nm in names:
        prev, ix = ix, A.select_complete(v.I, nm, ix, lambda c: P.replace(c, known))
        known[t.app(nm, ix, sort='I')] = known.get(prev, prev)      # sel(inv(j)) = j, conclusion of the axiom just added
    return ix


@unit('polynomial minimum: stationary, real and convex for every degree')
def u_min(v):
    v.assumptions.add(RNOTE)
    for add in (True, False):
        def run():
            n = degree(v)
            c, P = sym_array('c', (n,)), t.sym('P') if add else t.const(0)
            r = v.call(PO + 'find_polynomial_minimum', c, *([P] if add else []))
            if not v.fact('one axis', isinstance(r, ArrV) and len(r.shape) == 1): return
            i, = v.index(r.shape)
            stationary(v, 'every returned point', r.get(i), n, c.get, P)
            # nothing is missed: any real root with positive curvature is in the result
            used = app_names(r.get(i))
            nm = sorted({k[:-2] for k in used if k.startswith('roots!')})
            sels = sorted((k for k in used if k.startswith('sel!')), key=lambda k: int(k[4:]))
            if len(nm) != 1: raise Unsupported('several root problems')
            j = t.sym('j', 'I')
            re, im = t.app(nm[0] + 're', j), t.app(nm[0] + 'im', j)
            v.assume(t.ge(j, 0), t.lt(j, n - 2), t.eq(im, 0), t.gt(d2poly(n, c.get, re), 0))
            k = complete(v, j, sels)
            v.true('every minimum is returned: position', t.and_(t.ge(k, 0), t.lt(k, r.shape[0])))
            v.true('every minimum is returned: value', t.eq(r.get(k), re))
            k2, = v.index((n,))
            v.eq('frame: coefficients unchanged', c.get(k2), t.app('c', k2))
        v.paths('minimum%s' % (' with pressure' if add else ''), run)


EDEG = t.sym('edeg', 'I')


def calculator(v, scheme='td', mini='poly', kieffer=False, eos='birchmurnaghan'):
    install(v)
    unit_facts(v)
    ed, fd = dims('edeg', 'fdeg')
    v.assume(t.ge(ed, 2), t.ge(fd, 1))
    s = DictV({'silent': True, 'debug': False, 'logfile': None, 'trange': (0., 10., 10.), 'prange': (0., 10., 10.), 'qha_scheme': scheme,
               'minimization': mini, 'kieffer': kieffer, 'eos_function': eos, 'eos': 'X', 'edeg': ed, 'fdeg': fd, 'energy_unit': 'EU',
               'lenght_unit': 'LU', 'frequency_unit': 'FU', 'temperature_unit': 'TU', 'pressure_unit': 'PU'})
    return v.call(QC, s)


def Pau(): return SI('E', 'EU') / SI('V', 'LU') / SI('P', 'PU')


@unit('minimize_volume, polynomial: dF/dV = -P in the units of the run')
def u_minimize(v):
    v.assumptions.add(RNOTE)
    for given in (True, False):
        def run():
            o = calculator(v)
            nv = t.sym('nv', 'I'); v.assume(t.ge(nv, 4))
            V, F, P = sym_array('V', (nv,)), sym_array('F', (nv,)), t.sym('P')
            n = EDEG + 1
            if given: c = sym_array('c', (n,))
            else: c = nplib.polyfit_lowfirst(v.I, [V, F, EDEG], {})
            r = v.meth(o, 'minimize_volume', V, F, P, *([c] if given else []))
            r = vec(r)
            stationary(v, 'volume', t.T(r[0]), n, A.getter(c), P / Pau())
            v.eq('no bulk modulus from this step', r[1], 0); v.eq("no K' from this step", r[2], 0)
        v.paths('poly', run, raises=lambda nm, p: nm == 'IndexError')


@unit('minimize_volume, equation of state: the fit of F + PV')
def u_eosmin(v):
    for eos in ('murnaghan', 'birchmurnaghan', 'vinet', 'pouriertarantola'):
        seen = []
        def fit(I, a, k): seen.append((a, k)); return (sym_array('popt', (4,)), sym_array('pcov', (4, 4)))
        v.I.contracts['scipy.optimize.curve_fit'] = fit
        def run():
            del seen[:]
            v.I.check_defined = False
            o = calculator(v, mini='eos', eos=eos)
            nv = t.sym('nv', 'I'); v.assume(t.ge(nv, 4))
            V, F, P = sym_array('V', (nv,)), sym_array('F', (nv,)), t.sym('P')
            v.I.overrides['quantas.qha.utils.ev_eos.EnergyEOS.guess'] = lambda I, a, k: ListV([t.sym('g%d' % i) for i in range(4)])
            r = vec(v.meth(o, 'minimize_volume', V, F, P))
            if not v.fact('%s: one fit' % eos, len(seen) == 1): return
            a, k = seen[0]
            i, = v.index((nv,))
            v.eq('%s: abscissas are the volumes' % eos, a[1].get(i), V.get(i))
            v.eq('%s: ordinates are F + P V' % eos, a[2].get(i), F.get(i) + P / Pau() * V.get(i))
            x, pr = t.sym('x'), [t.sym('p%d' % j) for j in range(4)]
            v.assume(t.gt(x, 0), t.gt(pr[3], 0))
            v.eq('%s: fitted function' % eos, v.call(a[0], x, *pr), v.call('quantas.qha.utils.ev_eos.EnergyEOS.' + eos, None, x, *pr))
            v.eq('%s: volume is the fitted V0' % eos, r[0], t.app('popt', 3))
            v.eq('%s: K is the fitted K0 in pressure units' % eos, r[1], t.app('popt', 1) * Pau())
            v.eq("%s: K' is the fitted K0'" % eos, r[2], t.app('popt', 2))
            j, = v.index((nv,))
            v.eq('%s: frame' % eos, F.get(j), t.app('F', j))
        v.paths(eos, run)


@unit('numerical bulk modulus: V d2F/dV2 and its pressure derivative')
def u_k(v):
    def run():
        o = calculator(v)
        nv = t.sym('nv', 'I'); v.assume(t.ge(nv, 3))
        V, F = sym_array('V', (nv,)), sym_array('F', (nv,))
        idx, = v.index((nv,))
        n = EDEG + 1
        r = vec(v.meth(o, 'numerical_bulk_modulus', V, F, idx))
        f = A.getter(nplib.polyfit_lowfirst(v.I, [V, F, EDEG], {}))
        K = lambda i: V.get(i) * d2poly(n, f, V.get(i)) * Pau()
        p = lambda i: -dpoly(n, f, V.get(i)) * Pau()
        v.eq('K_T = V d2F/dV2', r[0], K(idx))
        g = A.getter(nplib.polyfit_lowfirst(v.I, [new_array((nv,), p), new_array((nv,), K), 2], {}))
        v.eq("K' = dK/dP of the parabola through (P, K)", r[1], g(1) + 2 * g(2) * p(idx))
        j, = v.index((nv,))
        v.eq('frame: V', V.get(j), t.app('V', j)); v.eq('frame: F', F.get(j), t.app('F', j))
    v.paths('K', run)


@unit('fine grid: centred on the equilibrium volume')
def u_grid(v):
    def run():
        m = t.sym('m', 'I'); v.assume(t.ge(m, 1))
        s = t.sym('sep')
        for nm, n in (('odd', 2 * m + 1), ('default', None)):
            r = vec(v.call(QC + '.fine_grid', *([n, s] if n is not None else [])))
            e, idx = r
            if nm == 'default':
                v.arr_eq('default: five points 0.05 %% apart', e, (5,), lambda i: t.const(i - 2) * t.lit(0.05) / 100)
                v.eq('default: index', idx, 2)
                continue
            if not v.shape(nm, e, (n,)): return
            v.eq('%s: the reported index is the central point' % nm, e.get(idx), 0)
            v.eq('%s: index' % nm, idx, m)
            i, = v.index((n,))
            v.eq('%s: evenly spaced' % nm, e.get(i), (i - m) * s / 100)
    v.paths('grid', run)
