"""HDF5 results.  (1) HA and QHA: for any results, any grid and any units, the file holds exactly the documented
datasets, each equal to the calculator's array of that name, with the unit the calculator used for it, and the job
name and units of the run.  (2) SOEC: stiffness, compliance, averages, eigenvalues and exactly those polar sections
that were calculated, each row belonging to its own direction in the plane the section is named after."""
from fractions import Fraction
from contracts.sections import POLAR, ang, where, scans
from pyvc.vc import *
from pyvc import arrays as A, lib as L
from .elastic import *
from .C02 import dims
from .C04 import quantas_input

HC, QC, SC = 'quantas.harmonic.harmonic.HACalculator', 'quantas.qha.qha.QHACalculator', 'quantas.soec.soec.'
UNITS = {'energy_unit': 'EU', 'lenght_unit': 'LU', 'frequency_unit': 'FU', 'temperature_unit': 'TU', 'pressure_unit': 'PU'}
HA_E = ('Uzp', 'Uth', 'Utot', 'Fvib', 'F')
QHA = dict({k: 'EU' for k in ('Uzp', 'Uth', 'Utot', 'Fvib', 'F', 'H', 'G')}, **{k: 'mEU' for k in ('S', 'Cv', 'Cp', 'Cp-Cv')},
           VT='LU', KT='PU', KS='PU', Kp='', gruneisen='', alphaV='K^-1')


def node(v, name):
    f = v.I.h5.get(name)
    if f is None: raise Unsupported('results are not written through h5py.File(name, "w")')
    return f


def attr(ds, k): return ds.attrs.d.get(k)


def dataset(v, f, name, shape, spec, unit):
    ds = f.d.get(name)
    if not v.fact('%s stored' % name, ds is not None, 'missing'): return
    v.arr_eq(name, A.as_array(v.I, ds.val), shape, spec)
    if unit is not None: v.fact('unit of %s' % name, attr(ds, 'unit') == unit, '%r, used: %r' % (attr(ds, 'unit'), unit))


def only(v, f, names): v.fact('no dataset under another name', set(f.d) == set(names), repr(sorted(set(f.d) ^ set(names))))


def settings(**kw):
    a, b, d, p, q, e = [t.sym(x) for x in ('tmin', 'tmax', 'dt', 'pmin', 'pmax', 'dp')]
    s = dict({'silent': True, 'debug': False, 'logfile': None, 'trange': (a, b, d), 'prange': (p, q, e), 'qha_scheme': 'td', 'minimization': 'poly',
              'kieffer': False, 'eos_function': 'birchmurnaghan', 'eos': 'BM', 'edeg': 3, 'fdeg': 3}, **UNITS)
    return DictV(dict(s, **kw)), (a, b, d, p, q, e)


def run_info(v, f, job):
    info = attr(f, 'info')
    if not v.fact('description of the run', L.isstr(info), repr(info)): return
    text = repr(info)
    for what, x in (('job name', job), ('energy unit', 'EU'), ('volume unit', 'LU'), ('frequency unit', 'FU'), ('temperature unit', 'TU')):
        v.fact('%s recorded' % what, x in text, text)


@unit('HA results file: every quantity, unit, grid and job name')
def u_ha(v):
    def run():
        s, (a, b, d, *_) = settings()
        v.assume(t.gt(d, 0), t.ge(b, a))
        o = v.call(HC, s)
        nq, nb, nv = dims('nq', 'nb', 'nv')
        v.assume(*[t.ge(x, 1) for x in (nq, nb, nv)])
        inp, fr, W, E, V, tot = quantas_input(v, nq, nb, nv)
        v.set(inp, 'jobname', 'name of this job')
        v.set(o, 'input', inp)
        T = v.attr(o, 'temperature')
        nT = T.shape[0]
        v.meth(o, 'init_results', nv, nT)
        res = v.attr(o, 'results')
        if not v.fact('every quantity has a place', set(res.d) == set(HA_E) | {'S', 'Cv'}, repr(sorted(res.d))): return
        rows = {k: (1 if k == 'Uzp' else nT) for k in res.d}
        R = {k: sym_array('R_' + k, (rows[k], nv)) for k in res.d}
        for k in res.d: res.d[k] = R[k]
        v.meth(o, 'export_hdf5', 'out.hdf5')
        f = node(v, 'out.hdf5')
        only(v, f, set(R) | {'T', 'V', 'U0'})
        run_info(v, f, 'name of this job')
        dataset(v, f, 'T', (nT,), lambda i: T.get(i), 'TU')
        dataset(v, f, 'V', (nv,), lambda n: V.get(n), 'LU')
        dataset(v, f, 'U0', (nv,), lambda n: E.get(n), 'EU')
        for k in R: dataset(v, f, k, (rows[k], nv), R[k].get, 'mEU' if k in ('S', 'Cv') else 'EU')
    v.paths('export', run)


@unit('QHA results file: every quantity, unit, grid and job name')
def u_qha(v):
    for scheme in ('td', 'freq'):
        for mini in ('poly', 'eos'):
            def run():
                s, (a, b, d, p, q, e) = settings(qha_scheme=scheme, minimization=mini)
                v.assume(t.gt(d, 0), t.ge(b, a), t.gt(e, 0), t.ge(q, p))
                o = v.call(QC, s)
                nq, nb, nv = dims('nq', 'nb', 'nv')
                v.assume(*[t.ge(x, 1) for x in (nq, nb, nv)])
                inp = quantas_input(v, nq, nb, nv)[0]
                v.set(inp, 'jobname', 'name of this job')
                v.set(o, 'input', inp)
                T, Pr = v.attr(o, 'temperature'), v.attr(o, 'pressure')
                nT, nP = T.shape[0], Pr.shape[0]
                v.meth(o, 'init_results', nT, nP)
                res = v.attr(o, 'results')
                if not v.fact('every quantity has a place', set(res.d) == set(QHA), repr(sorted(res.d))): return
                R = {k: sym_array('R_' + k, (nT, nP)) for k in res.d}
                for k in res.d: res.d[k] = R[k]
                v.meth(o, 'export_hdf5', 'out.hdf5')
                f = node(v, 'out.hdf5')
                only(v, f, set(QHA) | {'T', 'P'})
                run_info(v, f, 'name of this job')
                info = repr(attr(f, 'info'))
                v.fact('pressure unit recorded', 'PU' in info, info)
                v.fact('interpolation scheme recorded', ('frequency interpolation' in info) == (scheme == 'freq') and ('thermodynamic interpolation' in info) == (scheme == 'td'), info)
                v.fact('minimisation recorded', ('polynomial fitting' in info) == (mini == 'poly') and ('EoS fitting' in info) == (mini == 'eos'), info)
                dataset(v, f, 'T', (nT,), lambda i: T.get(i), 'TU')
                dataset(v, f, 'P', (nP,), lambda j: Pr.get(j), 'PU')
                for k in R: dataset(v, f, k, (nT, nP), R[k].get, QHA[k])
            v.paths('export %s %s' % (scheme, mini), run)


@unit('SOEC results file: matrices, averages, eigenvalues and the calculated polar sections', timeout=400)
def u_soec(v):
    C, S, rho = voigt(), voigt('s'), t.sym('rho')

    def init(I, a, k):
        for nm, x in (('C', a[1]), ('S', S), ('density', a[2] if len(a) > 2 else k.get('density')),
                      ('Cmat', sym_array('Cmat', (3,) * 4)), ('Smat', sym_array('Smat', (3,) * 4))): v.set(a[0], nm, x)
    v.I.overrides[SO + 'SOEC.__init__'] = init
    v.assumptions.add('callee contracts: SOEC and its polar scans (C12, C13, C16): row i of a scan belongs to the i-th pair of angles')
    v.I.overrides['quantas.soec.utils.symmetry.check_symmetry'] = lambda I, a, k: 'cubic'
    scans(v)
    reader = struct('SOECInputFileReader', completed=True, error=None, jobname='job', stiffness=C, density=rho)
    v.set(v.I.import_module('quantas.soec.soec'), 'SOECInputFileReader', Builtin('reader', lambda I, a, k: reader))
    v.assume(t.ge(rho, 0))
    for polar in (False, True):
        def run():
            c = v.call(SC + 'SOECCalculator', DictV({'polar': polar, 'silent': True, 'debug': False, 'logfile': None, 'pressure_unit': 'GPa', 'plotting': False, 'outfig': '', 'dpi': 80}))
            v.meth(c, 'read_input', 'file')
            res = v.attr(c, 'results')
            avg, eig = sym_array('avg', (3, 4)), [t.app('eig', i) for i in range(6)]
            res.d['avgs'], res.d['eigv'] = avg, ListV(list(eig))
            N = t.sym('nrad', 'I')
            v.assume(t.ge(N, 2))
            if polar: v.meth(c, 'calculate_polar_properties', N)
            v.meth(c, 'export_hdf5', 'out.hdf5')
            f = node(v, 'out.hdf5')
            names = ['stiffness', 'compliance', 'averages', 'eigenvals']
            waves = polar and v.I.decide(t.gt(rho, 0))
            have = [x for x in POLAR if x != 'waves' or waves] if polar else []
            only(v, f, names + ['polar_%s_%s' % (x, p) for x in have for p in ('xy', 'xz', 'yz')])
            dataset(v, f, 'stiffness', (6, 6), C.get, 'GPa')
            dataset(v, f, 'averages', (3, 4), avg.get, 'GPa')
            dataset(v, f, 'eigenvals', (6,), lambda i: A.pick(i, eig), 'GPa')
            unit = attr(f.d['compliance'], 'unit') if 'compliance' in f.d else None
            v.fact('unit of compliance', unit in ('TPa^-1', 'GPa^-1'), repr(unit))
            dataset(v, f, 'compliance', (6, 6), lambda i, j: S.get(i, j) * (1000 if unit == 'TPa^-1' else 1), None)
            sect = where(N)
            for x in have:
                fn, cols, un = POLAR[x]
                for p in sect:
                    nm = 'polar_%s_%s' % (x, p)
                    ds = f.d.get(nm)
                    if ds is None: continue
                    arr = A.as_array(v.I, ds.val)
                    v.fact('unit of %s' % nm, attr(ds, 'unit') == un, repr(attr(ds, 'unit')))
                    if not v.shape(nm, arr, (N, cols + 1)): continue
                    i, = v.index((N,))
                    v.eq('%s: angle in degrees' % nm, arr.get(i, 0), ang(N)(i) * 180 / t.PI)
                    for k in range(cols): v.eq('%s column %d' % (nm, k + 1), arr.get(i, k + 1), t.app(x, *[t.T(y) for y in sect[p](i)], t.T(k)))
        v.paths('export %s' % ('with polar sections' if polar else 'without polar sections'), run)
