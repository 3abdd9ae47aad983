"""Harmonic run: the reported functions are the oscillator sums of the input, converted exactly once."""
from pyvc.vc import *
from . import specs as sp
from .modular import *
from .C02 import dims

HC = 'quantas.harmonic.harmonic.HACalculator'
NOTE = 'the input object is abstracted to arbitrary data with the attributes the reader provides (reader under contract in C22)'


def calculator(v, trange=(0., 10., 10.)):
    s = DictV({'silent': True, 'debug': False, 'logfile': None, 'trange': trange, 'energy_unit': 'EU', 'lenght_unit': 'LU',
               'frequency_unit': 'FU', 'temperature_unit': 'TU'})
    return v.call(HC, s)


def quantas_input(v, nq, nb, nv):
    fr, W = sym_array('freq', (nq, nb, nv)), sym_array('W', (nq,))
    E, V = sym_array('U0', (nv,)), sym_array('V', (nv,))
    tot = t.ssum(nq, lambda q: W.get(q))
    v.assume(t.gt(tot, 0))
    ph = struct('Reader', frequencies=fr, weights=W, total_q_points=tot, energy=E, volume=V, nvol=nv, natoms=t.sym('natoms', 'I'),
                kpoints=1, qpoints=nq, jobname='job', completed=True, error=None, data=None)
    return ph, fr, W, E, V, tot


@unit('every reported quantity at every volume and temperature, any units')
def u_run(v):
    v.assumptions.add(NOTE)
    def run():
        install(v); unit_facts(v)
        a, b, d = t.sym('tmin'), t.sym('tmax'), t.sym('dt')
        v.assume(t.gt(d, 0), t.ge(b, a))
        o = calculator(v, (a, b, d))
        nq, nb, nv = dims('nq', 'nb', 'nv')
        v.assume(*[t.ge(x, 1) for x in (nq, nb, nv)])
        inp, fr, W, E, V, tot = quantas_input(v, nq, nb, nv)
        v.set(o, 'input', inp)
        Tu = v.attr(o, 'temperature')
        if not v.fact('temperatures', isinstance(Tu, ArrV) and len(Tu.shape) == 1): return
        nT = Tu.shape[0]
        s, off = TS('TU')
        i, n = v.index((nT, nv))
        kelvin = lambda j: s * (a + j * d) + off
        v.assume(t.ge(kelvin(i), 0))
        v.meth(o, 'run')
        r = v.attr(o, 'results')
        v.fact('completed', v.attr(o, 'completed') is True)
        r = r.d
        kj = 1000 / sp.NA / SI('E', 'EU')
        hz = SI('F', 'FU')
        def osc(f, T): return kj * t.ssum(nq, lambda q: t.ssum(nb, lambda b: f(T, fr.get(q, b, n) * hz) * W.get(q) / tot))
        T = kelvin(i)
        for k, shape, want in (('Uzp', (1, nv), osc(sp.zpe, t.const(0))), ('Uth', (nT, nv), osc(sp.eth, T)), ('S', (nT, nv), osc(sp.S, T)),
                               ('Cv', (nT, nv), osc(sp.Cv, T)), ('Fvib', (nT, nv), osc(sp.F, T)),
                               ('Utot', (nT, nv), E.get(n) + osc(sp.zpe, t.const(0)) + osc(sp.eth, T)), ('F', (nT, nv), E.get(n) + osc(sp.F, T))):
            if not v.shape(k, r[k], shape): continue
            v.eq(k, r[k].get(0 if k == 'Uzp' else i, n), want)
        for nm, x in (('U0', E), ('V', V)): v.eq('frame: ' + nm, x.get(n), t.app(nm, n))
        q, m = v.index((nq, nb))
        v.eq('frame: frequencies', fr.get(q, m, n), t.app('freq', q, m, n))
        v.eq('frame: weights', W.get(q), t.app('W', q))
        v.eq('frame: requested temperatures', v.attr(o, 'temperature').get(i), a + i * d)
    v.paths('run', run)


@unit('requested temperatures: from the minimum, in steps, up to the maximum')
def u_range(v):
    def run():
        a, b, d = t.sym('tmin'), t.sym('tmax'), t.sym('dt')
        v.assume(t.gt(d, 0), t.ge(b, a))
        o = calculator(v, (a, b, d))
        T = v.attr(o, 'temperature')
        if not v.fact('one axis', isinstance(T, ArrV) and len(T.shape) == 1): return
        i, = v.index(T.shape)
        v.eq('T[i] = min + i step', T.get(i), a + i * d)
        k = t.sym('k', 'I')
        v.assume(t.ge(k, 0), t.le(a + k * d, b))
        v.true('every value up to the maximum is present', t.gt(T.shape[0], k))
        v.true('nothing beyond the maximum by a full step', t.lt(T.get(i), b + d))
    v.paths('range', run)


@unit('command line: every option reaches the calculation it is meant for')
def u_cmd(v):
    for funit, want in (('cm-1', 'cm^-1'), ('THz', 'THz'), ('Hz', 'Hz')):
        def run():
            seen = []
            v.I.files['in.yaml'] = ()
            class Stop(Exception): pass
            def init(I, a, k):
                seen.append(a[1] if len(a) > 1 else k['settings'])
                I.throw('RuntimeError', 'calculation starts here')
            v.I.overrides[HC + '.__init__'] = init
            a, b, d = t.sym('tmin'), t.sym('tmax'), t.sym('dt')
            try:
                v.call('quantas.harmonic.commands.cmd_ha.ha_calculation', filename='in.yaml', outfile=None, temperature=(a, b, d), eunit='EU', vunit='LU', funit=funit, tunit='TU', silent=True, debug=False)
            finally:
                if v.fact('%s: one calculator' % funit, len(seen) == 1):
                    s = seen[0].d
                    for k, w in (('energy_unit', 'EU'), ('lenght_unit', 'LU'), ('frequency_unit', want), ('temperature_unit', 'TU'), ('silent', True)):
                        v.fact('%s: %s' % (funit, k), s.get(k) == w, repr(s.get(k)))
                    for x, y in zip(vec(s['trange']), (a, b, d)): v.eq('%s: temperature range' % funit, x, y)
        v.paths(funit, run, raises=lambda nm, p: nm == 'RuntimeError')
