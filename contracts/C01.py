"""Unit conversions: exact ratio of SI values, all documented names, unknown names rejected, frame."""
from fractions import Fraction
from pyvc.vc import *
from pyvc.syslib import constant, value
from . import specs as sp

U = 'quantas.utils.physics.units.'


def q(x): return t.const(Fraction(x), 'R')


class _I(object): pass


def phys(key): return value(_I(), key)


HA, EV_, RY = phys('Hartree energy'), phys('electron volt'), phys('Rydberg constant times hc in J')
BOHR, CL = phys('Bohr radius'), constant('c')
ENERGY = [(('Hartree', 'hartree', 'Ha', 'ha'), HA), (('electron volt', 'eV', 'ev'), EV_), (('Rydberg', 'rydberg', 'Ry', 'ry'), RY),
          (('kJ/mol', 'kj/mol', 'kjmol'), 1000 / sp.NA)]
LENGTH = [(('metre', 'm'), q(1)), (('Angstrom', 'angstrom', 'A', 'a'), q('1e-10')), (('Bohr', 'bohr'), BOHR)]
PRESSURE = [(('Pa', 'pa'), q(1)), (('kPa', 'kpa'), q(10**3)), (('MPa', 'mpa'), q(10**6)), (('GPa', 'gpa'), q(10**9)),
            (('bar',), q(10**5)), (('kbar',), q(10**8)), (('Mbar', 'mbar'), q(10**11)), (('Gbar', 'gbar'), q(10**14))]
FREQ = [(('cm^-1',), 100 * CL), (('Hz', 'hz'), q(1)), (('THz', 'thz'), q(10**12))]
# temperature: K = a * value + b
TEMP = [(('Celsius', 'celsius', 'C', 'c'), (q(1), q('273.15'))), (('Kelvin', 'kelvin', 'K', 'k'), (q(1), q(0))),
        (('Fahrenheit', 'fahrenheit', 'F', 'f'), (q('5/9'), q('273.15') - 32 * q('5/9'))), (('Rankine', 'rankine', 'R', 'r'), (q('5/9'), q(0)))]
UNKNOWN = ['', ' ', 'xyz', 'joule', 'torr', 'kelvins', 'gp', 'm^2', 'hartrees', 'furlong', 'None', '1/cm', 'h', 'rank']


def names(tab): return [(n, f) for ns, f in tab for n in ns]


def accepted(tab): return {n.lower() for n, _ in names(tab)}


def value_cases(v):
    n, m = t.sym('n', 'I'), t.sym('m', 'I')
    v.assume(t.ge(n, 0), t.ge(m, 0))
    return [('scalar', t.sym('x')), ('vector', sym_array('xv', (n,))), ('matrix', sym_array('xm', (n, m))),
            ('integer vector', sym_array('xi', (n,), sort='I')), ('list', ListV((t.sym('x0'), t.sym('x1'))))]


def same_value(v, name, inp, res, f):
    """res[ix] == f(inp[ix]) for every index, and the argument is unchanged"""
    if isinstance(inp, ArrV):
        if not v.shape(name, res, inp.shape): return
        ix = v.index(inp.shape)
        orig = t.app('xi', *ix, sort='I') if inp.dtype == 'int' else t.app('xv' if len(ix) == 1 else 'xm', *ix)
        v.eq(name, res.get(*ix), f(orig))
        v.eq(name + ': argument unchanged', inp.get(*ix), orig)
    elif isinstance(inp, ListV):
        if not v.shape(name, res, (2,)): return
        for i in range(2):
            v.eq('%s[%d]' % (name, i), res.get(i), f(t.sym('x%d' % i)))
            v.fact(name + ': argument unchanged', inp.items[i] is t.sym('x%d' % i))
    else:
        v.fact(name + ': scalar result', not isinstance(res, ArrV) or len(res.shape) == 0, 'result %r' % (res,))
        v.eq(name, res, f(inp))


def factor_unit(fn, tab):
    @unit('%s: ratio of SI values for every ordered pair of units' % fn)
    def u(v):
        first = [ns[0] for ns, _ in tab]
        for a, fa in names(tab):
            for b, fb in names(tab):
                def run():
                    cases = value_cases(v)
                    if a not in first or b not in first: cases = cases[:1]
                    for nm, x in cases:
                        same_value(v, '%s %s -> %s (%s)' % (fn, a, b, nm), x, v.call(U + fn, x, a, b), lambda z: z * fa / fb)
                v.paths('%s %s -> %s' % (fn, a, b), run)
    reject(fn, tab)


def reject(fn, tab):
    @unit('%s: unknown units are rejected' % fn)
    def u2(v):
        good = tab[0][0][0]
        for bad in UNKNOWN:
            if bad.lower() in accepted(tab): continue
            for a, b in ((bad, good), (good, bad), (bad, bad)):
                out = v.I.explore(lambda: v.call(U + fn, t.sym('x'), a, b))
                v.fact('%s(%r -> %r) raises' % (fn, a, b), bool(out) and all(p.kind == 'raise' for p in out), 'an unknown unit is converted')


for _fn, _tab in (('convert_energy', ENERGY), ('convert_pressure', PRESSURE), ('convert_frequency', FREQ), ('convert_lenght', LENGTH)):
    factor_unit(_fn, _tab)
factor_unit('convert_volume', [(ns, f * f * f) for ns, f in LENGTH])


@unit('convert_temperature: affine scales for every ordered pair')
def u_temp(v):
    first = [ns[0] for ns, _ in TEMP]
    for a, (sa, oa) in names(TEMP):
        for b, (sb, ob) in names(TEMP):
            def run():
                cases = value_cases(v)
                if a not in first or b not in first: cases = cases[:1]
                for nm, x in cases:
                    same_value(v, 'convert_temperature %s -> %s (%s)' % (a, b, nm), x, v.call(U + 'convert_temperature', x, a, b),
                               lambda z: (sa * z + oa - ob) / sb)
            v.paths('convert_temperature %s -> %s' % (a, b), run)


reject('convert_temperature', TEMP)
EP_E = [(ns, f) for ns, f in ENERGY if 'kjmol' not in ns]
EP_V = [(('Angstrom', 'angstrom', 'A', 'a'), q('1e-10')), (('Bohr', 'bohr'), BOHR)]


def ep_unit(fn, inv):
    @unit('%s: energy per volume <-> pressure for every unit triple' % fn)
    def u(v):
        first = [ns[0] for ns, _ in EP_E + EP_V + PRESSURE]
        for e, fe in names(EP_E):
            for l, fl in names(EP_V):
                for p_, fp in names(PRESSURE):
                    k = sum(x not in first for x in (e, l, p_))
                    if k > 1: continue
                    fac = fe / (fl * fl * fl) / fp
                    if inv: fac = 1 / fac
                    def run():
                        cases = value_cases(v)
                        if k: cases = cases[:1]
                        for nm, x in cases:
                            same_value(v, '%s %s/%s^3, %s (%s)' % (fn, e, l, p_, nm), x, v.call(U + fn, x, e, l, p_), lambda z: z * fac)
                    v.paths('%s %s %s %s' % (fn, e, l, p_), run)

    @unit('%s: unknown units are rejected' % fn)
    def u2(v):
        for bad in UNKNOWN:
            for args in ((bad, 'bohr', 'gpa'), ('ha', bad, 'gpa'), ('ha', 'bohr', bad)):
                out = v.I.explore(lambda: v.call(U + fn, t.sym('x'), *args))
                v.fact('%s%r raises' % (fn, args), bool(out) and all(p.kind == 'raise' for p in out), 'an unknown unit is converted')


ep_unit('energy_to_pressure', False)
ep_unit('pressure_to_energy', True)
