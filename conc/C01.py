import numpy as np
from spec_np import EH, EV, BOHR, CL, NA
U = 'quantas.utils.physics.units'
RY = EH / 2
ENERGY = [(('Hartree', 'hartree', 'Ha', 'ha'), EH), (('electron volt', 'eV', 'ev'), EV), (('Rydberg', 'rydberg', 'Ry', 'ry'), RY), (('kJ/mol', 'kj/mol', 'kjmol'), 1000 / NA)]
LENGTH = [(('metre', 'm'), 1.), (('Angstrom', 'angstrom', 'A', 'a'), 1e-10), (('Bohr', 'bohr'), BOHR)]
PRESSURE = [(('Pa', 'pa'), 1.), (('kPa', 'kpa'), 1e3), (('MPa', 'mpa'), 1e6), (('GPa', 'gpa'), 1e9), (('bar',), 1e5), (('kbar',), 1e8), (('Mbar', 'mbar'), 1e11), (('Gbar', 'gbar'), 1e14)]
FREQ = [(('cm^-1',), 100 * CL), (('Hz', 'hz'), 1.), (('THz', 'thz'), 1e12)]
TEMP = [(('Celsius', 'celsius', 'C', 'c'), (1., 273.15)), (('Kelvin', 'kelvin', 'K', 'k'), (1., 0.)), (('Fahrenheit', 'fahrenheit', 'F', 'f'), (5 / 9, 273.15 - 160 / 9)), (('Rankine', 'rankine', 'R', 'r'), (5 / 9, 0.))]
UNKNOWN = ['', ' ', 'xyz', 'joule', 'torr', 'kelvins', 'gp', 'm^2', 'hartrees', 'furlong', 'None', '1/cm', 'h', 'rank']


def names(tab): return [(n, f) for ns, f in tab for n in ns]


def values(rng):
    yield 'float', float(rng.uniform(-50, 500))
    yield 'int', int(rng.integers(-20, 500))
    yield 'vector', rng.uniform(-5, 500, 4)
    yield 'matrix', rng.uniform(-5, 500, (2, 3))
    yield 'ints', rng.integers(-5, 900, 5)
    yield 'list', [float(x) for x in rng.uniform(0, 9, 3)]
    yield 'special', np.array([0., 1., -1., 1e-12, 1e12, 273.15, -273.15])
    yield 'empty', np.zeros(0)


def probe(h, case, f, args, spec, rng, everything):
    for kind, x in values(rng):
        if not everything and kind not in ('float', 'vector'): continue
        keep = np.array(x, copy=True)
        h.current = {'fn': f.__name__, 'value': x, 'units': args}
        r = f(x, *args)
        want = spec(np.array(keep, dtype=float))
        if kind == 'list': h.record(case, dict(h.current, value=keep), isinstance(r, np.ndarray), 'an array', type(r).__name__, 'a list of values gives an array')
        h.close(case, dict(h.current, value=keep), r, want, 3e-8, 1e-9 if 'temperature' in case else 0., floor=0 if 'temperature' not in case else 1e-6)
        if not np.array_equal(np.asarray(x), keep): h.record(case, dict(h.current, value=keep), False, keep, x, 'argument modified')


def rejected(h, case, f, args):
    h.current = None
    try:
        r = f(1., *args)
    except Exception:
        h.record(case, {'units': args}, True)
        return
    h.record(case, {'fn': f.__name__, 'units': args}, False, 'an error', r, 'unknown unit converted')


def conv(h, fn, tab):
    f = h.need(U, fn)
    rng = h.rng(fn)
    for _ in range(h.n(1, 10)):
        for a, fa in names(tab):
            for b, fb in names(tab):
                sp = (lambda z: z * fa / fb) if not isinstance(fa, tuple) else (lambda z: (z * fa[0] + fa[1] - fb[1]) / fb[0])
                probe(h, fn, f, [a, b], sp, rng, True)
    acc = {n.lower() for n, _ in names(tab)}
    for bad in UNKNOWN:
        if bad.lower() in acc: continue
        g = tab[0][0][0]
        for ar in ([bad, g], [g, bad], [bad, bad]): rejected(h, fn, f, ar)


def case_convert_energy(h): conv(h, 'convert_energy', ENERGY)
def case_convert_pressure(h): conv(h, 'convert_pressure', PRESSURE)
def case_convert_frequency(h): conv(h, 'convert_frequency', FREQ)
def case_convert_lenght(h): conv(h, 'convert_lenght', LENGTH)
def case_convert_volume(h): conv(h, 'convert_volume', [(n, f ** 3) for n, f in LENGTH])
def case_convert_temperature(h): conv(h, 'convert_temperature', TEMP)


def ep(h, fn, inv):
    f = h.need(U, fn)
    rng = h.rng(fn)
    for e, fe in names(ENERGY[:3]):
        for l, fl in names(LENGTH[1:]):
            for p, fp in names(PRESSURE):
                k = fe / fl ** 3 / fp
                probe(h, fn, f, [e, l, p], lambda z: z / k if inv else z * k, rng, True)
    for bad in UNKNOWN:
        for ar in ([bad, 'bohr', 'gpa'], ['ha', bad, 'gpa'], ['ha', 'bohr', bad]): rejected(h, fn, f, ar)


def case_energy_to_pressure(h): ep(h, 'energy_to_pressure', False)
def case_pressure_to_energy(h): ep(h, 'pressure_to_energy', True)
