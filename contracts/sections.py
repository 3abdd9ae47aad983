"""The (xy), (xz) and (yz) sections of the elastic calculator, over the contracts of the polar scans."""
from pyvc import terms as t, arrays as A
from pyvc.arrays import new_array
from pyvc.interp import DictV, Unsupported
from pyvc.interp import Builtin
from pyvc.vc import struct
from .elastic import voigt

SO, SC = 'quantas.soec.utils.soec_obj.', 'quantas.soec.soec.'
# quantity: (method, columns, unit in the results file)
POLAR = {'E': ('polar_young', 1, 'GPa'), 'LC': ('polar_compressibility', 2, 'TPa^-1'), 'G': ('polar_shear', 2, 'GPa'),
         'Nu': ('polar_poisson', 3, ''), 'waves': ('polar_waves', 3, 'km s^-1')}


def ang(N): return lambda i: i * (2 * t.PI) / (N - 1)


def where(N):
    """the pair of angles of row i of a section of N rows"""
    a, half = ang(N), t.PI / 2
    return {'xy': lambda i: (half, a(i)), 'xz': lambda i: (a(i), t.const(0, 'R')), 'yz': lambda i: (a(i), half)}


def scans(v):
    """callee contracts of the polar scans: row i belongs to the i-th pair of angles"""
    def scan(nm, cols):
        def f(I, a, k):
            th, ph = A.as_array(I, a[1]), A.as_array(I, a[2])
            n = th.shape[0]
            if cols == 1: return new_array((n,), lambda i: t.app(nm, th.get(i), ph.get(i), 0))
            return new_array((n, cols), lambda i, c: t.app(nm, th.get(i), ph.get(i), c))
        return f
    for nm, (fn, cols, _u) in POLAR.items(): v.I.overrides[SO + 'SOEC.' + fn] = scan(nm, cols)
    v.I.overrides['quantas.core.calculator.BasicCalculator.echo'] = lambda I, a, k: None


def sections(v, kinds):
    """every section holds, row by row, the angle in degrees and the quantities of that direction of its own plane"""
    scans(v)
    v.assumptions.add('callee contracts: row i of a polar scan belongs to the i-th pair of angles (proved in the units on the polar scans)')
    C, rho = voigt(), t.sym('rho', pos=True)

    def init(I, a, k):
        v.set(a[0], 'C', a[1])
        v.set(a[0], 'S', voigt('s'))
        v.set(a[0], 'density', rho)
    v.I.overrides[SO + 'SOEC.__init__'] = init
    v.I.overrides['quantas.soec.utils.symmetry.check_symmetry'] = lambda I, a, k: 'cubic'
    reader = struct('SOECInputFileReader', completed=True, error=None, jobname='job', stiffness=C, density=rho)
    v.set(v.I.import_module('quantas.soec.soec'), 'SOECInputFileReader', Builtin('reader', lambda I, a, k: reader))

    def run():
        c = v.call(SC + 'SOECCalculator', DictV({'polar': True, 'silent': True, 'debug': False, 'logfile': None, 'pressure_unit': 'GPa',
                                                 'plotting': False, 'outfig': '', 'dpi': 80}))
        v.meth(c, 'read_input', 'file')
        N = t.sym('nrad', 'I')
        v.assume(t.ge(N, 2))
        v.meth(c, 'calculate_polar_properties', N)
        res = v.attr(c, 'results')
        if 'polar' not in res.d: raise Unsupported('sections are not among the results')
        pol = res.d['polar']
        for p, w in where(N).items():
            for x in kinds:
                cols = POLAR[x][1]
                if p not in pol.d or x not in pol.d[p].d:
                    v.fact('section %s of %s' % (p, x), False, 'missing'); continue
                arr = A.as_array(v.I, pol.d[p].d[x])
                nm = '%s on (%s)' % (x, p)
                if not v.shape(nm, arr, (N, cols + 1)): continue
                i, = v.index((N,))
                v.eq('%s: angle in degrees' % nm, arr.get(i, 0), ang(N)(i) * 180 / t.PI)
                for k in range(cols): v.eq('%s column %d' % (nm, k + 1), arr.get(i, k + 1), t.app(x, *[t.T(y) for y in w(i)], t.T(k)))
    v.paths('sections', run)
