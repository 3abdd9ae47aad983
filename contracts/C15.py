"""Orthorhombic closed forms against the tensor definitions."""
from pyvc.vc import *
from .elastic import *
from .C13 import young, lincomp, shear, poisson


def on(i, j): return i == j or (i < 3 and j < 3)


@unit('closed forms equal the tensor definitions for every direction', timeout=400)
def u_forms(v):
    def run():
        C = voigt(zero=lambda i, j: not on(i, j))
        v.I.check_defined = False
        v.assumptions.add('precondition: positive definite compliance, so no directional denominator is zero')
        v.assumptions.add('the inverse of a block-diagonal (orthorhombic) matrix has the same zero pattern')
        g = v.call(SO + 'SOEC', C, t.sym('rho'))
        S0 = v.attr(g, 'S')
        S = new_array((6, 6), lambda i, j: S0.get(i, j) if on(min(i, j), max(i, j)) else t.const(0))
        v.set(g, 'S', S)
        v.set(g, 'Smat', new_array((3,) * 4, lambda i, j, k, l: S4(S, i, j, k, l)))
        o = v.call(SO + 'SOECOrtho', g)
        th, ph, ch = angles('theta', 'phi', 'chi')
        a, b = n_dir(th, ph), b_dir(th, ph, ch)
        for nm, x, y in (("Young's modulus", v.meth(o, 'young_modulus', ListV([th, ph])), young(S, a)),
                         ('shear modulus', v.meth(o, 'shear_modulus', ListV([th, ph, ch])), shear(S, a, b))):
            v.eq('1 / ' + nm, 1 / x, 1 / y, rewrites=trig)
        v.eq('linear compressibility', v.meth(o, 'linear_compressibility', ListV([th, ph])), lincomp(S, a), rewrites=trig)
        v.eq("Poisson's ratio", v.meth(o, 'poisson_ratio', ListV([th, ph, ch])), poisson(S, a, b), rewrites=trig)
    v.paths('forms', run)


SC = 'quantas.soec.soec.'


@unit('the closed forms are used for the orthorhombic pattern only')
def u_select(v):
    from .C17 import PATTERN, relations, TOL, SY

    def init(I, a, k):
        for nm, x in (('C', a[1]), ('S', voigt('s')), ('density', a[2] if len(a) > 2 else k.get('density')),
                      ('Cmat', sym_array('Cmat', (3,) * 4)), ('Smat', sym_array('Smat', (3,) * 4))): v.set(a[0], nm, x)
    v.I.overrides[SO + 'SOEC.__init__'] = init
    C, rho = voigt(), t.sym('rho')
    reader = struct('SOECInputFileReader', completed=True, error=None, jobname='job', stiffness=C, density=rho)
    v.set(v.I.import_module('quantas.soec.soec'), 'SOECInputFileReader', Builtin('reader', lambda I, a, k: reader))
    for name in PATTERN:
        v.I.overrides[SY + 'check_symmetry'] = lambda I, a, k: name

        def run():
            c = v.call(SC + 'SOECCalculator', DictV({'polar': True, 'silent': True, 'debug': False, 'logfile': None, 'pressure_unit': 'GPa', 'plotting': False, 'outfig': '', 'dpi': 80}))
            r = v.meth(c, 'read_input', 'file')
            v.fact('%s: no error' % name, r is None, str(r))
            s = v.attr(c, 'soec')
            if s.cls.name == 'SOECOrtho':
                v.fact('closed forms used for an orthorhombic matrix', name == 'orthorhombic', name)
            v.arr_eq('%s: stiffness' % name, v.attr(s, 'C'), (6, 6), lambda i, j: C.get(i, j))
            v.eq('%s: density' % name, v.attr(s, 'density'), rho)
        v.paths(name, run)

    def run2():
        m = voigt('m')
        r = v.call(SY + 'run_check', m, 'orthorhombic')
        if r is True:
            for i in range(6):
                for j in range(i + 1, 6):
                    if not on(i, j): v.true('recognised orthorhombic: |C%d%d| within 2e-3 GPa of zero' % (i + 1, j + 1), t.le(t.absv(m.get(i, j)), TOL * 2))
    v.paths('recognised', run2)
