"""Mechanical stability gate of the elastic analysis."""
from pyvc.vc import *
from .elastic import *

SC = 'quantas.soec.soec.SOECCalculator'
STEPS = ('single_vector_variation', 'dual_vector_variation', 'phase_velocity_variation', 'calculate_polar_properties')
REPORTS = ('report_initial_results', 'report_variation_single', 'report_variation_dual', 'report_variation_seismic')


def settings():
    return DictV({'polar': True, 'silent': True, 'debug': False, 'logfile': None, 'pressure_unit': 'GPa', 'plotting': False, 'outfig': '', 'dpi': 80})


def calculator(v, C, rho):
    c = v.call(SC, settings())
    def init(I, a, k):
        for nm, x in (('C', C), ('S', voigt('s')), ('density', rho), ('Cmat', sym_array('Cmat', (3,) * 4)), ('Smat', sym_array('Smat', (3,) * 4))): v.set(a[0], nm, x)
    v.I.overrides[SO + 'SOEC.__init__'] = init
    v.I.overrides[SO + 'SOEC.averages'] = lambda I, a, k: ListV([ListV([t.sym('avg%d%d' % (i, j)) for j in range(4)]) for i in range(3)])
    v.I.overrides[SO + 'SOEC.isotropic_velocities'] = lambda I, a, k: sym_array('awv', (3,))
    v.set(c, '_soec', v.call(SO + 'SOEC', C, rho))
    v.set(c, '_job', 'job')
    v.set(c, '_system', 'triclinic')
    return c


@unit('a matrix with an eigenvalue <= 0 is reported and not analysed; every other matrix is analysed')
def u_gate(v):
    log, said, seen = [], [], []
    n = {'single_vector_variation': 2, 'dual_vector_variation': 2, 'phase_velocity_variation': 3, 'calculate_polar_properties': 0}
    for s in STEPS:
        v.I.overrides[SC + '.' + s] = lambda I, a, k, s=s: (log.append(s), tuple([None] * n[s]) or None)[1]
    for s in REPORTS: v.I.overrides[SC + '.' + s] = lambda I, a, k, s=s: None
    v.I.overrides['quantas.core.calculator.BasicCalculator.echo'] = lambda I, a, k: said.append(a[1])

    def run():
        del log[:], said[:]
        v.I.check_defined = False
        C, rho = voigt(), t.sym('rho')
        v.assume(t.gt(rho, 0))
        o = calculator(v, C, rho)
        v.I.call(v.attr(o, 'run'), [], {})
        names = sorted({k for k in v.I.memo if isinstance(k, str) and k.split('!')[0] in ('eig', 'eigh')})
        if not v.fact('eigenvalues are computed', len(names) == 1, str(names)): return
        m = v.I.memo[names[0]]
        same = all(t.canon(m[i][j]) is t.canon(t.T(C.get(i, j))) for i in range(6) for j in range(6))
        if not seen or not same:
            for i in range(6):
                for j in range(6): v.eq('the stiffness matrix itself is diagonalised [%d,%d]' % (i, j), m[i][j], C.get(i, j))
        seen.append(1)
        w = [t.app(names[0] + 'w', i) for i in range(6)]
        stable = t.and_(*[t.gt(x, 0) for x in w])
        done = v.attr(o, 'completed') is True
        if done:
            v.true('analysed only if every eigenvalue is positive', stable)
            v.fact('every analysis step is run', all(s in log for s in STEPS), str(log))
        else:
            v.true('refused only if some eigenvalue is not positive', t.not_(stable))
            v.fact('no directional analysis is run', not log, str(log))
            v.fact('the instability is reported', any('unstable' in str(x) for x in said), str(said)[:200])
    v.paths('run', run)


@unit('the printed eigenvalues are those of the stiffness matrix in increasing order', timeout=300)
def u_printed(v):
    from . import printed
    printed.eigenvalues(v)
