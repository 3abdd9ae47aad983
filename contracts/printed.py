"""What the elastic calculator prints: every number under its own heading, over the contracts of the moduli and of the optimiser."""
from pyvc.vc import *
from pyvc import lib as L
from pyvc.arrays import new_array
from pyvc.interp import Unsupported
from .elastic import *

SO, SC = 'quantas.soec.utils.soec_obj.', 'quantas.soec.soec.'
METHODS = {'E': 'young_modulus', 'LC': 'linear_compressibility', 'G': 'shear_modulus', 'Nu': 'poisson_ratio',
           'V_p': 'longitudinal_wave', 'V_s1': 'shear_wave_1', 'V_s2': 'shear_wave_2'}
# the printed names of a quantity, the names of its minimum and maximum
NAMES = {"Young's modulus": 'E', 'Linear compressibility': 'LC', 'Shear modulus': 'G', "Poisson's ratio": 'Nu', 'V_s1': 'V_s1', 'V_s2': 'V_s2', 'V_p': 'V_p'}
ENDS = {'E_min': ('E', 0), 'E_max': ('E', 1), 'beta_min': ('LC', 0), 'beta_max': ('LC', 1), 'G_min': ('G', 0), 'G_max': ('G', 1), 'nu_min': ('Nu', 0), 'nu_max': ('Nu', 1)}


def lines(said):
    """the printed lines, each as the list of its literal and formatted pieces"""
    out = [[]]
    for s in said:
        for p in ([s] if isinstance(s, str) else L.sparts(s)):
            if isinstance(p, str):
                for k, x in enumerate(p.split('\n')):
                    if k: out.append([])
                    if x: out[-1].append(x)
            else: out[-1].append(p)
        out.append([])
    return out


def text(line): return ' '.join(p for p in line if isinstance(p, str))
def vals(line): return [p.value for p in line if isinstance(p, L.Fmt)]


def in_order(s, names):
    return [n for _, n in sorted((s.index(n), n) for n in names if n in s)]


def session(v, found, said):
    """callee contracts: the moduli are functions of the angles, the optimiser returns a point and the value there"""
    last = []
    def modulus(q):
        def f(I, a, k):
            last[:] = [q]
            return t.app('f_' + q, *[scal(x) for x in vec(a[1])])
        return f
    for q, m in METHODS.items(): v.I.overrides[SO + 'SOEC.' + m] = modulus(q)
    def brute(I, a, k):
        rg = a[1] if len(a) > 1 else k['ranges']
        x = [t.fresh('opt') for _ in vec(rg)]
        fun = scal(I.call(a[0] if a else k['func'], [new_array((len(x),), lambda i: A.pick(i, x))], {}))
        q = last[0]
        here = t.app('f_' + q, *x)
        if t.canon(fun) is t.canon(here):
            v.assume(t.gt(here, 0))
            found.setdefault((q, 0), []).append(x)
        elif t.canon(fun) is t.canon(-here): found.setdefault((q, 1), []).append(x)
        else: raise Unsupported('searched function')
        return (new_array((len(x),), lambda i: A.pick(i, x)), fun, None, None)
    v.I.contracts['scipy.optimize.brute'] = brute
    v.assumptions.add('scipy.optimize.brute: returns a point x with fun = f(x), the best found')
    v.I.overrides['quantas.core.calculator.BasicCalculator.echo'] = lambda I, a, k: said.append(a[1])
    # the eigenvalues of a stable crystal, in increasing order
    ev = [t.sym('lambda%d' % i, pos=True) for i in range(6)]
    plain = v.I.builtins['sorted']
    def order(I, a, k):
        x = a[0]
        if not k and getattr(x, 'shape', None) is not None and len(x.shape) == 1: return ListV(list(ev))
        return plain.fn(I, a, k)
    v.I.builtins['sorted'] = Builtin('sorted', order)


def analysis(v):
    """the lines printed by a complete analysis of a stable crystal, and the extrema found"""
    found, said = {}, []
    session(v, found, said)
    v.I.check_defined = False
    C, rho = voigt(), t.sym('rho', pos=True)
    c = v.call(SC + 'SOECCalculator', DictV({'polar': False, 'silent': True, 'debug': False, 'logfile': None, 'pressure_unit': 'GPa', 'plotting': False, 'outfig': '', 'dpi': 80}))
    def init(I, a, k):
        for nm, x in (('C', C), ('S', voigt('s')), ('density', rho), ('Cmat', sym_array('Cmat', (3,) * 4)), ('Smat', sym_array('Smat', (3,) * 4))): v.set(a[0], nm, x)
    v.I.overrides[SO + 'SOEC.__init__'] = init
    v.I.overrides[SO + 'SOEC.averages'] = lambda I, a, k: ListV([ListV([t.app('avg', i, j) for j in range(4)]) for i in range(3)])
    v.I.overrides[SO + 'SOEC.isotropic_velocities'] = lambda I, a, k: sym_array('awv', (3,))
    v.set(c, '_soec', v.call(SO + 'SOEC', C, rho))
    v.set(c, '_job', 'job')
    v.set(c, '_system', 'triclinic')
    v.I.call(v.attr(c, 'run'), [], {})
    return v.attr(c, 'completed') is True, lines(said), found


def extrema(v, wanted):
    def run():
        done, out, found = analysis(v)
        if not done: return
        F = lambda q, e: t.app('f_' + q, *found[q, e][0])
        seen, head, cols, axis, row = set(), [], [], 0, 0
        for line in out:
            s, x = text(line), vals(line)
            w = s.strip()
            names = in_order(s, NAMES)
            if names and not x: head, cols, axis = [NAMES[n] for n in names], [], 0
            ends = in_order(s, ENDS)
            if ends and not x: cols = [ENDS[n] for n in ends]
            ws = s.replace('|', ' ').split()
            if head and not x and ws and set(ws) <= {'min', 'max'}:
                cols = [(head[i // 2], {'min': 0, 'max': 1}[m]) for i, m in enumerate(ws) if i // 2 < len(head)]
            if not cols or head[0] not in wanted: continue
            if w.startswith('Values'):
                if len(x) != len(cols): raise Unsupported('printed values')
                for a, (q, e) in zip(x, cols):
                    v.eq('%s: printed %s' % (q, ('minimum', 'maximum')[e]), a, F(q, e))
                    seen.add(('value', q, e))
            elif w.startswith('Anisotropy'):
                if len(x) != len(head): raise Unsupported('printed anisotropies')
                for a, q in zip(x, head):
                    v.eq('%s: printed anisotropy' % q, a, F(q, 1) / F(q, 0))
                    seen.add(('anisotropy', q))
                axis = row = 0
            elif x and len(x) == len(cols):
                for a, (q, e) in zip(x, cols):
                    p = found[q, e][0]
                    v.eq('%s: printed axis %d of the %s [%d]' % (q, axis + 1, ('minimum', 'maximum')[e], row), a, (n_dir(*p[:2]) if axis == 0 else b_dir(*p))[row])
                    seen.add(('axis', q, e, axis, row))
                row += 1
                if row == 3: axis, row = axis + 1, 0
        want = set()
        for q in wanted:
            want |= {('anisotropy', q)} | {('value', q, e) for e in (0, 1)}
            want |= {('axis', q, e, a, i) for e in (0, 1) for a in range(2 if q in ('G', 'Nu') else 1) for i in range(3)}
        if not want <= seen: raise Unsupported('printed lines not recognised: %s' % sorted(map(str, want - seen))[:3])
    v.paths('printed', run)


def averages(v):
    def run():
        done, out, _ = analysis(v)
        if not done: return
        quantity = {'Bulk': 0, "Young's": 1, 'Shear': 2, "Poisson's": 3}
        cols, seen = [], set()
        for line in out:
            s, x = text(line), vals(line)
            if all(n in s for n in quantity) and not x: cols = [quantity[n] for n in in_order(s, quantity)]
            for i, n in enumerate(('Voigt', 'Reuss', 'Hill')):
                if s.strip().startswith(n) and cols:
                    if len(x) != 4: raise Unsupported('printed averages')
                    for a, j in zip(x, cols): v.eq('%s: printed value %d' % (n, j), a, t.app('avg', i, j))
                    seen.add(n)
            for n, j in (('(Vs)', 0), ('(Vp)', 2)):
                if n in s and len(x) == 1:
                    v.eq('%s: printed velocity' % n, x[0], t.app('awv', j))
                    seen.add(n)
        if len(seen) != 5: raise Unsupported('printed lines not recognised')
    v.paths('printed', run)


def matrices(v):
    """the stiffness (GPa), the compliance (TPa^-1) and the density of the crystal, as printed when a file is read"""
    def run():
        said = []
        v.I.overrides['quantas.core.calculator.BasicCalculator.echo'] = lambda I, a, k: said.append(a[1])
        C, S, rho = voigt(), voigt('s'), t.sym('rho', pos=True)
        c = v.call(SC + 'SOECCalculator', DictV({'polar': False, 'silent': True, 'debug': False, 'logfile': None, 'pressure_unit': 'GPa', 'plotting': False, 'outfig': '', 'dpi': 80}))
        def init(I, a, k):
            for nm, x in (('C', C), ('S', S), ('density', rho)): v.set(a[0], nm, x)
        v.I.overrides[SO + 'SOEC.__init__'] = init
        v.set(c, '_soec', v.call(SO + 'SOEC', C, rho))
        v.set(c, '_job', 'job')
        v.set(c, '_system', 'triclinic')
        v.I.call(v.attr(c, 'report_input_data'), [], {})
        now, row, seen = None, 0, set()
        for line in lines(said):
            s, x = text(line), vals(line)
            if s.strip().startswith('Density') and len(x) == 1:
                v.eq('printed density', x[0], rho)
                seen.add('density')
            elif 'Stiffness' in s or 'Compliance' in s: now, row = ('C' if 'Stiffness' in s else 'S'), 0
            elif now and len(x) == 6 and row < 6:
                for j in range(6): v.eq('printed %s[%d][%d]' % (now, row, j), x[j], C.get(row, j) if now == 'C' else 1000 * S.get(row, j))
                seen.add((now, row))
                row += 1
        if len(seen) != 13: raise Unsupported('printed lines not recognised')
    v.paths('printed matrices', run)


def eigenvalues(v):
    """the eigenvalues of the stiffness matrix, in increasing order and numbered from one"""
    def run():
        done, out, _ = analysis(v)
        if not done: return
        n = 0
        for line in out:
            s, x = text(line), vals(line)
            if s.strip().startswith('lambda_') and len(x) in (1, 2):
                if len(x) == 2: v.eq('number of eigenvalue %d' % (n + 1), x[0], n + 1)
                if n > 5: raise Unsupported('printed eigenvalues')
                v.eq('printed eigenvalue %d' % (n + 1), x[-1], t.sym('lambda%d' % n, pos=True))
                n += 1
        if n != 6: raise Unsupported('printed lines not recognised')
    v.paths('printed', run)
