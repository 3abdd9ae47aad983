"""scipy.constants, math, libm, click, os, time, h5py, yaml, files: models (trusted)."""
from fractions import Fraction
from . import terms as t
from . import prove as P
from .terms import Node
from .interp import (Unsupported, PyRaise, Obj, ModV, ClassV, InstV, FuncV, BoundV, PropV, StaticV, Builtin, Opaque,
                     Poison, ListV, SymSeq, Cat, DictV, SetV, ArrV, Cplx, cplx, MISSING, new_array, aint)
from . import lib as L
from . import arrays as A
from . import nplib as N

# CODATA 2018 values used only for numerical evaluation (replay, cross-check); proofs treat the
# constants as positive symbols.
CONST = {
    'cs.h': '6.62607015e-34', 'cs.k': '1.380649e-23', 'cs.N_A': '6.02214076e23', 'cs.c': '299792458', 'cs.u': '1.6605390666e-27',
    'cs.Bohr radius': '5.29177210903e-11', 'cs.electron volt': '1.602176634e-19', 'cs.Hartree energy': '4.3597447222071e-18',
    'cs.Rydberg constant times hc in J': '2.1798723611035e-18', 'cs.Angstrom star': '1.00001495e-10', 'cs.e': '1.602176634e-19',
}


def csym(name):
    n = 'cs.' + name
    t.POSITIVE.add(n)
    if n in CONST:
        t.CONST_VALUES[n] = float(CONST[n])
    return t.sym(n, 'R')


def define_constants():
    """relations between the constants"""
    for n in CONST: csym(n[3:])


define_constants()

ALIAS = {'Planck': 'h', 'h': 'h', 'Boltzmann': 'k', 'k': 'k', 'Avogadro': 'N_A', 'N_A': 'N_A', 'c': 'c', 'speed_of_light': 'c',
         'atomic_mass': 'u', 'm_u': 'u', 'u': 'u', 'elementary_charge': 'e', 'e': 'e', 'eV': 'electron volt', 'electron_volt': 'electron volt'}
EXACT = {'angstrom': '1e-10', 'calorie': '4.184', 'atm': '101325', 'zero_Celsius': '273.15', 'bar': '100000', 'kilo': '1000', 'mega': '1000000', 'giga': '1e9', 'tera': '1e12',
         'milli': '1e-3', 'micro': '1e-6', 'nano': '1e-9', 'pico': '1e-12'}
VALUES = {'Planck constant': 'h', 'Boltzmann constant': 'k', 'Avogadro constant': 'N_A', 'speed of light in vacuum': 'c',
          'atomic mass constant': 'u', 'elementary charge': 'e'}


def constant(name):
    if name in ALIAS: return csym(ALIAS[name])
    if name in EXACT: return t.const(Fraction(EXACT[name]), 'R')
    if name == 'hbar': return t.div(csym('h'), t.mul(2, t.PI))
    if name in ('R', 'gas_constant'): return t.mul(csym('N_A'), csym('k'))
    if name == 'pi': return t.PI
    return None


def value(I, key):
    if key in VALUES: return csym(VALUES[key])
    if 'cs.' + key in CONST: return csym(key)
    if key == 'molar gas constant': return constant('R')
    h = physical(key)
    if h is None: raise Unsupported('physical constant %r' % key)
    return csym(key)


_phys = {}


def physical(key):
    """numerical value of a constant from scipy in the project environment"""
    if not _phys:
        import subprocess, json
        from .interp import VENV
        p = subprocess.run([VENV, '-c', 'import json,scipy.constants as c;print(json.dumps({k:v[0] for k,v in c.physical_constants.items()}))'], capture_output=True, text=True)
        _phys.update(json.loads(p.stdout))
    if key not in _phys: return None
    CONST['cs.' + key] = repr(_phys[key])
    return _phys[key]


def mod(name, d):
    m = ModV(d)
    m.name, m.path = name, '<%s>' % name
    return m


def B(name, fn): return Builtin(name, fn)


def math_module(I):
    d = {}
    for n in ('exp', 'log', 'expm1', 'log10', 'sqrt', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'radians', 'degrees', 'log2', 'log1p'):
        d[n] = B('math.' + n, lambda I, a, k, f=N.UF[n]: f(I, scalar1(I, a[0])))
    for n, m in (('asin', 'arcsin'), ('acos', 'arccos'), ('atan', 'arctan')):
        d[n] = B('math.' + n, lambda I, a, k, f=N.UF[m]: f(I, scalar1(I, a[0])))
    d['atan2'] = B('atan2', lambda I, a, k: t.app('atan2', N.rl(a[0]), N.rl(a[1])))
    d['pow'] = B('pow', lambda I, a, k: L.scalar_binop(I, 'Pow', t.toreal(L.num(a[0])), pw(a[1])))
    d['fabs'] = B('fabs', lambda I, a, k: t.absv(N.rl(a[0])))
    d['floor'] = B('floor', lambda I, a, k: A.trunc(N.UF['floor'](I, a[0])) if L.num(a[0]).op == 'const' else t.app('floor', N.rl(a[0]), sort='I'))
    d['ceil'] = B('ceil', lambda I, a, k: A.trunc(N.UF['ceil'](I, a[0])) if L.num(a[0]).op == 'const' else t.app('ceil', N.rl(a[0]), sort='I'))
    d['pi'], d['e'] = t.PI, t.exp(t.const(1, 'R'))
    d['nan'], d['inf'] = t.sym('nan'), t.sym('inf')
    for n in ('isnan', 'isinf', 'isfinite'): d[n] = B(n, lambda I, a, k, f=N.UF[n]: f(I, L.num(a[0])))
    d['isclose'] = B('isclose', lambda I, a, k: A._unsup('math.isclose'))
    def fac(I, a, k):
        import math
        return math.factorial(aint(L.num(a[0])))
    d['factorial'] = B('factorial', fac)
    return mod('math', d)


def pw(x):
    """integral exponents as integers"""
    x = L.num(x)
    if x.op == 'const' and t.cval(x).denominator == 1: return t.const(t.cval(x), 'I')
    return x


def scalar1(I, v):
    if isinstance(v, ArrV):
        if v.ndim == 0: return v.get()
        I.throw('TypeError', 'only length-1 arrays can be converted to Python scalars')
    return L.num(v)


def libm_module(I):
    m = math_module(I)
    d = dict(m.d)
    # the project's fast_math.pyx declares `double sum(double)`, never called
    d['sum'] = B('sum', lambda I, a, k: A._unsup('libm sum'))
    d['fmax'] = B('fmax', lambda I, a, k: t.maxv(N.rl(a[0]), N.rl(a[1])))
    d['fmin'] = B('fmin', lambda I, a, k: t.minv(N.rl(a[0]), N.rl(a[1])))
    d['abs'] = d['fabs']
    d['cbrt'] = B('cbrt', lambda I, a, k: t.power(N.rl(a[0]), t.const(Fraction(1, 3))))
    d['M_PI'] = t.PI
    return mod('__vc_libm__', d)


# ------------------------------------------------------------------- files
class FileV(Obj):
    vc_type = 'file'
    def __init__(self, name, mode, lines):
        Obj.__init__(self, {'pos': 0, 'closed': False})
        self.name, self.mode, self.lines = name, mode, lines

    def vc_enter(self, I): return self
    def vc_exit(self, I): I.put(self, 'closed', True)
    def vc_truth(self, I): return True

    def rest(self, I):
        p = self.d['pos']
        if not isinstance(self.lines, tuple):
            if p != 0: raise Unsupported('re-reading a symbolic file')
            I.put(self, 'pos', 1)
            return self.lines
        I.put(self, 'pos', len(self.lines))
        return self.lines[p:]

    def vc_iter(self, I):
        return L.iterate(I, ListV(self.rest(I)))

    def vc_write(self, I, s):
        w = I.written.get(self.name)
        if w is None:
            w = ListV(())
            I.written[self.name] = w
        from .objects import list_method
        list_method(I, w, 'append').fn(I, [s], {})

    def vc_attr(self, I, name):
        if name == 'readlines': return B(name, lambda I, a, k: ListV(self.rest(I)))
        if name == 'readline':
            def f(I, a, k):
                p = self.d['pos']
                if not isinstance(self.lines, tuple): raise Unsupported('readline on a symbolic file')
                if p >= len(self.lines): return ''
                I.put(self, 'pos', p + 1)
                return self.lines[p]
            return B(name, f)
        if name == 'read':
            def f(I, a, k):
                r = self.rest(I)
                if not isinstance(r, tuple): raise Unsupported('read of a symbolic file')
                return L.sconcat(list(r))
            return B(name, f)
        if name == 'write':
            def f(I, a, k):
                if not L.isstr(a[0]): I.throw('TypeError', 'write() argument must be str')
                self.vc_write(I, a[0])
            return B(name, f)
        if name == 'writelines':
            def f(I, a, k):
                for x in L.unpack(I, a[0], None): self.vc_write(I, x)
            return B(name, f)
        if name == 'close': return B(name, lambda I, a, k: I.put(self, 'closed', True))
        if name == 'closed': return self.d['closed']
        if name == 'name': return self.name
        if name == 'seek':
            def f(I, a, k):
                if aint(L.num(a[0])) != 0: raise Unsupported('seek')
                I.put(self, 'pos', 0)
            return B(name, f)
        if name == 'flush': return B(name, lambda I, a, k: None)
        raise Unsupported('file.%s' % name)


def fkey(name):
    if isinstance(name, str): return name
    if isinstance(name, L.SStr): return repr(name)
    return name


def open_file(I, a, k):
    name = fkey(a[0])
    mode = a[1] if len(a) > 1 else k.get('mode', 'r')
    if 'w' in mode:
        I.written[name] = ListV(())
        return FileV(name, mode, ())
    if 'a' in mode: return FileV(name, mode, ())
    if name in I.files:
        lines = I.files[name]
        return FileV(name, mode, lines)
    if name in I.written and isinstance(I.written[name].items, tuple):
        return FileV(name, mode, tuple(split_lines(I, L.sconcat(list(I.written[name].items)))))
    I.throw('FileNotFoundError', 'No such file: %s' % (name,))


def split_lines(I, s):
    """lines (with newline) of a possibly symbolic text"""
    out, cur = [], []
    for p in L.sparts(s):
        if isinstance(p, str):
            segs = p.split('\n')
            for j, w in enumerate(segs):
                if j > 0:
                    cur.append('\n')
                    out.append(L.sconcat(cur))
                    cur = []
                if w: cur.append(w)
        else: cur.append(L.SStr((p,)))
    if cur: out.append(L.sconcat(cur))
    return out


# ------------------------------------------------------------------- click
class Progress(object):
    def __init__(self, it): self.it = it
    def vc_enter(self, I): return self
    def vc_exit(self, I): return None
    def vc_iter(self, I): return L.iterate(I, self.it)
    def vc_attr(self, I, name):
        if name == 'update': return B('update', lambda I, a, k: None)
        raise Unsupported('progressbar.%s' % name)


def click_module(I):
    d = {}
    def passthrough(I, a, k):
        return B('decorator', lambda I, a, k: a[0])
    for n in ('command', 'group', 'option', 'argument', 'version_option', 'pass_context', 'help_option'):
        d[n] = B(n, passthrough)
    d['progressbar'] = B('progressbar', lambda I, a, k: Progress(a[0] if a else k.get('iterable', k.get('length') and make_range(I, k['length']))))
    for n in ('echo', 'secho', 'clear', 'pause', 'echo_via_pager'): d[n] = B(n, lambda I, a, k: None)
    d['style'] = B('style', lambda I, a, k: a[0])
    for n in ('confirm', 'prompt'):
        def f(I, a, k, n=n):
            h = I.contracts.get('click.' + n)
            if h is None: raise Unsupported('interactive input')
            return h(I, a, k)
        d[n] = B(n, f)
    class Choice(Opaque):
        __slots__ = ('choices',)
    def choice(I, a, k):
        o = Choice('click type')
        o.choices = a[0] if a else k.get('choices')
        return o
    d['Choice'] = B('Choice', choice)
    for n in ('Path', 'File', 'IntRange', 'FloatRange', 'Tuple'): d[n] = B(n, lambda I, a, k: Opaque('click type'))
    for n in ('STRING', 'INT', 'FLOAT', 'BOOL'): d[n] = Opaque('click.' + n)
    d['Group'] = I.builtins['object']
    d['Context'] = Opaque('click.Context')
    exc = I.builtins['Exception']
    from .objects import native_class
    for n in ('ClickException', 'UsageError', 'BadParameter', 'Abort'): d[n] = native_class(n, [exc], exc.native)
    d['get_terminal_size'] = B('get_terminal_size', lambda I, a, k: (80, 24))
    return mod('click', d)


def make_range(I, n):
    return I.call(I.builtins['range'], [n], {})


# -------------------------------------------------------------------- os
def os_module(I):
    import posixpath
    def conc(fn):
        def f(I, a, k):
            if any(not isinstance(x, str) for x in a): raise Unsupported('symbolic path')
            return fn(*a)
        return f
    pd = {}
    for n in ('basename', 'dirname', 'splitext', 'join', 'abspath', 'split', 'normpath'): pd[n] = B(n, conc(getattr(posixpath, n)))
    pd['isfile'] = B('isfile', lambda I, a, k: a[0] in I.files or a[0] in I.written)
    pd['exists'] = pd['isfile']
    pd['isdir'] = B('isdir', lambda I, a, k: False)
    path = mod('os.path', pd)
    d = {'path': path, 'linesep': '\n', 'sep': '/', 'environ': DictV({}), 'getcwd': B('getcwd', lambda I, a, k: '/cwd'),
         'remove': B('remove', lambda I, a, k: None)}
    I.modules['os.path'] = path
    return mod('os', d)


# ------------------------------------------------------------------- h5py
class H5Node(Obj):
    """h5py File/Group: ordered children + attrs"""
    vc_type = 'Group'
    def __init__(self, I=None):
        Obj.__init__(self, {})
        self.attrs = DictV({})
    def vc_enter(self, I): return self
    def vc_exit(self, I): return None
    def vc_truth(self, I): return True
    def vc_contains(self, I, x): return L.key(I, x) in self.d
    def vc_iter(self, I): return list(sorted(self.d))
    def vc_len(self, I): return len(self.d)
    def vc_getitem(self, I, k):
        kk = L.key(I, k)
        if kk not in self.d: I.throw('KeyError', kk)
        return self.d[kk]
    def vc_setitem(self, I, k, v): self.create(I, k, v, None)
    def create(self, I, name, data, dtype):
        kk = L.key(I, name)
        if kk in self.d: I.throw('ValueError', 'Unable to create dataset (name already exists)')
        if L.isstr(data): val = data
        else:
            val = A.as_array(I, data, dtype) if not isinstance(data, ArrV) or dtype else data
            val = A.copy_array(I, val)
        ds = H5Data(val)
        I.put(self, kk, ds)
        return ds
    def vc_attr(self, I, name):
        if name == 'attrs': return self.attrs
        if name == 'create_dataset':
            def f(I, a, k):
                dt = k.get('dtype', a[2] if len(a) > 2 else None)
                try:
                    dt = N.dtype_arg(I, dt)
                except Unsupported:
                    dt = None
                return self.create(I, a[0] if a else k['name'], k['data'] if 'data' in k else a[3] if len(a) > 3 else A._unsup('create_dataset without data'), dt)
            return B(name, f)
        if name in ('create_group', 'require_group'):
            def f(I, a, k):
                g = H5Node()
                I.put(self, L.key(I, a[0]), g)
                return g
            return B(name, f)
        if name == 'keys': return B(name, lambda I, a, k: ListV(sorted(self.d)))
        if name == 'items': return B(name, lambda I, a, k: ListV([(x, self.d[x]) for x in sorted(self.d)]))
        if name == 'values': return B(name, lambda I, a, k: ListV([self.d[x] for x in sorted(self.d)]))
        if name == 'close': return B(name, lambda I, a, k: None)
        if name == 'flush': return B(name, lambda I, a, k: None)
        raise Unsupported('h5py %s' % name)


class H5Data(Obj):
    vc_type = 'Dataset'
    def __init__(self, val):
        Obj.__init__(self, {})
        self.val = val
        self.attrs = DictV({})
    def vc_getitem(self, I, k):
        if isinstance(k, tuple) and not k or k is Ellipsis:
            return A.copy_array(I, self.val) if isinstance(self.val, ArrV) and self.val.ndim else (self.val.get() if isinstance(self.val, ArrV) else self.val)
        if isinstance(k, slice) and k == slice(None): return A.copy_array(I, self.val)
        r = A.getitem(I, self.val, k)
        return A.copy_array(I, r) if isinstance(r, ArrV) else r
    def vc_attr(self, I, name):
        if name == 'attrs': return self.attrs
        if name in ('shape', 'ndim', 'size'): return I.getattr(self.val, name)
        if name == 'value': return self.val
        raise Unsupported('h5py dataset.%s' % name)
    def vc_truth(self, I): return True


def yaml_error(I):
    from .objects import native_class
    c = native_class('YAMLError', [I.builtins['Exception']], I.builtins['Exception'].native)
    return c


def h5py_module(I):
    def File(I, a, k):
        name = fkey(a[0])
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        if mode.startswith('w'):
            I.h5[name] = H5Node()
        if name not in I.h5: I.throw('FileNotFoundError', 'Unable to open file')
        return I.h5[name]
    return mod('h5py', {'File': B('File', File), 'string_dtype': B('string_dtype', lambda I, a, k: 'str')})


# ------------------------------------------------------------------- misc
def contract_fn(I, full):
    def f(I, a, k):
        h = I.contracts.get(full)
        if h is None: raise Unsupported('call of unmodelled %s' % full)
        I.trusted.add(full + ' (contract)')
        return h(I, a, k)
    return B(full, f)


def deepcopy(I, v, memo=None):
    from .interp import Buf
    if isinstance(v, ArrV): return A.copy_array(I, v)
    if isinstance(v, ListV): return ListV(v.items) if not isinstance(v.items, tuple) else ListV([deepcopy(I, x) for x in v.items])
    if isinstance(v, DictV): return DictV({k: deepcopy(I, x) for k, x in v.d.items()})
    if isinstance(v, tuple): return tuple(deepcopy(I, x) for x in v)
    if isinstance(v, InstV):
        o = InstV({k: deepcopy(I, x) for k, x in v.d.items()})
        o.cls = v.cls
        return o
    return v


def it_product(I, a, k):
    import itertools
    rep = aint(L.num(k.get('repeat', 1)))
    ss = [L.unpack(I, x, None) for x in a] * rep
    return ListV([tuple(x) for x in itertools.product(*ss)])


def it_fn(name):
    def f(I, a, k):
        import itertools
        r = aint(L.num(a[1])) if len(a) > 1 else None
        return ListV([tuple(x) for x in getattr(itertools, name)(*([L.unpack(I, a[0], None)] + ([r] if r is not None else [])))])
    return f


def library_module(I, name):
    if name in I.modules and I.modules[name] is not None and isinstance(I.modules[name], ModV) and I.modules[name].path.startswith('<'):
        return I.modules[name]
    if name == 'numpy': return N.make_numpy(I)
    if name in ('numpy.linalg', 'numpy.polynomial', 'numpy.polynomial.polynomial'):
        I.import_module('numpy')
        return I.modules[name]
    if name == 'scipy':
        m = mod('scipy', {})
        return m
    if name == 'scipy.constants':
        d = {'value': B('value', lambda I, a, k: value(I, a[0]))}
        d['physical_constants'] = PhysDict()
        return mod(name, d)
    if name in ('scipy.optimize', 'scipy.integrate', 'scipy.odr', 'scipy.interpolate', 'scipy.stats'):
        return mod(name, {})
    if name == 'math': return math_module(I)
    if name == '__vc_libm__': return libm_module(I)
    if name == 'cython': return mod('cython', {n: B(n, lambda I, a, k: B('dec', lambda I, a, k: a[0])) for n in ('boundscheck', 'wraparound', 'cdivision', 'nonecheck')})
    if name == 'cython.parallel': return mod(name, {'prange': B('prange', lambda I, a, k: prange(I, a))})
    if name == 'click': return click_module(I)
    if name == 'os': return os_module(I)
    if name == 'os.path': return os_module(I).d['path']
    if name == 'sys':
        return mod('sys', {'exit': B('exit', lambda I, a, k: I.throw('SystemExit', *a)), 'argv': ListV([]), 'version_info': (3, 12, 0), 'platform': 'linux',
                           'stdout': FileV('<stdout>', 'w', ()), 'version': '3.12'})
    if name == 'time':
        clk = lambda I, a, k: t.fresh('clock')
        return mod('time', {n: B(n, clk) for n in ('time', 'thread_time', 'perf_counter', 'process_time', 'monotonic')})
    if name == 'copy': return mod('copy', {'deepcopy': B('deepcopy', lambda I, a, k: deepcopy(I, a[0])), 'copy': B('copy', lambda I, a, k: shallow(I, a[0]))})
    if name == 'itertools':
        return mod('itertools', {'product': B('product', it_product), 'combinations': B('combinations', it_fn('combinations')),
                                 'permutations': B('permutations', it_fn('permutations')), 'combinations_with_replacement': B('cwr', it_fn('combinations_with_replacement')),
                                 'chain': B('chain', lambda I, a, k: ListV([x for y in a for x in L.unpack(I, y, None)]))})
    if name == 'h5py': return h5py_module(I)
    if name == 'yaml':
        return mod('yaml', {n: contract_fn(I, 'yaml.' + n) for n in ('load', 'safe_load', 'dump', 'safe_dump')} | {'FullLoader': Opaque('yaml.FullLoader'), 'SafeLoader': Opaque('yaml.SafeLoader'), 'Loader': Opaque('yaml.Loader'),
                                 'YAMLError': yaml_error(I)})
    if name in ('xml.etree.ElementTree', 'xml.etree.cElementTree'): return mod(name, {n: contract_fn(I, 'ElementTree.' + n) for n in ('parse', 'fromstring')} | {'ParseError': I.builtins['SyntaxError']} if 'SyntaxError' in I.builtins else {n: contract_fn(I, 'ElementTree.' + n) for n in ('parse', 'fromstring')})
    if name == 'warnings': return mod('warnings', {n: B(n, lambda I, a, k: None) for n in ('warn', 'filterwarnings', 'simplefilter')})
    if name == 'collections':
        return mod('collections', {'OrderedDict': I.builtins['dict']})
    if name == 'functools':
        return mod('functools', {'partial': B('partial', lambda I, a, k: B('partial', lambda I, b, kk: I.call(a[0], a[1:] + b, {**k, **kk}))),
                                 'reduce': B('reduce', lambda I, a, k: reduce_(I, a))})
    if name == 'operator':
        ops = {'add': 'Add', 'mul': 'Mult', 'sub': 'Sub', 'truediv': 'Div'}
        d = {n: B(n, lambda I, a, k, o=o: L.binop(I, o, a[0], a[1])) for n, o in ops.items()}
        d['itemgetter'] = B('itemgetter', lambda I, a, k: B('ig', lambda I, b, kk: A.getitem(I, b[0], a[0])))
        return mod('operator', d)
    if name == '__future__': return mod(name, {})
    return None


def reduce_(I, a):
    s = L.unpack(I, a[1], None)
    r = a[2] if len(a) > 2 else s.pop(0)
    for x in s: r = I.call(a[0], [r, x], {})
    return r


def shallow(I, v):
    if isinstance(v, ArrV): return A.copy_array(I, v)
    if isinstance(v, ListV): return ListV(v.items)
    if isinstance(v, DictV): return DictV(dict(v.d))
    if isinstance(v, InstV):
        o = InstV(dict(v.d))
        o.cls = v.cls
        return o
    return v


def prange(I, a):
    from .objects import make_range as mr
    return mr(I, a, True)


class PhysDict(object):
    def vc_getitem(self, I, k): return (value(I, k), '', t.const(0, 'R'))


def library_attr(I, modname, name):
    if modname == 'scipy.constants':
        c = constant(name)
        if c is None: raise Unsupported('scipy.constants.%s' % name)
        return c
    if modname.startswith('scipy'):
        if modname == 'scipy':
            m = library_module(I, 'scipy.' + name)
            if m is not None: return I.import_module('scipy.' + name)
            return Opaque('scipy.' + name)
        return contract_fn(I, modname + '.' + name)
    if modname.startswith('numpy'):
        if modname == 'numpy' and name in ('int', 'float', 'bool', 'object', 'str', 'complex'):
            return None          # removed from numpy >= 1.24: AttributeError
        full = modname + '.' + name
        if full in I.contracts: return contract_fn(I, full)
        raise Unsupported('%s' % full)
    if modname in ('math', 'os', 'sys', 'time', 'click', 'itertools', 'h5py', 'yaml', 'os.path', 'collections', 'functools', 'cython'):
        raise Unsupported('%s.%s' % (modname, name))
    return None
