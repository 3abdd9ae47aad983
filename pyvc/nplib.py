"""Models of the libraries the project calls: numpy, scipy.constants, math, click, os, time, h5py, files.
Each entry is a contract taken on trust (listed in the evidence as 'library contracts')."""
import itertools
from fractions import Fraction
from . import terms as t
from . import prove as P
from .terms import Node
from .interp import (Unsupported, PyRaise, Obj, ModV, ClassV, InstV, FuncV, BoundV, PropV, StaticV, Builtin, Opaque,
                     Poison, ListV, SymSeq, Cat, DictV, SetV, Buf, Dense, Lam, ArrV, View, Cplx, cplx, MISSING,
                     new_array, sym_array, full_view, aint, content_get, vite, dense_size)
from . import lib as L
from . import arrays as A
from .objects import type_of_name, make_range


# ------------------------------------------------------------- elementwise
def lift(f, dtype='float'):
    """elementwise function of one argument"""
    def g(I, args, kw):
        v = args[0]
        if isinstance(v, (ArrV, ListV, tuple)):
            a = A.as_array(I, v)
            return A.map_array(I, lambda x: f(I, x), a, dtype or a.dtype)
        if hasattr(v, 'vc_ufunc'): return v.vc_ufunc(I, f)
        if not L.isscalar(v): I.throw('TypeError', 'ufunc on %s' % type_of_name(v))
        return L.norm(f(I, v))
    return g


def rl(v):
    if isinstance(v, Cplx): raise Unsupported('complex argument')
    return t.toreal(L.num(v))


def np_abs(I, v):
    if isinstance(v, (ArrV, ListV, tuple)):
        a = A.as_array(I, v)
        return A.map_array(I, lambda x: np_abs(I, x), a, 'float' if a.dtype == 'complex' else a.dtype)
    if isinstance(v, Cplx): return t.sqrt(t.add(t.mul(v.re, v.re), t.mul(v.im, v.im)))
    if not L.isscalar(v): I.throw('TypeError', 'bad operand type for abs()')
    return L.norm(t.absv(L.num(v)))


def round_scalar(I, v, nd, npy=False):
    v = L.num(v)
    k = aint(L.num(nd)) if nd is not None else None
    if v.sort == 'I' and (k is None or k >= 0): return L.norm(v)
    if v.op == 'const' and (k is None or isinstance(k, int)):
        r = round(t.cval(v), k or 0) if k else round(t.cval(v))
        return int(r) if k is None and not npy else t.const(Fraction(r), 'R')
    if k is None or k == 0 and False:
        return t.app('rnd', v, sort='I') if not npy else t.toreal(t.app('rnd', v, sort='I'))
    if k == 0: return t.toreal(t.app('rnd', v, sort='I'))
    return t.app('roundn', v, t.T(k))


def round_value(I, v, nd):
    if isinstance(v, ArrV): return A.map_array(I, lambda x: round_scalar(I, x, nd, True), v)
    return round_scalar(I, v, nd)


def arccos(x):
    x = t.T(x)
    if x.op == 'const' and t.cval(x) == 1: return t.const(0, 'R')
    if x.op == 'const' and t.cval(x) == 0: return t.div(t.PI, 2)
    if x.op == 'const' and t.cval(x) == -1: return t.PI
    return t.app('acos', x)


UF = {
    'exp': lambda I, x: t.exp(rl(x)), 'log': lambda I, x: t.log(rl(x)), 'expm1': lambda I, x: t.expm1(rl(x)),
    'log1p': lambda I, x: t.log(t.add(1, rl(x))), 'log10': lambda I, x: t.div(t.log(rl(x)), t.log(t.const(10))),
    'log2': lambda I, x: t.div(t.log(rl(x)), t.log(t.const(2))),
    'sqrt': lambda I, x: t.sqrt(rl(x)), 'cbrt': lambda I, x: t.power(rl(x), t.const(Fraction(1, 3))),
    'sin': lambda I, x: t.sin(rl(x)), 'cos': lambda I, x: t.cos(rl(x)), 'tan': lambda I, x: t.tan(rl(x)),
    'arcsin': lambda I, x: t.app('asin', rl(x)), 'arccos': lambda I, x: arccos(rl(x)), 'arctan': lambda I, x: t.app('atan', rl(x)),
    'sinh': lambda I, x: t.div(t.sub(t.exp(rl(x)), t.exp(t.mul(-1, rl(x)))), 2),
    'cosh': lambda I, x: t.div(t.add(t.exp(rl(x)), t.exp(t.mul(-1, rl(x)))), 2),
    'tanh': lambda I, x: t.div(t.sub(t.exp(t.mul(2, rl(x))), 1), t.add(t.exp(t.mul(2, rl(x))), 1)),
    'radians': lambda I, x: t.div(t.mul(rl(x), t.PI), 180), 'degrees': lambda I, x: t.div(t.mul(rl(x), 180), t.PI),
    'square': lambda I, x: L.scalar_binop(I, 'Mult', x, x, True),
    'reciprocal': lambda I, x: t.div(1, rl(x)),
    'sign': lambda I, x: t.ite(t.gt(L.num(x), 0), t.const(1), t.ite(t.lt(L.num(x), 0), t.const(-1), t.const(0))),
    'floor': lambda I, x: t.toreal(t.app('floor', rl(x), sort='I')) if L.num(x).op != 'const' else t.const(t.cval(L.num(x)).__floor__(), 'R'),
    'ceil': lambda I, x: t.toreal(t.app('ceil', rl(x), sort='I')) if L.num(x).op != 'const' else t.const(t.cval(L.num(x)).__ceil__(), 'R'),
    'negative': lambda I, x: L.unop(I, 'USub', x), 'positive': lambda I, x: x,
    'real': lambda I, x: x.re if isinstance(x, Cplx) else x, 'imag': lambda I, x: x.im if isinstance(x, Cplx) else t.const(0, 'R'),
    'conj': lambda I, x: Cplx(x.re, t.mul(-1, x.im)) if isinstance(x, Cplx) else x,
    'logical_not': lambda I, x: L.tobool(t.not_(t.B(L.truthval(I, x)))),
}
UF['deg2rad'], UF['rad2deg'], UF['conjugate'] = UF['radians'], UF['degrees'], UF['conj']


def is_special(x, names):
    return isinstance(x, Node) and x.op == 'sym' and x.args[0] in names


UF['isnan'] = lambda I, x: is_special(x, ('nan',))
UF['isinf'] = lambda I, x: is_special(x, ('inf', '-inf'))
UF['isfinite'] = lambda I, x: not is_special(x, ('nan', 'inf', '-inf'))
UF_DTYPE = {'square': None, 'sign': None, 'negative': None, 'real': 'float', 'imag': 'float', 'conj': None, 'logical_not': 'bool', 'isnan': 'bool', 'isinf': 'bool', 'isfinite': 'bool', 'positive': None}

BIN = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div', 'true_divide': 'Div', 'power': 'Pow', 'float_power': 'Pow',
       'mod': 'Mod', 'remainder': 'Mod', 'floor_divide': 'FloorDiv'}
CMPN = {'equal': 'Eq', 'not_equal': 'NotEq', 'less': 'Lt', 'less_equal': 'LtE', 'greater': 'Gt', 'greater_equal': 'GtE'}


def bin2(I, f, a, b, dtype='float'):
    if L.isscalar(a) and L.isscalar(b): return L.norm(f(a, b)) if not isinstance(f(a, b), bool) else f(a, b)
    return A.broadcast(I, f, [A.as_array(I, a), A.as_array(I, b)], dtype)


# ---------------------------------------------------------------- dtype args
DT = {'float64': 'float', 'float': 'float', 'float_': 'float', 'double': 'float', 'float32': 'float', 'int64': 'int', 'int': 'int', 'int32': 'int', 'int_': 'int', 'intp': 'int',
      'bool': 'bool', 'bool_': 'bool', 'complex': 'complex', 'complex128': 'complex', 'object': 'object', 'str': 'str', 'object_': 'object', 'str_': 'str', 'f8': 'float', 'd': 'float'}


def dtype_arg(I, d):
    if d is None: return None
    n = d if isinstance(d, str) else getattr(d, 'name', None)
    if isinstance(d, Opaque) and d.name.startswith('dtype:'): n = d.name[6:]
    if isinstance(n, str) and n.startswith('numpy.'): n = n[6:]
    if n in DT: return DT[n]
    raise Unsupported('dtype %r' % (d,))


def shape_arg(I, s):
    if L.isnum(s): return (aint_i(I, s),)
    return tuple(aint_i(I, x) for x in L.unpack(I, s, None))


def aint_i(I, x):
    n = L.num(x)
    if n.sort == 'R':
        I.throw('TypeError', "'float' object cannot be interpreted as an integer")
    n = aint(n)
    if isinstance(n, int):
        if n < 0: I.throw('ValueError', 'negative dimensions are not allowed')
    elif P.decide(t.ge(n, 0), I.pc) is not True:
        if not I.decide(t.ge(n, 0)): I.throw('ValueError', 'negative dimensions are not allowed')
    return n


ZERO = {'float': lambda: t.const(0, 'R'), 'int': lambda: 0, 'bool': lambda: False, 'complex': lambda: Cplx(t.const(0, 'R'), t.const(0, 'R')), 'object': lambda: 0, 'str': lambda: ''}
ONE = {'float': lambda: t.const(1, 'R'), 'int': lambda: 1, 'bool': lambda: True, 'complex': lambda: Cplx(t.const(1, 'R'), t.const(0, 'R')), 'object': lambda: 1}


def filled(tab):
    def f(I, a, k):
        dt = dtype_arg(I, a[1] if len(a) > 1 else k.get('dtype')) or 'float'
        z = tab[dt]()
        return new_array(shape_arg(I, a[0] if a else k['shape']), lambda *ix: z, dt)
    return f


def np_empty(I, a, k):
    dt = dtype_arg(I, a[1] if len(a) > 1 else k.get('dtype')) or 'float'
    nm = t.fresh('uninit').args[0]
    if dt == 'object': return new_array(shape_arg(I, a[0]), lambda *ix: None, dt)
    if dt == 'complex': return new_array(shape_arg(I, a[0]), lambda *ix: Cplx(t.app(nm, *ix), t.app(nm + 'i', *ix)), dt)
    return new_array(shape_arg(I, a[0]), lambda *ix: t.app(nm, *ix, sort='I' if dt == 'int' else 'R'), dt)


def like(tab):
    def f(I, a, k):
        x = A.as_array(I, a[0])
        dt = dtype_arg(I, k.get('dtype')) or x.dtype
        z = tab[dt]()
        return new_array(x.shape, lambda *ix: z, dt)
    return f


def np_array(I, a, k):
    dt = dtype_arg(I, a[1] if len(a) > 1 else k.get('dtype'))
    v = a[0]
    x = A.as_array(I, v, dt)
    if x is v: x = A.copy_array(I, x)
    nd = k.get('ndmin')
    if nd: 
        while x.ndim < nd: x = A.index_array(I, x, (None, Ellipsis))
    return x


def np_asarray(I, a, k):
    return A.as_array(I, a[0], dtype_arg(I, a[1] if len(a) > 1 else k.get('dtype')))


def np_linspace(I, a, k):
    lo, hi = rl(a[0]), rl(a[1])
    n = a[2] if len(a) > 2 else k.get('num', 50)
    n = aint_i(I, n)
    ep = k.get('endpoint', True)
    if isinstance(n, int) and n == 1:
        return new_array((1,), lambda i: lo)
    d = t.sub(t.T(n), 1) if ep is True else t.T(n)
    r = new_array((n,), lambda i: t.add(lo, t.div(t.mul(t.sub(hi, lo), t.T(i)), d)))
    if k.get('retstep') is True: return (r, t.div(t.sub(hi, lo), d))
    return r


def np_arange(I, a, k):
    dt = dtype_arg(I, k.get('dtype'))
    a = [L.num(x) for x in a]
    if len(a) == 1: lo, hi, st = t.const(0), a[0], t.const(1)
    elif len(a) == 2: (lo, hi), st = a, t.const(1)
    else: lo, hi, st = a[:3]
    if all(x.sort == 'I' for x in (lo, hi, st)):
        r = make_range(I, [lo, hi, st])
        n = aint(r.n)
        dt = dt or 'int'
        return new_array((n,), lambda i: A.cast(I, r.elem(i), dt), dt)
    L.nonzero(I, st)
    q = t.div(t.sub(hi, lo), st)
    if q.op == 'const':
        n = max(0, t.cval(q).__ceil__())
    else:
        # len = ceil((stop-start)/step): non-negative integer
        n = t.app('ceil', t.canon(q), sort='I')
        if not I.decide(t.gt(q, 0)): n = 0
        else:
            I.assume(t.ge(n, 1))
            I.assume(t.ge(t.toreal(n), q))
            I.assume(t.lt(t.sub(t.toreal(n), 1), q))
    dt = dt or 'float'
    return new_array((n,), lambda i: A.cast(I, t.add(lo, t.mul(st, t.T(i))), dt), dt)


def np_delete(I, a, k):
    x = A.as_array(I, a[0])
    ax = a[2] if len(a) > 2 else k.get('axis')
    if ax is None:
        x = A.np_ravel(I, x)
        ax = 0
    ax = aint(L.num(ax)) % x.ndim
    n = x.shape[ax]
    obj = a[1]
    if not L.isnum(obj):
        ds = sorted({aint(L.num(z)) for z in L.unpack(I, obj, None)}, reverse=True)
        for d in ds: x = np_delete(I, [x, d], {'axis': ax})
        return x
    j = A.index_value(I, obj, n)
    g = A.getter(x)
    sh = list(x.shape)
    sh[ax] = aint(t.sub(n, 1))
    def fn(*ix):
        i = ix[ax]
        if isinstance(aint(i), int) and isinstance(j, int):
            i2 = aint(i) if aint(i) < j else aint(i) + 1
            return g(*(ix[:ax] + (i2,) + ix[ax + 1:]))
        return vite(t.lt(i, j), g(*ix), g(*(ix[:ax] + (t.add(i, 1),) + ix[ax + 1:]))) if not (isinstance(j, int) and j == 0) else g(*(ix[:ax] + (t.add(i, 1),) + ix[ax + 1:]))
    return new_array(tuple(sh), fn, x.dtype)


def concat(I, arrs, axis):
    arrs = [A.as_array(I, x) for x in arrs]
    nd = arrs[0].ndim
    axis %= nd
    for x in arrs:
        if x.ndim != nd: I.throw('ValueError', 'all the input array dimensions must match')
        for d in range(nd):
            if d != axis and not A.same_dim(I, x.shape[d], arrs[0].shape[d]):
                I.throw('ValueError', 'all the input array dimensions except for the concatenation axis must match exactly')
    dt = 'int'
    for x in arrs: dt = L.result_dtype('Add', x, t.const(0)) if False else (x.dtype if x.dtype != 'int' else dt)
    offs, tot = [], 0
    for x in arrs:
        offs.append(tot)
        tot = aint(t.add(t.T(tot), t.T(x.shape[axis])))
    sh = list(arrs[0].shape)
    sh[axis] = tot
    gs = [A.getter(x) for x in arrs]
    def fn(*ix):
        i = aint(ix[axis])
        if isinstance(i, int) and all(isinstance(o, int) for o in offs):
            for j in reversed(range(len(arrs))):
                if i >= offs[j]: return gs[j](*(ix[:axis] + (i - offs[j],) + ix[axis + 1:]))
        r = gs[-1](*(ix[:axis] + (aint(t.sub(t.T(i), t.T(offs[-1]))),) + ix[axis + 1:]))
        for j in reversed(range(len(arrs) - 1)):
            r = vite(t.lt(t.T(i), t.T(offs[j + 1])), gs[j](*(ix[:axis] + (aint(t.sub(t.T(i), t.T(offs[j]))),) + ix[axis + 1:])), r)
        return r
    return new_array(tuple(sh), fn, dt)


def np_column_stack(I, a, k):
    arrs = []
    for x in L.unpack(I, a[0], None):
        x = A.as_array(I, x)
        if x.ndim < 2: x = A.reshape(I, x, (-1, 1)) if x.ndim else new_array((1, 1), lambda i, j, x=x: x.get())
        arrs.append(x)
    return concat(I, arrs, 1)


def np_hstack(I, a, k):
    arrs = [A.as_array(I, x) for x in L.unpack(I, a[0], None)]
    arrs = [x if x.ndim else A.reshape(I, x, (1,)) for x in arrs]
    return concat(I, arrs, 0 if arrs[0].ndim == 1 else 1)


def np_vstack(I, a, k):
    arrs = [A.as_array(I, x) for x in L.unpack(I, a[0], None)]
    arrs = [x if x.ndim > 1 else A.index_array(I, x, (None, Ellipsis)) for x in arrs]
    return concat(I, arrs, 0)


def np_stack(I, a, k):
    ax = k.get('axis', a[1] if len(a) > 1 else 0)
    arrs = [A.as_array(I, x) for x in L.unpack(I, a[0], None)]
    ax %= arrs[0].ndim + 1
    arrs = [A.index_array(I, x, tuple([slice(None)] * ax + [None, Ellipsis])) for x in arrs]
    return concat(I, arrs, ax)


def np_concatenate(I, a, k):
    return concat(I, L.unpack(I, a[0], None), aint(L.num(k.get('axis', a[1] if len(a) > 1 else 0))))


def tri(upper):
    def f(I, a, k):
        x = A.as_array(I, a[0])
        kk = aint(L.num(a[1] if len(a) > 1 else k.get('k', 0)))
        g = A.getter(x)
        z = ZERO[x.dtype]()
        def fn(*ix):
            i, j = ix[-2], ix[-1]
            c = t.ge(t.sub(t.T(j), t.T(i)), kk) if upper else t.le(t.sub(t.T(j), t.T(i)), kk)
            return vite(c, g(*ix), z)
        return new_array(x.shape, fn, x.dtype)
    return f


def np_identity(I, a, k):
    n = aint_i(I, a[0])
    dt = dtype_arg(I, a[1] if len(a) > 1 else k.get('dtype')) or 'float'
    return new_array((n, n), lambda i, j: vite(t.eq(t.T(i), t.T(j)), ONE[dt](), ZERO[dt]()), dt)


def np_diag(I, a, k):
    x = A.as_array(I, a[0])
    g = A.getter(x)
    if x.ndim == 2:
        n = x.shape[0]
        return new_array((n,), lambda i: g(i, i), x.dtype)
    n = x.shape[0]
    return new_array((n, n), lambda i, j: vite(t.eq(t.T(i), t.T(j)), g(i), ZERO[x.dtype]()), x.dtype)


def np_trace(I, a, k):
    x = A.as_array(I, a[0])
    g = A.getter(x)
    return L.norm(A.asum(I, x.shape[0], lambda i: g(i, i)))


def np_outer(I, a, k):
    x, y = [A.np_ravel(I, A.as_array(I, v)) for v in a[:2]]
    gx, gy = A.getter(x), A.getter(y)
    return new_array((x.shape[0], y.shape[0]), lambda i, j: L.scalar_binop(I, 'Mult', gx(i), gy(j)), L.result_dtype('Mult', x, y))


def np_cross(I, a, k):
    x, y = [A.as_array(I, v) for v in a[:2]]
    if x.ndim != 1 or y.ndim != 1 or aint(x.shape[0]) != 3 or aint(y.shape[0]) != 3: raise Unsupported('cross')
    gx, gy = A.getter(x), A.getter(y)
    m = lambda p, q: L.scalar_binop(I, 'Mult', p, q)
    s = lambda p, q: L.scalar_binop(I, 'Sub', p, q)
    v = [s(m(gx(1), gy(2)), m(gx(2), gy(1))), s(m(gx(2), gy(0)), m(gx(0), gy(2))), s(m(gx(0), gy(1)), m(gx(1), gy(0)))]
    return new_array((3,), lambda i: A.pick(i, v))


def np_einsum(I, a, k):
    spec = a[0].replace(' ', '')
    arrs = [A.as_array(I, x) for x in a[1:]]
    if '->' in spec: ins, out = spec.split('->')
    else:
        ins = spec
        letters = ''.join(ins.split(','))
        out = ''.join(sorted(ch for ch in set(letters) if letters.count(ch) == 1))
    ins = ins.split(',')
    dims = {}
    for s, x in zip(ins, arrs):
        if len(s) != x.ndim: I.throw('ValueError', 'einstein sum subscripts string does not match')
        for ch, d in zip(s, x.shape):
            if ch in dims and not A.same_dim(I, dims[ch], d): I.throw('ValueError', 'einsum dimension mismatch')
            dims[ch] = d
    summed = [ch for ch in dims if ch not in out]
    gs = [A.getter(x) for x in arrs]
    def fn(*ix):
        env = dict(zip(out, ix))
        def rec(d):
            if d == len(summed):
                r = None
                for s, g in zip(ins, gs):
                    v = g(*[env[ch] for ch in s])
                    r = v if r is None else L.scalar_binop(I, 'Mult', r, v)
                return r
            ch = summed[d]
            def body(q):
                env[ch] = q
                return rec(d + 1)
            return A.asum(I, dims[ch], body)
        return rec(0)
    return A.wrap0(I, new_array(tuple(dims[ch] for ch in out), fn))


def np_tensordot(I, a, k):
    x, y = A.as_array(I, a[0]), A.as_array(I, a[1])
    ax = a[2] if len(a) > 2 else k.get('axes', 2)
    if L.isnum(ax):
        n = aint(L.num(ax))
        xa, ya = list(range(x.ndim - n, x.ndim)), list(range(n))
    else:
        p, q = L.unpack(I, ax, 2)
        xa = [aint(L.num(v)) % x.ndim for v in ([p] if L.isnum(p) else L.unpack(I, p, None))]
        ya = [aint(L.num(v)) % y.ndim for v in ([q] if L.isnum(q) else L.unpack(I, q, None))]
    ls = 'abcdefghijklm'
    xs = list(ls[:x.ndim])
    ys = list('nopqrstuvwxyz'[:y.ndim])
    for p, q in zip(xa, ya): ys[q] = xs[p]
    out = ''.join(c for j, c in enumerate(xs) if j not in xa) + ''.join(c for j, c in enumerate(ys) if j not in ya)
    return np_einsum(I, ['%s,%s->%s' % (''.join(xs), ''.join(ys), out), x, y], {})


def red(f, dtype=None):
    def g(I, a, k):
        ax = a[1] if len(a) > 1 else k.get('axis')
        v = a[0]
        if L.isscalar(v): v = new_array((1,), lambda i: v0, L.dtype_of(v)) if False else A.as_array(I, ListV([v]))
        ax = tuple(aint(L.num(x)) for x in ax) if isinstance(ax, tuple) else ax
        r = A.reduce_axis(I, v, ax, f(I), dtype)
        if k.get('keepdims') is True: raise Unsupported('keepdims')
        return r
    return g


def np_mean(I, a, k):
    ax = a[1] if len(a) > 1 else k.get('axis')
    x = A.as_array(I, a[0])
    s = A.reduce_axis(I, x, ax, A.SumF(I))
    if ax is None:
        n = t.mul(*[t.T(q) for q in x.shape]) if x.ndim else t.const(1)
    else: n = t.T(x.shape[aint(L.num(ax)) % x.ndim])
    return L.binop(I, 'Div', s, n)


class Fold(object):
    def __init__(self, I, kind): self.I, self.kind = I, kind
    def __call__(self, n, g):
        n = aint(n)
        if isinstance(n, int):
            if n == 0: self.I.throw('ValueError', 'zero-size array to reduction operation has no identity')
            vals = [g(j) for j in range(n)]
            if any(isinstance(v, Cplx) for v in vals): raise Unsupported('complex extremum')
            r = L.num(vals[0])
            for v in vals[1:]: r = (t.maxv if self.kind == 'max' else t.minv)(r, L.num(v))
            return r
        return extremum(self.I, self.kind, n, g)


def arg_sym(I, kind, n, g):
    """index of the first extremal element of a sequence of symbolic length"""
    i0 = t.sym('ix!0', 'I')
    body = t.canon(t.T(L.num(g(i0)))) if True else None
    key = ('ext', kind, t.T(n).id, body.id)
    w = I.memo.get(key)
    if w is None:
        w = t.fresh('arg' + kind, 'I')
        I.memo[key] = w
    I.assume(t.gt(n, 0))
    I.assume(t.ge(w, 0))
    I.assume(t.lt(w, n))
    ev = L.num(g(w))
    if kind == 'max': I.assume(t.forall(n, lambda j: t.le(L.num(g(j)), ev)))
    else: I.assume(t.forall(n, lambda j: t.ge(L.num(g(j)), ev)))
    I.assume(t.forall(w, lambda j: t.ne(L.num(g(j)), ev)))
    return w


def extremum(I, kind, n, g):
    if not I.decide(t.gt(n, 0)): I.throw('ValueError', 'empty sequence')
    return L.norm(L.num(g(arg_sym(I, kind, n, g))))


def np_argext(kind):
    def f(I, a, k):
        x = A.as_array(I, a[0])
        if a[1:] or k.get('axis') is not None: raise Unsupported('arg%s axis' % kind)
        g = A.getter(x)
        if x.ndim != 1:
            x = A.np_ravel(I, x)
            g = A.getter(x)
        n = aint(x.shape[0])
        if isinstance(n, int):
            if n == 0: I.throw('ValueError', 'attempt to get argmin of an empty sequence')
            best, bi = L.num(g(0)), t.const(0)
            for j in range(1, n):
                v = L.num(g(j))
                c = t.lt(v, best) if kind == 'min' else t.gt(v, best)
                best, bi = t.ite(c, v, best), t.ite(c, t.const(j), bi)
            return L.norm(bi)
        if not I.decide(t.gt(n, 0)): I.throw('ValueError', 'attempt to get argmin of an empty sequence')
        return arg_sym(I, kind, n, g)
    return f


def np_argsort(I, a, k):
    x = A.as_array(I, a[0])
    h = I.contracts.get('numpy.argsort')
    if h is not None: return h(I, a, k)
    from .objects import sort_values
    n = aint(x.shape[0])
    if not isinstance(n, int): raise Unsupported('argsort of symbolic length')
    g = A.getter(x)
    items = [(g(j), j) for j in range(n)]
    out = []
    for v, j in items:
        p = len(out)
        while p > 0 and I.truth(L.compare(I, 'Lt', v, out[p - 1][0])): p -= 1
        out.insert(p, (v, j))
    return A.as_array(I, ListV([j for _, j in out]))


def np_sort(I, a, k):
    from .objects import sort_values
    return A.as_array(I, ListV(sort_values(I, L.unpack(I, a[0], None), {})))


def np_diff(I, a, k):
    x = A.as_array(I, a[0])
    ax = aint(L.num(k.get('axis', -1))) % x.ndim
    if len(a) > 1 or 'n' in k:
        if aint(L.num(a[1] if len(a) > 1 else k['n'])) != 1: raise Unsupported('diff order')
    g = A.getter(x)
    sh = list(x.shape)
    n = aint(sh[ax])
    if isinstance(n, int): sh[ax] = max(n - 1, 0)
    else:
        if not I.decide(t.gt(n, 0)): sh[ax] = 0
        else: sh[ax] = aint(t.sub(n, 1))
    return new_array(tuple(sh), lambda *ix: L.scalar_binop(I, 'Sub', g(*(ix[:ax] + (aint(t.add(t.T(ix[ax]), 1)),) + ix[ax + 1:])), g(*ix)), x.dtype)


def np_gradient(I, a, k):
    """second-order accurate central differences, one-sided at the ends (numpy's definition, edge_order=1)"""
    f = A.as_array(I, a[0])
    ax = k.get('axis')
    if f.ndim > 1 and ax is None: raise Unsupported('gradient of n-d array')
    ax = aint(L.num(ax)) % f.ndim if ax is not None else 0
    n = f.shape[ax]
    g = A.getter(f)
    F = lambda ix, i: L.num(g(*(ix[:ax] + (i,) + ix[ax + 1:])))
    if len(a) > 1 and not L.isnum(a[1]):
        xa = A.as_array(I, a[1])
        gx = A.getter(xa)
        if not A.same_dim(I, xa.shape[0], n): I.throw('ValueError', 'distances must match the length of the corresponding dimension')
        X = lambda i: L.num(gx(i))
    else:
        h = rl(a[1]) if len(a) > 1 else t.const(1, 'R')
        X = lambda i: t.mul(h, t.T(i))
    if isinstance(aint(n), int):
        if aint(n) < 2: I.throw('ValueError', 'Shape of array too small to calculate a numerical gradient')
    elif not I.decide(t.ge(n, 2)): I.throw('ValueError', 'Shape of array too small to calculate a numerical gradient')
    def fn(*ix):
        i = ix[ax]
        p, q = aint(t.add(t.T(i), 1)), aint(t.sub(t.T(i), 1))
        def first(): return t.div(t.sub(F(ix, 1), F(ix, 0)), t.sub(X(1), X(0)))
        nm1, nm2 = aint(t.sub(t.T(n), 1)), aint(t.sub(t.T(n), 2))
        def last(): return t.div(t.sub(F(ix, nm1), F(ix, nm2)), t.sub(X(nm1), X(nm2)))
        def mid():
            h1, h2 = t.sub(X(i), X(q)), t.sub(X(p), X(i))
            return t.add(t.mul(t.div(t.mul(-1, h2), t.mul(h1, t.add(h1, h2))), F(ix, q)),
                         t.mul(t.div(t.sub(h2, h1), t.mul(h1, h2)), F(ix, i)),
                         t.mul(t.div(h1, t.mul(h2, t.add(h1, h2))), F(ix, p)))
        c0, c1 = t.eq(t.T(i), 0), t.eq(t.T(i), t.T(nm1))
        if c0 is t.TRUE: return first()
        if c1 is t.TRUE: return last()
        m = mid()
        return t.ite(c0, first(), t.ite(c1, last(), m))
    return new_array(f.shape, fn)


def np_repeat(I, a, k):
    x = A.as_array(I, a[0])
    r = aint(L.num(a[1] if len(a) > 1 else k['repeats']))
    ax = a[2] if len(a) > 2 else k.get('axis')
    if ax is None:
        x = A.np_ravel(I, x)
        ax = 0
    ax = aint(L.num(ax)) % x.ndim
    g = A.getter(x)
    sh = list(x.shape)
    if aint(sh[ax]) == 1:
        sh[ax] = r
        return new_array(tuple(sh), lambda *ix: g(*(ix[:ax] + (0,) + ix[ax + 1:])), x.dtype)
    sh[ax] = aint(t.mul(t.T(sh[ax]), t.T(r)))
    def fn(*ix):
        i = aint(ix[ax])
        j = i // r if isinstance(i, int) and isinstance(r, int) else t.idiv(t.T(i), t.T(r))
        return g(*(ix[:ax] + (j,) + ix[ax + 1:]))
    return new_array(tuple(sh), fn, x.dtype)


def np_tile(I, a, k):
    x = A.as_array(I, a[0])
    if x.ndim == 1 and L.isnum(a[1]):
        n = x.shape[0]
        r = a[1]
        g = A.getter(x)
        if isinstance(aint(n), int) and isinstance(aint(L.num(r)), int):
            return new_array((n * aint(L.num(r)),), lambda i: A.pick(aint(t.imod(t.T(i), t.T(n))) if not isinstance(aint(i), int) else aint(i) % n, [g(j) for j in range(n)]), x.dtype)
    if x.ndim == 1 and not L.isnum(a[1]):
        reps = L.unpack(I, a[1], None)
        if len(reps) == 2 and aint(L.num(reps[1])) == 1:
            g = A.getter(x)
            return new_array((aint(L.num(reps[0])), x.shape[0]), lambda i, j: g(j), x.dtype)
    raise Unsupported('tile')


def np_broadcast_to(I, a, k):
    x, sh = A.as_array(I, a[0]), shape_like(I, a[1] if len(a) > 1 else k['shape'])
    full = A.bshape(I, [x.shape, sh])
    one = lambda d: isinstance(aint(d), int) and aint(d) == 1
    if len(full) != len(sh) or any(one(d) and not one(e) for d, e in zip(sh, full)):
        I.throw('ValueError', 'operands could not be broadcast together')
    return new_array(sh, A.bget(x, len(sh)), x.dtype)


def np_meshgrid(I, a, k):
    x, y = [A.as_array(I, v) for v in a]
    gx, gy = A.getter(x), A.getter(y)
    if k.get('indexing', 'xy') == 'xy':
        sh = (y.shape[0], x.shape[0])
        return ListV([new_array(sh, lambda i, j: gx(j)), new_array(sh, lambda i, j: gy(i))])
    sh = (x.shape[0], y.shape[0])
    return ListV([new_array(sh, lambda i, j: gx(i)), new_array(sh, lambda i, j: gy(j))])


def np_unravel_index(I, a, k):
    x = A.np_ravel(I, A.as_array(I, a[0])) if not L.isnum(a[0]) else None
    raise Unsupported('unravel_index')


def np_where(I, a, k):
    if len(a) == 1:
        pos = A.mask_indices(I, as_bool(I, A.as_array(I, a[0])))
        nd = A.as_array(I, a[0]).ndim
        return tuple(A.as_array(I, ListV([p[d] for p in pos])) if pos else new_array((0,), lambda i: 0, 'int') for d in range(nd))
    arrs = [A.as_array(I, x) for x in a]
    return A.broadcast(I, lambda c, x, y: vite(t.B(L.truthval(I, c)), x, y), arrs, L.result_dtype('Add', arrs[1], arrs[2]))


def as_bool(I, x):
    return x if x.dtype == 'bool' else A.map_array(I, lambda v: L.truthval(I, v), x, 'bool')


def np_isclose(I, a, k):
    rt = k.get('rtol', a[2] if len(a) > 2 else t.lit(1e-5))
    at = k.get('atol', a[3] if len(a) > 3 else t.lit(1e-8))
    f = lambda x, y: L.tobool(t.le(t.absv(t.sub(rl(x), rl(y))), t.add(rl(at), t.mul(rl(rt), t.absv(rl(y))))))
    return bin2(I, f, a[0], a[1], 'bool')


def np_allclose(I, a, k):
    r = np_isclose(I, a, k)
    return I.call(I.builtins['all'], [A.np_ravel(I, r) if isinstance(r, ArrV) else ListV([r])], {})


def quant(kind):
    def f(I, a, k):
        x = a[0]
        if L.isscalar(x): return L.truthval(I, x)
        x = A.as_array(I, x)
        ax = a[1] if len(a) > 1 else k.get('axis')
        g = A.getter(x)
        if ax is not None:
            ax = aint(L.num(ax)) % x.ndim
            sh = x.shape[:ax] + x.shape[ax + 1:]
            def fn(*ix):
                return q1(I, kind, x.shape[ax], lambda j: g(*(ix[:ax] + (j,) + ix[ax:])))
            return A.wrap0(I, new_array(sh, fn, 'bool'))
        def rec(d, ix):
            if d == x.ndim: return L.truthval(I, g(*ix))
            return q1(I, kind, x.shape[d], lambda j: rec(d + 1, ix + (j,)))
        return rec(0, ())
    return f


def q1(I, kind, n, f):
    n = aint(n)
    if isinstance(n, int):
        cs = [t.B(L.truthval(I, f(j))) for j in range(n)]
        return L.tobool(t.and_(*cs) if kind == 'all' else t.or_(*cs))
    if kind == 'all': return L.tobool(t.forall(n, lambda j: t.B(L.truthval(I, f(j)))))
    return L.tobool(t.not_(t.forall(n, lambda j: t.not_(t.B(L.truthval(I, f(j)))))))


def np_cumsum(I, a, k):
    x = A.np_ravel(I, A.as_array(I, a[0]))
    g = A.getter(x)
    n = aint(x.shape[0])
    if isinstance(n, int):
        out, s = [], t.const(0)
        for j in range(n):
            s = t.add(s, L.num(g(j)))
            out.append(s)
        return new_array((n,), lambda i: A.pick(i, out), x.dtype)
    return new_array((n,), lambda i: t.ssum(t.add(t.T(i), 1), lambda j: L.num(g(j))), x.dtype)


def np_squeeze(I, a, k):
    x = A.as_array(I, a[0])
    keys = tuple(0 if aint(s) == 1 else slice(None) for s in x.shape)
    return A.index_array(I, x, keys)


# ------------------------------------------------------------------- linalg
def det_entries(m):
    n = len(m)
    if n == 1: return m[0][0]
    r = t.const(0)
    for j in range(n):
        sub = [row[:j] + row[j + 1:] for row in m[1:]]
        term = t.mul(m[0][j], det_entries(sub))
        r = t.add(r, term) if j % 2 == 0 else t.sub(r, term)
    return r


def entries(I, x):
    x = A.as_array(I, x)
    n, m = [aint(s) for s in x.shape]
    if not (isinstance(n, int) and isinstance(m, int)): raise Unsupported('linear algebra on a symbolic-size matrix')
    g = A.getter(x)
    return [[t.toreal(L.num(g(i, j))) for j in range(m)] for i in range(n)]


def np_det(I, a, k):
    x = A.as_array(I, a[0])
    if x.ndim != 2 or not A.same_dim(I, x.shape[0], x.shape[1]): I.throw('LinAlgError', 'Last 2 dimensions of the array must be square')
    m = entries(I, x)
    if len(m) <= 4: return det_entries(m)
    key = ('det', tuple(t.canon(e).id for r in m for e in r))
    return I.memo.setdefault(key, t.fresh('det'))


def mkey(m): return tuple(t.canon(e).id for r in m for e in r)


def np_inv(I, a, k):
    """contract: for a non-singular A, the X with A X = I (A given by its entries)."""
    m = entries(I, a[0])
    n = len(m)
    if n <= 3:
        d = det_entries(m)
        I.oblige('definedness: inverted matrix is non-singular', t.ne(d, 0)) if I.check_defined else None
        def cof(i, j):
            sub = [row[:j] + row[j + 1:] for q, row in enumerate(m) if q != i]
            v = det_entries(sub) if sub else t.const(1)
            return v if (i + j) % 2 == 0 else t.mul(-1, v)
        inv = [[t.div(cof(j, i), d) for j in range(n)] for i in range(n)]
        return new_array((n, n), lambda i, j: inv[i][j])
    key = ('inv', mkey(m))
    if key not in I.memo:
        I.memo[key] = t.fresh('inv').args[0]
        I.memo[I.memo[key]] = m
    nm = I.memo[key]
    I.trusted.add('numpy.linalg.inv: returns the matrix X with A X = 1')
    if symmetric(m):
        return new_array((n, n), lambda i, j: t.app(nm, min(i, j), max(i, j)))
    return new_array((n, n), lambda i, j: t.app(nm, i, j))


def symmetric(m):
    n = len(m)
    return all(t.canon(m[i][j]) is t.canon(m[j][i]) for i in range(n) for j in range(i))


def np_norm(I, a, k):
    x = A.as_array(I, a[0])
    if len(a) > 1 or k: raise Unsupported('norm arguments')
    g = A.getter(x)
    sq = new_array(x.shape, lambda *ix: L.scalar_binop(I, 'Mult', g(*ix), g(*ix)) if not isinstance(g(*ix), Cplx) else A._unsup('norm of complex'))
    return t.sqrt(L.num(A.reduce_axis(I, sq, None, A.SumF(I))))


def np_eigh(I, a, k):
    """contract: ascending eigenvalues w_i and orthonormal eigenvectors v[:, i] of the symmetric matrix (lower triangle read)."""
    m = entries(I, a[0])
    n = len(m)
    for i in range(n):
        for j in range(i): m[j][i] = m[i][j]
    key = ('eigh', mkey(m))
    if key not in I.memo:
        I.memo[key] = t.fresh('eigh').args[0]
        I.memo[I.memo[key]] = m
    nm = I.memo[key]
    I.trusted.add('numpy.linalg.eigh: ascending eigenvalues and orthonormal eigenvectors of the symmetric argument')
    w = new_array((n,), lambda i: t.app(nm + 'w', i))
    v = new_array((n, n), lambda i, j: t.app(nm + 'v', i, j))
    for i in range(n - 1): I.assume(t.le(t.app(nm + 'w', i), t.app(nm + 'w', i + 1)))
    return (w, v)


def np_eig(I, a, k):
    m = entries(I, a[0])
    n = len(m)
    key = ('eig', mkey(m))
    if key not in I.memo:
        I.memo[key] = t.fresh('eig').args[0]
        I.memo[I.memo[key]] = m
    nm = I.memo[key]
    I.trusted.add('numpy.linalg.eig: eigenvalues (real for a symmetric argument) and eigenvectors')
    if not symmetric(m): raise Unsupported('eig of a non-symmetric matrix')
    return (new_array((n,), lambda i: t.app(nm + 'w', i)), new_array((n, n), lambda i, j: t.app(nm + 'v', i, j)))


def np_pinv(I, a, k):
    m = entries(I, a[0])
    # library precondition: with a relative cut-off above rounding, well-separated small singular values would be dropped
    cut = a[1] if len(a) > 1 else k.get('rcond', k.get('rtol'))
    if cut is not None:
        I.oblige('pinv: relative cut-off at most 1e-8', t.le(t.T(L.num(cut)), t.lit(1e-8)))
    key = ('pinv', mkey(m))
    if key not in I.memo:
        I.memo[key] = t.fresh('pinv').args[0]
        I.memo[I.memo[key]] = m
    nm = I.memo[key]
    I.trusted.add('numpy.linalg.pinv: Moore-Penrose inverse')
    sy = symmetric(m)
    return new_array((len(m[0]), len(m)), lambda i, j: t.app(nm, min(i, j), max(i, j)) if sy and isinstance(aint(i), int) and isinstance(aint(j), int) else t.app(nm, i, j))


# --------------------------------------------------------------- polynomials
def akey(I, x):
    """identity of an array's content"""
    x = A.as_array(I, x)
    g = A.getter(x)
    n = dense_size(x.shape)
    if n is not None and n <= 400:
        return (tuple(x.shape),) + tuple(t.canon(L.num(g(*ix))).id for ix in itertools.product(*[range(s) for s in x.shape]))
    ks = [t.sym('ix!%d' % d, 'I') for d in range(x.ndim)]
    return tuple(s if isinstance(s, int) else s.id for s in x.shape) + (t.canon(L.num(g(*ks))).id,)


def np_scalar_type(name, conv, dtype):
    """numpy.float64(x), numpy.int64(x): arrays stay arrays, except a float array with one element"""
    def f(I, a, k):
        if a and (isinstance(a[0], (ListV, tuple)) or isinstance(a[0], ArrV) and a[0].ndim):
            x = A.as_array(I, a[0])
            n = t.const(1, 'I')
            for s in x.shape: n = t.mul(n, t.T(s))
            if name == 'float' and isinstance(a[0], ArrV) and I.decide(t.eq(n, 1)): return I.call(I.builtins[name], [x.get(*[0] * x.ndim)], k)
            parse = I.builtins[name]
            return x if x.dtype == dtype else A.map_array(I, lambda y: L.num(I.call(parse, [y], {})) if L.isstr(y) else conv(y), x, dtype)
        return I.call(I.builtins[name], a, k)
    return f


np_floating = np_scalar_type('float', lambda x: t.toreal(L.num(x)), 'float')
np_integer = np_scalar_type('int', lambda x: A.trunc(x), 'int')


def polyfit_lowfirst(I, a, k):
    """contract: coefficients (lowest degree first) of the least-squares polynomial, uninterpreted function of (x, y, deg)."""
    if len(a) > 3 or k: raise Unsupported('polyfit arguments')
    x, y = A.as_array(I, a[0]), A.as_array(I, a[1])
    deg = aint(L.num(a[2]))
    if x.ndim != 1: I.throw('TypeError', 'expected 1D vector for x')
    if y.ndim not in (1, 2): I.throw('TypeError', 'expected 1D or 2D array for y')
    if not A.same_dim(I, x.shape[0], y.shape[0]): I.throw('TypeError', 'expected x and y to have same length')
    I.trusted.add('numpy polyfit: least-squares coefficients, a function of (x, y, degree) applied column by column')
    n = aint(t.add(t.T(deg), 1))
    gy, gx = A.getter(y), A.getter(x)
    def key(q):
        """arguments standing for the fitted data: every element when their number is known, otherwise the data at a
        generic position (equal terms there = equal data everywhere).  The generic index of a fit is distinct from
        those of the fits occurring in its data."""
        fx = lambda i: t.canon(t.toreal(L.num(gx(i))))
        fy = lambda i: t.canon(t.toreal(L.num(gy(i) if q is None else gy(i, q))))
        if isinstance(x.shape[0], int) and x.shape[0] <= 40:
            return tuple(f(i) for f in (fx, fy) for i in range(x.shape[0]))
        probe = t.sym('ix!pf', 'I')
        h = 1 + max([0] + [int(nm.split('!pf')[1]) for z in (fx(probe), fy(probe)) for nm in sym_names(z) if nm.startswith('ix!pf') and nm != 'ix!pf'])
        k0 = t.sym('ix!pf%d' % h, 'I')
        return (t.T(x.shape[0]), fx(k0), fy(k0))
    name = 'polyfit%d' % x.shape[0] if isinstance(x.shape[0], int) and x.shape[0] <= 40 else 'polyfit'
    if y.ndim == 1:
        kk = key(None)
        return new_array((n,), lambda j: t.app(name, j, t.T(deg), *kk))
    return new_array((n, aint(y.shape[1])), lambda j, q: t.app(name, j, t.T(deg), *key(q)))


def sym_names(x):
    out, seen, st = set(), set(), [x]
    while st:
        z = st.pop()
        if z in seen: continue
        seen.add(z)
        if z.op == 'sym': out.add(z.args[0])
        if z.op == 'poly':
            for m, _ in z.args[0]:
                for a, _e in m: st.append(a)
        elif z.op == 'msum':
            st.extend(z.args[0]); st.append(z.args[1])
        else: st.extend(a for a in z.args if isinstance(a, Node))
    return out


def horner(I, x, c, n):
    """sum_j c(j) x^j"""
    n = aint(n)
    if isinstance(n, int):
        return t.add(*([t.const(0, 'R')] + [t.mul(L.num(c(j)), t.power(L.num(x), t.const(j))) for j in range(n)]))
    return t.ssum(n, lambda j: t.mul(L.num(c(j)), t.power(L.num(x), j)))


def poly_val(I, a, k):
    x, c = a[0], A.as_array(I, a[1])
    g = A.getter(c)
    if c.ndim != 1: raise Unsupported('polyval of 2-d coefficients')
    f = lambda v: horner(I, v, g, c.shape[0])
    if L.isscalar(x): return f(x)
    return A.map_array(I, f, A.as_array(I, x), 'float')


def poly_der(I, a, k):
    c = A.as_array(I, a[0])
    m = aint(L.num(a[1] if len(a) > 1 else k.get('m', 1)))
    for _ in range(m):
        g = A.getter(c)
        n = aint(c.shape[0])
        if isinstance(n, int):
            if n <= 1: c = new_array((1,), lambda j: t.const(0, 'R')); continue
            c = new_array((n - 1,), lambda j, g=g: t.mul(t.add(t.T(j), 1), L.num(g(aint(t.add(t.T(j), 1))))))
        else:
            if not I.decide(t.gt(n, 1)):
                c = new_array((1,), lambda j: t.const(0, 'R')); continue
            c = new_array((aint(t.sub(n, 1)),), lambda j, g=g: t.mul(t.add(t.T(j), 1), L.num(g(t.add(t.T(j), 1)))))
    return c


def rev(I, x):
    return A.index_array(I, A.as_array(I, x), (slice(None, None, -1),))


class PolyV(Obj):
    """numpy.polynomial.Polynomial with the default domain"""
    vc_type = 'Polynomial'
    def __init__(self, coef):
        Obj.__init__(self, {'coef': coef})
    @property
    def coef(self): return self.d['coef']
    def vc_attr(self, I, name):
        if name == 'coef': return self.coef
        if name == 'deriv':
            return Builtin('deriv', lambda I, a, k: PolyV(poly_der(I, [self.coef] + ([a[0]] if a else [k.get('m', 1)]), {})))
        if name == 'roots':
            return Builtin('roots', lambda I, a, k: poly_roots(I, self.coef))
        if name == 'degree': return Builtin('degree', lambda I, a, k: L.binop(I, 'Sub', L.norm(t.T(self.coef.shape[0])), 1))
        raise Unsupported('Polynomial.%s' % name)
    def vc_call(self, I, a, k): return poly_val(I, [a[0], self.coef], {})
    def vc_binop(self, I, op, b, r):
        if op in ('Add', 'Sub', 'Mult') and (L.isscalar(b) or isinstance(b, (PolyV, ArrV, ListV))):
            if L.isscalar(b):
                g = A.getter(self.coef)
                n = self.coef.shape[0]
                if op == 'Mult': return PolyV(A.map_array(I, lambda x: t.mul(L.num(x), L.num(b)), self.coef))
                s = 1 if op == 'Add' else -1
                if r and op == 'Sub':
                    return PolyV(new_array((n,), lambda j: vite(t.eq(t.T(j), 0), t.sub(L.num(b), L.num(g(j))), t.mul(-1, L.num(g(j))))))
                return PolyV(new_array((n,), lambda j: vite(t.eq(t.T(j), 0), t.add(L.num(g(j)), t.mul(s, L.num(b))), L.num(g(j)))))
            c2 = b.coef if isinstance(b, PolyV) else A.as_array(I, b)
            if op in ('Add', 'Sub') and A.same_dim(I, c2.shape[0], self.coef.shape[0]):
                x, y = (c2, self.coef) if r else (self.coef, c2)
                return PolyV(L.binop(I, op, x, y))
        raise Unsupported('Polynomial %s' % op)
    def vc_unop(self, I, op):
        if op == 'USub': return PolyV(L.unop(I, 'USub', self.coef))
        raise Unsupported(op)
    def vc_truth(self, I): return True


def poly_roots(I, coef):
    """contract: the n-1 complex roots of the polynomial (each satisfies p(r) = 0)"""
    key = ('roots', akey(I, coef))
    if key not in I.memo:
        nm = t.fresh('roots').args[0]
        I.memo[key] = nm
        I.memo[nm] = coef
    nm = I.memo[key]
    I.trusted.add('numpy polynomial roots: every root r satisfies p(r) = 0, all real roots are returned')
    n = aint(t.sub(t.T(coef.shape[0]), 1))
    return new_array((n,), lambda j: Cplx(t.app(nm + 're', j), t.app(nm + 'im', j)), 'complex')


# ------------------------------------------------------------------ module table
CONTRACT_SENSITIVE = set()


class MGrid(object):
    def vc_getitem(self, I, k):
        ks = k if isinstance(k, tuple) else (k,)
        axes = []
        for s in ks:
            st = s.step
            if isinstance(st, Cplx) and isinstance(aint(st.im), int):
                n = abs(aint(st.im))
                axes.append((n, lambda i, s=s, n=n: t.add(rl(s.start), t.div(t.mul(t.sub(rl(s.stop), rl(s.start)), t.T(i)), n - 1))))
            elif isinstance(st, Cplx):
                n = t.canon(st.im)
                n = t.app('trunc', n, sort='I') if n.sort == 'R' else n
                axes.append((n, lambda i, s=s, n=n: t.add(rl(s.start), t.div(t.mul(t.sub(rl(s.stop), rl(s.start)), t.T(i)), t.sub(n, 1)))))
            else:
                r = make_range(I, [s.start or 0, s.stop] + ([st] if st is not None else []))
                axes.append((aint(r.n), r.elem))
        sh = tuple(n for n, _ in axes)
        return A.as_array(I, ListV([new_array(sh, lambda *ix, d=d: axes[d][1](ix[d])) for d in range(len(axes))])) if len(axes) > 1 else new_array(sh, axes[0][1])


def make_numpy(I):
    m = ModV({})
    m.name, m.path = 'numpy', '<numpy>'
    d = m.d
    def reg(n, fn):
        full = 'numpy.' + n
        def call(I, a, k):
            h = I.contracts.get(full)
            if h is not None:
                I.trusted.add(full + ' (contract)')
                return h(I, a, k)
            return fn(I, a, k)
        d[n] = Builtin(n, call)
        return d[n]
    for n, f in UF.items(): reg(n, lift(f, UF_DTYPE.get(n, 'float')))
    reg('abs', lambda I, a, k: np_abs(I, a[0])); reg('absolute', lambda I, a, k: np_abs(I, a[0])); reg('fabs', lambda I, a, k: np_abs(I, a[0]))
    for n, op in BIN.items(): reg(n, lambda I, a, k, op=op: L.binop(I, op, ar(I, a[0]), ar(I, a[1])))
    for n, op in CMPN.items(): reg(n, lambda I, a, k, op=op: L.compare(I, op, ar(I, a[0]), ar(I, a[1])))
    reg('arctan2', lambda I, a, k: bin2(I, lambda y, x: t.app('atan2', rl(y), rl(x)), a[0], a[1]))
    reg('hypot', lambda I, a, k: bin2(I, lambda y, x: t.sqrt(t.add(t.mul(rl(y), rl(y)), t.mul(rl(x), rl(x)))), a[0], a[1]))
    reg('maximum', lambda I, a, k: bin2(I, lambda x, y: t.maxv(L.num(x), L.num(y)), a[0], a[1]))
    reg('minimum', lambda I, a, k: bin2(I, lambda x, y: t.minv(L.num(x), L.num(y)), a[0], a[1]))
    reg('logical_and', lambda I, a, k: bin2(I, lambda x, y: L.tobool(t.and_(t.B(L.truthval(I, x)), t.B(L.truthval(I, y)))), a[0], a[1], 'bool'))
    reg('logical_or', lambda I, a, k: bin2(I, lambda x, y: L.tobool(t.or_(t.B(L.truthval(I, x)), t.B(L.truthval(I, y)))), a[0], a[1], 'bool'))
    reg('clip', lambda I, a, k: A.map_array(I, lambda x: t.minv(t.maxv(L.num(x), rl(a[1])), rl(a[2])), A.as_array(I, a[0])))
    reg('zeros', filled(ZERO)); reg('ones', filled(ONE)); reg('empty', np_empty)
    reg('zeros_like', like(ZERO)); reg('ones_like', like(ONE)); reg('empty_like', like(ZERO))
    def full(I, a, k):
        dt = dtype_arg(I, a[2] if len(a) > 2 else k.get('dtype')) or L.dtype_of(a[1])
        return new_array(shape_arg(I, a[0]), lambda *ix: A.cast(I, a[1], dt), dt)
    reg('full', full)
    reg('full_like', lambda I, a, k: full(I, [ListV(list(A.as_array(I, a[0]).shape)), a[1]], {'dtype': A.as_array(I, a[0]).dtype}))
    reg('array', np_array)
    for n in ('asarray', 'asanyarray', 'ascontiguousarray'): reg(n, np_asarray)
    reg('copy', lambda I, a, k: A.copy_array(I, A.as_array(I, a[0])))
    reg('atleast_1d', lambda I, a, k: A.as_array(I, a[0]) if A.as_array(I, a[0]).ndim else A.reshape(I, A.as_array(I, a[0]), (1,)))
    reg('arange', np_arange); reg('linspace', np_linspace)
    reg('dot', lambda I, a, k: A.np_dot(I, a[0], a[1])); reg('matmul', lambda I, a, k: A.np_matmul(I, a[0], a[1]))
    reg('inner', lambda I, a, k: A.np_matmul(I, a[0], A.transpose(I, A.as_array(I, a[1]))))
    reg('vdot', lambda I, a, k: A.np_matmul(I, A.np_ravel(I, A.as_array(I, a[0])), A.np_ravel(I, A.as_array(I, a[1]))))
    reg('outer', np_outer); reg('cross', np_cross); reg('einsum', np_einsum); reg('tensordot', np_tensordot)
    reg('sum', red(A.SumF)); reg('mean', np_mean); reg('average', lambda I, a, k: np_mean(I, a, k) if 'weights' not in k else A._unsup('average weights'))
    for n in ('max', 'amax'): reg(n, red(lambda I: Fold(I, 'max')))
    for n in ('min', 'amin'): reg(n, red(lambda I: Fold(I, 'min')))
    class ProdF(object):
        def __init__(self, I): self.I = I
        def __call__(self, n, g):
            if not isinstance(aint(n), int): raise Unsupported('product over symbolic length')
            return t.mul(*([t.const(1)] + [L.num(g(j)) for j in range(aint(n))]))
    reg('prod', red(ProdF))
    reg('argmin', np_argext('min')); reg('argmax', np_argext('max')); reg('argsort', np_argsort); reg('sort', np_sort)
    reg('any', quant('any')); reg('all', quant('all'))
    reg('diff', np_diff); reg('gradient', np_gradient); reg('cumsum', np_cumsum)
    reg('delete', np_delete); reg('append', lambda I, a, k: concat(I, [A.np_ravel(I, A.as_array(I, a[0])), A.np_ravel(I, A.as_array(I, a[1]) if A.as_array(I, a[1]).ndim else A.as_array(I, ListV([a[1]])))], 0) if k.get('axis') is None and len(a) < 3 else concat(I, a[:2], aint(L.num(k.get('axis', a[2] if len(a) > 2 else 0)))))
    reg('column_stack', np_column_stack); reg('hstack', np_hstack); reg('vstack', np_vstack); reg('concatenate', np_concatenate); reg('stack', np_stack)
    reg('triu', tri(True)); reg('tril', tri(False)); reg('identity', np_identity)
    def eye(I, a, k):
        return np_identity(I, a[:1], k)
    reg('eye', eye)
    reg('broadcast_to', np_broadcast_to)
    reg('diag', np_diag); reg('trace', np_trace); reg('repeat', np_repeat); reg('tile', np_tile); reg('meshgrid', np_meshgrid)
    reg('diagonal', np_diag)
    reg('transpose', lambda I, a, k: A.transpose(I, A.as_array(I, a[0]), [aint(L.num(x)) for x in L.unpack(I, (a[1] if len(a) > 1 else k.get('axes')), None)] if len(a) > 1 or k.get('axes') is not None else None))
    reg('swapaxes', lambda I, a, k: I.call(I.getattr(A.as_array(I, a[0]), 'swapaxes'), a[1:], {}))
    reg('reshape', lambda I, a, k: A.reshape(I, A.as_array(I, a[0]), shape_like(I, a[1])))
    reg('ravel', lambda I, a, k: A.np_ravel(I, A.as_array(I, a[0])))
    reg('squeeze', np_squeeze)
    reg('expand_dims', lambda I, a, k: A.index_array(I, A.as_array(I, a[0]), tuple([slice(None)] * (aint(L.num(a[1])) % (A.as_array(I, a[0]).ndim + 1)) + [None, Ellipsis])))
    reg('flip', lambda I, a, k: rev(I, a[0]))
    reg('unravel_index', np_unravel_index)
    reg('where', np_where); reg('isclose', np_isclose); reg('allclose', np_allclose)
    for n in ('round', 'around', 'round_'):
        reg(n, lambda I, a, k: A.map_array(I, lambda x: round_scalar(I, x, aint(L.num(a[1] if len(a) > 1 else k.get('decimals', 0))), True), A.as_array(I, a[0])))
    reg('array_equal', lambda I, a, k: array_equal(I, a[0], a[1]))
    reg('seterr', lambda I, a, k: DictV({})); reg('errstate', lambda I, a, k: NullCM()); reg('set_printoptions', lambda I, a, k: None)
    reg('shape', lambda I, a, k: tuple(L.norm(t.T(s)) for s in A.as_array(I, a[0]).shape))
    reg('size', lambda I, a, k: I.getattr(A.as_array(I, a[0]), 'size')); reg('ndim', lambda I, a, k: A.as_array(I, a[0]).ndim)
    reg('polyfit', lambda I, a, k: rev(I, polyfit_lowfirst(I, a, k)))
    reg('polyval', lambda I, a, k: poly_val(I, [a[1], rev(I, a[0])], {}))
    reg('polyder', lambda I, a, k: rev(I, poly_der(I, [rev(I, a[0])] + a[1:], k)))
    reg('roots', lambda I, a, k: poly_roots(I, rev(I, a[0])))
    reg('vectorize', lambda I, a, k: Builtin('vectorized', lambda I, b, kk: A.map_array(I, lambda x: I.call(a[0], [x] + b[1:], kk), A.as_array(I, b[0])) if not L.isscalar(b[0]) else I.call(a[0], b, kk)))
    d['mgrid'] = MGrid()
    d['nan'], d['inf'], d['pi'] = t.sym('nan'), t.sym('inf'), t.PI
    d['NaN'], d['Inf'] = d['nan'], d['inf']
    d['e'] = t.exp(t.const(1, 'R'))
    d['newaxis'] = None
    d['ndarray'] = I.builtins['ndarray']
    for n in ('float64', 'float_', 'float32', 'double'): d[n] = Builtin(n, np_floating)
    for n in ('int64', 'int32', 'int_', 'intp'): d[n] = Builtin(n, np_integer)
    for n in ('bool_', 'complex128', 'object_', 'str_'): d[n] = Builtin(n, lambda I, a, k: A._unsup('scalar constructor'))
    for n in ('int', 'float', 'bool', 'object', 'str', 'complex'): pass
    d['generic'] = Opaque('numpy.generic'); d['number'] = Opaque('numpy.number')
    d['integer'] = Opaque('numpy.integer'); d['floating'] = Opaque('numpy.floating')
    # linalg
    la = ModV({})
    la.name, la.path = 'numpy.linalg', '<numpy.linalg>'
    def regl(n, fn):
        fulln = 'numpy.linalg.' + n
        def call(I, a, k):
            h = I.contracts.get(fulln)
            if h is not None:
                I.trusted.add(fulln + ' (contract)')
                return h(I, a, k)
            return fn(I, a, k)
        la.d[n] = Builtin('linalg.' + n, call)
    for n, f in (('det', np_det), ('inv', np_inv), ('norm', np_norm), ('eigh', np_eigh), ('eig', np_eig), ('pinv', np_pinv),
                 ('eigvalsh', lambda I, a, k: np_eigh(I, a, k)[0]), ('eigvals', lambda I, a, k: np_eig(I, a, k)[0])): regl(n, f)
    from .objects import native_class
    if 'LinAlgError' not in I.builtins:
        I.builtins['LinAlgError'] = native_class('LinAlgError', [I.builtins['ValueError']], I.builtins['Exception'].native)
    la.d['LinAlgError'] = I.builtins['LinAlgError']
    d['linalg'] = la
    pm = ModV({}); pm.name, pm.path = 'numpy.polynomial', '<numpy.polynomial>'
    pp = ModV({}); pp.name, pp.path = 'numpy.polynomial.polynomial', '<numpy.polynomial.polynomial>'
    pm.d['polynomial'] = pp
    d['polynomial'] = pm
    pp.d['polyval'] = Builtin('polyval', poly_val)
    pp.d['polyfit'] = Builtin('polyfit', polyfit_lowfirst)
    pp.d['polyder'] = Builtin('polyder', poly_der)
    pp.d['Polynomial'] = Builtin('Polynomial', lambda I, a, k: PolyV(A.as_array(I, a[0], 'float')))
    pm.d['Polynomial'] = pp.d['Polynomial']
    pp.d['polyroots'] = Builtin('polyroots', lambda I, a, k: poly_roots(I, A.as_array(I, a[0])))
    I.modules['numpy.linalg'], I.modules['numpy.polynomial'], I.modules['numpy.polynomial.polynomial'] = la, pm, pp
    return m


def ar(I, v):
    return A.as_array(I, v) if isinstance(v, (ListV, tuple)) else v


def shape_like(I, s):
    return [s] if L.isnum(s) else L.unpack(I, s, None)


def array_equal(I, a, b):
    a, b = A.as_array(I, a), A.as_array(I, b)
    if a.ndim != b.ndim: return False
    for x, y in zip(a.shape, b.shape):
        if not A.same_dim(I, x, y): return False
    return quant('all')(I, [L.compare(I, 'Eq', a, b)], {})


class NullCM(object):
    def vc_enter(self, I): return self
    def vc_exit(self, I): return None
