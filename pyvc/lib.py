"""Semantics of Python builtins and of the library functions the project calls.
Everything in here is part of the trusted base (library contracts)."""
import itertools
from fractions import Fraction
from . import terms as t
from . import prove as P
from .terms import Node
from .interp import (Unsupported, PyRaise, Infeasible, Obj, ModV, ClassV, InstV, FuncV, BoundV, PropV, StaticV,
                     Builtin, Opaque, Poison, ListV, SymSeq, Cat, DictV, SetV, Buf, Dense, Lam, ArrV, View, Cplx, cplx,
                     new_array, sym_array, full_view, aint, content_get, vite, dense_size, Frame, MISSING)


class RangeSeq(object):
    def __init__(self, n, elem, parallel=False, start=None, step=1, cuts=None):
        self.n, self.elem, self.parallel, self.cuts = n, elem, parallel, cuts


def isnum(v):
    return isinstance(v, Node) and v.sort != 'B' or (isinstance(v, int) and not isinstance(v, bool)) or isinstance(v, (Fraction, float))


def isbool(v):
    return isinstance(v, bool) or isinstance(v, Node) and v.sort == 'B'


def isscalar(v):
    return isnum(v) or isbool(v) or isinstance(v, Cplx)


def num(v):
    if isinstance(v, Node) and v.sort == 'B': return t.ite(v, t.const(1), t.const(0))
    return t.T(v)


def norm(v):
    """int constants back to python ints"""
    if isinstance(v, Node) and v.op == 'const' and v.sort == 'I': return int(t.cval(v))
    return v


# ------------------------------------------------------------ symbolic strings
class Fmt(object):
    """A formatted value inside a string."""
    __slots__ = ('spec', 'value')
    def __init__(self, spec, value): self.spec, self.value = spec, value
    def __repr__(self): return '{%r:%s}' % (self.value, self.spec)


class Tok(object):
    """Text of unknown characters denoting a number (no blanks inside), value known symbolically."""
    __slots__ = ('value', 'kind')
    def __init__(self, value, kind='num'): self.value, self.kind = value, kind
    def __repr__(self): return '<tok %r>' % (self.value,)


class SStr(object):
    """A string with symbolic pieces."""
    __slots__ = ('parts',)
    def __init__(self, parts): self.parts = tuple(parts)
    def __repr__(self): return 'SStr%r' % (self.parts,)


def sparts(s):
    return s.parts if isinstance(s, SStr) else ((s,) if s != '' else ())


def sconcat(parts):
    out = []
    for p in parts:
        for q in sparts(p):
            if isinstance(q, str) and out and isinstance(out[-1], str): out[-1] += q
            else: out.append(q)
    if not out: return ''
    if len(out) == 1 and isinstance(out[0], str): return out[0]
    return SStr(out)


def isstr(v): return isinstance(v, (str, SStr))


def format_value(I, v, spec):
    v = norm(v)
    if isinstance(spec, SStr): return SStr((Fmt(spec, v),))          # width known only symbolically
    if isinstance(v, str):
        return format(v, spec)
    if isinstance(v, bool) or v is None:
        return format(v, spec) if not (v is None and spec) else I.throw('TypeError', 'format')
    if isinstance(v, int):
        return format(v, spec)
    if isinstance(v, SStr):
        if spec == '': return v
        return SStr((Fmt(spec, v),))
    if isinstance(v, (Node, Cplx)):
        if spec == 'd' and isinstance(v, Node) and v.sort == 'R':
            I.throw('ValueError', "Unknown format code 'd' for float")
        return SStr((Fmt(spec, v),))
    if isinstance(v, InstV):
        c = I.class_attr(v.cls, '__str__')
        if c is not MISSING: return I.call(c, [v], {})
        return SStr((Fmt(spec, v),))
    return SStr((Fmt(spec, v),))


def py_str(I, v): return format_value(I, v, '')
def py_repr(I, v):
    v = norm(v)
    if isinstance(v, (str, int, bool, type(None))): return repr(v)
    return SStr((Fmt('!r', v),))


def str_format(I, s, args, kw):
    import string
    out = []
    auto = 0
    for lit_, field, spec, conv in string.Formatter().parse(s):
        out.append(lit_)
        if field is None: continue
        name = field
        import re
        m = re.match(r'^([^.\[]*)(.*)$', name)
        head, rest = m.group(1), m.group(2)
        if head == '':
            v = args[auto]; auto += 1
        elif head.isdigit():
            if int(head) >= len(args): I.throw('IndexError', 'Replacement index out of range')
            v = args[int(head)]
        else:
            if head not in kw: I.throw('KeyError', head)
            v = kw[head]
        for a in re.findall(r'\.(\w+)|\[([^\]]+)\]', rest):
            if a[0]: v = I.getattr(v, a[0])
            else: v = getitem(I, v, int(a[1]) if a[1].lstrip('-').isdigit() else a[1])
        if spec and '{' in spec: spec = str_format(I, spec, args[auto:], kw)
        if conv == 'r': v = py_repr(I, v)
        elif conv == 's': v = py_str(I, v)
        out.append(format_value(I, v, spec or ''))
    return sconcat(out)


def str_percent(I, s, arg):
    import re
    args = list(arg) if isinstance(arg, tuple) else [arg]
    out, pos = [], 0
    for m in re.finditer(r'%(?:\((\w+)\))?([-+ 0#]*)(\d*)(\.\d+)?([sdifeEgGrxc%])', s):
        out.append(s[pos:m.start()])
        pos = m.end()
        if m.group(5) == '%':
            out.append('%'); continue
        if m.group(1): v = getitem(I, arg, m.group(1))
        else: v = args.pop(0)
        v = norm(v)
        c = m.group(5)
        if isinstance(v, (str, int, bool, type(None))) :
            out.append(('%' + m.group(2) + m.group(3) + (m.group(4) or '') + c) % (v,))
        else:
            fl = m.group(2)
            if c in 's' and not m.group(3): out.append(py_str(I, v))
            else:
                al = '<' if '-' in fl else ('>' if m.group(3) else '')
                out.append(SStr((Fmt(al + ('+' if '+' in fl else '') + ('0' if '0' in fl and '-' not in fl else '') + m.group(3) + (m.group(4) or '') + c.replace('i', 'd'), v),)))
    out.append(s[pos:])
    return sconcat(out)


# ------------------------------------------------------------------- truth
def truthval(I, v):
    if isinstance(v, bool): return v
    if v is None: return False
    if isinstance(v, Node): return v if v.sort == 'B' else (bool(t.cval(v)) if v.op == 'const' else t.ne(v, 0))
    if isinstance(v, int): return v != 0
    if isinstance(v, str): return v != ''
    if isinstance(v, SStr): return True
    if isinstance(v, tuple): return len(v) > 0
    if isinstance(v, ListV):
        it = v.items
        if isinstance(it, tuple): return len(it) > 0
        return t.ne(seq_len(I, v), 0)
    if isinstance(v, DictV): return len(v.d) > 0
    if isinstance(v, SetV): return len(v.d['items']) > 0
    if isinstance(v, ArrV):
        n = dense_size(v.shape)
        if n == 1: return truthval(I, v.get(*[0] * v.ndim))
        if n == 0: return False
        I.throw('ValueError', 'The truth value of an array with more than one element is ambiguous')
    if isinstance(v, InstV):
        for nm in ('__bool__', '__len__'):
            c = I.class_attr(v.cls, nm)
            if c is not MISSING: return truthval(I, I.call(c, [v], {}))
        return True
    if isinstance(v, (FuncV, ClassV, BoundV, Builtin, ModV)): return True
    if isinstance(v, Poison): raise Unsupported(v.why)
    if hasattr(v, 'vc_truth'): return v.vc_truth(I)
    raise Unsupported('truth value of %r' % (v,))


# --------------------------------------------------------------- sequences
def seq_len(I, v):
    if isinstance(v, (tuple, str)): return len(v)
    if isinstance(v, ListV):
        it = v.items
        if isinstance(it, tuple): return len(it)
        if isinstance(it, SymSeq): return norm(it.n)
        if isinstance(it, Cat): raise Unsupported('length of a list being built in a loop')
    if isinstance(v, DictV): return len(v.d)
    if isinstance(v, SetV): return len(v.d['items'])
    if isinstance(v, ArrV):
        if v.ndim == 0: I.throw('TypeError', 'len() of unsized object')
        return v.shape[0]
    if isinstance(v, RangeSeq): return norm(t.T(v.n))
    if isinstance(v, InstV):
        c = I.class_attr(v.cls, '__len__')
        if c is not MISSING: return I.call(c, [v], {})
    if hasattr(v, 'vc_len'): return v.vc_len(I)
    if isinstance(v, SStr):      # literal characters, at least one per number or word, any number per text
        n = t.const(0, 'I')
        for p in v.parts:
            n = t.add(n, len(p) if isinstance(p, str) else t.absv(t.app('length', num(p.value) if isnum(p.value) else 0, sort='I')))
            if isinstance(p, Tok) and p.kind != 'text': n = t.add(n, 1)
        return n
    if v is None or isscalar(v): I.throw('TypeError', 'object has no len()')
    raise Unsupported('len of %r' % (v,))


class Seq(object):
    def __init__(self, n, elem, parallel=False): self.n, self.elem, self.parallel = n, elem, parallel


def iterate(I, v):
    """python list of values, or RangeSeq with symbolic length."""
    if isinstance(v, (tuple, list)): return list(v)
    if isinstance(v, str): return list(v)
    if isinstance(v, ListV):
        it = v.items
        if isinstance(it, tuple): return list(it)
        if isinstance(it, SymSeq): return RangeSeq(it.n, lambda k: it.fn(t.T(k)), cuts=getattr(it, 'cuts', None))
        raise Unsupported('iteration over a list being built')
    if isinstance(v, DictV): return list(v.d.keys())
    if isinstance(v, SetV): return list(v.d['items'])
    if isinstance(v, ArrV):
        if v.ndim == 0: I.throw('TypeError', 'iteration over a 0-d array')
        n = v.shape[0]
        if isinstance(n, int): return [getitem(I, v, k) for k in range(n)]
        return RangeSeq(n, lambda k: getitem_nocheck(I, v, k))
    if isinstance(v, RangeSeq):
        n = aint(v.n)
        if isinstance(n, int) and not v.parallel: return [v.elem(k) for k in range(max(n, 0))]
        return v
    if hasattr(v, 'vc_iter'): return v.vc_iter(I)
    if v is None or isscalar(v): I.throw('TypeError', 'object is not iterable')
    raise Unsupported('iteration over %r' % (v,))


def getitem_nocheck(I, v, k):
    if v.ndim == 1: return norm(v.get(k))
    return index_array(I, v, (k,), check=False)


def unpack(I, v, n):
    s = iterate(I, v)
    if isinstance(s, RangeSeq):
        k = aint(s.n)
        if not isinstance(k, int):
            if n is not None and P.decide(t.eq(s.n, n), I.pc) is True: k = n
            else: raise Unsupported('unpacking a sequence of symbolic length')
        s = [s.elem(j) for j in range(k)]
    return s


def key(I, k):
    k = norm(k)
    if isinstance(k, (str, int, bool, type(None))): return k
    if isinstance(k, tuple): return tuple(key(I, x) for x in k)
    if isinstance(k, Node) and k.op == 'const':
        q = t.cval(k)
        return int(q) if q.denominator == 1 else q
    if isinstance(k, (ClassV, FuncV)): return k
    raise Unsupported('dictionary key %r' % (k,))


def make_set(I, items):
    out = []
    for x in items:
        if not any(struct_eq(I, x, y) is True for y in out): out.append(x)
    return SetV(out)


def struct_eq(I, a, b):
    c = compare(I, 'Eq', a, b)
    return c


# -------------------------------------------------------------- arithmetic
def real(v):
    return t.toreal(num(v))


def nonzero(I, b, what='division'):
    if not I.check_defined: return
    b = num(b)
    if b.op == 'const':
        if t.cval(b) == 0: I.throw('ZeroDivisionError', 'division by zero')
        return
    I.oblige('definedness: denominator is non-zero', t.ne(b, 0))


def scalar_binop(I, op, a, b, elementwise=False):
    if isinstance(a, Cplx) or isinstance(b, Cplx):
        return cplx_binop(I, op, cplx(a if isinstance(a, Cplx) else num(a)), cplx(b if isinstance(b, Cplx) else num(b)), b)
    if op in ('BitAnd', 'BitOr', 'BitXor') and isbool(a) and isbool(b):
        a, b = t.B(a), t.B(b)
        if op == 'BitAnd': return t.and_(a, b)
        if op == 'BitOr': return t.or_(a, b)
        return t.or_(t.and_(a, t.not_(b)), t.and_(b, t.not_(a)))
    a, b = num(a), num(b)
    if op == 'Add': return norm(t.add(a, b))
    if op == 'Sub': return norm(t.sub(a, b))
    if op == 'Mult': return norm(t.mul(a, b))
    if op == 'Div':
        if not elementwise: nonzero(I, b)
        return t.div(a, b)
    if op == 'Pow':
        if b.op == 'const' and t.cval(b) < 0 and not elementwise: nonzero(I, a)
        if a.sort == 'I' and b.sort == 'R': a = t.toreal(a)
        r = t.power(a, b)
        if a.sort == 'R' or b.sort == 'R': r = t.toreal(r) if r.op in ('const', 'add', 'mul', 'pow') else r
        return norm(r)
    if op == 'FloorDiv':
        if not elementwise: nonzero(I, b)
        if a.op == 'const' and b.op == 'const': 
            q = t.cval(a) // t.cval(b)
            return int(q) if a.sort == b.sort == 'I' else t.const(q, 'R')
        if a.sort == 'I' and b.sort == 'I': return norm(t.idiv(a, b))
        return t.app('floor', t.div(a, b))
    if op == 'Mod':
        if a.op == 'const' and b.op == 'const': 
            q = t.cval(a) % t.cval(b)
            return int(q) if a.sort == b.sort == 'I' else t.const(q, 'R')
        if a.sort == 'I' and b.sort == 'I': return norm(t.imod(a, b))
        return t.app('fmod', a, b)
    if op in ('BitAnd', 'BitOr', 'BitXor', 'LShift', 'RShift') and a.op == 'const' and b.op == 'const':
        x, y = int(t.cval(a)), int(t.cval(b))
        return {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}.get(op) if 'Bit' in op else (x << y if op[0] == 'L' else x >> y)
    raise Unsupported('operator %s' % op)


def cplx_binop(I, op, a, b, braw=None):
    if op == 'Add': return Cplx(t.add(a.re, b.re), t.add(a.im, b.im))
    if op == 'Sub': return Cplx(t.sub(a.re, b.re), t.sub(a.im, b.im))
    if op == 'Mult': return Cplx(t.sub(t.mul(a.re, b.re), t.mul(a.im, b.im)), t.add(t.mul(a.re, b.im), t.mul(a.im, b.re)))
    if op == 'Div':
        d = t.add(t.mul(b.re, b.re), t.mul(b.im, b.im))
        n = cplx_binop(I, 'Mult', a, Cplx(b.re, t.mul(-1, b.im)))
        return Cplx(t.div(n.re, d), t.div(n.im, d))
    if op == 'Pow' and b.im.op == 'const' and b.re.op == 'const' and t.cval(b.re).denominator == 1 and t.cval(b.re) >= 0:
        r = Cplx(1, 0)
        for _ in range(int(t.cval(b.re))): r = cplx_binop(I, 'Mult', r, a)
        return r
    raise Unsupported('complex operator %s' % op)


UNITS_STR = ()


def binop(I, op, a, b):
    for v in (a, b):
        if isinstance(v, Poison): raise Unsupported(v.why)
    if isscalar(a) and isscalar(b): return scalar_binop(I, op, a, b)
    if hasattr(a, 'vc_binop'): 
        r = a.vc_binop(I, op, b, False)
        if r is not NotImplemented: return r
    if hasattr(b, 'vc_binop'):
        r = b.vc_binop(I, op, a, True)
        if r is not NotImplemented: return r
    if isinstance(a, ArrV) or isinstance(b, ArrV):
        if op == 'MatMult': return np_matmul(I, a, b)
        if (isscalar(a) or isinstance(a, (ArrV, ListV, tuple))) and (isscalar(b) or isinstance(b, (ArrV, ListV, tuple))):
            return broadcast(I, lambda x, y: scalar_binop(I, op, x, y, True), [as_array(I, a), as_array(I, b)],
                             dtype=result_dtype(op, a, b))
        if isstr(a) or isstr(b) or a is None or b is None: I.throw('TypeError', 'unsupported operand types')
    if isstr(a):
        if op == 'Mod':
            if isinstance(a, SStr): raise Unsupported('symbolic format')
            return str_percent(I, a, b)
        if op == 'Add':
            if isstr(b): return sconcat([a, b])
            I.throw('TypeError', 'can only concatenate str')
        if op == 'Mult' and isinstance(norm(b), int):
            return a * norm(b) if isinstance(a, str) else sconcat([a] * norm(b))
    if isstr(b) and op == 'Mult' and isinstance(norm(a), int): return binop(I, op, b, a)
    if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add': return a + b
    if isinstance(a, tuple) and op == 'Mult': return a * aint(b)
    if isinstance(a, ListV) and op == 'Add' and isinstance(b, ListV):
        x, y = a.items, b.items
        if isinstance(x, tuple) and isinstance(y, tuple): return ListV(x + y)
        from . import loops
        if isinstance(y, tuple) and not y: return ListV(x)
        if isinstance(y, tuple): return ListV(loops.concat_items(I, x, y))
        return ListV(loops.concat_seq(x, y))
    if isinstance(a, ListV) and op == 'Mult':
        k = aint(num(b))
        if isinstance(k, int): return ListV(a.items * k)
        if isinstance(a.items, tuple) and len(a.items) == 1:
            x = a.items[0]
            return ListV(SymSeq(k, lambda j: x))
    if isinstance(b, ListV) and op == 'Mult' and isnum(a): return binop(I, op, b, a)
    if isinstance(a, SetV) and isinstance(b, SetV):
        if op == 'Sub': return SetV([x for x in a.d['items'] if x not in b.d['items']])
        if op == 'BitAnd': return SetV([x for x in a.d['items'] if x in b.d['items']])
        if op == 'BitOr': return make_set(I, list(a.d['items']) + list(b.d['items']))
    if isinstance(a, InstV):
        nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__', 'Pow': '__pow__', 'Mod': '__mod__'}.get(op)
        c = I.class_attr(a.cls, nm) if nm else MISSING
        if c is not MISSING: return I.call(c, [a, b], {})
    if isinstance(b, InstV):
        nm = {'Add': '__radd__', 'Sub': '__rsub__', 'Mult': '__rmul__', 'Div': '__rtruediv__'}.get(op)
        c = I.class_attr(b.cls, nm) if nm else MISSING
        if c is not MISSING: return I.call(c, [b, a], {})
    if isinstance(a, (Opaque,)) or isinstance(b, Opaque): raise Unsupported('operator on %r, %r' % (a, b))
    I.throw('TypeError', 'unsupported operand type(s) for %s: %s and %s' % (op, tname(a), tname(b)))


def tname(v): return type_of_name(v)


def result_dtype(op, a, b):
    da, db = dtype_of(a), dtype_of(b)
    if 'complex' in (da, db): return 'complex'
    if 'object' in (da, db): return 'object'
    if op == 'Div': return 'float'
    if da == 'bool' and db == 'bool': return 'bool'
    if 'float' in (da, db): return 'float'
    return 'int'


def dtype_of(v):
    if isinstance(v, ArrV): return v.dtype
    if isbool(v): return 'bool'
    if isinstance(v, Cplx): return 'complex'
    if isinstance(v, Node): return 'int' if v.sort == 'I' else 'float'
    if isinstance(v, int): return 'int'
    if isstr(v): return 'str'
    if isinstance(v, (ListV, tuple)):
        it = v.items if isinstance(v, ListV) else v
        if isinstance(it, SymSeq): return dtype_of(it.fn(t.fresh('d', 'I')))
        ds = [dtype_of(x) for x in it]
        for d in ('object', 'str', 'complex', 'float', 'int', 'bool'):
            if d in ds: return d
        return 'float'
    return 'object'


def unop(I, op, v):
    if isinstance(v, ArrV):
        return map_array(I, lambda x: unop(I, op, x), v, 'bool' if op == 'Invert' and v.dtype == 'bool' else v.dtype)
    if isinstance(v, Cplx) and op == 'USub': return Cplx(t.mul(-1, v.re), t.mul(-1, v.im))
    if isscalar(v):
        if op == 'USub': return norm(t.mul(-1, num(v)))
        if op == 'UAdd': return v
        if op == 'Invert' and isbool(v) and isinstance(v, Node): return t.not_(v)
        if op == 'Invert' and isinstance(v, bool): return not v
        if op == 'Invert' and isinstance(v, int): return ~v
    if isinstance(v, InstV) and op == 'USub':
        c = I.class_attr(v.cls, '__neg__')
        if c is not MISSING: return I.call(c, [v], {})
    if hasattr(v, 'vc_unop'): return v.vc_unop(I, op)
    I.throw('TypeError', 'bad operand type for unary %s' % op)


def inplace(I, op, old, rhs):
    if isinstance(old, ArrV):
        new = binop(I, op, old, rhs)
        if isinstance(new, ArrV):
            if len(new.shape) != len(old.shape): I.throw('ValueError', 'non-broadcastable output operand')
        if old.dtype == 'int' and (op == 'Div' or dtype_of(rhs) == 'float' or (isinstance(new, ArrV) and new.dtype == 'float')):
            I.throw('TypeError', "Cannot cast ufunc output from dtype('float64') to dtype('int64')")
        assign_array(I, old, new)
        return old
    if isinstance(old, ListV) and op == 'Add':
        r = binop(I, op, old, rhs if isinstance(rhs, ListV) else ListV(unpack(I, rhs, None)))
        I.put(old, 'items', r.items)
        return old
    return binop(I, op, old, rhs)


CMP = {'Eq': t.eq, 'NotEq': t.ne, 'Lt': t.lt, 'LtE': t.le, 'Gt': t.gt, 'GtE': t.ge}


def compare(I, op, a, b):
    if isinstance(a, Poison) or isinstance(b, Poison): raise Unsupported((a if isinstance(a, Poison) else b).why)
    if op in ('Is', 'IsNot'):
        r = is_same(a, b)
        return r if op == 'Is' else not r
    if op in ('In', 'NotIn'):
        r = contains(I, b, a)
        return r if op == 'In' else (not r if isinstance(r, bool) else t.not_(r))
    if isscalar(a) and isscalar(b): return scalar_cmp(I, op, a, b)
    if isinstance(a, ArrV) or isinstance(b, ArrV):
        if a is None or b is None or isstr(a) or isstr(b):
            x = a if isinstance(a, ArrV) else b
            if dtype_of(x) not in ('str', 'object'):
                r = (op == 'NotEq')
                return new_array(x.shape, lambda *ix: r, 'bool')
        return broadcast(I, lambda x, y: compare(I, op, x, y), [as_array(I, a), as_array(I, b)], dtype='bool')
    if isinstance(a, str) and isinstance(b, str):
        return {'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        r = sstr_eq(I, a, b)
        if op == 'Eq': return r
        if op == 'NotEq': return (not r) if isinstance(r, bool) else t.not_(r)
        raise Unsupported('ordering of symbolic strings')
    if hasattr(a, 'vc_cmp'): return a.vc_cmp(I, op, b, False)
    if hasattr(b, 'vc_cmp'): return b.vc_cmp(I, op, a, True)
    if op in ('Eq', 'NotEq'):
        r = equal_values(I, a, b)
        if op == 'Eq': return r
        return (not r) if isinstance(r, bool) else t.not_(r)
    if isinstance(a, (tuple, ListV)) and isinstance(b, (tuple, ListV)):
        x, y = unpack(I, a, None), unpack(I, b, None)
        if all(isinstance(norm(v), (int, str)) for v in x + y):
            x, y = [norm(v) for v in x], [norm(v) for v in y]
            return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
        raise Unsupported('ordering of sequences')
    if isinstance(a, (InstV, Opaque)) or isinstance(b, (InstV, Opaque)): raise Unsupported('comparison')
    I.throw('TypeError', "'%s' not supported between instances" % op)


def scalar_cmp(I, op, a, b):
    if isinstance(a, Cplx) or isinstance(b, Cplx):
        a, b = cplx(a if isinstance(a, Cplx) else num(a)), cplx(b if isinstance(b, Cplx) else num(b))
        r = t.and_(t.eq(a.re, b.re), t.eq(a.im, b.im))
        if op == 'Eq': return tobool(r)
        if op == 'NotEq': return tobool(t.not_(r))
        I.throw('TypeError', 'no ordering relation is defined for complex numbers')
    if isbool(a) and isbool(b) and op in ('Eq', 'NotEq') and (isinstance(a, Node) or isinstance(b, Node)):
        r = t.eq(t.B(a), t.B(b))
        return tobool(r if op == 'Eq' else t.not_(r))
    a, b = num(a), num(b)
    for x, y, flip in ((a, b, False), (b, a, True)):
        if x.op == 'sym' and x.args[0] in ('nan', 'inf', '-inf'):
            if x.args[0] == 'nan': return op == 'NotEq'
            if x is y: return op in ('Eq', 'LtE', 'GtE')
            if y.op == 'sym' and y.args[0] in ('inf', '-inf'): pass
            big = (x.args[0] == 'inf') != flip       # a is +inf, or b is -inf
            return {'Eq': False, 'NotEq': True, 'Lt': not big, 'LtE': not big, 'Gt': big, 'GtE': big}[op]
    return tobool(CMP[op](a, b))


def tobool(r):
    if r is t.TRUE: return True
    if r is t.FALSE: return False
    return r


def is_same(a, b):
    if a is b: return True
    if a is None or b is None: return False
    a, b = norm(a), norm(b)
    if isinstance(a, (bool, int, str)) and isinstance(b, (bool, int, str)): return type(a) is type(b) and a == b
    if isinstance(a, ArrV) and isinstance(b, ArrV): return False
    if isinstance(a, Node) and isinstance(b, Node) and a.sort == 'B': raise Unsupported('identity of symbolic booleans')
    if isinstance(a, Node) and isinstance(b, bool): return False
    if isinstance(a, Builtin) and isinstance(b, Builtin): return a.name == b.name
    return False


def sstr_eq(I, a, b):
    pa, pb = sparts(a), sparts(b)
    if len(pa) == len(pb) and all((x == y if isinstance(x, str) else (not isinstance(y, str) and type(x) is type(y) and getattr(x, 'value', 0) is getattr(y, 'value', 1) and getattr(x, 'spec', '') == getattr(y, 'spec', ''))) for x, y in zip(pa, pb)):
        return True
    for x, y in ((pa, pb), (pb, pa)):
        if len(x) == 1 and isinstance(x[0], Tok) and len(y) == 1 and isinstance(y[0], str):
            # a numeric token against fixed text
            try:
                float(y[0])
            except ValueError:
                return False
            raise Unsupported('numeric token compared with %r' % y[0])
        if len(x) == 0: return False
        if x and isinstance(x[0], str) and len(y) == 1 and isinstance(y[0], str):
            if not y[0].startswith(x[0]): return False
    raise Unsupported('comparison of symbolic strings %r / %r' % (a, b))


def equal_values(I, a, b):
    if a is b: return True
    if a is None or b is None: return False
    if isscalar(a) and isscalar(b): return scalar_cmp(I, 'Eq', a, b)
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)): return compare(I, 'Eq', a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, ListV) and isinstance(b, ListV):
        la, lb = seq_len(I, a), seq_len(I, b)
        if not (isinstance(la, int) and isinstance(lb, int)): raise Unsupported('equality of symbolic sequences')
        if la != lb: return False
        out = True
        for x, y in zip(unpack(I, a, None), unpack(I, b, None)):
            c = truthval(I, compare(I, 'Eq', x, y))
            if c is False: return False
            out = c if out is True else (out if c is True else t.and_(out, c))
        return out
    if isinstance(a, DictV) and isinstance(b, DictV):
        if set(a.d) != set(b.d): return False
        out = True
        for k in a.d:
            c = truthval(I, compare(I, 'Eq', a.d[k], b.d[k]))
            if c is False: return False
            out = c if out is True else (out if c is True else t.and_(out, c))
        return out
    if isinstance(a, SetV) and isinstance(b, SetV):
        return set(a.d['items']) == set(b.d['items'])
    if isinstance(a, (ClassV, FuncV, ModV, InstV, Builtin, BoundV)) or isinstance(b, (ClassV, FuncV, ModV, InstV, Builtin, BoundV)):
        if isinstance(a, InstV) and I.class_attr(a.cls, '__eq__') is not MISSING: raise Unsupported('__eq__')
        if isinstance(a, Builtin) and isinstance(b, Builtin): return a.name == b.name
        return False
    if hasattr(a, 'vc_cmp'): return a.vc_cmp(I, 'Eq', b, False)
    if isinstance(a, (Opaque,)) or isinstance(b, Opaque): raise Unsupported('comparison with opaque value')
    return False


def contains(I, c, x):
    if isinstance(c, DictV): return key(I, x) in c.d
    if isinstance(c, str):
        if isinstance(x, str): return x in c
        raise Unsupported('symbolic substring')
    if isinstance(c, SStr):
        if isinstance(x, str): return sstr_contains(I, c, x)
        raise Unsupported('symbolic substring')
    if hasattr(c, 'vc_contains'): return c.vc_contains(I, x)
    if isinstance(c, ArrV) and c.ndim >= 1 or isinstance(c, (tuple, ListV, SetV, RangeSeq)):
        it = iterate(I, c) if not isinstance(c, ArrV) else iterate(I, np_ravel(I, c))
        if isinstance(it, RangeSeq):
            return t.not_(t.forall(it.n, lambda j: t.not_(t.B(truthval(I, compare(I, 'Eq', it.elem(j), x))))))
        out = False
        for y in it:
            r = truthval(I, compare(I, 'Eq', y, x))
            if r is True: return True
            out = r if out is False else (out if r is False else t.or_(out, r))
        return out
    if isinstance(c, InstV):
        f = I.class_attr(c.cls, '__contains__')
        if f is not MISSING: return truthval(I, I.call(f, [c, x], {}))
    if c is None or isscalar(c): I.throw('TypeError', 'argument is not iterable')
    raise Unsupported('membership in %r' % (c,))


NUMCHARS = set('0123456789+-.eEdDnaif ')


def sstr_contains(I, s, x):
    if len(s.parts) == 1 and isinstance(s.parts[0], Tok) and s.parts[0].kind == 'text':
        # a line of which only is known that it contains none of the texts I.markers
        if any(m in x for m in I.markers): return False
        if x == '': return True
        return t.ne(t.app('contains.' + x, num(s.parts[0].value)), 0)
    if any(isinstance(p, str) and x in p for p in s.parts): return True
    # text that cannot occur in a formatted number nor straddle pieces
    if any(ch not in NUMCHARS for ch in x) and all(isinstance(p, (str, Tok)) or isinstance(p, Fmt) and isnum(p.value) for p in s.parts):
        core = [ch for ch in x if ch not in NUMCHARS]
        if not any(isinstance(p, str) and core[0] in p for p in s.parts): return False
        return False
    raise Unsupported('substring test on symbolic text')


# ---- remaining pieces live in sibling modules; names are collected here
from .arrays import (as_array, broadcast, map_array, assign_array, index_array, getitem, setitem, delitem, np_matmul, np_ravel)  # noqa
from .objects import (type_of_name, coerce_c, special, make_range, map_content, map_value, subst_value, merge_values, parse_float, parse_int,
                      sstr_getitem, attr, set_attr, enter, exit, opaque_call, make_builtins)  # noqa
from .nplib import np_abs, round_value, extremum, dtype_arg  # noqa
from .syslib import open_file, library_module, library_attr  # noqa
