"""Attributes and methods of builtin values, Python builtins, C coercions, context managers."""
import itertools
from fractions import Fraction
from . import terms as t
from . import prove as P
from .terms import Node
from .interp import (Unsupported, Rep, PyRaise, Obj, ModV, ClassV, InstV, FuncV, BoundV, PropV, StaticV, Builtin, Opaque,
                     Poison, ListV, SymSeq, Cat, DictV, SetV, Buf, Dense, Lam, ArrV, View, Cplx, cplx, MISSING,
                     new_array, full_view, aint, content_get, vite, dense_size, Frame)
from . import lib as L
from . import arrays as A


def type_of_name(v):
    if v is None: return 'NoneType'
    v = L.norm(v)
    if L.isbool(v): return 'bool'
    if isinstance(v, int): return 'int'
    if isinstance(v, Node): return 'int' if v.sort == 'I' else 'float'
    if isinstance(v, (float, Fraction)): return 'float'
    if isinstance(v, Cplx): return 'complex'
    if L.isstr(v): return 'str'
    if isinstance(v, tuple): return 'tuple'
    if isinstance(v, ListV): return 'list'
    if isinstance(v, DictV): return 'dict'
    if isinstance(v, SetV): return 'set'
    if isinstance(v, ArrV): return 'ndarray'
    if isinstance(v, InstV): return v.cls.name
    if isinstance(v, (FuncV, BoundV, Builtin)): return 'function'
    if isinstance(v, ClassV): return 'type'
    if isinstance(v, ModV): return 'module'
    if isinstance(v, L.RangeSeq): return 'range'
    return getattr(v, 'vc_type', type(v).__name__)


# ----------------------------------------------------------- C-level coercion
def coerce_c(I, v, ty, arg=False):
    ty = ty.strip()
    if isinstance(v, Poison): return v
    if ty in ('double', 'float', 'long double'):
        if isinstance(v, ArrV):
            if v.ndim == 0: v = v.get()
            elif dense_size(v.shape) == 1: v = v.get(*[0] * v.ndim)
            else: I.throw('TypeError', 'only length-1 arrays can be converted to Python scalars')
        if not L.isscalar(v) or isinstance(v, Cplx): I.throw('TypeError', 'must be real number, not %s' % type_of_name(v))
        return t.toreal(L.num(v))
    if ty in ('int', 'long', 'Py_ssize_t', 'unsigned int', 'size_t', 'short', 'long long', 'bint'):
        if ty == 'bint': return L.truthval(I, v)
        if L.isscalar(v) and not isinstance(v, Cplx):
            n = L.num(v)
            if n.sort == 'R':
                if arg: I.throw('TypeError', 'an integer is required')
                return A.trunc(n)
            return L.norm(n)
        I.throw('TypeError', 'an integer is required')
    if ty.endswith(']') and '[' in ty and not ty.startswith(('np.', 'cnp.', 'numpy.')):
        base, dims = ty[:-1].split('[', 1)
        nd = len(dims.split(','))
        if v is None: return v
        if not isinstance(v, ArrV): I.throw('TypeError', "a bytes-like object is required, not '%s'" % type_of_name(v))
        if v.ndim != nd: I.throw('ValueError', 'Buffer has wrong number of dimensions (expected %d, got %d)' % (nd, v.ndim))
        want = 'float' if base.strip() == 'double' else 'int' if base.strip() in ('int', 'long') else None
        if want and v.dtype != want: I.throw('ValueError', 'Buffer dtype mismatch')
        return v
    if ty in ('object', 'str', 'list', 'dict', 'tuple', 'void') or ty.startswith(('np.', 'cnp.', 'numpy.')):
        return v
    raise Unsupported('C type %s' % ty)


def special(I, name):
    if name == '__vc_prange__':
        return Builtin('prange', lambda I, a, k: L.make_range(I, a, True))
    if name == '__vc_cast__':
        def f(I, a, k):
            return coerce_c(I, a[1], a[0])
        return Builtin('cast', f)
    raise Unsupported(name)


def make_range(I, args, parallel=False):
    args = [L.num(x) for x in args]
    for x in args:
        if x.sort != 'I': I.throw('TypeError', "'float' object cannot be interpreted as an integer")
    if len(args) == 1: a, b, s = t.const(0), args[0], t.const(1)
    elif len(args) == 2: (a, b), s = args, t.const(1)
    else: a, b, s = args
    s = aint(s)
    if not isinstance(s, int): raise Unsupported('symbolic range step')
    if s == 0: I.throw('ValueError', 'range() arg 3 must not be zero')
    if isinstance(aint(a), int) and isinstance(aint(b), int):
        r = range(aint(a), aint(b), s)
        return L.RangeSeq(len(r), lambda k: L.norm(t.add(a, t.mul(s, t.T(k)))), parallel)
    if s == 1: n = t.sub(b, a)
    elif s == -1: n = t.sub(a, b)
    elif s > 1: n = t.idiv(t.add(t.sub(b, a), s - 1), t.const(s))
    else: raise Unsupported('range step')
    if not I.decide(t.ge(n, 0)): return L.RangeSeq(0, lambda k: k, parallel)
    n = t.T(aint(n))
    cuts = None
    if s == 1 and len(I.filelike) >= 1 and n.op != 'const':
        fs = [f for f in I.filelike if t.canon(t.sub(f.n, b)).op == 'const'] or (I.filelike if len(I.filelike) == 1 else [])
        if fs and t.canon(t.sub(fs[0].n, b)).op != 'const':     # a range within the file begins or ends near one of its pieces
            ends = [t.T(q) for p in fs[0].pieces for q in p[:2]]
            near = lambda x: t.T(x).op != 'const' and any(t.canon(t.sub(x, q)).op == 'const' for q in ends)
            if not near(a) and not near(b): fs = []
        if len(fs) == 1 or fs and len(I.filelike) == 1: cuts = lambda: fs[0].cuts(a, b)
    return L.RangeSeq(n, lambda k: L.norm(t.add(a, t.mul(s, t.T(k)))), parallel, cuts=cuts)


# --------------------------------------------------------------- map / merge
def map_content(c, f):
    if isinstance(c, Dense):
        return Dense(c.shape, [map_value(x, f) for x in c.data])
    g = lambda *ix: map_value(content_get(c, ix), f)
    return Lam(tuple(aint(f(t.T(s))) if isinstance(s, Node) else s for s in c.shape), g)


def map_value(v, f):
    if isinstance(v, Node): return L.norm(f(v))
    if v is None or isinstance(v, (bool, int, str, FuncV, ClassV, ModV, Builtin, Opaque, Poison)): return v
    if isinstance(v, Cplx): return Cplx(f(v.re), f(v.im))
    if isinstance(v, Rep): return Rep(L.norm(f(t.T(v.n))), lambda k: tuple(map_value(x, f) for x in v.fn(k)))
    if isinstance(v, tuple):
        r = tuple(map_value(x, f) for x in v)
        return v if all(x is y for x, y in zip(r, v)) else r
    if isinstance(v, L.SStr):
        out = []
        ch = False
        for p in v.parts:
            if isinstance(p, L.Fmt):
                w, sp = map_value(p.value, f), map_value(p.spec, f)
                same = w is p.value and sp is p.spec
                ch |= not same
                out.append(p if same else L.Fmt(sp, w))
            elif isinstance(p, L.Tok):
                w = map_value(p.value, f)
                ch |= w is not p.value
                out.append(p if w is p.value else L.Tok(w, p.kind))
            else: out.append(p)
        return L.SStr(out) if ch else v
    if isinstance(v, ArrV):
        c = v.buf.d['content']
        if isinstance(c, Dense):
            nd = [map_value(x, f) for x in c.data]
            sh = tuple(aint(f(t.T(s))) if isinstance(s, Node) else s for s in v.shape)
            if all(x is y for x, y in zip(nd, c.data)) and view_same(v.view, f): return v
            return ArrV(Buf(Dense(c.shape, nd)), map_view(v.view, f), v.dtype)
        ks = [t.fresh('k', 'I') for _ in c.shape]
        e = content_get(c, ks)
        if isinstance(e, Node) and f(e) is e and view_same(v.view, f) and all(not isinstance(s, Node) or f(s) is s for s in c.shape): return v
        return ArrV(Buf(map_content(c, f)), map_view(v.view, f), v.dtype)
    if isinstance(v, ListV):
        it = v.items
        if isinstance(it, tuple):
            r = tuple(map_value(x, f) for x in it)
            return v if all(x is y for x, y in zip(r, it)) else ListV(r)
        if isinstance(it, SymSeq):
            return ListV(SymSeq(f(t.T(it.n)), lambda k: map_value(it.fn(k), f), segs=tuple((f(t.T(n)), lambda k, g=g: tuple(map_value(x, f) for x in g(k))) for n, g in it.segs)))
        raise Unsupported('list being built')
    if isinstance(v, DictV):
        r = {k: map_value(x, f) for k, x in v.d.items()}
        return v if all(r[k] is v.d[k] for k in r) else DictV(r)
    if isinstance(v, BoundV):
        s = map_value(v.self_, f)
        return v if s is v.self_ else BoundV(v.fn, s)
    if isinstance(v, InstV):
        if getattr(v, 'stamp', 0) and all(same_under(x, f) for x in v.d.values()): return v
        r = InstV({k: map_value(x, f) for k, x in v.d.items()})
        r.cls = v.cls
        return r
    if isinstance(v, SetV): return v
    if isinstance(v, slice):
        return slice(map_value(v.start, f), map_value(v.stop, f), map_value(v.step, f))
    if isinstance(v, L.RangeSeq):
        return L.RangeSeq(f(t.T(v.n)), lambda k: map_value(v.elem(k), f), v.parallel)
    if hasattr(v, 'vc_map'): return v.vc_map(f)
    raise Unsupported('value %r computed in a loop' % (v,))


def same_under(x, f):
    try:
        return map_value(x, f) is x
    except Unsupported:
        return True


def view_same(w, f):
    return all(not isinstance(e, Node) or f(e) is e for s in w.specs for e in s[1:3]) and all(not isinstance(s, Node) or f(s) is s for s in w.shape)


def map_view(w, f):
    g = lambda e: aint(f(e)) if isinstance(e, Node) else e
    return View([(s[0], g(s[1])) + tuple(s[2:]) for s in w.specs], tuple(g(s) for s in w.shape))


def subst_value(v, s):
    return map_value(v, lambda x: t.subst(x, s))


def merge_values(I, c, a, b):
    if a is b: return a
    if isinstance(a, Poison): return a
    if isinstance(b, Poison): return b
    if L.isscalar(a) and L.isscalar(b): return vite(c, a if not isinstance(a, (float, Fraction)) else t.T(a), b if not isinstance(b, (float, Fraction)) else t.T(b))
    if isinstance(a, str) and isinstance(b, str) and a == b: return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_values(I, c, x, y) for x, y in zip(a, b))
    if isinstance(a, ListV) and isinstance(b, ListV) and isinstance(a.items, tuple) and isinstance(b.items, tuple) and len(a.items) == len(b.items):
        return ListV([merge_values(I, c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, ArrV) and isinstance(b, ArrV) and a.ndim == b.ndim:
        if [aint(s) for s in a.shape] == [aint(s) for s in b.shape]:
            ga, gb = A.getter(a), A.getter(b)
            return new_array(a.shape, lambda *ix: vite(c, ga(*ix), gb(*ix)), a.dtype)
    return Poison('value depends on a branch (%s / %s)' % (type_of_name(a), type_of_name(b)))


# ------------------------------------------------------------ string parsing
def parse_float(I, s):
    if isinstance(s, str):
        try:
            f = float(s.replace('D', 'x') if False else s)
        except ValueError:
            I.throw('ValueError', 'could not convert string to float: %r' % s)
        if f != f: return t.sym('nan')
        if f in (float('inf'), float('-inf')): return t.sym('inf' if f > 0 else '-inf')
        return t.T(t.toreal(t.const(Fraction(s.strip().replace('_', '').lower()))))
    p = [x for x in L.sparts(s) if not (isinstance(x, str) and x.strip() == '')]
    ws = [x for x in L.sparts(s) if isinstance(x, str)]
    sep = ''.join('b' if isinstance(x, str) else 'v' for x in L.sparts(s))
    if len(p) > 1 and all(isinstance(x, L.Tok) and x.kind in ('num', 'word') for x in p) and all(x.strip() == '' for x in ws) and 'vv' not in sep:
        I.throw('ValueError', 'could not convert string to float')
    if len(p) == 1 and isinstance(p[0], L.Tok):
        if p[0].kind == 'num': return t.toreal(L.num(p[0].value))
        if p[0].kind == 'word': I.throw('ValueError', 'could not convert string to float')
    if len(p) == 1 and isinstance(p[0], L.Fmt):
        v = p[0].value
        sp = p[0].spec
        if not isinstance(sp, str): raise Unsupported('number printed with a symbolic width')
        if L.isnum(v):
            v = L.num(v)
            if v.sort == 'I': return t.toreal(v)
            if sp in ('', '!r'): return v
            return t.app('round' + fmt_digits(sp), v)
        if L.isstr(v): return parse_float(I, v)
        if v is None: I.throw('ValueError', 'could not convert string to float')
    raise Unsupported('float of %r' % (s,))


def fmt_digits(sp):
    import re
    m = re.match(r'^.*?(\.\d+)?([feEgG]?)$', sp)
    return (m.group(1) or '') + (m.group(2) or '')


def parse_int(I, s):
    if isinstance(s, str):
        try:
            return int(s)
        except ValueError:
            I.throw('ValueError', 'invalid literal for int() with base 10: %r' % s)
    p = [x for x in L.sparts(s) if not (isinstance(x, str) and x.strip() == '')]
    if len(p) == 1 and isinstance(p[0], L.Tok):
        v = L.num(p[0].value)
        if p[0].kind == 'num' and v.sort == 'I': return L.norm(v)
        I.throw('ValueError', 'invalid literal for int()')
    if len(p) == 1 and isinstance(p[0], L.Fmt):
        v = p[0].value
        if L.isnum(v) and L.num(v).sort == 'I': return L.norm(L.num(v))
    raise Unsupported('int of %r' % (s,))


def sstr_split(I, s, sep=None, maxsplit=-1):
    """split on blanks (or on a separator found only in literal pieces)"""
    if maxsplit != -1: raise Unsupported('maxsplit')
    out, cur, any_ = [], [], False
    def flush():
        if cur:
            x = L.sconcat(cur)
            out.append(x)
        del cur[:]
    if sep is None:
        prev_sym = False
        for p in s.parts:
            if isinstance(p, str):
                if p[:1].isspace(): flush()
                toks = p.split()
                for j, w in enumerate(toks):
                    if j > 0: flush()
                    if j == 0 and cur and not isinstance(cur[-1], str): raise Unsupported('text adjacent to a number')
                    cur.append(w)
                if p[-1:].isspace(): flush()
                if not toks and p: flush()
            elif isinstance(p, L.Fmt):
                v = p.value
                if L.isnum(v) or isinstance(v, (bool, type(None))):
                    if cur: raise Unsupported('numbers without separating blank')
                    if not isinstance(p.spec, str): raise Unsupported('text printed with a symbolic width')
                    cur.append(L.SStr((L.Fmt(p.spec.lstrip('<>^'), v),)))
                elif L.isstr(v):
                    if cur: raise Unsupported('text without separating blank')
                    if isinstance(v, str):
                        for w in v.split():
                            out.append(w)
                    else:
                        out.extend(sstr_split(I, v))
                else: raise Unsupported('split of formatted value')
            else:
                if p.kind == 'text': raise Unsupported('words of a text of unknown characters')
                if cur: raise Unsupported('numbers without separating blank')
                cur.append(L.SStr((p,)))
        flush()
        return out
    for p in s.parts:
        if isinstance(p, str):
            segs = p.split(sep)
            for j, w in enumerate(segs):
                if j > 0:
                    out.append(L.sconcat(cur)); del cur[:]
                if w: cur.append(w)
        elif isinstance(p, L.Tok) or isinstance(p, L.Fmt) and L.isnum(p.value):
            if any(ch in L.NUMCHARS and ch != ' ' for ch in sep): raise Unsupported('separator may occur in a number')
            cur.append(L.SStr((p,)))
        else: raise Unsupported('split of symbolic text')
    out.append(L.sconcat(cur))
    return out


def sstr_strip(I, s, chars=None, left=True, right=True):
    parts = list(s.parts)
    if left:
        while parts and isinstance(parts[0], str):
            x = parts[0].lstrip(chars)
            if x:
                parts[0] = x
                break
            parts.pop(0)
    if right:
        while parts and isinstance(parts[-1], str):
            x = parts[-1].rstrip(chars)
            if x:
                parts[-1] = x
                break
            parts.pop()
    return L.sconcat([p if isinstance(p, str) else L.SStr((p,)) for p in parts])


def sstr_getitem(I, s, k):
    parts = list(s.parts)
    f = lambda x: None if x is None else aint(L.num(x))
    if isinstance(k, slice):
        a, b, st = f(k.start), f(k.stop), f(k.step)
        if st is None and isinstance(parts[0], str) and (a is None or isinstance(a, int) and 0 <= a <= len(parts[0])):
            if b is None: return L.sconcat([parts[0][a:]] + [p if isinstance(p, str) else L.SStr((p,)) for p in parts[1:]])
            if isinstance(b, int) and 0 <= b <= len(parts[0]): return parts[0][a:b]
            if isinstance(b, int) and b < 0 and isinstance(parts[-1], str) and len(parts[-1]) >= -b and len(parts) > 1:
                return L.sconcat([parts[0][a:]] + [p if isinstance(p, str) else L.SStr((p,)) for p in parts[1:-1]] + [parts[-1][:b]])
        raise Unsupported('slice of symbolic text')
    i = f(k)
    if isinstance(i, int):
        if i >= 0 and isinstance(parts[0], str) and i < len(parts[0]): return parts[0][i]
        if i < 0 and isinstance(parts[-1], str) and -i <= len(parts[-1]): return parts[-1][i]
        if i == 0 and isinstance(parts[0], L.Tok) : return L.SStr((L.Tok(t.app('firstchar', L.num(parts[0].value)), 'char'),))
    raise Unsupported('index of symbolic text')


def cstr(x):
    if not isinstance(x, str): raise Unsupported('symbolic string argument')
    return x


def str_method(I, s, name):
    def B(fn): return Builtin('str.' + name, fn)
    if name == 'format':
        if isinstance(s, L.SStr): raise Unsupported('format on symbolic text')
        return B(lambda I, a, k: L.str_format(I, s, a, k))
    if name == 'join':
        def join(I, a, k):
            out = []
            for j, x in enumerate(L.unpack(I, a[0], None)):
                if not L.isstr(x): I.throw('TypeError', 'sequence item: expected str instance')
                if j: out.append(s)
                out.append(x)
            return L.sconcat(out)
        return B(join)
    if isinstance(s, str):
        simple = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'isdigit', 'isalpha', 'isspace', 'isnumeric', 'isupper', 'islower',
                  'startswith', 'endswith', 'find', 'rfind', 'index', 'count', 'replace', 'zfill', 'ljust', 'rjust', 'center', 'swapcase', 'casefold', 'encode', 'removeprefix'}
        if name in simple:
            def f(I, a, k):
                a = [tuple(x) if isinstance(x, tuple) else L.norm(x) for x in a]
                if any(not isinstance(x, (str, int, tuple, type(None))) for x in a):
                    raise Unsupported('str.%s with symbolic argument' % name)
                try:
                    return getattr(s, name)(*a)
                except (ValueError, TypeError) as e:
                    I.throw(type(e).__name__, str(e))
            return B(f)
        if name in ('split', 'rsplit', 'splitlines'):
            def f(I, a, k):
                a = [L.norm(x) for x in a]
                kk = {x: L.norm(y) for x, y in k.items()}
                try:
                    return ListV(getattr(s, name)(*a, **kk))
                except ValueError as e:
                    I.throw('ValueError', str(e))
            return B(f)
        if name in ('partition', 'rpartition'):
            return B(lambda I, a, k: getattr(s, name)(cstr(a[0])))
    else:
        if name == 'split': return B(lambda I, a, k: ListV(sstr_split(I, s, *[L.norm(x) for x in a])))
        if name == 'splitlines': return B(lambda I, a, k: ListV(strip_last(sstr_split(I, s, '\n'))))
        if name in ('strip', 'lstrip', 'rstrip'):
            return B(lambda I, a, k: sstr_strip(I, s, a[0] if a else None, name != 'rstrip', name != 'lstrip'))
        if name in ('lower', 'upper'):
            return B(lambda I, a, k: L.sconcat([getattr(p, name)() if isinstance(p, str) else L.SStr((p,)) for p in s.parts]))
        if name == 'replace':
            def f(I, a, k):
                x, y = cstr(a[0]), cstr(a[1])
                if any(isinstance(p, L.Tok) and p.kind != 'num' for p in s.parts): raise Unsupported('replace in text of unknown characters')
                if any(ch not in L.NUMCHARS for ch in x) or x in ('D', 'd'):
                    return L.sconcat([p.replace(x, y) if isinstance(p, str) else L.SStr((p,)) for p in s.parts])
                raise Unsupported('replace in symbolic text')
            return B(f)
        if name in ('startswith', 'endswith'):
            def f(I, a, k):
                x = cstr(a[0])
                p = s.parts[0 if name == 'startswith' else -1]
                if isinstance(p, str):
                    if len(p) >= len(x): return getattr(p, name)(x)
                    m = p.startswith(x[:len(p)]) if name == 'startswith' else x.endswith(p)
                    if not m: return False
                elif x and x[0] not in L.NUMCHARS and (isinstance(p, L.Tok) or L.isnum(p.value)): return False
                raise Unsupported('%s on symbolic text' % name)
            return B(f)
        if name == 'isdigit': return B(lambda I, a, k: False if any(isinstance(p, str) and not p.isdigit() for p in s.parts) else A._unsup('isdigit'))
    if hasattr('', name): raise Unsupported('str.%s' % name)
    I.throw('AttributeError', "'str' object has no attribute '%s'" % name)


def strip_last(x):
    if x and x[-1] == '': x.pop()
    return x


# ------------------------------------------------------------------- lists
def list_method(I, o, name):
    def B(fn): return Builtin('list.' + name, fn)
    from . import loops
    def conc():
        if not isinstance(o.items, tuple): raise Unsupported('list.%s on a symbolic list' % name)
        return list(o.items)
    if name == 'append':
        def f(I, a, k):
            it = o.items
            if isinstance(it, tuple): I.put(o, 'items', it + (a[0],))
            elif isinstance(it, Cat): I.put(o, 'items', Cat(it.base, it.tail + (a[0],)))
            else: I.put(o, 'items', loops.concat_items(I, it, [a[0]]))
        return B(f)
    if name == 'extend':
        def f(I, a, k):
            r = L.inplace(I, 'Add', o, a[0])
        return B(f)
    if name in ('insert', 'pop', 'remove', 'reverse', 'clear', 'index', 'count', 'sort', 'copy'):
        def f(I, a, k):
            if name == 'copy': return ListV(o.items)
            l = conc()
            r = None
            if name == 'insert': l.insert(aint(L.num(a[0])), a[1])
            elif name == 'pop':
                j = aint(L.num(a[0])) if a else -1
                if not -len(l) <= j < len(l): I.throw('IndexError', 'pop index out of range')
                r = l.pop(j)
            elif name == 'reverse': l.reverse()
            elif name == 'clear': l = []
            elif name in ('remove', 'index'):
                for j, x in enumerate(l):
                    if I.truth(L.compare(I, 'Eq', x, a[0])): break
                else:
                    I.throw('ValueError', 'x not in list')
                if name == 'index': return j
                l.pop(j)
            elif name == 'count':
                return sum(1 for x in l if I.truth(L.compare(I, 'Eq', x, a[0])))
            elif name == 'sort':
                l = sort_values(I, l, k)
            I.put(o, 'items', tuple(l))
            return r
        return B(f)
    if hasattr([], name): raise Unsupported('list.%s' % name)
    I.throw('AttributeError', "'list' object has no attribute '%s'" % name)


def sort_values(I, l, k):
    import functools
    keyf = k.get('key')
    ks = [I.call(keyf, [x], {}) if keyf is not None else x for x in l]
    def lt(a, b): return I.truth(L.compare(I, 'Lt', a, b))
    # insertion sort (stable), splitting on undecided comparisons
    out = []
    for x, kx in zip(l, ks):
        j = len(out)
        while j > 0 and lt(kx, out[j - 1][1]): j -= 1
        out.insert(j, (x, kx))
    r = [x for x, _ in out]
    if k.get('reverse') is True: r.reverse()
    return r


def dict_method(I, o, name):
    def B(fn): return Builtin('dict.' + name, fn)
    if name == 'keys': return B(lambda I, a, k: ListV(tuple(o.d.keys())))
    if name == 'values': return B(lambda I, a, k: ListV(tuple(o.d.values())))
    if name == 'items': return B(lambda I, a, k: ListV(tuple((x, y) for x, y in o.d.items())))
    if name == 'get':
        return B(lambda I, a, k: A.getitem(I, o, a[0]) if L.key(I, a[0]) in o.d else (a[1] if len(a) > 1 else k.get('default')))
    if name == 'copy': return B(lambda I, a, k: DictV(dict(o.d)))
    if name == 'update':
        def f(I, a, k):
            if a:
                if isinstance(a[0], DictV): src = a[0].d.items()
                else: src = [(L.key(I, p[0]), p[1]) for p in (L.unpack(I, x, 2) for x in L.unpack(I, a[0], None))]
                for x, y in list(src): I.put(o, x, y)
            for x, y in k.items(): I.put(o, x, y)
        return B(f)
    if name == 'setdefault':
        def f(I, a, k):
            kk = L.key(I, a[0])
            if kk not in o.d: I.put(o, kk, a[1] if len(a) > 1 else None)
            return o.d[kk]
        return B(f)
    if name == 'pop':
        def f(I, a, k):
            kk = L.key(I, a[0])
            if kk in o.d:
                v = o.d[kk]
                I.rem(o, kk)
                return v
            if len(a) > 1: return a[1]
            I.throw('KeyError', kk)
        return B(f)
    if name == 'clear':
        def f(I, a, k):
            for x in list(o.d): I.rem(o, x)
        return B(f)
    if hasattr({}, name): raise Unsupported('dict.%s' % name)
    I.throw('AttributeError', "'dict' object has no attribute '%s'" % name)


# ------------------------------------------------------------------ ndarrays
def array_method(I, o, name):
    np = I.import_module('numpy')
    def B(fn): return Builtin('ndarray.' + name, fn)
    if name == 'shape': return tuple(L.norm(t.T(s)) for s in o.shape)
    if name == 'ndim': return o.ndim
    if name == 'size':
        n = dense_size(o.shape)
        return n if n is not None else L.norm(t.mul(*[t.T(s) for s in o.shape]))
    if name == 'T': return A.transpose(I, o)
    if name == 'dtype': return Opaque('dtype:' + o.dtype)
    if name == 'real':
        return A.map_array(I, lambda x: x.re, o, 'float') if o.dtype == 'complex' else o
    if name == 'imag':
        return A.map_array(I, lambda x: cplx(x).im, o, 'float')
    if name == 'flat': return A.np_ravel(I, o)
    fwd = {'sum', 'max', 'min', 'mean', 'argmax', 'argmin', 'any', 'all', 'dot', 'round', 'conj', 'argsort', 'cumsum', 'prod', 'std', 'trace', 'squeeze', 'repeat', 'take', 'diagonal', 'var'}
    if name in fwd:
        return B(lambda I, a, k: I.call(I.getattr(np, name), [o] + a, k))
    if name in ('max', 'min'): pass
    if name == 'copy': return B(lambda I, a, k: A.copy_array(I, o))
    if name == 'reshape':
        return B(lambda I, a, k: A.reshape(I, o, L.unpack(I, a[0], None) if len(a) == 1 and not L.isnum(a[0]) else a))
    if name == 'transpose':
        return B(lambda I, a, k: A.transpose(I, o, [aint(L.num(x)) for x in (L.unpack(I, a[0], None) if len(a) == 1 and not L.isnum(a[0]) else a)] or None))
    if name in ('flatten', 'ravel'):
        return B(lambda I, a, k: A.copy_array(I, A.np_ravel(I, o)) if name == 'flatten' else A.np_ravel(I, o))
    if name == 'astype':
        return B(lambda I, a, k: A.copy_array(I, o, L.dtype_arg(I, a[0])))
    if name == 'fill':
        return B(lambda I, a, k: A.assign_array(I, o, a[0]))
    if name == 'tolist':
        def f(I, a, k):
            def rec(x):
                if not isinstance(x, ArrV): return x
                if x.ndim == 0: return x.get()
                n = aint(x.shape[0])
                if isinstance(n, int): return ListV([rec(A.index_array(I, x, (j,))) for j in range(n)])
                g = A.getter(x)
                if x.ndim == 1: return ListV(SymSeq(t.T(n), lambda j: g(j)))
                raise Unsupported('tolist')
            return rec(o)
        return B(f)
    if name == 'item':
        return B(lambda I, a, k: A.np_ravel(I, o).get(0) if not a else A.index_array(I, o, tuple(a)))
    if name == 'swapaxes':
        def f(I, a, k):
            ax = list(range(o.ndim)); i, j = aint(L.num(a[0])), aint(L.num(a[1]))
            ax[i], ax[j] = ax[j], ax[i]
            return A.transpose(I, o, ax)
        return B(f)
    if name == 'sort':
        def f(I, a, k):
            if o.ndim != 1: raise Unsupported('sort')
            l = sort_values(I, L.unpack(I, o, None), {})
            A.assign_array(I, o, ListV(l))
        return B(f)
    raise Unsupported('ndarray.%s' % name)


# ------------------------------------------------------------------ attributes
def attr(I, o, name):
    if isinstance(o, ArrV): return array_method(I, o, name)
    if L.isstr(o): return str_method(I, o, name)
    if isinstance(o, ListV): return list_method(I, o, name)
    if isinstance(o, DictV): return dict_method(I, o, name)
    if isinstance(o, Builtin):
        if name == '__name__': return o.name
        sub = getattr(o, 'attrs', {}).get(name)
        if sub is not None: return sub
    if L.isscalar(o):
        c = isinstance(o, Cplx)
        if name == 'real': return o.re if c else o
        if name == 'imag': return o.im if c else 0
        if name == 'conjugate' or name == 'conj': return Builtin(name, lambda I, a, k: Cplx(o.re, t.mul(-1, o.im)) if c else o)
        isfloat = isinstance(o, Node) and o.sort == 'R'
        if isfloat and name in ('shape', 'ndim', 'size', 'copy', 'item', 'max', 'min', 'sum', 'mean', 'astype', 'T', 'round', 'dtype', 'reshape', 'flatten', 'any', 'all'):
            return array_method(I, new_array((), lambda: o), name) if name != 'copy' else Builtin('copy', lambda I, a, k: o)
        if name in ('shape', 'ndim', 'size', 'copy', 'T', 'dtype'):
            if isinstance(o, (bool, int)): I.throw('AttributeError', "'int' object has no attribute '%s'" % name)
    if hasattr(o, 'vc_attr'): return o.vc_attr(I, name)
    if isinstance(o, Opaque): return Opaque(o.name + '.' + name)
    if isinstance(o, SetV):
        if name == 'add':
            def f(I, a, k):
                if not any(L.compare(I, 'Eq', x, a[0]) is True for x in o.d['items']): I.put(o, 'items', o.d['items'] + (a[0],))
            return Builtin('set.add', f)
        raise Unsupported('set.%s' % name)
    if isinstance(o, tuple):
        if name in ('index', 'count'): return list_method(I, ListV(o), name)
    if isinstance(o, FuncV):
        if name == '__name__': return o.name
        if name == '__doc__': return None
    if isinstance(o, BoundV) and name == '__name__': return o.fn.name
    if isinstance(o, L.RangeSeq): raise Unsupported('range.%s' % name)
    I.throw('AttributeError', "'%s' object has no attribute '%s'" % (type_of_name(o), name))


def set_attr(I, o, name, v):
    if isinstance(o, ArrV):
        if name == 'shape':
            r = A.reshape(I, o, L.unpack(I, v, None))
            raise Unsupported('shape assignment')
    if hasattr(o, 'vc_setattr'): return o.vc_setattr(I, name, v)
    I.throw('AttributeError', "'%s' object has no attribute '%s'" % (type_of_name(o), name))


def enter(I, cm):
    if hasattr(cm, 'vc_enter'): return cm.vc_enter(I)
    if isinstance(cm, InstV): return I.call(I.getattr(cm, '__enter__'), [], {})
    raise Unsupported('context manager %r' % (cm,))


def exit(I, cm):
    if hasattr(cm, 'vc_exit'): return cm.vc_exit(I)
    if isinstance(cm, InstV): return I.call(I.getattr(cm, '__exit__'), [None, None, None], {})


def opaque_call(I, f, args, kw):
    h = I.contracts.get(f.name)
    if h is not None:
        I.trusted.add(f.name)
        return h(I, args, kw)
    raise Unsupported('call of unmodelled %s' % f.name)


# ------------------------------------------------------------------ builtins
EXC = {'BaseException': None, 'Exception': 'BaseException', 'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError',
       'OverflowError': 'ArithmeticError', 'FloatingPointError': 'ArithmeticError',
       'LookupError': 'Exception', 'IndexError': 'LookupError', 'KeyError': 'LookupError', 'ValueError': 'Exception',
       'UnicodeError': 'ValueError', 'UnicodeDecodeError': 'UnicodeError', 'TypeError': 'Exception', 'AttributeError': 'Exception', 'NameError': 'Exception',
       'UnboundLocalError': 'NameError', 'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError', 'RuntimeError': 'Exception',
       'NotImplementedError': 'RuntimeError', 'OSError': 'Exception', 'IOError': 'OSError', 'FileNotFoundError': 'OSError', 'PermissionError': 'OSError',
       'AssertionError': 'Exception', 'StopIteration': 'Exception', 'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
       'Warning': 'Exception', 'UserWarning': 'Warning', 'DeprecationWarning': 'Warning', 'RuntimeWarning': 'Warning', 'EOFError': 'Exception', 'MemoryError': 'Exception'}


def native_class(name, bases, ctor):
    c = ClassV({})
    c.name, c.bases, c.native = name, list(bases), ctor
    from .interp import _mro
    c.mro = _mro(c)
    return c


def make_builtins(I):
    b = {}
    obj = native_class('object', [], lambda I, c, a, k: _mkinst(c))
    obj.d['__init__'] = Builtin('object.__init__', lambda I, a, k: None)
    b['object'] = obj
    def exc_ctor(I, c, a, k):
        e = InstV({'args': tuple(a)})
        e.cls = c
        return e
    def exc_str(I, a, k):
        ar = a[0].d.get('args', ())
        if len(ar) == 1: return L.py_str(I, ar[0])
        return ''
    for nm, base in EXC.items():
        b[nm] = native_class(nm, [b[base]] if base else [], exc_ctor)
        if not base:
            b[nm].d['__str__'] = Builtin('exc.__str__', exc_str)
            def exc_init(I, a, k):
                I.put(a[0], 'args', tuple(a[1:]))
            b[nm].d['__init__'] = Builtin('exc.__init__', exc_init)

    def c_int(I, c, a, k):
        if not a: return 0
        v = L.norm(a[0])
        if L.isstr(v): return parse_int(I, v)
        if isinstance(v, ArrV): v = A.np_ravel(I, v).get(0)
        if isinstance(v, Cplx) or not L.isscalar(v): I.throw('TypeError', 'int() argument')
        return A.trunc(v)
    def c_float(I, c, a, k):
        if not a: return t.const(0, 'R')
        v = L.norm(a[0])
        if L.isstr(v): return parse_float(I, v)
        if isinstance(v, ArrV):
            if dense_size(v.shape) != 1: I.throw('TypeError', 'only length-1 arrays can be converted')
            v = v.get(*[0] * v.ndim)
        if isinstance(v, Cplx) or not L.isscalar(v): I.throw('TypeError', 'float() argument must be a string or a real number')
        return t.toreal(L.num(v))
    def c_str(I, c, a, k): return L.py_str(I, a[0]) if a else ''
    def c_bool(I, c, a, k): return L.truthval(I, a[0]) if a else False
    def c_list(I, c, a, k):
        if not a: return ListV()
        v = a[0]
        s = L.iterate(I, v)
        if isinstance(s, L.RangeSeq): return ListV(SymSeq(t.T(s.n), lambda k: s.elem(k)))
        return ListV(s)
    def c_tuple(I, c, a, k): return tuple(L.unpack(I, a[0], None)) if a else ()
    def c_dict(I, c, a, k):
        d = DictV({})
        if a: dict_method(I, d, 'update').fn(I, [a[0]], {})
        d.d.update(k)
        return d
    def c_set(I, c, a, k): return L.make_set(I, L.unpack(I, a[0], None) if a else [])
    def c_complex(I, c, a, k):
        if len(a) == 2: return Cplx(L.num(a[0]), L.num(a[1]))
        return cplx(a[0] if isinstance(a[0], Cplx) else L.num(a[0]))
    b['int'] = native_class('int', [obj], c_int)
    b['float'] = native_class('float', [obj], c_float)
    b['str'] = native_class('str', [obj], c_str)
    b['bool'] = native_class('bool', [b['int']], c_bool)
    b['list'] = native_class('list', [obj], c_list)
    b['tuple'] = native_class('tuple', [obj], c_tuple)
    b['dict'] = native_class('dict', [obj], c_dict)
    b['set'] = native_class('set', [obj], c_set)
    b['complex'] = native_class('complex', [obj], c_complex)
    b['ndarray'] = native_class('ndarray', [obj], lambda I, c, a, k: A._unsup('ndarray()'))
    NoneT = native_class('NoneType', [obj], lambda I, c, a, k: None)
    FuncT = native_class('function', [obj], lambda I, c, a, k: A._unsup('function()'))
    TypeT = native_class('type', [obj], None)
    def c_type(I, c, a, k):
        v = a[0]
        if isinstance(v, InstV): return v.cls
        n = type_of_name(v)
        if n == 'NoneType': return NoneT
        if n in b: return b[n]
        if n == 'function': return FuncT
        raise Unsupported('type of %r' % (v,))
    TypeT.native = c_type
    b['type'] = TypeT
    b['True'], b['False'], b['None'] = True, False, None
    b['Ellipsis'] = Ellipsis
    b['NotImplemented'] = Opaque('NotImplemented')
    b['__name__'] = '__vc__'

    def reg(name):
        def d(fn):
            b[name] = Builtin(name, fn)
            return fn
        return d

    @reg('len')
    def _len(I, a, k): return L.seq_len(I, a[0])

    @reg('range')
    def _range(I, a, k): return make_range(I, a)

    def seqs(I, vs):
        ss = [L.iterate(I, v) for v in vs]
        return ss

    @reg('enumerate')
    def _enum(I, a, k):
        s = L.iterate(I, a[0])
        st = a[1] if len(a) > 1 else k.get('start', 0)
        if isinstance(s, L.RangeSeq): return L.RangeSeq(s.n, lambda j: (L.norm(t.add(t.T(j), t.T(st))), s.elem(j)), cuts=s.cuts)
        return ListV([(L.norm(t.add(t.T(j), t.T(st))), x) for j, x in enumerate(s)])

    @reg('zip')
    def _zip(I, a, k):
        ss = seqs(I, a)
        if not any(isinstance(s, L.RangeSeq) for s in ss): return ListV([tuple(x) for x in zip(*ss)])
        n = None
        for s in ss:
            m = t.T(s.n) if isinstance(s, L.RangeSeq) else t.T(len(s))
            if n is None or n is m: n = m
            elif I.decide(t.lt(m, n)): n = m
        el = [s.elem if isinstance(s, L.RangeSeq) else (lambda j, s=s: A.pick(j, s)) for s in ss]
        return L.RangeSeq(n, lambda j: tuple(e(j) for e in el))

    @reg('reversed')
    def _rev(I, a, k):
        s = L.iterate(I, a[0])
        if isinstance(s, L.RangeSeq): return L.RangeSeq(s.n, lambda j: s.elem(t.sub(t.sub(s.n, 1), t.T(j))))
        return ListV(list(reversed(s)))

    @reg('sorted')
    def _sorted(I, a, k): return ListV(sort_values(I, L.unpack(I, a[0], None), k))

    @reg('sum')
    def _sum(I, a, k):
        s = L.iterate(I, a[0])
        st = a[1] if len(a) > 1 else 0
        if isinstance(s, L.RangeSeq):
            return L.binop(I, 'Add', st, L.norm(t.ssum(s.n, lambda j: L.num(s.elem(j)))))
        for x in s: st = L.binop(I, 'Add', st, x)
        return st

    def minmax(name):
        op = 'Lt' if name == 'min' else 'Gt'
        def f(I, a, k):
            if len(a) == 1:
                if isinstance(a[0], ArrV): return I.call(I.getattr(I.import_module('numpy'), name), a, {})
                s = L.iterate(I, a[0])
                if isinstance(s, L.RangeSeq):
                    return L.extremum(I, name, s.n, s.elem)
            else: s = a
            if not s:
                if 'default' in k: return k['default']
                I.throw('ValueError', '%s() arg is an empty sequence' % name)
            kf = k.get('key')
            r = s[0]
            for x in s[1:]:
                p, q = (x, r) if kf is None else (I.call(kf, [x], {}), I.call(kf, [r], {}))
                c = L.compare(I, op, p, q)
                c = L.truthval(I, c)
                if isinstance(c, bool): r = x if c else r
                elif L.isnum(x) and L.isnum(r): r = t.ite(c, t.T(x), t.T(r))
                else: r = x if I.decide(c) else r
            return r
        b[name] = Builtin(name, f)
    minmax('min')
    minmax('max')

    @reg('abs')
    def _abs(I, a, k): return L.np_abs(I, a[0])

    @reg('round')
    def _round(I, a, k):
        return L.round_value(I, a[0], a[1] if len(a) > 1 else None)

    @reg('any')
    def _any(I, a, k):
        s = L.iterate(I, a[0])
        if isinstance(s, L.RangeSeq) and s.cuts is not None:
            parts = []
            for lo, cnt in s.cuts():
                if isinstance(cnt, int): parts += [t.B(L.truthval(I, s.elem(t.add(lo, q)))) for q in range(cnt)]
                else: parts.append(t.not_(t.forall(cnt, lambda j: t.not_(t.B(L.truthval(I, s.elem(t.add(lo, j))))))))
            return t.or_(*parts) if parts else False
        if isinstance(s, L.RangeSeq): return t.not_(t.forall(s.n, lambda j: t.not_(t.B(L.truthval(I, s.elem(j))))))
        out = False
        for x in s:
            c = L.truthval(I, x)
            if c is True: return True
            if c is not False: out = c if out is False else t.or_(out, c)
        return out

    @reg('all')
    def _all(I, a, k):
        s = L.iterate(I, a[0])
        if isinstance(s, L.RangeSeq): return t.forall(s.n, lambda j: t.B(L.truthval(I, s.elem(j))))
        out = True
        for x in s:
            c = L.truthval(I, x)
            if c is False: return False
            if c is not True: out = c if out is True else t.and_(out, c)
        return out

    @reg('map')
    def _map(I, a, k):
        if len(a) == 2:
            s = L.iterate(I, a[1])
            if isinstance(s, L.RangeSeq): return ListV(I.map_seq(s, lambda j: I.call(a[0], [s.elem(j)], {})))
            return ListV([I.call(a[0], [x], {}) for x in s])
        return ListV([I.call(a[0], list(x), {}) for x in zip(*[L.unpack(I, y, None) for y in a[1:]])])

    @reg('filter')
    def _filter(I, a, k):
        return ListV([x for x in L.unpack(I, a[1], None) if I.truth(x if a[0] is None else I.call(a[0], [x], {}))])

    @reg('eval')
    def _eval(I, a, k): raise Unsupported('eval of a non-literal string')

    @reg('isinstance')
    def _isinst(I, a, k):
        v, c = a
        cs = c if isinstance(c, tuple) else (c,)
        for c in cs:
            if isinstance(c, Opaque): raise Unsupported('isinstance with %r' % c)
            if isinstance(c, ClassV):
                if c is b['object']: return True
                if isinstance(v, InstV):
                    if c in v.cls.mro: return True
                    continue
                n = type_of_name(v)
                if n == c.name or n == 'bool' and c.name == 'int': return True
                if isinstance(v, ClassV) and c.name == 'type': return True
            elif isinstance(c, Builtin) and c.name in ('float64', 'float_'):
                if type_of_name(v) == 'float': raise Unsupported('float / numpy.float64 distinction')
            else: raise Unsupported('isinstance with %r' % (c,))
        return False

    @reg('issubclass')
    def _issub(I, a, k): return any(x in a[0].mro for x in (a[1] if isinstance(a[1], tuple) else (a[1],)))

    @reg('hasattr')
    def _has(I, a, k):
        try:
            I.getattr(a[0], a[1])
            return True
        except PyRaise as r:
            if I.exc_match(r.exc, b['AttributeError']): return False
            raise

    @reg('getattr')
    def _get(I, a, k):
        if not isinstance(a[1], str): raise Unsupported('getattr')
        try:
            return I.getattr(a[0], a[1])
        except PyRaise as r:
            if len(a) > 2 and I.exc_match(r.exc, b['AttributeError']): return a[2]
            raise

    @reg('setattr')
    def _set(I, a, k): I.setattr(a[0], a[1], a[2])

    @reg('callable')
    def _callable(I, a, k): return isinstance(a[0], (FuncV, BoundV, Builtin, ClassV))

    @reg('id')
    def _id(I, a, k): raise Unsupported('id')

    @reg('repr')
    def _repr(I, a, k): return L.py_repr(I, a[0])

    @reg('format')
    def _format(I, a, k): return L.format_value(I, a[0], a[1] if len(a) > 1 else '')

    @reg('print')
    def _print(I, a, k):
        out = []
        for j, x in enumerate(a):
            if j: out.append(k.get('sep', ' '))
            out.append(L.py_str(I, x))
        out.append(k.get('end', '\n'))
        f = k.get('file')
        if f is not None and hasattr(f, 'vc_write'): f.vc_write(I, L.sconcat(out))

    @reg('super')
    def _super(I, a, k):
        return SuperV(a[0], a[1])

    @reg('open')
    def _open(I, a, k): return L.open_file(I, a, k)

    @reg('iter')
    def _iter(I, a, k): return IterV(L.iterate(I, a[0]))

    @reg('next')
    def _next(I, a, k):
        if not isinstance(a[0], IterV): raise Unsupported('next')
        return a[0].next(I, a[1:] )

    @reg('divmod')
    def _divmod(I, a, k): return (L.binop(I, 'FloorDiv', *a), L.binop(I, 'Mod', *a))

    @reg('pow')
    def _pow(I, a, k): return L.binop(I, 'Pow', a[0], a[1])

    @reg('property')
    def _prop(I, a, k): return PropV(*a[:2])

    @reg('exit')
    def _exit(I, a, k): I.throw('SystemExit', *a)

    @reg('input')
    def _input(I, a, k):
        if 'input' not in I.contracts: raise Unsupported('input')
        return I.contracts['input'](I, a, k)

    @reg('locals')
    def _locals(I, a, k): raise Unsupported('locals')

    @reg('chr')
    def _chr(I, a, k): return chr(aint(L.num(a[0])))

    @reg('ord')
    def _ord(I, a, k): return ord(cstr(a[0]))

    @reg('slice')
    def _slice(I, a, k): return slice(*a)

    @reg('staticmethod')
    def _sm(I, a, k): return StaticV(a[0], 'staticmethod')

    @reg('classmethod')
    def _cm(I, a, k): return StaticV(a[0], 'classmethod')
    return b


def _mkinst(c):
    o = InstV({})
    o.cls = c
    return o


class IterV(Obj):
    def __init__(self, seq):
        Obj.__init__(self, {'pos': 0})
        self.seq = seq
    def vc_iter(self, I):
        if isinstance(self.seq, list): 
            r = self.seq[self.d['pos']:]
            I.put(self, 'pos', len(self.seq))
            return r
        raise Unsupported('iterator')
    def next(self, I, dflt):
        p = self.d['pos']
        if isinstance(self.seq, list):
            if p >= len(self.seq):
                if dflt: return dflt[0]
                I.throw('StopIteration')
            I.put(self, 'pos', p + 1)
            return self.seq[p]
        raise Unsupported('iterator')


class SuperV(object):
    vc_type = 'super'
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj
    def vc_attr(self, I, name):
        mro = self.obj.cls.mro if isinstance(self.obj, InstV) else self.obj.mro
        i = mro.index(self.cls)
        for k in mro[i + 1:]:
            if name in k.d:
                v = k.d[name]
                if isinstance(v, PropV): return I.call(v.fget, [self.obj], {})
                return I.bind(v, self.obj) if isinstance(self.obj, InstV) else v
        if name == '__init__': return Builtin('object.__init__', lambda I, a, k: None)
        I.throw('AttributeError', name)
