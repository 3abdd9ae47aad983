"""ndarray semantics: broadcasting, basic/advanced indexing, views, stores, products."""
import itertools
from fractions import Fraction
from . import terms as t
from . import prove as P
from .terms import Node
from .interp import (Unsupported, ListV, SymSeq, Cat, DictV, Buf, Dense, Lam, ArrV, View, Cplx, cplx, InstV, Opaque, Poison, SetV, MISSING,
                     new_array, full_view, aint, content_get, vite, dense_size)
from . import lib as L

DENSE_MAX = 20000


def same_dim(I, a, b):
    a, b = aint(a), aint(b)
    if a is b: return True
    if isinstance(a, int) and isinstance(b, int): return a == b
    return I.decide(t.eq(a, b))


def getter(v):
    """element function on the array's current content (later stores do not affect it)"""
    c = v.buf.d['content']
    specs = v.view.specs
    if isinstance(c, Dense) or isinstance(c, Lam):
        simple = all(s[0] == 'rng' and s[2] == 1 and isinstance(s[1], int) and s[1] == 0 for s in specs) and \
            [s[3] for s in specs] == list(range(len(v.view.shape)))
        if simple:
            return lambda *ix: content_get(c, ix)
    def g(*idx):
        bi = []
        for s in specs:
            if s[0] == 'fix': bi.append(s[1])
            else:
                i = idx[s[3]]
                if s[2] == 1 and isinstance(s[1], int) and s[1] == 0: bi.append(i)
                else: bi.append(t.add(s[1], t.mul(s[2], t.T(i))))
        return content_get(c, bi)
    return g


def nested_shape(I, v):
    """shape and accessor of nested lists/tuples/arrays"""
    if isinstance(v, ArrV):
        return tuple(v.shape), getter(v)
    if isinstance(v, (ListV, tuple)):
        it = v.items if isinstance(v, ListV) else v
        if isinstance(it, SymSeq):
            probe = it.fn(t.fresh('p', 'I'))
            sh, _ = nested_shape(I, probe)
            def g(k, *rest):
                return nested_shape(I, it.fn(t.T(k)))[1](*rest)
            return (aint(it.n),) + sh, g
        if isinstance(it, Cat): raise Unsupported('array of a list being built')
        subs = [nested_shape(I, x) for x in it]
        if not subs: return (0,), (lambda *ix: t.const(0, 'R'))
        sh = subs[0][0]
        for s, _ in subs[1:]:
            if len(s) != len(sh) or not all(same_dim(I, p, q) for p, q in zip(s, sh)):
                I.throw('ValueError', 'setting an array element with a sequence. The requested array has an inhomogeneous shape')
        def g(k, *rest):
            k = aint(k)
            if isinstance(k, int): return subs[k][1](*rest)
            r = subs[-1][1](*rest)
            for j in reversed(range(len(subs) - 1)): r = vite(t.eq(k, j), subs[j][1](*rest), r)
            return r
        return (len(subs),) + sh, g
    if isinstance(v, L.RangeSeq):
        return (aint(v.n),), (lambda k: v.elem(k))
    x = L.norm(v) if isinstance(v, Node) else v
    return (), (lambda *ix: x)


def cast(I, x, dtype):
    if dtype in (None, 'object'): return x
    if dtype == 'float':
        if isinstance(x, Cplx): return x.re
        if isinstance(x, (L.SStr, str)): return L.parse_float(I, x)
        if x is None: return NAN()
        return t.toreal(L.num(x)) if L.isscalar(x) else x
    if dtype == 'int':
        if isinstance(x, (L.SStr, str)): return L.parse_int(I, x)
        return trunc(x)
    if dtype == 'bool':
        return L.truthval(I, x)
    if dtype == 'complex':
        return x if isinstance(x, Cplx) else Cplx(L.num(x), t.const(0, 'R'))
    return x


def NAN(): return t.sym('nan')


def trunc(x):
    x = L.num(x)
    if x.sort == 'I': return L.norm(x)
    if x.op == 'const':
        q = t.cval(x)
        k = abs(q.numerator) // q.denominator
        return k if q >= 0 else -k
    return t.app('trunc', x, sort='I')


def as_array(I, v, dtype=None):
    if isinstance(v, ArrV) and (dtype is None or dtype == v.dtype): return v
    if isinstance(v, (InstV, Opaque, DictV, SetV)): raise Unsupported('array of %r' % (v,))
    if hasattr(v, 'vc_array'): return v.vc_array(I, dtype)
    sh, g = nested_shape(I, v)
    dt = dtype or L.dtype_of(v)
    if dt == 'str' and not dtype:
        return new_array(sh, g, 'str')
    h = (lambda *ix: cast(I, g(*ix), dt)) if (dtype or dt in ('float', 'complex')) else g
    return new_array(sh, h, dt)


def wrap0(I, a):
    """0-d results are numpy scalars"""
    return L.norm(a.get()) if isinstance(a, ArrV) and a.ndim == 0 else a


def bshape(I, shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        d = 1
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0: continue
            e = aint(s[j])
            if isinstance(e, int) and e == 1: continue
            if isinstance(d, int) and d == 1: d = e
            elif not same_dim(I, d, e):
                I.throw('ValueError', 'operands could not be broadcast together')
            elif isinstance(e, int): d = e
        out.append(d)
    return tuple(out)


def bget(a, nd):
    g = getter(a)
    off = nd - a.ndim
    ones = [isinstance(aint(s), int) and aint(s) == 1 for s in a.shape]
    return lambda *ix: g(*[0 if o else ix[off + k] for k, o in enumerate(ones)])


def broadcast(I, f, arrs, dtype='float'):
    sh = bshape(I, [a.shape for a in arrs])
    nd = len(sh)
    gs = [bget(a, nd) for a in arrs]
    return wrap0(I, new_array(sh, lambda *ix: f(*[g(*ix) for g in gs]), dtype))


def map_array(I, f, a, dtype=None):
    g = getter(a)
    return wrap0(I, new_array(a.shape, lambda *ix: f(g(*ix)), dtype or a.dtype))


def copy_array(I, a, dtype=None):
    g = getter(a)
    if dtype and dtype != a.dtype:
        return new_array(a.shape, lambda *ix: cast(I, g(*ix), dtype), dtype)
    return new_array(a.shape, g, a.dtype)


# ------------------------------------------------------------------ indexing
def index_value(I, k, n, what='index', check=True):
    """normalise an integer index into [0, n); obligation or IndexError"""
    k, n = aint(L.num(k)), aint(n)
    if isinstance(k, Node) and k.sort == 'R':
        I.throw('IndexError', 'only integers, slices, ellipsis and integer arrays are valid indices')
    if isinstance(k, int):
        if isinstance(n, int):
            if not -n <= k < n: I.throw('IndexError', 'index %d is out of bounds for size %d' % (k, n))
            return k + n if k < 0 else k
        if k < 0:
            if check: bounds(I, t.ge(n, -k), t.T(n))
            return aint(t.add(n, k))
        if check: bounds(I, t.lt(k, n), t.T(n))
        return k
    if not check: return k
    c = t.and_(t.ge(k, 0), t.lt(k, n))
    if P.decide(c, I.pc) is True: return k
    if P.decide(t.lt(k, 0), I.pc) is True:
        bounds(I, t.ge(k, t.mul(-1, n)), t.T(n))
        return aint(t.add(k, n))
    bounds(I, c, t.T(n))
    return k


def bounds(I, c, n=None):
    v = P.decide(c, I.pc)
    if v is True: return
    if v is False: I.throw('IndexError', 'index out of bounds')
    if I.split_bounds or n is not None and n.op == 'sym' and n.args[0].startswith('sel!'):     # a mask may select nothing
        if not I.decide(c): I.throw('IndexError', 'index out of bounds')
        return
    I.oblige('definedness: index within bounds', c)


def slice_spec(I, s, n):
    """(start, step, length) of a slice on a dimension n"""
    n = aint(n)
    f = lambda x: None if x is None else aint(L.num(x))
    a, b, st = f(s.start), f(s.stop), f(s.step)
    if isinstance(n, int) and all(x is None or isinstance(x, int) for x in (a, b, st)):
        i0, i1, i2 = slice(a, b, st).indices(n)
        return i0, i2, len(range(i0, i1, i2))
    st = 1 if st is None else st
    if not isinstance(st, int): raise Unsupported('symbolic slice step')
    if st == -1 and a is None and b is None:
        return t.sub(n, 1), -1, n
    if st < 1: raise Unsupported('negative slice step')
    def clip(x, default):
        if x is None: return default
        if isinstance(x, int) and x < 0: x = t.add(n, x)
        x = t.T(x)
        if P.decide(t.ge(x, 0), I.pc) is not True:
            if I.decide(t.lt(x, 0)): return 0
        if P.decide(t.le(x, n), I.pc) is not True:
            if not I.decide(t.le(x, n)): return n
        return aint(x)
    i0, i1 = clip(a, 0), clip(b, n)
    ln = t.sub(i1, i0)
    if P.decide(t.ge(ln, 0), I.pc) is not True:
        if I.decide(t.lt(ln, 0)): return i0, st, 0
    if st != 1:
        c = aint(ln)
        if isinstance(c, int): return i0, st, len(range(0, c, st))
        return i0, st, aint(t.idiv(t.add(ln, st - 1), t.const(st)))
    return i0, 1, aint(ln)


def expand_keys(I, v, keys):
    n = sum(1 for k in keys if k is not None and k is not Ellipsis and not (isinstance(k, ArrV) and k.dtype == 'bool' and k.ndim > 1))
    n += sum(k.ndim for k in keys if isinstance(k, ArrV) and k.dtype == 'bool' and k.ndim > 1)
    if n > v.ndim: I.throw('IndexError', 'too many indices for array')
    out = []
    seen = False
    for k in keys:
        if k is Ellipsis:
            out += [slice(None)] * (v.ndim - n)
            seen = True
        else: out.append(k)
    if not seen: out += [slice(None)] * (v.ndim - n)
    return out


def is_adv(k):
    return isinstance(k, (ArrV, ListV)) or isinstance(k, tuple) or isinstance(k, bool)


def index_array(I, v, keys, check=True):
    keys = expand_keys(I, v, list(keys))
    if any(is_adv(k) for k in keys):
        if any(isinstance(k, ArrV) and k.ndim == 0 for k in keys):
            keys = [k.get() if isinstance(k, ArrV) and k.ndim == 0 else k for k in keys]
            if not any(is_adv(k) for k in keys): return index_array(I, v, keys, check)
        return adv_index(I, v, keys)
    specs, shape = basic_view(I, v, keys, check)
    if not shape and all(k is not Ellipsis for k in keys):
        bi = [s[1] for s in specs]
        return L.norm(content_get(v.buf.d['content'], bi))
    return ArrV(v.buf, View(specs, shape), v.dtype)


def basic_view(I, v, keys, check=True):
    d = 0
    shape = []
    dimmap = {}
    for k in keys:
        if k is None:
            shape.append(1)
        elif isinstance(k, slice):
            st, sp, ln = slice_spec(I, k, v.shape[d])
            dimmap[d] = ('rng', st, sp, len(shape))
            shape.append(ln)
            d += 1
        elif L.isnum(k) or isinstance(k, bool):
            dimmap[d] = ('fix', index_value(I, k, v.shape[d], check=check))
            d += 1
        else:
            I.throw('IndexError', 'invalid index')
    specs = []
    for s in v.view.specs:
        if s[0] == 'fix':
            specs.append(s)
            continue
        m = dimmap[s[3]]
        if m[0] == 'fix':
            specs.append(('fix', aint(t.add(s[1], t.mul(s[2], m[1])))))
        else:
            specs.append(('rng', aint(t.add(s[1], t.mul(s[2], m[1]))), s[2] * m[2], m[3]))
    return specs, tuple(aint(x) for x in shape)


def mask_indices(I, m):
    """positions of True of a 1-d/nd boolean mask of concrete size (splits paths)"""
    if dense_size(m.shape) is None: raise Unsupported('boolean mask of symbolic length')
    out = []
    for ix in itertools.product(*[range(s) for s in m.shape]):
        if I.truth(m.get(*ix)): out.append(ix)
    return out


def mask_select(I, m):
    """positions of True of a 1-d mask of symbolic length: sel(0) < ... < sel(N-1).  Axioms: every selected
    position is in range and satisfies the mask (added where it is used); select_complete: every position
    that satisfies the mask is selected."""
    n = m.shape[0]
    g = getter(m)
    def cond(j):
        c, I.check_defined = I.check_defined, False     # only used under 0 <= j < n
        try: return t.B(g(j))
        finally: I.check_defined = c
    key = ('select', n if isinstance(n, int) else n.id, cond(t.sym('ix!0', 'I')).id)
    if key not in I.memo: I.memo[key] = t.fresh('sel').args[0]
    nm = I.memo[key]
    I.memo[nm] = (cond, n)
    N = t.sym(nm + 'n', 'I')
    def have(c):
        if not any(c is x for x in I.pc): I.assume(c)
    have(t.ge(N, 0)); have(t.le(N, t.T(n)))
    def fn(k):
        k = t.T(k)
        s = t.app(nm, k, sort='I')
        have(t.or_(t.lt(k, 0), t.ge(k, N), t.and_(t.ge(s, 0), t.lt(s, t.T(n)), cond(s))))
        return s
    return new_array((N,), fn, 'int')


def select_complete(I, nm, j, rewrite=lambda c: c):
    """axiom instance: position j satisfies the mask => it is selected, at some place of the result"""
    cond, n = I.memo[nm]
    inv, N = t.app(nm + 'inv', j, sort='I'), t.sym(nm + 'n', 'I')
    I.assume(t.or_(t.lt(j, 0), t.ge(j, t.T(n)), t.not_(rewrite(cond(j))),
                   t.and_(t.ge(inv, 0), t.lt(inv, N), t.eq(t.app(nm, inv, sort='I'), j))))
    return inv


def adv_index(I, v, keys):
    if len(keys) == 1 and isinstance(keys[0], ArrV) and keys[0].dtype == 'bool' and keys[0].ndim == v.ndim and v.ndim > 1:
        pos = mask_indices(I, keys[0])
        g = getter(v)
        return new_array((len(pos),), lambda k: pick(k, [g(*p) for p in pos]), v.dtype)
    adv, inrange = [], set()        # inrange: positions of a mask, in range by construction
    for j, k in enumerate(keys):
        if is_adv(k):
            a = as_array(I, k)
            if a.dtype == 'bool':
                if a.ndim != 1: raise Unsupported('boolean mask with other indices')
                if not same_dim(I, a.shape[0], v.shape[j]): I.throw('IndexError', 'boolean index did not match')
                if dense_size(a.shape) is None:
                    a = mask_select(I, a)
                    inrange.add(j)
                else:
                    pos = [p[0] for p in mask_indices(I, a)]
                    a = new_array((len(pos),), lambda k, pos=pos: pick(k, pos), 'int')
            elif a.dtype != 'int':
                if dense_size(a.shape) == 0: a = new_array(a.shape, lambda *ix: 0, 'int')
                else: I.throw('IndexError', 'arrays used as indices must be of integer (or boolean) type')
            adv.append((j, a))
    if any(k is None for k in keys): raise Unsupported('newaxis with advanced index')
    ints = [j for j, k in enumerate(keys) if L.isnum(k) and not is_adv(k)]
    for j in ints:
        adv.append((j, as_array(I, keys[j])))
    adv.sort(key=lambda p: p[0])
    pos = [j for j, _ in adv]
    if pos != list(range(pos[0], pos[-1] + 1)): raise Unsupported('separated advanced indices')
    ash = bshape(I, [a.shape for _, a in adv])
    nd = len(ash)
    gs = [(j, bget(a, nd)) for j, a in adv]
    pre = [(j, slice_spec(I, k, v.shape[j])) for j, k in enumerate(keys) if j < pos[0]]
    post = [(j, slice_spec(I, k, v.shape[j])) for j, k in enumerate(keys) if j > pos[-1]]
    shape = [s[2] for _, s in pre] + list(ash) + [s[2] for _, s in post]
    g = getter(v)
    def fn(*ix):
        full = [None] * len(keys)
        for m, (j, s) in enumerate(pre): full[j] = t.add(s[0], t.mul(s[1], t.T(ix[m])))
        ai = ix[len(pre):len(pre) + nd]
        for j, h in gs: full[j] = h(*ai) if j in inrange else index_value(I, h(*ai), v.shape[j])
        for m, (j, s) in enumerate(post): full[j] = t.add(s[0], t.mul(s[1], t.T(ix[len(pre) + nd + m])))
        return g(*full)
    return wrap0(I, new_array(shape, fn, v.dtype))


def pick(k, vals):
    k = aint(k)
    if isinstance(k, int): return vals[k]
    r = vals[-1]
    for j in reversed(range(len(vals) - 1)): r = vite(t.eq(k, j), vals[j], r)
    return r


# --------------------------------------------------------------------- stores
def assign_array(I, target, value):
    """target[...] = value (in place, through the view)"""
    if L.isscalar(value) or isinstance(value, (str, L.SStr)) or value is None or isinstance(value, (ListV, tuple, ArrV, L.RangeSeq)):
        value = as_array(I, value)
    else:
        raise Unsupported('array store of %r' % (value,))
    va, sh = value, target.shape
    vs = list(va.shape)
    while len(vs) > len(sh) and aint(vs[0]) == 1: vs.pop(0)
    if len(vs) > len(sh): I.throw('ValueError', 'could not broadcast input array')
    drop = va.ndim - len(vs)
    for k, e in enumerate(vs):
        s = sh[len(sh) - len(vs) + k]
        if aint(e) == 1: continue
        if not same_dim(I, e, s): I.throw('ValueError', 'could not broadcast input array from shape')
    g0 = getter(va)
    off = len(sh) - len(vs)
    def vget(*ix):
        x = g0(*([0] * drop + [0 if aint(e) == 1 else ix[off + k] for k, e in enumerate(vs)]))
        return cast(I, x, target.dtype)
    store(I, target, vget)


def store(I, target, vget):
    buf, view = target.buf, target.view
    c = buf.d['content']
    specs = view.specs
    conc = isinstance(c, Dense) and all(isinstance(aint(s[1]), int) for s in specs) and dense_size(view.shape) is not None
    if conc:
        data = list(c.data)
        for ix in itertools.product(*[range(s) for s in view.shape]):
            p = 0
            for s, st in zip(specs, c.strides):
                e = aint(s[1]) if s[0] == 'fix' else aint(s[1]) + s[2] * ix[s[3]]
                p += e * st
            data[p] = vget(*ix)
        I.put(buf, 'content', Dense(c.shape, data))
        return
    nd = len(view.shape)
    used = [s[3] for s in specs if s[0] == 'rng']
    def fn(*bi):
        conds = []
        ix = [0] * nd
        for d, s in enumerate(specs):
            b = t.T(bi[d])
            if s[0] == 'fix':
                conds.append(t.eq(b, s[1]))
            else:
                st, sp, n = s[1], s[2], view.shape[s[3]]
                if sp == 1:
                    j = t.sub(b, st)
                elif sp == -1:
                    j = t.sub(st, b)
                else:
                    raise Unsupported('strided store into a symbolic array')
                ix[s[3]] = aint(j)
                if not (sp == 1 and aint(st) == 0 and aint(n) is aint(c.shape[d])) and not (sp == -1 and aint(t.sub(n, c.shape[d])) == 0 and aint(t.sub(st, t.sub(n, 1))) == 0):
                    conds.append(t.ge(j, 0))
                    conds.append(t.lt(j, n))
        cond = t.and_(*conds)
        if cond is t.FALSE: return content_get(c, bi)
        new = vget(*ix)
        if cond is t.TRUE: return new
        return vite(cond, new, content_get(c, bi))
    if isinstance(c, Dense) and dense_size(c.shape) is not None and dense_size(c.shape) <= 4096:
        I.put(buf, 'content', Dense(c.shape, [fn(*ix) for ix in itertools.product(*[range(s) for s in c.shape])]))
    else:
        I.put(buf, 'content', Lam(c.shape, fn))


def setitem_array(I, o, keys, val):
    keys = expand_keys(I, o, list(keys))
    if any(is_adv(k) for k in keys):
        keys = [k.get() if isinstance(k, ArrV) and k.ndim == 0 else k for k in keys]
    if any(is_adv(k) for k in keys):
        if len(keys) == 1 and isinstance(keys[0], ArrV) and keys[0].dtype == 'bool':
            m = keys[0]
            if m.ndim != o.ndim: raise Unsupported('mask store')
            if isinstance(val, (ArrV, ListV, tuple)) and not (isinstance(val, ArrV) and val.ndim == 0):
                pos = mask_indices(I, m)
                va = as_array(I, val)
                for q, p in enumerate(pos):
                    setitem_array(I, o, p, va.get(*((q,) if va.shape[0] != 1 else (0,))))
                return
            gm, go = getter(m), getter(o)
            x = cast(I, val, o.dtype)
            store(I, o, lambda *ix: vite(t.B(gm(*ix)), x, go(*ix)))
            return
        arrs = [as_array(I, k) if is_adv(k) else None for k in keys]
        advp = [j for j, a in enumerate(arrs) if a is not None]
        if all(dense_size(arrs[j].shape) is not None for j in advp):
            arrs = [None if a is None else (a if a.dtype != 'bool' else as_array(I, ListV([p[0] for p in mask_indices(I, a)]))) for a in arrs]
            sh = bshape(I, [arrs[j].shape for j in advp])
            va = as_array(I, val)
            if va.ndim > len(sh): raise Unsupported('advanced store')
            gv = bget(va, len(sh)) if va.ndim else None
            for ix in itertools.product(*[range(s) for s in sh]):
                kk = [k if a is None else bget(a, len(sh))(*ix) for k, a in zip(keys, arrs)]
                setitem_array(I, o, kk, gv(*ix) if gv else va.get())
            return
        raise Unsupported('advanced store with symbolic index array')
    specs, shape = basic_view(I, o, keys)
    tv = ArrV(o.buf, View(specs, shape), o.dtype)
    if not shape:
        if isinstance(val, ArrV):
            n = dense_size(val.shape)
            if n == 1: val = val.get(*[0] * val.ndim)
            else: I.throw('ValueError', 'setting an array element with a sequence.')
        elif isinstance(val, (ListV, tuple)):
            I.throw('ValueError', 'setting an array element with a sequence.')
        elif isinstance(val, Cplx) and o.dtype == 'float':
            val = val.re
        x = cast(I, val, o.dtype)
        store(I, tv, lambda: x)
        return
    assign_array(I, tv, val)


# ------------------------------------------------------------------- products
def asum(I, n, f):
    n = aint(n)
    if isinstance(n, int):
        r = t.const(0)
        acc = [f(k) for k in range(n)]
        if any(isinstance(x, Cplx) for x in acc):
            r = Cplx(0, 0)
            for x in acc: r = L.cplx_binop(I, 'Add', r, cplx(x))
            return r
        return t.add(*([r] + [L.num(x) for x in acc])) if acc else t.const(0, 'R')
    return t.ssum(n, lambda k: L.num(f(k)))


def np_matmul(I, a, b):
    a, b = as_array(I, a), as_array(I, b)
    if a.ndim == 0 or b.ndim == 0: return L.binop(I, 'Mult', wrap0(I, a), wrap0(I, b))
    ga, gb = getter(a), getter(b)
    mul = lambda x, y: L.scalar_binop(I, 'Mult', x, y)
    dt = L.result_dtype('Mult', a, b)
    kb = 0 if b.ndim == 1 else b.ndim - 2
    if not same_dim(I, a.shape[-1], b.shape[kb]): I.throw('ValueError', 'shapes not aligned')
    n = a.shape[-1]
    if a.ndim == 1 and b.ndim == 1:
        return L.norm(asum(I, n, lambda k: mul(ga(k), gb(k))))
    pre, post = a.shape[:-1], tuple(s for j, s in enumerate(b.shape) if j != kb)
    na = len(pre)
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported('matmul of stacked arrays')
    def fn(*ix):
        l, r = ix[:na], ix[na:]
        return asum(I, n, lambda k: mul(ga(*(l + (k,))), gb(*(r[:kb] + (k,) + r[kb:]))))
    return wrap0(I, new_array(pre + post, fn, dt))


def np_dot(I, a, b):
    a, b = as_array(I, a), as_array(I, b)
    if a.ndim <= 2 and b.ndim <= 2: return np_matmul(I, a, b)
    ga, gb = getter(a), getter(b)
    mul = lambda x, y: L.scalar_binop(I, 'Mult', x, y)
    kb = 0 if b.ndim == 1 else b.ndim - 2
    if not same_dim(I, a.shape[-1], b.shape[kb]): I.throw('ValueError', 'shapes not aligned')
    n = a.shape[-1]
    pre, post = a.shape[:-1], tuple(s for j, s in enumerate(b.shape) if j != kb)
    na = len(pre)
    return wrap0(I, new_array(pre + post, lambda *ix: asum(I, n, lambda k: mul(ga(*(ix[:na] + (k,))), gb(*(ix[na:][:kb] + (k,) + ix[na:][kb:])))), L.result_dtype('Mult', a, b)))


def np_ravel(I, a):
    if a.ndim == 1: return a
    return reshape(I, a, (-1,))


def reshape(I, a, shape):
    shape = [aint(L.num(s)) for s in shape]
    src = [aint(s) for s in a.shape]
    n = dense_size(src)
    if -1 in [s for s in shape if isinstance(s, int)]:
        k = [j for j, s in enumerate(shape) if isinstance(s, int) and s == -1][0]
        rest = [s for j, s in enumerate(shape) if j != k]
        r = dense_size(rest)
        if n is not None and r is not None:
            if r == 0 or n % r: I.throw('ValueError', 'cannot reshape')
            shape[k] = n // r
        else:
            # symbolic: -1 must stand for exactly one source dimension
            rem = list(src)
            for s in rest:
                for j, x in enumerate(rem):
                    if x is s or (isinstance(x, int) and isinstance(s, int) and x == s):
                        rem.pop(j)
                        break
                else:
                    if isinstance(s, int) and s == 1: continue
                    raise Unsupported('reshape of symbolic array')
            shape[k] = rem[0] if len(rem) == 1 else aint(t.mul(*rem)) if rem else 1
    if n is not None:
        m = dense_size(shape)
        if m != n: I.throw('ValueError', 'cannot reshape array of size %s' % n)
    g = getter(a)
    # strides
    def lin(shape_, ix):
        r = t.const(0)
        for s, i in zip(shape_, ix): r = t.add(t.mul(r, t.T(s)), t.T(i))
        return r
    drop1 = lambda s: [x for x in s if not (isinstance(x, int) and x == 1)]
    if [x if isinstance(x, int) else x.id for x in drop1(src)] == [x if isinstance(x, int) else x.id for x in drop1(shape)]:
        pos = [j for j, x in enumerate(shape) if not (isinstance(x, int) and x == 1)]
        def fn(*ix):
            out, p = [], 0
            for x in src:
                if isinstance(x, int) and x == 1: out.append(0)
                else:
                    out.append(ix[pos[p]]); p += 1
            return g(*out)
        specs = None
        # keep it a view when possible
        vm = {}
        p = 0
        for j, x in enumerate(src):
            if not (isinstance(x, int) and x == 1):
                vm[j] = pos[p]; p += 1
        sp = []
        for s in a.view.specs:
            if s[0] == 'fix': sp.append(s)
            elif s[3] in vm: sp.append(('rng', s[1], s[2], vm[s[3]]))
            else: sp.append(('fix', s[1]))
        return ArrV(a.buf, View(sp, tuple(shape)), a.dtype)
    def div_mod(l, d):
        l, d = t.T(l), t.T(d)
        if l.op == 'const' and d.op == 'const': return int(t.cval(l)) // int(t.cval(d)), int(t.cval(l)) % int(t.cval(d))
        return t.idiv(l, d), t.imod(l, d)
    def fn(*ix):
        l = lin(shape, ix)
        out = []
        for s in reversed(src[1:]):
            l, r = div_mod(l, s)
            out.append(r)
        out.append(l)
        return g(*reversed(out))
    return new_array(tuple(shape), fn, a.dtype)


def transpose(I, a, axes=None):
    nd = a.ndim
    axes = list(reversed(range(nd))) if axes is None else [int(x) % nd for x in axes]
    inv = {ax: k for k, ax in enumerate(axes)}
    specs = [s if s[0] == 'fix' else ('rng', s[1], s[2], inv[s[3]]) for s in a.view.specs]
    return ArrV(a.buf, View(specs, tuple(a.shape[x] for x in axes)), a.dtype)


def reduce_axis(I, a, axis, f, dtype=None):
    """f(n, getter)->value along axis (or the whole array)"""
    a = as_array(I, a)
    g = getter(a)
    if axis is None:
        if a.ndim == 1: return L.norm(f(a.shape[0], g))
        if a.ndim == 0: return a.get()
        n = dense_size(a.shape)
        if n is not None:
            flat = list(itertools.product(*[range(s) for s in a.shape]))
            return L.norm(f(n, lambda k: pick(k, [g(*p) for p in flat]) if not isinstance(aint(k), int) else g(*flat[aint(k)])))
        return f.nested(I, a, g) if hasattr(f, 'nested') else _unsup('reduction over a symbolic n-d array')
    if isinstance(axis, tuple):
        for ax in sorted([int(x) % a.ndim for x in axis], reverse=True):
            a = as_array(I, reduce_axis(I, a, ax, f, dtype))
        return wrap0(I, a)
    axis = aint(L.num(axis)) % a.ndim
    sh = a.shape[:axis] + a.shape[axis + 1:]
    return wrap0(I, new_array(sh, lambda *ix: f(a.shape[axis], lambda k: g(*(ix[:axis] + (k,) + ix[axis:]))), dtype or a.dtype))


def _unsup(m): raise Unsupported(m)


class SumF(object):
    def __init__(self, I): self.I = I
    def __call__(self, n, g): return asum(self.I, n, g)
    def nested(self, I, a, g):
        def rec(d, ix):
            if d == a.ndim: return L.num(g(*ix))
            return asum(I, a.shape[d], lambda k: rec(d + 1, ix + (k,)))
        return L.norm(rec(0, ()))


# -------------------------------------------------- generic getitem / setitem
def getitem(I, o, k):
    if isinstance(o, Poison): raise Unsupported(o.why)
    if isinstance(o, ArrV):
        return index_array(I, o, k if isinstance(k, tuple) else (k,))
    if isinstance(o, DictV):
        if getattr(o, 'vc_default', None): pass
        kk = L.key(I, k)
        if kk not in o.d: I.throw('KeyError', kk)
        v = o.d[kk]
        if isinstance(v, Poison): raise Unsupported('%s: %s' % (kk, v.why))
        return v
    if isinstance(o, (ListV, tuple)):
        it = o.items if isinstance(o, ListV) else o
        if isinstance(k, slice):
            if isinstance(it, tuple):
                f = lambda x: None if x is None else aint(L.num(x))
                b = [f(k.start), f(k.stop), f(k.step)]
                if all(x is None or isinstance(x, int) for x in b):
                    r = it[slice(*b)]
                    return ListV(r) if isinstance(o, ListV) else r
                raise Unsupported('symbolic slice of a list')
            if isinstance(it, SymSeq):
                st, sp, ln = slice_spec(I, k, it.n)
                return ListV(SymSeq(t.T(ln), lambda j: it.fn(t.add(st, t.mul(sp, t.T(j))))))
            raise Unsupported('slice of a list being built')
        if isinstance(k, (ArrV,)) and k.ndim == 0: k = k.get()
        if not L.isscalar(k): I.throw('TypeError', 'list indices must be integers or slices, not %s' % L.type_of_name(k))
        if isinstance(k, Node) and k.sort == 'R' or isinstance(k, (float, Fraction)): I.throw('TypeError', 'list indices must be integers')
        if isinstance(it, tuple):
            i = aint(L.num(k))
            if isinstance(i, int):
                if not -len(it) <= i < len(it): I.throw('IndexError', 'list index out of range')
                v = it[i]
            else:
                i = index_value(I, i, len(it))
                v = pick_any(I, i, it)
        elif isinstance(it, SymSeq):
            i = index_value(I, k, it.n)
            v = it.fn(t.T(i))
        else: raise Unsupported('index of a list being built')
        if isinstance(v, Poison): raise Unsupported(v.why)
        return L.norm(v)
    if isinstance(o, str):
        if isinstance(k, slice):
            f = lambda x: None if x is None else aint(L.num(x))
            b = [f(k.start), f(k.stop), f(k.step)]
            if all(x is None or isinstance(x, int) for x in b): return o[slice(*b)]
            raise Unsupported('symbolic slice of a string')
        i = aint(L.num(k))
        if not isinstance(i, int): raise Unsupported('symbolic string index')
        if not -len(o) <= i < len(o): I.throw('IndexError', 'string index out of range')
        return o[i]
    if isinstance(o, L.SStr): return L.sstr_getitem(I, o, k)
    if isinstance(o, L.RangeSeq):
        return o.elem(index_value(I, k, o.n))
    if isinstance(o, InstV):
        c = I.class_attr(o.cls, '__getitem__')
        if c is not MISSING: return I.call(c, [o, k], {})
        I.throw('TypeError', "'%s' object is not subscriptable" % o.cls.name)
    if hasattr(o, 'vc_getitem'): return o.vc_getitem(I, k)
    if isinstance(o, Opaque): raise Unsupported('subscript of %r' % o)
    I.throw('TypeError', "'%s' object is not subscriptable" % L.type_of_name(o))


def pick_any(I, i, items):
    for j in range(len(items) - 1):
        if I.decide(t.eq(i, j)): return items[j]
    return items[-1]


def setitem(I, o, k, v):
    if isinstance(o, ArrV):
        return setitem_array(I, o, k if isinstance(k, tuple) else (k,), v)
    if isinstance(o, DictV):
        I.put(o, L.key(I, k), v)
        return
    if isinstance(o, ListV):
        it = o.items
        if isinstance(it, tuple):
            if isinstance(k, slice):
                l = list(it)
                f = lambda x: None if x is None else aint(L.num(x))
                l[slice(f(k.start), f(k.stop), f(k.step))] = L.unpack(I, v, None)
                I.put(o, 'items', tuple(l))
                return
            i = aint(L.num(k))
            if not isinstance(i, int): raise Unsupported('list store at symbolic index')
            if not -len(it) <= i < len(it): I.throw('IndexError', 'list assignment index out of range')
            l = list(it)
            l[i] = v
            I.put(o, 'items', tuple(l))
            return
        raise Unsupported('store into a symbolic list')
    if isinstance(o, InstV):
        c = I.class_attr(o.cls, '__setitem__')
        if c is not MISSING:
            I.call(c, [o, k, v], {})
            return
    if hasattr(o, 'vc_setitem'): return o.vc_setitem(I, k, v)
    I.throw('TypeError', "'%s' object does not support item assignment" % L.type_of_name(o))


def delitem(I, o, k):
    if isinstance(o, DictV):
        kk = L.key(I, k)
        if kk not in o.d: I.throw('KeyError', kk)
        I.rem(o, kk)
        return
    if isinstance(o, ListV) and isinstance(o.items, tuple):
        l = list(o.items)
        if isinstance(k, slice):
            f = lambda x: None if x is None else aint(L.num(x))
            del l[slice(f(k.start), f(k.stop), f(k.step))]
        else:
            i = aint(L.num(k))
            if not isinstance(i, int): raise Unsupported('del at symbolic index')
            if not -len(l) <= i < len(l): I.throw('IndexError', 'list assignment index out of range')
            del l[i]
        I.put(o, 'items', tuple(l))
        return
    raise Unsupported('del of %r' % (o,))
