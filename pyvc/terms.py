"""Term language of the verifier: hash-consed real/integer/boolean terms, an exact
normal form (Laurent polynomials over atoms, with indicator functions for case
distinctions and multi-index sums), substitution, differentiation, evaluation.

Semantics: numbers are mathematical reals (floating point is treated as exact,
stated as an assumption of every check); division is real division, and the
definedness of every division executed by the code is a separate obligation.
"""
from fractions import Fraction
import itertools
import math

_table = {}
_next = [0]


class Node(object):
    __slots__ = ('op', 'args', 'sort', 'id', '_key', '_nf', '_free', '_hash', '_depth', '_bvs')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o

    # operator sugar so that specifications read naturally
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __pow__(self, o): return power(self, o)
    def __rpow__(self, o): return power(o, self)
    def __neg__(self): return mul(-1, self)
    def __pos__(self): return self
    def __bool__(self):
        raise TypeError('truth value of symbolic term %s' % show(self))


def mk(op, args, sort):
    k = (op, args, sort)
    n = _table.get(k)
    if n is None:
        n = Node.__new__(Node)
        n.op, n.args, n.sort = op, args, sort
        n.id = _next[0]
        _next[0] += 1
        n._key = n._nf = n._free = n._depth = n._bvs = None
        n._hash = hash(k)
        _table[k] = n
    return n


def const(q, sort=None):
    if isinstance(q, bool):
        q = int(q)
    if sort is None:
        sort = 'I' if isinstance(q, int) else 'R'
    return mk('const', (Fraction(q),), sort)


def lit(f):
    """A float literal: the decimal number the source text denotes."""
    if isinstance(f, float):
        if f != f or f in (float('inf'), float('-inf')):
            return mk('sym', ('nan' if f != f else ('inf' if f > 0 else '-inf'),), 'R')
        return const(Fraction(repr(f)), 'R')
    return const(f)


def T(x):
    if isinstance(x, Node):
        return x
    if isinstance(x, (bool, int)):
        return const(int(x), 'I')
    if isinstance(x, Fraction):
        return const(x, 'R')
    if isinstance(x, float):
        return lit(x)
    raise TypeError('not a number: %r' % (x,))


POSITIVE = set()      # symbol / function names whose values are assumed positive
TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')
_fresh = [0]


def sym(name, sort='R', pos=False):
    if pos:
        POSITIVE.add(name)
    return mk('sym', (name,), sort)


def fresh(name, sort='R', pos=False):
    _fresh[0] += 1
    return sym('%s!%d' % (name, _fresh[0]), sort, pos)


def app(f, *args, **kw):
    return mk('app', (f,) + tuple(T(a) for a in args), kw.get('sort', 'R'))


def _lin_split(a, m):
    """a = m*q + r with the constant part of r in [0, m) (integer terms, m > 0)"""
    q, r = [], []
    for x in (a.args if a.op == 'add' else (a,)):
        if x.op == 'const': k, rest = x.args[0], ()
        elif x.op == 'mul' and x.args[0].op == 'const': k, rest = x.args[0].args[0], x.args[1:]
        else: k, rest = Fraction(1), (x,)
        if k.denominator != 1: return None
        k = int(k)
        d = k // m
        if d: q.append(mul(const(d, 'I'), *rest))
        if k - d * m: r.append(mul(const(k - d * m, 'I'), *rest))
    return (add(*q) if q else const(0, 'I')), (add(*r) if r else const(0, 'I'))


def idiv(a, b):
    """floor division of integers"""
    a, b = T(a), T(b)
    if b.op == 'const' and b.args[0] > 0:
        s = _lin_split(a, int(b.args[0]))
        if s is not None:
            q, r = s
            if r.op == 'const': return q
            return add(q, app('idiv', r, b, sort='I'))
    return app('idiv', a, b, sort='I')


def imod(a, b):
    a, b = T(a), T(b)
    if b.op == 'const' and b.args[0] > 0:
        s = _lin_split(a, int(b.args[0]))
        if s is not None:
            if s[1].op == 'const': return s[1]
            return app('mod', s[1], b, sort='I')
    return app('mod', a, b, sort='I')


def isconst(n):
    return n.op == 'const'


def cval(n):
    return n.args[0]


def _sort(xs):
    return 'I' if all(x.sort == 'I' for x in xs) else 'R'


def add(*xs):
    xs = [T(x) for x in xs]
    sort = _sort(xs)
    c = Fraction(0)
    acc = {}
    def put(t, k):
        nonlocal c
        if t.op == 'const':
            c += k * cval(t)
        elif t.op == 'add':
            for a in t.args:
                put(a, k)
        elif t.op == 'mul' and t.args[0].op == 'const':
            rest = t.args[1:]
            put2(rest[0] if len(rest) == 1 else mk('mul', rest, t.sort), k * cval(t.args[0]))
        else:
            put2(t, k)
    def put2(t, k):
        if t.op == 'add':
            for a in t.args:
                put(a, k)
            return
        v = acc.get(t, Fraction(0)) + k
        if v == 0:
            acc.pop(t, None)
        else:
            acc[t] = v
    for x in xs:
        put(x, Fraction(1))
    parts = []
    for t in sorted(acc, key=lambda t: t.id):
        k = acc[t]
        parts.append(t if k == 1 else _scale(t, k))
    if c != 0 or not parts:
        parts.append(const(c, sort))
    if len(parts) == 1:
        p = parts[0]
        return p
    return mk('add', tuple(parts), sort)


def _scale(t, k):
    kk = const(k, 'I' if k.denominator == 1 else 'R')
    if t.op == 'mul':
        return mk('mul', (kk,) + t.args, 'I' if (t.sort == 'I' and kk.sort == 'I') else 'R')
    return mk('mul', (kk, t), 'I' if (t.sort == 'I' and kk.sort == 'I') else 'R')


def mul(*xs):
    xs = [T(x) for x in xs]
    sort = _sort(xs)
    c = Fraction(1)
    acc = {}
    order = []
    def put(t, e):
        nonlocal c
        if t.op == 'const':
            v = cval(t)
            if v == 0 and e < 0:
                k = (t, e)
                if k not in acc:
                    order.append(k)
                acc[k] = acc.get(k, 0) + e
                return
            if e.denominator == 1:
                c *= v ** int(e)
                return
            acc[(t, e)] = acc.get((t, e), 0) + e
            order.append((t, e))
            return
        if t.op == 'mul' and (e.denominator == 1):
            for a in t.args:
                put(a, e)
            return
        if t.op == 'pow' and t.args[1].op == 'const' and e.denominator == 1:
            put_base(t.args[0], cval(t.args[1]) * e)
            return
        put_base(t, e)
    def put_base(t, e):
        if t not in acc:
            order.append(t)
            acc[t] = e
        else:
            acc[t] += e
    for x in xs:
        put(x, Fraction(1))
    if c == 0:
        return const(0, sort)
    parts = []
    for t in sorted([o for o in acc if not isinstance(o, tuple)], key=lambda t: t.id):
        e = acc[t]
        if e == 0:
            continue
        parts.append(t if e == 1 else mk('pow', (t, const(e)), t.sort if (e > 0 and e.denominator == 1) else 'R'))
    for o in order:
        if isinstance(o, tuple):
            parts.append(mk('pow', (o[0], const(o[1])), 'R'))
    if not parts:
        return const(c, sort)
    if c == 1 and len(parts) == 1:
        return parts[0]
    if c != 1:
        parts = [const(c, 'I' if c.denominator == 1 and sort == 'I' else 'R')] + parts
    return mk('mul', tuple(parts), sort)


def sub(a, b):
    return add(a, mul(-1, b))


def div(a, b):
    a, b = T(a), T(b)
    r = mul(a, power(b, const(-1)))
    return toreal(r)


def toreal(n):
    n = T(n)
    if n.sort == 'R':
        return n
    if n.op == 'const':
        return const(cval(n), 'R')
    return mk(n.op, n.args, 'R') if n.op not in ('sym', 'app', 'bv') else n


def power(b, e):
    b, e = T(b), T(e)
    if e.op == 'const':
        ev = cval(e)
        if ev == 1:
            return b
        if ev == 0:
            return const(1, b.sort)
        if b.op == 'const' and ev.denominator == 1 and not (cval(b) == 0 and ev < 0):
            if abs(ev) < 4000:
                return const(cval(b) ** int(ev), 'R' if (ev < 0 or b.sort == 'R' or e.sort == 'R') else 'I')
        if b.op == 'const' and cval(b) >= 0 and ev.denominator == 2:
            r = _qsqrt(cval(b))
            if r is not None:
                return power(const(r, 'R'), const(ev * 2, 'R'))
        if b.op == 'const' and cval(b) > 0 and ev.denominator == 3:
            r = _qcbrt(cval(b))
            if r is not None:
                return power(const(r, 'R'), const(ev * 3, 'R'))
        if b.op == 'pow' and b.args[1].op == 'const' and ev.denominator == 1:
            return power(b.args[0], const(cval(b.args[1]) * ev, b.args[1].sort))
        if b.op == 'mul' and ev.denominator == 1:
            return mul(*[power(a, e) for a in b.args])
        return mk('pow', (b, const(ev)), 'I' if (b.sort == 'I' and ev > 0 and ev.denominator == 1 and e.sort == 'I') else 'R')
    return mk('app', ('pow', b, e), 'R')


def _qsqrt(q):
    a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if a * a == q.numerator and b * b == q.denominator:
        return Fraction(a, b)
    return None


def _icbrt(n):
    r = round(n ** (1. / 3.)) if n < 10 ** 40 else 0
    for k in (r - 1, r, r + 1):
        if k ** 3 == n:
            return k
    return None


def _qcbrt(q):
    a, b = _icbrt(q.numerator), _icbrt(q.denominator)
    if a is None or b is None:
        return None
    return Fraction(a, b)


# ------------------------------------------------------------------ booleans
def eq(a, b):
    if isinstance(a, Node) and a.sort == 'B' or isinstance(b, Node) and b.sort == 'B':
        a, b = B(a), B(b)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    d = sub(a, b)
    if d.op == 'const':
        return TRUE if cval(d) == 0 else FALSE
    return mk('eq0', (d,), 'B')


def lt(a, b):
    d = sub(a, b)
    if d.op == 'const':
        return TRUE if cval(d) < 0 else FALSE
    return mk('lt0', (d,), 'B')


def le(a, b):
    return not_(lt(b, a))


def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def ne(a, b): return not_(eq(a, b))


def B(x):
    if isinstance(x, Node):
        return x
    return TRUE if x else FALSE


def not_(a):
    a = B(a)
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    return mk('not', (a,), 'B')


def and_(*xs):
    out = []
    for x in xs:
        x = B(x)
        if x is FALSE: return FALSE
        if x is TRUE: continue
        for y in (x.args if x.op == 'and' else (x,)):
            if y not in out:
                out.append(y)
    for y in out:
        if not_(y) in out:
            return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', tuple(out), 'B')


def or_(*xs):
    out = []
    for x in xs:
        x = B(x)
        if x is TRUE: return TRUE
        if x is FALSE: continue
        for y in (x.args if x.op == 'or' else (x,)):
            if y not in out:
                out.append(y)
    for y in out:
        if not_(y) in out:
            return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk('or', tuple(out), 'B')


def implies(a, b):
    return or_(not_(a), b)


def bsym(name):
    return mk('bsym', (name,), 'B')


def papp(f, *args):
    """Uninterpreted predicate application."""
    return mk('papp', (f,) + tuple(a if isinstance(a, str) else T(a) for a in args), 'B')


def forall(n, f):
    """For all integers 0 <= i < n: f(i)."""
    v = fresh('q', 'I')
    b = B(f(v))
    if b is TRUE: return TRUE
    if b is FALSE: return le(T(n), 0)
    return mk('forall', (v, T(n), b), 'B')


def ite(c, a, b):
    c = B(c)
    if c is TRUE: return a
    if c is FALSE: return b
    if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, Node) and a.sort == 'B'):
        a, b = B(a), B(b)
        return or_(and_(c, a), and_(not_(c), b))
    a, b = T(a), T(b)
    if a is b: return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    return mk('ite', (c, a, b), _sort([a, b]))


# ---------------------------------------------------------------- functions
def exp(x):
    x = T(x)
    if isconst(x) and cval(x) == 0: return const(1, 'R')
    return app('exp', x)


def log(x):
    x = T(x)
    if isconst(x) and cval(x) == 1: return const(0, 'R')
    return app('log', x)


def expm1(x): return sub(exp(x), 1)
PI = sym('pi', 'R', True)


def _trig_const(x):
    """x = q*pi with q multiple of 1/2 -> (q*2 mod 4) or None"""
    x = T(x)
    if isconst(x) and cval(x) == 0:
        return 0
    p = nf(x)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ((PI, Fraction(1)),) and (c * 2).denominator == 1:
            return int(c * 2) % 4
    if not p:
        return 0
    return None


def sin(x):
    k = _trig_const(x)
    if k is not None:
        return const([0, 1, 0, -1][k], 'R')
    return app('sin', x)


def cos(x):
    k = _trig_const(x)
    if k is not None:
        return const([1, 0, -1, 0][k], 'R')
    return app('cos', x)


def tan(x): return div(sin(x), cos(x))
def sqrt(x):
    return power(x, const(Fraction(1, 2)))


def absv(x):
    x = T(x)
    if isconst(x):
        return const(abs(cval(x)), x.sort)
    if ispos(x):
        return x
    return ite(lt(x, 0), mul(-1, x), x)


def maxv(a, b): return ite(lt(a, b), b, a)
def minv(a, b): return ite(lt(b, a), b, a)


def ispos(n):
    """Syntactic positivity."""
    if n.op == 'const': return cval(n) > 0
    if n.op == 'sym': return n.args[0] in POSITIVE
    if n.op == 'app': return n.args[0] == 'exp' or n.args[0] in POSITIVE
    if n.op == 'pow': return ispos(n.args[0])
    if n.op == 'mul': return all(ispos(a) for a in n.args)
    if n.op == 'add': return all(ispos(a) for a in n.args)
    if n.op == 'poly':
        return all(c > 0 and all(ispos(a) for a, _ in m) for m, c in n.args[0])
    if n.op == 'ite':
        return ispos(n.args[1]) and ispos(n.args[2])
    return False


# ---------------------------------------------------------------------- sums
def free(n):
    """Set of symbols/bound variables (Nodes) free in n."""
    if n._free is None:
        if n.op in ('sym', 'bv'):
            n._free = frozenset([n])
        elif n.op == 'poly':
            s = set()
            for m, _ in n.args[0]:
                for a, _e in m:
                    s |= free(a)
            n._free = frozenset(s)
        elif n.op == 'msum':
            rs, body, d = n.args
            s = set(free(body))
            for i in range(len(rs)):
                s.discard(bv(d + i))
            for r in rs:
                s |= free(r)
            n._free = frozenset(s)
        elif n.op == 'sum':
            v, r, body = n.args
            n._free = frozenset((free(body) - {v}) | free(r))
        elif n.op == 'forall':
            v, r, body = n.args
            n._free = frozenset((free(body) - {v}) | free(r))
        else:
            s = set()
            for a in n.args:
                if isinstance(a, Node):
                    s |= free(a)
            n._free = frozenset(s)
    return n._free


def bv(k):
    return mk('bv', (k,), 'I')


def depth(n):
    """1 + highest msum-bound index used inside n (0 if no msum)."""
    if n._depth is None:
        d = 0
        if n.op == 'msum':
            rs, body, dd = n.args
            d = dd + len(rs)
            d = max([d, depth(body)] + [depth(r) for r in rs])
        elif n.op == 'poly':
            for m, _ in n.args[0]:
                for a, _e in m:
                    d = max(d, depth(a))
        else:
            for a in n.args:
                if isinstance(a, Node):
                    d = max(d, depth(a))
        n._depth = d
    return n._depth


def ssum(n, f):
    """Sum_{i=0}^{n-1} f(i)."""
    n = T(n)
    if isconst(n) and cval(n) <= 60:
        return add(*([const(0, 'R')] + [f(const(i)) for i in range(int(cval(n)))]))
    v = fresh('s', 'I')
    body = T(f(v))
    return sum_over(v, n, body)


def sum_over(v, n, body):
    body = T(body)
    n = T(n)
    if isconst(body) and cval(body) == 0:
        return body
    if v not in free(body):
        return mul(n, body)
    return mk('sum', (v, n, body), body.sort)


# --------------------------------------------------------------- normal form
ONE = ()


def pconst(q):
    q = Fraction(q)
    return {ONE: q} if q != 0 else {}


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c * k
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def patom(a, e=Fraction(1)):
    return {((a, Fraction(e)),): Fraction(1)}


_mmcache = {}


def mmul(m1, m2):
    """Product of two monomials -> polynomial."""
    if not m1:
        return {m2: Fraction(1)}
    if not m2:
        return {m1: Fraction(1)}
    key = (m1, m2)
    r = _mmcache.get(key)
    if r is not None:
        return r
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    r = mono_poly(d)
    if len(_mmcache) > 400000:
        _mmcache.clear()
    _mmcache[key] = r
    return r


def mono_poly(d):
    """Monomial given as dict atom->exponent, with reductions -> polynomial."""
    out = {}
    expand = []      # (poly, int exponent) factors to multiply out
    coef = Fraction(1)
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == 'ind':
            if e > 0:
                out[a] = Fraction(1)
            else:
                out[a] = e
            continue
        if a.op == 'poly':
            fl = e.numerator // e.denominator
            if fl >= 1:
                expand.append((dict(a.args[0]), fl))
                e = e - fl
            if e != 0:
                out[a] = e
            continue
        if a.op == 'app' and a.args[0] == 'sin' and e >= 2 and e.denominator == 1:
            k, r = divmod(int(e), 2)
            cosa = mk('app', ('cos',) + a.args[1:], 'R')
            expand.append((padd(pconst(1), patom(cosa, 2), -1), k))
            if r:
                out[a] = Fraction(r)
            continue
        if a.op == 'const':   # const base with fractional exponent
            fl = e.numerator // e.denominator
            coef *= cval(a) ** fl
            e = e - fl
            if e != 0:
                out[a] = e
            continue
        out[a] = e
    # neg(d)*zer(d) = 0
    for a in out:
        if a.op == 'ind' and a.args[0] == 'neg' and mk('ind', ('zer', a.args[1]), 'I') in out:
            return {}
    m = tuple(sorted(out.items(), key=lambda t: t[0].id))
    r = {m: coef}
    for p, k in expand:
        for _ in range(k):
            r = pmul(r, p)
    return r


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) > len(q):
        p, q = q, p
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            for m, c in mmul(m1, m2).items():
                v = r.get(m, 0) + c * c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
    return r


class TooBig(Exception):
    pass


def ppow(p, e):
    e = Fraction(e)
    if e == 0:
        return pconst(1)
    if not p:
        if e > 0:
            return {}
        return patom(mk('app', ('inv0',), 'R'))
    if len(p) == 1:
        (m, c), = p.items()
        if e.denominator == 1:
            d = {a: x * e for a, x in m}
            return pscale(mono_poly(d), c ** int(e))
        # fractional power of a monomial: distribute over positive atoms
        d = {}
        rest = {}
        for a, x in m:
            if ispos(a):
                d[a] = x * e
            else:
                rest[a] = x
        if c > 0:
            f = _qpow(c, e)
            if not rest:
                return pmul(f, mono_poly(d))
            rp = tuple(sorted(rest.items(), key=lambda t: t[0].id))
            if len(rp) == 1:
                a, x = rp[0]
                if x.denominator == 1 and x.numerator % 2 == 0:
                    # (a^2k)^e = |a|^(2ke)
                    ab = nf(absv_atom(a))
                    return pmul(pmul(f, mono_poly(d)), ppow(ab, x * e)) if (x * e).denominator == 1 else \
                        pmul(pmul(f, mono_poly(d)), patom(polynode(ab), x * e))
                if x == 1:
                    d[a] = d.get(a, 0) + e
                    return pmul(f, mono_poly(d))
            inner = {rp: Fraction(1)}
            return pmul(pmul(f, mono_poly(d)), patom(polynode(inner), e))
        # negative coefficient: keep inside
        rp = tuple(sorted(rest.items(), key=lambda t: t[0].id))
        inner = {rp: Fraction(-1)}
        return pmul(pmul(_qpow(-c, e), mono_poly(d)), patom(polynode(inner), e))
    if e.denominator == 1 and e > 0:
        k = int(e)
        if len(p) ** min(k, 6) > 3000000:
            raise TooBig()
        r = pconst(1)
        b = p
        while k:
            if k & 1:
                r = pmul(r, b)
            k >>= 1
            if k:
                b = pmul(b, b)
        return r
    # composite base: make primitive
    integer = e.denominator == 1
    # monomial content
    mins = None
    for m in p:
        dm = dict(m)
        if mins is None:
            mins = dict(dm)
        else:
            for a in list(mins):
                mins[a] = min(mins[a], dm.get(a, Fraction(0)))
            for a, x in dm.items():
                if a not in mins:
                    mins[a] = min(Fraction(0), x)
    fac = {a: x for a, x in mins.items() if x != 0 and (integer or ispos(a)) and a.op != 'ind'}
    if fac:
        inv = mono_poly({a: -x for a, x in fac.items()})
        p2 = pmul(p, inv)
        if len(p2) == 1:
            return pmul(mono_poly({a: x * e for a, x in fac.items()}), ppow(p2, e))
        p = p2
    lead = max(p, key=lambda m: _mkey(m))
    c = p[lead]
    if integer:
        p = pscale(p, 1 / c)
        f = pconst(c ** int(e))
    else:
        ac = abs(c)
        p = pscale(p, 1 / ac)
        f = _qpow(ac, e)
    r = pmul(f, patom(polynode(p), e))
    if fac:
        r = pmul(r, mono_poly({a: x * e for a, x in fac.items()}))
    return r


def absv_atom(a):
    return ite(lt(a, 0), mul(-1, a), a)


def _qpow(c, e):
    if c == 1:
        return pconst(1)
    n = power(const(c, 'R'), const(e, 'R'))
    if isconst(n):
        return pconst(cval(n))
    # split into prime-ish integer factors so sqrt(8) = 2*sqrt(2) canonically
    d = {}
    coef = Fraction(1)
    for base, sgn in ((c.numerator, 1), (c.denominator, -1)):
        for prime, k in _factor(base):
            a = const(prime, 'R')
            d[a] = d.get(a, 0) + sgn * k * e
    return pscale(mono_poly(d), coef)


def _factor(n):
    out = []
    p = 2
    while p * p <= n and p < 2000:
        k = 0
        while n % p == 0:
            n //= p
            k += 1
        if k:
            out.append((p, k))
        p += 1
    if n > 1:
        out.append((n, 1))
    return out


def pscale(p, k):
    if k == 1:
        return p
    return {m: c * k for m, c in p.items()} if k != 0 else {}


def polynode(p):
    """Canonical node for a polynomial."""
    if not p:
        return const(0, 'R')
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return const(c, 'R')
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    key = tuple(sorted(p.items(), key=lambda t: _mkey(t[0])))
    n = mk('poly', (key,), 'R')
    if n._nf is None:
        n._nf = p
    return n


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


def nf(n):
    """Normal form of a numeric term: dict monomial -> coefficient."""
    n = T(n)
    if n._nf is None:
        n._nf = _nf(n)
    return n._nf


def _nf(n):
    op = n.op
    if op == 'const':
        return pconst(cval(n))
    if op == 'sym' or op == 'bv':
        nm = n.args[0]
        if nm in DEFINED:
            return nf(DEFINED[nm])
        return patom(n)
    if op == 'add':
        r = {}
        for a in n.args:
            for m, c in nf(a).items():
                v = r.get(m, 0) + c
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        return r
    if op == 'mul':
        ps = sorted((nf(a) for a in n.args), key=len)
        r = pconst(1)
        for p in ps:
            r = pmul(r, p)
        return r
    if op == 'pow':
        return ppow(nf(n.args[0]), cval(n.args[1]))
    if op == 'poly':
        r = {}
        for m, c in n.args[0]:
            r = padd(r, mono_poly(dict(m)), c)
        return r
    if op == 'ite':
        c = ind(n.args[0])
        return padd(pmul(c, nf(n.args[1])), pmul(padd(pconst(1), c, -1), nf(n.args[2])))
    if op == 'sum':
        v, r, body = n.args
        return nf_sum([(v, r)], nf(body))
    if op == 'msum':
        return patom(n)
    if op == 'ind':
        return patom(n)
    if op == 'app':
        return nf_app(n)
    raise TypeError('nf: %s' % op)


DEFINED = {}     # names of constants with a definition, e.g. hbar = h/(2 pi)


def nf_app(n):
    f = n.args[0]
    args = n.args[1:]
    if f == 'exp':
        p = nf(args[0])
        d = {}
        r = pconst(1)
        for m, c in p.items():
            # exp(c*log(x)) = x^c ; exp(c*m) = exp(m)^c
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0] == 'log':
                r = pmul(r, ppow(nf(m[0][0].args[1]), c))
                continue
            if m == ONE:
                a = mk('app', ('exp', const(1, 'R')), 'R')
            else:
                a = mk('app', ('exp', polynode({m: Fraction(1)})), 'R')
            d[a] = d.get(a, 0) + c
        return pmul(r, mono_poly(d))
    if f == 'log':
        p = nf(args[0])
        if not p:
            return patom(mk('app', ('log', const(0, 'R')), 'R'))
        if p == pconst(1):
            return {}
        out = {}
        fac = {}
        if len(p) > 1:
            mins = None
            for m in p:
                dm = dict(m)
                if mins is None:
                    mins = dict(dm)
                else:
                    for a in list(mins):
                        mins[a] = min(mins[a], dm.get(a, Fraction(0)))
                    for a, x in dm.items():
                        if a not in mins:
                            mins[a] = min(Fraction(0), x)
            fac = {a: x for a, x in mins.items() if x != 0 and ispos(a)}
            if fac:
                p = pmul(p, mono_poly({a: -x for a, x in fac.items()}))
        if len(p) == 1:
            (m, c), = p.items()
            rest = {}
            for a, x in m:
                if ispos(a):
                    fac[a] = fac.get(a, 0) + x
                elif len(m) == 1 and x.denominator != 1:
                    fac[a] = x      # log(a^(1/2)) = log(a)/2 wherever it is defined
                else:
                    rest[a] = x
            if c > 0 and rest:
                if c != 1:
                    out = padd(out, _logc(c))
                rp = {tuple(sorted(rest.items(), key=lambda t: t[0].id)): Fraction(1)}
                out = padd(out, patom(mk('app', ('log', polynode(rp)), 'R')))
            elif c > 0:
                out = padd(out, _logc(c))
            else:
                rp = {tuple(sorted(rest.items(), key=lambda t: t[0].id)): c}
                out = padd(out, patom(mk('app', ('log', polynode(rp)), 'R')))
        else:
            lead = max(p, key=lambda m: _mkey(m))
            c = abs(p[lead])
            if c != 1:
                out = padd(out, _logc(c))
                p = pscale(p, 1 / c)
            out = padd(out, patom(mk('app', ('log', polynode(p)), 'R')))
        for a, x in fac.items():
            if a.op == 'app' and a.args[0] == 'exp':
                out = padd(out, nf(a.args[1]), x)
            else:
                out = padd(out, patom(mk('app', ('log', a), 'R')), x)
        return out
    if f in ('sin', 'cos'):
        p = nf(args[0])
        k = _trig_const(args[0])
        if k is not None:
            return nf(sin(args[0]) if f == 'sin' else cos(args[0]))
        lead = max(p, key=lambda m: _mkey(m))
        sgn = 1
        if p[lead] < 0:
            p = pscale(p, Fraction(-1))
            sgn = -1 if f == 'sin' else 1
        # quarter-turn shifts x + k*pi/2
        pim = ((PI, Fraction(1)),)
        if len(p) > 1 and pim in p and (p[pim] * 2).denominator == 1:
            k = int(p[pim] * 2)
            q = dict(p)
            del q[pim]
            base = polynode(q)
            s_, c_ = nf(app('sin', base)), nf(app('cos', base))
            tab = {'sin': [(s_, 1), (c_, 1), (s_, -1), (c_, -1)],
                   'cos': [(c_, 1), (s_, -1), (c_, -1), (s_, 1)]}[f]
            r, sg = tab[k % 4]
            return pscale(r, Fraction(sg * sgn))
        arg = polynode(p)
        if arg.op == 'app' and arg.args[0] in ('arccos', 'arctan2', 'arcsin'):
            g = arg.args[0]
            if g == 'arccos':
                x = arg.args[1]
                r = x if f == 'cos' else sqrt(sub(1, mul(x, x)))
            elif g == 'arcsin':
                x = arg.args[1]
                r = x if f == 'sin' else sqrt(sub(1, mul(x, x)))
            else:
                y, x = arg.args[1], arg.args[2]
                h = sqrt(add(mul(x, x), mul(y, y)))
                r = div(x, h) if f == 'cos' else div(y, h)
            return pscale(nf(r), Fraction(sgn))
        return pscale(patom(mk('app', (f, arg), 'R')), Fraction(sgn))
    if f == 'pow':
        b, e = args
        pe = nf(e)
        pb = nf(b)
        if pe == {} :
            return pconst(1)
        if len(pe) == 1 and ONE in pe:
            return ppow(pb, pe[ONE])
        # x^(e+k) with integer constant k, and products of positive atoms
        k = pe.get(ONE, Fraction(0))
        r = pconst(1)
        if k != 0 and k.denominator == 1:
            r = ppow(pb, k)
            pe = {m: c for m, c in pe.items() if m != ONE}
        if pb == pconst(1):
            return r
        return pmul(r, patom(mk('app', ('pow', polynode(pb), polynode(pe)), 'R')))
    cargs = tuple(canon(a) for a in args)
    if f == 'floor' and cargs[0].sort == 'I':
        return nf(cargs[0])
    return patom(mk('app', (f,) + cargs, n.sort))


def canon(a):
    p = nf(a)
    c = polynode(p)
    if c.op == 'const' and c.sort != a.sort:
        c = const(cval(c), a.sort if cval(c).denominator == 1 else 'R')
    if c.op == 'poly' and a.sort == 'I':
        c = mk('poly', c.args, 'I')
    return c


def _logc(c):
    if c == 1:
        return {}
    out = {}
    for base, sg in ((c.numerator, 1), (c.denominator, -1)):
        for prime, k in _factor(base):
            out = padd(out, patom(mk('app', ('log', const(prime, 'R')), 'R')), sg * k)
    return out


def ind(c):
    """Indicator polynomial of a boolean term."""
    c = B(c)
    if c._nf is None:
        c._nf = _ind(c)
    return c._nf


def _ind(c):
    if c is TRUE: return pconst(1)
    if c is FALSE: return {}
    op = c.op
    if op == 'not':
        return padd(pconst(1), ind(c.args[0]), -1)
    if op == 'and':
        r = pconst(1)
        for a in c.args:
            r = pmul(r, ind(a))
        return r
    if op == 'or':
        r = pconst(1)
        for a in c.args:
            r = pmul(r, padd(pconst(1), ind(a), -1))
        return padd(pconst(1), r, -1)
    if op in ('eq0', 'lt0'):
        p = nf(c.args[0])
        if not p or (len(p) == 1 and ONE in p):
            v = p.get(ONE, 0)
            return pconst(1) if (v == 0 if op == 'eq0' else v < 0) else {}
        # strip positive monomial content: sign is unchanged
        mins = None
        for m in p:
            dm = dict(m)
            if mins is None:
                mins = dm
            else:
                for a in list(mins):
                    mins[a] = min(mins[a], dm.get(a, Fraction(0)))
                for a, x in dm.items():
                    if a not in mins:
                        mins[a] = min(Fraction(0), x)
        fac = {a: -x for a, x in mins.items() if x != 0 and ispos(a) and a.op not in ('ind',)}
        if fac:
            p = pmul(p, mono_poly(fac))
            if len(p) == 1 and ONE in p:
                v = p[ONE]
                return pconst(1) if (v == 0 if op == 'eq0' else v < 0) else {}
        if not p:
            return pconst(1) if op == 'eq0' else {}
        if all(cc > 0 and all(ispos(a) for a, _ in m) for m, cc in p.items()):
            return {}
        if all(cc < 0 and all(ispos(a) for a, _ in m) for m, cc in p.items()):
            return {} if op == 'eq0' else pconst(1)
        lead = max(p, key=lambda m: _mkey(m))
        k = p[lead]
        d = polynode(pscale(p, 1 / k))
        if c.args[0].sort == 'I':
            d = mk(d.op, d.args, 'I') if d.op == 'poly' else d
        zer = patom(mk('ind', ('zer', d), 'I'))
        if op == 'eq0':
            return zer
        neg = patom(mk('ind', ('neg', d), 'I'))
        if k > 0:
            return neg
        return padd(padd(pconst(1), neg, -1), zer, -1)
    # opaque predicate
    if op == 'papp':
        c = mk('papp', (c.args[0],) + tuple(a if isinstance(a, str) else canon(a) for a in c.args[1:]), 'B')
    return patom(mk('ind', ('b', c), 'I'))


def nf_sum(vars_, p):
    """Normal form of Sum over vars_ = [(sym, range)] of polynomial p."""
    out = {}
    for m, c in p.items():
        out = padd(out, sum_mono(list(vars_), dict(m)), c)
    return out


RANGE_HOOK = [None]     # optional: decide an indicator under range facts


def sum_mono(vars_, d):
    """Sum over vars_ of the monomial d (atom -> exponent)."""
    # open nested sums (exponent one) into the variable list
    again = True
    vset = {v for v, _ in vars_}
    while again:
        again = False
        for a, e in list(d.items()):
            if a.op == 'msum' and e == 1 and (free(a) & {v for v, _ in vars_}):
                rs, body, dd = a.args
                subst_ = {}
                new = []
                for i, r in enumerate(rs):
                    fv = fresh('s', 'I')
                    subst_[bv(dd + i)] = fv
                    new.append((fv, r))
                b2 = subst(body, subst_)
                del d[a]
                p = pmul(mono_poly(d), nf(b2))
                return nf_sum(vars_ + new, p)
    # delta rule, range simplification
    for a, e in list(d.items()):
        if a.op == 'ind' and e == 1 and (free(a) & {v for v, _ in vars_}):
            kind, arg = a.args
            if kind == 'zer':
                for (v, r) in vars_:
                    if v in free(arg):
                        sol = solve_lin(arg, v)
                        if sol is not None:
                            rest = dict(d)
                            del rest[a]
                            body = polynode(mono_poly(rest))
                            b2 = subst(body, {v: sol})
                            others = [(w, q) for w, q in vars_ if w is not v]
                            guard = and_(ge(sol, 0), lt(sol, r))
                            # ranges of other variables do not depend on v
                            return nf_sum(others, pmul(ind(guard), nf(b2)))
            if kind in ('neg', 'zer') and RANGE_HOOK[0] is not None:
                t = RANGE_HOOK[0](a, vars_)
                if t is True:
                    rest = dict(d)
                    del rest[a]
                    return nf_sum(vars_, mono_poly(rest))
                if t is False:
                    return {}
    # group variables into connected components through atoms
    vs = {v: r for v, r in vars_}
    outer = {}
    groups = []     # [set(vars), dict atoms]
    for a, e in d.items():
        fv = free(a) & set(vs)
        if not fv:
            outer[a] = e
            continue
        merged = [set(fv), {a: e}]
        keep = []
        for g in groups:
            if g[0] & merged[0]:
                merged[0] |= g[0]
                merged[1].update(g[1])
            else:
                keep.append(g)
        groups = keep + [merged]
    res = mono_poly(outer)
    used = set()
    for g in groups:
        used |= g[0]
        res = pmul(res, patom(make_msum([(v, vs[v]) for v in vs if v in g[0]], g[1])))
    for v, r in vars_:
        if v not in used:
            res = pmul(res, nf(r))
    return res


def make_msum(vars_, d):
    body_d = tuple(d.items())
    dep = 0
    for a, _ in body_d:
        dep = max(dep, depth(a))
    best = None
    perms = itertools.permutations(vars_) if len(vars_) <= 5 else [vars_]
    body = polynode({tuple(sorted(d.items(), key=lambda t: t[0].id)): Fraction(1)})
    for perm in perms:
        s = {v: bv(dep + i) for i, (v, _) in enumerate(perm)}
        b = canon(subst(body, s))
        rs = tuple(canon(r) for _, r in perm)
        k = (tuple(skey(r) for r in rs), skey(b))
        if best is None or k < best[0]:
            best = (k, rs, b)
    return mk('msum', (best[1], best[2], dep), 'R')


def solve_lin(d, v):
    """Solve d == 0 for integer variable v with coefficient +-1; None if not affine."""
    p = nf(d)
    coef = Fraction(0)
    rest = {}
    for m, c in p.items():
        if any(v in free(a) for a, _ in m):
            if m == ((v, Fraction(1)),):
                coef = c
            else:
                return None
        else:
            rest[m] = c
    if coef == 0 or abs(coef) != 1:
        return None
    s = polynode(pscale(rest, -1 / coef))
    if s.op == 'const':
        return const(int(cval(s))) if cval(s).denominator == 1 else None
    if s.op == 'poly':
        return mk('poly', s.args, 'I')
    return s


def skey(n):
    """Structural key (stable across runs)."""
    if n._key is None:
        if n.op == 'poly':
            terms = []
            for m, c in n.args[0]:
                terms.append(str(c) + '*' + '.'.join(sorted('%s^%s' % (skey(a), e) for a, e in m)))
            n._key = 'P{' + '+'.join(sorted(terms)) + '}'
        elif n.op == 'msum':
            n._key = 'S[%s|%s]' % (','.join(skey(r) for r in n.args[0]), skey(n.args[1]))
        else:
            n._key = '%s(%s)' % (n.op, ','.join(skey(a) if isinstance(a, Node) else str(a) for a in n.args))
    return n._key


# -------------------------------------------------------------- substitution
def subst(n, s):
    """Replace symbols/bound variables (Nodes) by terms."""
    memo = {}
    keys = frozenset(s)
    def go(n):
        if n in s:
            return s[n]
        if not (free(n) & keys):
            return n
        r = memo.get(n)
        if r is not None:
            return r
        op = n.op
        if op == 'add': r = add(*[go(a) for a in n.args])
        elif op == 'mul': r = mul(*[go(a) for a in n.args])
        elif op == 'pow': r = power(go(n.args[0]), n.args[1])
        elif op == 'app':
            if n.args[0] == 'pow': r = power(go(n.args[1]), go(n.args[2]))
            else: r = mk('app', (n.args[0],) + tuple(go(a) for a in n.args[1:]), n.sort)
        elif op == 'papp':
            r = mk('papp', (n.args[0],) + tuple(a if isinstance(a, str) else go(a) for a in n.args[1:]), 'B')
        elif op == 'ite': r = ite(go(n.args[0]), go(n.args[1]), go(n.args[2]))
        elif op == 'eq0': r = eq(go(n.args[0]), 0)
        elif op == 'lt0': r = lt(go(n.args[0]), 0)
        elif op == 'not': r = not_(go(n.args[0]))
        elif op == 'and': r = and_(*[go(a) for a in n.args])
        elif op == 'or': r = or_(*[go(a) for a in n.args])
        elif op == 'sum':
            v, rr, body = n.args
            w = fresh('s', 'I')
            r = sum_over(w, go(rr), go(subst(body, {v: w})))
        elif op == 'forall':
            v, rr, body = n.args
            w = fresh('q', 'I')
            r = mk('forall', (w, go(rr), go(subst(body, {v: w}))), 'B')
        elif op == 'msum':
            rs, body, dd = n.args
            ss = {}
            new = []
            for i, q in enumerate(rs):
                w = fresh('s', 'I')
                ss[bv(dd + i)] = w
                new.append((w, go(q)))
            b = go(subst(body, ss))
            for w, q in reversed(new):
                b = sum_over(w, q, b)
            r = b
        elif op == 'poly':
            parts = []
            for m, c in n.args[0]:
                parts.append(mul(const(c, 'R' if c.denominator != 1 else 'I'),
                                 *[power(go(a), const(e)) if e != 1 else go(a) for a, e in m]))
            r = add(*parts)
            if n.sort == 'I' and r.sort != 'I' and r.op in ('add', 'mul'):
                r = mk(r.op, r.args, 'I')
        elif op == 'ind':
            kind, a = n.args
            c = go(a)
            cond = eq(c, 0) if kind == 'zer' else (lt(c, 0) if kind == 'neg' else c)
            r = ite(cond, const(1), const(0))
        else:
            raise TypeError(op)
        memo[n] = r
        return r
    return go(n)


def map_apps(n, f):
    """Rebuild n, replacing app nodes by f(name, args) when it returns not None."""
    memo = {}
    def go(n):
        r = memo.get(n)
        if r is not None:
            return r
        op = n.op
        if op in ('sym', 'bv', 'const', 'true', 'false', 'bsym'): r = n
        elif op == 'add': r = add(*[go(a) for a in n.args])
        elif op == 'mul': r = mul(*[go(a) for a in n.args])
        elif op == 'pow': r = power(go(n.args[0]), n.args[1])
        elif op == 'app':
            a = tuple(go(x) for x in n.args[1:])
            r = f(n.args[0], a)
            if r is None:
                r = power(*a) if n.args[0] == 'pow' else mk('app', (n.args[0],) + a, n.sort)
        elif op == 'papp':
            r = mk('papp', (n.args[0],) + tuple(a if isinstance(a, str) else go(a) for a in n.args[1:]), 'B')
        elif op == 'ite': r = ite(go(n.args[0]), go(n.args[1]), go(n.args[2]))
        elif op == 'eq0': r = eq(go(n.args[0]), 0)
        elif op == 'lt0': r = lt(go(n.args[0]), 0)
        elif op == 'not': r = not_(go(n.args[0]))
        elif op == 'and': r = and_(*[go(a) for a in n.args])
        elif op == 'or': r = or_(*[go(a) for a in n.args])
        elif op == 'sum': r = sum_over(n.args[0], go(n.args[1]), go(n.args[2]))
        elif op == 'forall': r = mk('forall', (n.args[0], go(n.args[1]), go(n.args[2])), 'B')
        elif op == 'msum':
            rs, body, dd = n.args
            ss, new = {}, []
            for i, q in enumerate(rs):
                w = fresh('s', 'I')
                ss[bv(dd + i)] = w
                new.append((w, go(q)))
            r = go(subst(body, ss))
            for w, q in reversed(new):
                r = sum_over(w, q, r)
        elif op == 'poly':
            parts = []
            for m, c in n.args[0]:
                parts.append(mul(const(c, 'R' if c.denominator != 1 else 'I'),
                                 *[power(go(a), const(e)) if e != 1 else go(a) for a, e in m]))
            r = add(*parts)
        elif op == 'ind':
            kind, a = n.args
            c = go(a)
            r = ite(eq(c, 0) if kind == 'zer' else (lt(c, 0) if kind == 'neg' else c), const(1), const(0))
        else:
            raise TypeError('map_apps on %s' % op)
        memo[n] = r
        return r
    return go(n)


# ----------------------------------------------------------- differentiation
def diff(n, x):
    """d n / d x, x a symbol."""
    memo = {}
    def go(n):
        if x not in free(n):
            return const(0, 'R')
        r = memo.get(n)
        if r is not None:
            return r
        op = n.op
        if n is x:
            r = const(1, 'R')
        elif op == 'add': r = add(*[go(a) for a in n.args])
        elif op == 'mul':
            r = add(*[mul(*([go(a)] + [b for j, b in enumerate(n.args) if j != i]))
                      for i, a in enumerate(n.args)])
        elif op == 'pow':
            e = cval(n.args[1])
            r = mul(const(e, 'R'), power(n.args[0], const(e - 1)), go(n.args[0]))
        elif op == 'ite':
            r = ite(n.args[0], go(n.args[1]), go(n.args[2]))
        elif op == 'sum':
            r = sum_over(n.args[0], n.args[1], go(n.args[2]))
        elif op == 'app':
            f = n.args[0]
            u = n.args[1]
            if f == 'exp': r = mul(n, go(u))
            elif f == 'log': r = div(go(u), u)
            elif f == 'sin': r = mul(cos(u), go(u))
            elif f == 'cos': r = mul(-1, sin(u), go(u))
            elif f == 'pow' and x not in free(n.args[2]):
                r = mul(n.args[2], power(u, sub(n.args[2], 1)), go(u))
            else:
                raise TypeError('diff of %s' % f)
        elif op == 'poly':
            r = go(depoly(n))
        else:
            raise TypeError('diff of %s' % op)
        memo[n] = r
        return r
    return go(T(n))


def depoly(n):
    return add(*[mul(const(c, 'R'), *[power(a, const(e)) if e != 1 else a for a, e in m])
                 for m, c in n.args[0]])


# ---------------------------------------------------------------- evaluation
class EvalError(Exception):
    pass


def evalf(n, env):
    """Numeric value of a term; env: symbol name -> number or callable (arrays, functions)."""
    memo = {}
    def go(n, loc):
        key = (n, tuple(sorted((k.id, v) for k, v in loc.items() if k in free(n)))) if loc else n
        if key in memo:
            return memo[key]
        r = go1(n, loc)
        memo[key] = r
        return r
    def go1(n, loc):
        op = n.op
        if op == 'const': return float(cval(n)) if cval(n).denominator != 1 else int(cval(n))
        if n in loc: return loc[n]
        if op == 'sym':
            nm = n.args[0]
            if nm in env: return env[nm]
            if nm == 'pi': return math.pi
            if nm in DEFINED: return go(DEFINED[nm], {})
            if nm == 'nan': return float('nan')
            if nm == 'inf': return float('inf')
            if nm in CONST_VALUES: return CONST_VALUES[nm]
            raise EvalError('no value for %s' % nm)
        if op == 'add': return sum(go(a, loc) for a in n.args)
        if op == 'mul':
            r = 1
            for a in n.args: r = r * go(a, loc)
            return r
        if op == 'pow':
            e = cval(n.args[1])
            b = go(n.args[0], loc)
            if e.denominator != 1 and b < 0: raise EvalError('fractional power of negative')
            try:
                return b ** (int(e) if e.denominator == 1 else float(e))
            except (ZeroDivisionError, OverflowError) as x:
                raise EvalError(str(x))
        if op == 'ite': return go(n.args[1], loc) if go(n.args[0], loc) else go(n.args[2], loc)
        if op == 'true': return True
        if op == 'false': return False
        if op == 'eq0': return go(n.args[0], loc) == 0
        if op == 'lt0': return go(n.args[0], loc) < 0
        if op == 'not': return not go(n.args[0], loc)
        if op == 'and': return all(go(a, loc) for a in n.args)
        if op == 'or': return any(go(a, loc) for a in n.args)
        if op == 'bsym':
            if n.args[0] in env: return env[n.args[0]]
            raise EvalError(n.args[0])
        if op == 'sum':
            v, r, body = n.args
            tot = 0.
            for i in range(int(go(r, loc))):
                l2 = dict(loc); l2[v] = i
                tot += go(body, l2)
            return tot
        if op == 'msum':
            rs, body, dd = n.args
            tot = 0.
            for idx in itertools.product(*[range(int(go(r, loc))) for r in rs]):
                l2 = dict(loc)
                for i, k in enumerate(idx): l2[bv(dd + i)] = k
                tot += go(body, l2)
            return tot
        if op == 'forall':
            v, r, body = n.args
            for i in range(int(go(r, loc))):
                l2 = dict(loc); l2[v] = i
                if not go(body, l2): return False
            return True
        if op == 'poly': return go(depoly(n), loc)
        if op == 'ind':
            k, a = n.args
            v = go(a, loc)
            return int(v == 0 if k == 'zer' else (v < 0 if k == 'neg' else bool(v)))
        if op == 'app':
            f = n.args[0]
            a = [go(x, loc) for x in n.args[1:]]
            try:
                if f in env:
                    g = env[f]
                    return g(*a) if callable(g) else g[tuple(int(i) for i in a)]
                if f == 'exp': return math.exp(a[0])
                if f == 'log': return math.log(a[0])
                if f == 'sin': return math.sin(a[0])
                if f == 'cos': return math.cos(a[0])
                if f in ('arccos', 'acos'): return math.acos(a[0])
                if f in ('arcsin', 'asin'): return math.asin(a[0])
                if f in ('arctan2', 'atan2'): return math.atan2(a[0], a[1])
                if f in ('arctan', 'atan'): return math.atan(a[0])
                if f == 'pow': return float(a[0]) ** a[1]
                if f == 'floor': return math.floor(a[0])
                if f == 'trunc': return math.trunc(a[0])
            except (ValueError, OverflowError, ZeroDivisionError, IndexError, KeyError) as x:
                raise EvalError(str(x))
            raise EvalError('no meaning for %s' % f)
        raise EvalError(op)
    return go(T(n) if not (isinstance(n, Node)) else n, {})


CONST_VALUES = {}


# ------------------------------------------------------------------ printing
def show(n, lim=600):
    s = _show(n, 0)
    return s if len(s) <= lim else s[:lim] + '...'


def _show(n, d):
    if d > 14: return '...'
    op = n.op
    if op == 'const': return str(cval(n))
    if op in ('sym', 'bsym'): return str(n.args[0])
    if op == 'bv': return '#%d' % n.args[0]
    if op == 'add': return '(' + ' + '.join(_show(a, d + 1) for a in n.args) + ')'
    if op == 'mul': return '*'.join(_show(a, d + 1) for a in n.args)
    if op == 'pow': return '%s^(%s)' % (_show(n.args[0], d + 1), cval(n.args[1]))
    if op in ('app', 'papp'):
        return '%s(%s)' % (n.args[0], ', '.join(a if isinstance(a, str) else _show(a, d + 1) for a in n.args[1:]))
    if op == 'ite': return 'ite(%s, %s, %s)' % tuple(_show(a, d + 1) for a in n.args)
    if op == 'eq0': return '(%s == 0)' % _show(n.args[0], d + 1)
    if op == 'lt0': return '(%s < 0)' % _show(n.args[0], d + 1)
    if op == 'not': return 'not %s' % _show(n.args[0], d + 1)
    if op in ('and', 'or'): return '(' + (' %s ' % op).join(_show(a, d + 1) for a in n.args) + ')'
    if op == 'sum': return 'Sum[%s<%s](%s)' % (_show(n.args[0], d + 1), _show(n.args[1], d + 1), _show(n.args[2], d + 1))
    if op == 'msum': return 'Sum[%s from #%d](%s)' % (','.join(_show(r, d + 1) for r in n.args[0]), n.args[2], _show(n.args[1], d + 1))
    if op == 'forall': return 'forall %s<%s. %s' % tuple(_show(a, d + 1) for a in n.args)
    if op == 'poly': return '{' + ' + '.join('%s%s' % ('' if (c == 1 and m) else str(c), '*'.join('%s%s' % (_show(a, d + 1), '' if e == 1 else '^(%s)' % e) for a, e in m)) for m, c in n.args[0]) + '}'
    if op == 'ind': return '[%s %s]' % (_show(n.args[1], d + 1), {'neg': '<0', 'zer': '==0', 'b': ''}[n.args[0]])
    return op


def showp(p, lim=400):
    return show(polynode(p), lim)
