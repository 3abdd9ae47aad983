"""Forward symbolic executor (verification-condition generator) for the project's Python
source (and for Cython source after mechanical extraction by pyx2py).

Execution is over mathematical values.  A branch on an undecided condition splits the path
(all feasible paths are explored).  Loops over a symbolic range are replaced by a loop
summary, derived from one generic iteration by sound rules (see summarise_loop): counter,
accumulation (sum), pointwise store (map), append, last assignment, first exit.  Whatever is
outside the supported subset raises Unsupported: nothing is skipped silently.
"""
import ast
import os
import subprocess
import warnings
from fractions import Fraction
from . import terms as t
from . import prove as P
from .terms import Node

VENV = '/opt/venv/bin/python'
MISSING = object()


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    """Current path is infeasible."""


class Return(Exception):
    def __init__(self, v): self.v = v


class Break(Exception): pass
class Continue(Exception): pass


class PyRaise(Exception):
    """An exception raised by the interpreted program."""
    def __init__(self, exc): self.exc = exc

    def __str__(self):
        e = self.exc
        return '%s%r' % (e.cls.name, tuple(e.d.get('args', ())))


# ------------------------------------------------------------------ heap values
_stamp = [0]


class Obj(object):
    __slots__ = ('d', 'stamp')

    def __init__(self, d=None):
        self.d = {} if d is None else d
        _stamp[0] += 1
        self.stamp = _stamp[0]


class Frame(Obj):
    __slots__ = ('parent', 'module', 'globals_', 'ann', 'cls')


class ModV(Obj):
    __slots__ = ('name', 'path')
    def __repr__(self): return '<module %s>' % self.name


class ClassV(Obj):
    __slots__ = ('name', 'bases', 'mro', 'native')
    def __repr__(self): return '<class %s>' % self.name


class InstV(Obj):
    __slots__ = ('cls',)
    def __repr__(self): return '<%s instance>' % self.cls.name


class FuncV(object):
    def __init__(self, node, frame, module, defaults, kwdefaults, cls=None):
        self.node, self.frame, self.module = node, frame, module
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.name = getattr(node, 'name', '<lambda>')
        self.kind = None
        self.stamp = 0
    def __repr__(self): return '<function %s>' % self.name


class BoundV(object):
    def __init__(self, fn, self_): self.fn, self.self_ = fn, self_


class PropV(object):
    def __init__(self, fget, fset=None): self.fget, self.fset = fget, fset


class StaticV(object):
    def __init__(self, fn, kind): self.fn, self.kind = fn, kind


class Builtin(object):
    def __init__(self, name, fn): self.name, self.fn = name, fn
    def __repr__(self): return '<builtin %s>' % self.name


class Opaque(object):
    """A value of an unmodelled library."""
    def __init__(self, name): self.name = name
    def __repr__(self): return '<opaque %s>' % self.name


class Poison(object):
    def __init__(self, why): self.why = why


class ListV(Obj):
    """items: python tuple, SymSeq, or Cat(SymSeq-like base, tuple)."""
    __slots__ = ('istuple',)
    def __init__(self, items=()):
        Obj.__init__(self, {'items': items if isinstance(items, (SymSeq, Cat)) else tuple(items)})
    @property
    def items(self): return self.d['items']
    def __repr__(self): return 'ListV(%r)' % (self.d['items'],)


class SymSeq(object):
    """A sequence of symbolic length n (Node) with element function fn(Node)->value."""
    def __init__(self, n, fn, name='', segs=None):
        self.n, self.fn, self.name = n, fn, name
        # ordered pieces (count, k -> tuple of consecutive elements)
        self.segs = segs if segs is not None else ((n, lambda k: (fn(k),)),)


class FileSeq(SymSeq):
    """A sequence made of pieces: tuples of given elements, and runs ('run', n, fn) of symbolic length n >= 0 whose element j is fn(j)."""
    def __init__(self, I, pieces):
        self.pieces, self.I, off = [], I, t.const(0, 'I')
        for p in pieces:
            run = len(p) == 3 and p[0] == 'run' and callable(p[2])
            n = p[1] if run else len(p)
            end = t.add(off, t.T(n))
            if run or n: self.pieces.append((off, end, n, p[2] if run else None, None if run else tuple(p)))
            off = end
        total = off
        self.near, self.runs, self.offs = {}, [], {}
        for off, end, n, fn, items in self.pieces:
            p = t.nf(off)
            c, key = p.get((), 0), frozenset((m, v) for m, v in p.items() if m)
            if fn is None:
                self.near.setdefault(key, []).append((c, c + n, off, items))
            else:
                self.runs.append((key, c, n, fn))
                self.offs[key, c] = off
        SymSeq.__init__(self, total, self.locate)
        I.filelike.append(self)

    def locate(self, k):
        I, k = self.I, t.T(k)
        if I.accesses is not None: I.accesses.append((self, k))
        p = t.nf(k)
        c, key = p.get((), 0), frozenset((m, v) for m, v in p.items() if m)
        for lo, hi, off, items in self.near.get(key, ()):       # at a given distance from the beginning of a piece of given elements
            if lo <= c < hi and c.denominator == 1: return items[int(c - lo)]
        if k.op != 'const':
            for key2, c2, n, fn in self.runs:      # an element of a run
                if len(key2) + 1 != len(key) or not key2 < key: continue
                j = t.canon(t.sub(k, self.offs[key2, c2]))
                if P.quick_sign(t.lt(j, 0), I.pc) is False and P.quick_sign(t.lt(j, n), I.pc) is True: return fn(t.T(aint(j)))
        for q, (off, end, n, fn, items) in enumerate(self.pieces):
            if q < len(self.pieces) - 1 and not I.decide(t.lt(k, end)): continue
            j = aint(t.canon(t.sub(k, off)))
            if fn is not None: return fn(t.T(j))
            if not isinstance(j, int):
                for m in range(n - 1):
                    if I.decide(t.eq(t.T(j), m)): return items[m]
                j = n - 1
            return items[j]
        raise Unsupported('element of an empty sequence')

    def cuts(self, lo=0, hi=None):
        """pieces (start, count, symbolic?) of the index range lo <= k < hi, relative to lo"""
        I, lo, out = self.I, t.T(lo), None
        hi = self.n if hi is None else t.T(hi)
        for off, end, n, fn, items in self.pieces:      # whole pieces when the range starts and ends between pieces
            if t.canon(off) is t.canon(lo): out = []
            if out is not None and t.canon(off) is not t.canon(hi): out.append((t.canon(t.sub(off, lo)), aint(n) if isinstance(n, int) else aint(t.canon(t.T(n)))))
            if t.canon(end) is t.canon(hi): break
        else:
            out = None
        if out: return out
        out = []
        for off, end, n, fn, items in self.pieces:
            if not I.decide(t.lt(off, hi)): break
            if not I.decide(t.gt(end, lo)): continue
            a = lo if I.decide(t.lt(off, lo)) else off
            b = hi if I.decide(t.gt(end, hi)) else end
            out.append((t.canon(t.sub(a, lo)), aint(t.canon(t.sub(b, a)))))
        return out


class Rep(object):
    """inside a list: n consecutive groups fn(0), fn(1), ... (tuples), n symbolic"""
    def __init__(self, n, fn): self.n, self.fn = n, fn


class Cat(object):
    def __init__(self, base, tail): self.base, self.tail = base, tuple(tail)


class DictV(Obj):
    def __repr__(self): return 'DictV(%r)' % (self.d,)


class SetV(Obj):
    def __init__(self, items=()):
        Obj.__init__(self, {'items': tuple(items)})


# arrays ---------------------------------------------------------------------
class Buf(Obj):
    """Array storage: content is Dense or Lam (immutable values)."""
    __slots__ = ()
    def __init__(self, content):
        Obj.__init__(self, {'content': content})


class Dense(object):
    __slots__ = ('shape', 'data', 'strides')
    def __init__(self, shape, data):
        self.shape = tuple(shape)
        self.data = data        # python tuple/list, flat, C order
        st, k = [], 1
        for s in reversed(self.shape):
            st.append(k)
            k *= s
        self.strides = tuple(reversed(st))


class Lam(object):
    __slots__ = ('shape', 'fn', 'memo')
    def __init__(self, shape, fn):
        self.shape = tuple(shape)
        self.fn = fn
        self.memo = {}


def aint(x):
    """canonical index: python int when constant"""
    if isinstance(x, Node):
        if x.op == 'const' and t.cval(x).denominator == 1:
            return int(t.cval(x))
        return x
    return int(x)


def content_get(c, idx):
    idx = tuple(aint(i) for i in idx)
    if isinstance(c, Dense):
        if all(isinstance(i, int) for i in idx):
            k = 0
            for i, s, n in zip(idx, c.strides, c.shape):
                if not 0 <= i < n:
                    return t.app('outofbounds', *idx)
                k += i * s
            return c.data[k]
        # symbolic index into a dense array: case distinction
        d = [j for j, i in enumerate(idx) if not isinstance(i, int)][0]
        n = c.shape[d]
        if n == 0:
            return t.app('outofbounds', *idx)
        r = content_get(c, idx[:d] + (n - 1,) + idx[d + 1:])
        for k in reversed(range(n - 1)):
            r = vite(t.eq(idx[d], k), content_get(c, idx[:d] + (k,) + idx[d + 1:]), r)
        return r
    r = c.memo.get(idx)
    if r is None:
        r = c.fn(*[t.T(i) for i in idx])
        c.memo[idx] = r
    return r


def vite(c, a, b):
    """ite on scalar values"""
    c = t.B(c)
    if c is t.TRUE: return a
    if c is t.FALSE: return b
    if a is b: return a
    if isinstance(a, (Cplx,)) or isinstance(b, Cplx):
        a, b = cplx(a), cplx(b)
        return Cplx(vite(c, a.re, b.re), vite(c, a.im, b.im))
    if isinstance(a, (Node, int, bool)) and isinstance(b, (Node, int, bool)):
        return t.ite(c, a, b)
    if type(a) is type(b) and isinstance(a, (str, type(None))) and a == b:
        return a
    raise Unsupported('merge of values %r / %r' % (type(a).__name__, type(b).__name__))


class Cplx(object):
    """complex number as pair of reals"""
    __slots__ = ('re', 'im')
    def __init__(self, re, im): self.re, self.im = t.T(re), t.T(im)


def cplx(x):
    return x if isinstance(x, Cplx) else Cplx(x, t.const(0, 'R'))


class View(object):
    """Affine view: per buffer dim ('fix', e) or ('rng', start, step, viewdim)."""
    __slots__ = ('specs', 'shape')
    def __init__(self, specs, shape): self.specs, self.shape = tuple(specs), tuple(shape)


class ArrV(object):
    """An ndarray: a view on a buffer."""
    __slots__ = ('buf', 'view', 'dtype', 'attrs')

    def __init__(self, buf, view, dtype='float', attrs=None):
        self.buf, self.view, self.dtype, self.attrs = buf, view, dtype, attrs

    @property
    def shape(self): return self.view.shape

    @property
    def ndim(self): return len(self.view.shape)

    def get(self, *idx):
        bi = []
        for s in self.view.specs:
            if s[0] == 'fix': bi.append(s[1])
            else:
                i = idx[s[3]]
                if s[2] == 1 and isinstance(s[1], int) and s[1] == 0: bi.append(i)
                else: bi.append(t.add(s[1], t.mul(s[2], t.T(i))))
        return content_get(self.buf.d['content'], bi)

    def __repr__(self): return '<array %s>' % (tuple(self.shape),)


def full_view(shape):
    return View([('rng', 0, 1, i) for i in range(len(shape))], shape)


def dense_size(shape):
    k = 1
    for s in shape:
        if not isinstance(s, int):
            return None
        k *= s
    return k


DENSE_MAX = 20000


def new_array(shape, fn, dtype='float', eager=True):
    """fresh array with elements fn(*idx)."""
    shape = tuple(aint(s) for s in shape)
    n = dense_size(shape)
    if eager and n is not None and n <= DENSE_MAX:
        import itertools
        data = [fn(*ix) for ix in itertools.product(*[range(s) for s in shape])]
        return ArrV(Buf(Dense(shape, data)), full_view(shape), dtype)
    return ArrV(Buf(Lam(shape, fn)), full_view(shape), dtype)


def sym_array(name, shape, sort='R', pos=False, dtype=None):
    """Array with uninterpreted elements name(i, j, ...)."""
    if pos:
        t.POSITIVE.add(name)
    shape = tuple(aint(s) for s in shape)
    return new_array(shape, lambda *ix: t.app(name, *ix, sort=sort), dtype or ('int' if sort == 'I' else 'float'))


# ------------------------------------------------------------------ frontends
_srccache = {}


def module_source(path):
    """Python AST of a module (.py or .pyx)."""
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key in _srccache:
        return _srccache[key]
    if path.endswith('.pyx'):
        p = subprocess.run([VENV, os.path.join(os.path.dirname(__file__), 'pyx2py.py'), path],
                           capture_output=True, text=True, encoding='utf-8')
        if p.returncode != 0:
            raise Unsupported('extraction of %s failed: %s' % (path, p.stderr.strip()[-300:]))
        src = p.stdout
    else:
        with open(path, encoding='utf-8') as f:
            src = f.read()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src)
    except SyntaxError as e:
        raise Unsupported('parse of %s: %s' % (path, e))
    _srccache[key] = tree
    return tree


class Path(object):
    def __init__(self, conds, kind, value, effects):
        self.conds, self.kind, self.value, self.effects = conds, kind, value, effects


class Explorer(object):
    def __init__(self):
        self.prefix, self.pos, self.pending = [], 0, []


class Obligation(object):
    def __init__(self, name, goal, ok, backend, why, seconds, where):
        self.name, self.goal, self.ok, self.backend = name, goal, ok, backend
        self.why, self.seconds, self.where = why, seconds, where


class Interp(object):
    def __init__(self, root='/repo', fuel=2000000):
        from . import lib
        self.root = root
        self.trail = []
        self.pc = []
        self.explorers = []
        self.modules = {}
        self.obligations = []
        self._obl_seen = {}
        self.lib = lib
        self.builtins = lib.make_builtins(self)
        self.overrides = {}      # qualified name -> python callable(interp, args, kwargs)
        self.fuel = fuel
        self.depth = 0
        self.check_defined = True
        self.split_bounds = False
        self.contract_calls = {}
        self.functions_entered = set()
        self.where = '?'
        self.echo_log = []
        self.contracts = {}       # library name -> contract (callable)
        self.trusted = set()      # library contracts used
        self.memo, self.stops = {}, {}
        self.files, self.written, self.h5 = {}, {}, {}
        self.filelike, self.markers = [], []
        self.accesses = None

    # ------------------------------------------------------------ heap writes
    def put(self, obj, key, val):
        d = obj.d
        self.trail.append((obj, key, d.get(key, MISSING)))
        d[key] = val

    def rem(self, obj, key):
        self.trail.append((obj, key, obj.d.get(key, MISSING)))
        obj.d.pop(key, None)

    def rollback(self, mark):
        tr = self.trail
        while len(tr) > mark:
            obj, key, old = tr.pop()
            if old is MISSING:
                obj.d.pop(key, None)
            else:
                obj.d[key] = old

    # ------------------------------------------------------------ exploration
    def explore(self, fn, maxpaths=4096):
        """Run fn under all feasible decision sequences; returns list of Path; heap rolled back."""
        paths = []
        pending = [[]]
        while pending:
            ex = Explorer()
            ex.prefix = list(pending.pop())
            mark, pcm = len(self.trail), len(self.pc)
            self.explorers.append(ex)
            d0 = self.depth
            kind, val = 'ok', None
            try:
                try:
                    val = fn()
                except Return as r: kind, val = 'return', r.v
                except Break: kind = 'break'
                except Continue: kind = 'continue'
                except PyRaise as r: kind, val = 'raise', r.exc
                except Infeasible: kind = 'infeasible'
                if kind != 'infeasible':
                    eff = {}
                    for obj, key, old in self.trail[mark:]:
                        if (obj, key) not in eff:
                            eff[(obj, key)] = old
                    eff = {k: (old, k[0].d.get(k[1], MISSING)) for k, old in eff.items()}
                    paths.append(Path(list(self.pc[pcm:]), kind, val, eff))
            finally:
                self.depth = d0
                self.explorers.pop()
                self.rollback(mark)
                del self.pc[pcm:]
            pending.extend(ex.pending)
            if len(paths) > maxpaths:
                raise Unsupported('too many paths')
        return paths

    def decide(self, cond):
        """Truth of a condition on the current path; splits the path when open."""
        if cond is True or cond is False:
            return cond
        if isinstance(cond, Node) and cond.sort != 'B':
            cond = t.ne(cond, 0)
        if cond is t.TRUE: return True
        if cond is t.FALSE: return False
        ex = self.explorers[-1] if self.explorers else None
        if ex is not None and ex.pos < len(ex.prefix) and ex.prefix[ex.pos][0] is cond:
            choice = ex.prefix[ex.pos][1]
            ex.pos += 1
            self.pc.append(cond if choice else t.not_(cond))
            return choice
        v = P.decide(cond, self.pc)
        if v is not None:
            return v
        if ex is None:
            raise Unsupported('undecided condition outside exploration: %s' % t.show(cond, 200))
        if ex.pos < len(ex.prefix):
            choice = ex.prefix[ex.pos][1]
        else:
            choice = True
            ex.pending.append(list(ex.prefix) + [(cond, False)])
            ex.prefix.append((cond, True))
        ex.pos += 1
        self.pc.append(cond if choice else t.not_(cond))
        return choice

    def choose(self, k, tag='choice'):
        """Non-deterministic choice among k alternatives."""
        ex = self.explorers[-1] if self.explorers else None
        if ex is None:
            raise Unsupported('choice outside exploration')
        if ex.pos < len(ex.prefix):
            c = ex.prefix[ex.pos][1]
        else:
            c = 0
            for j in range(1, k):
                ex.pending.append(list(ex.prefix) + [(tag, j)])
            ex.prefix.append((tag, 0))
        ex.pos += 1
        return c

    def assume(self, c):
        c = t.B(c)
        if c is t.FALSE:
            raise Infeasible()
        if c is not t.TRUE:
            self.pc.append(c)

    # ------------------------------------------------------------ obligations
    def oblige(self, name, goal, where=None, timeout=None):
        """Record and discharge an obligation on the current path."""
        import time
        goal = t.B(goal)
        key = (name, goal, tuple(self.pc))
        if key in self._obl_seen:
            return self._obl_seen[key]
        t0 = time.time()
        try:
            ok, bk, why = P.prove(goal, self.pc, timeout)
        except t.TooBig:
            ok, bk, why = False, 'ring', 'normal form too large'
        if not ok and P.check_sat(self.pc, 3000) == 'unsat':
            ok, bk = True, 'z3 (infeasible path)'
        o = Obligation(name, goal, ok, bk, why, time.time() - t0, where or self.where)
        o.pc = tuple(self.pc)
        self.obligations.append(o)
        self._obl_seen[key] = ok
        return ok

    def oblige_eq(self, name, a, b, where=None, rewrites=None):
        import time
        t0 = time.time()
        a, b = t.T(a), t.T(b)
        ok, why = P.prove_eq(a, b, self.pc, rewrites=rewrites)
        o = Obligation(name, ('eq', a, b, tuple(self.pc)), ok, 'ring', why, time.time() - t0, where or self.where)
        self.obligations.append(o)
        return ok

    def oblige_fact(self, name, ok, why='', where=None):
        """A structural (value-level) obligation decided by the executor itself."""
        if not ok and self.pc and P.check_sat(self.pc, 3000) == 'unsat':
            ok = True
        self.obligations.append(Obligation(name, None, bool(ok), 'executor', '' if ok else why, 0.0, where or self.where))
        return ok

    # ---------------------------------------------------------------- modules
    def find_module(self, name):
        base = os.path.join(self.root, *name.split('.'))
        for p in (base + '.pyx', base + '.py', os.path.join(base, '__init__.py')):
            if os.path.isfile(p):
                return p
        return None

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        lm = self.lib.library_module(self, name)
        if lm is not None:
            self.modules[name] = lm
            return lm
        p = self.find_module(name)
        if p is None:
            if name.split('.')[0] == 'quantas':
                base = os.path.join(self.root, *name.split('.'))
                if os.path.isdir(base):
                    m = ModV({'__name__': name})
                    m.name, m.path = name, base
                    self.modules[name] = m
                    return m
                raise PyRaise(self.make_exc('ImportError', 'No module named %s' % name))
            return Opaque(name)
        m = ModV({'__name__': name, '__file__': p})
        m.name, m.path = name, p
        self.modules[name] = m
        tree = module_source(p)
        fr = Frame(m.d)
        fr.parent, fr.module, fr.globals_, fr.ann, fr.cls = None, m, set(), {}, None
        fr.d = m.d
        mark = len(self.trail)
        pk = name.rsplit('.', 1)
        try:
            self.block(tree.body, fr)
        except Exception:
            self.modules.pop(name, None)
            raise
        # module initialisation is permanent: never rolled back
        del self.trail[mark:]
        if len(pk) == 2 and pk[0] in self.modules and isinstance(self.modules[pk[0]], ModV):
            self.modules[pk[0]].d[pk[1]] = m
        return m

    def get(self, qual):
        """Value of a dotted name module[.Class].attr"""
        parts = qual.split('.')
        for k in range(len(parts), 0, -1):
            nm = '.'.join(parts[:k])
            if self.find_module(nm):
                v = self.import_module(nm)
                for a in parts[k:]:
                    if isinstance(v, ModV):
                        if a not in v.d:
                            raise Unsupported('%s has no %s' % (nm, a))
                        v = v.d[a]
                    else:
                        v = self.class_attr(v, a)
                        if v is MISSING:
                            raise Unsupported('no attribute %s in %s' % (a, qual))
                return v
        raise Unsupported('cannot find %s' % qual)

    # ------------------------------------------------------------- exceptions
    def make_exc(self, name, *args):
        c = self.builtins[name] if isinstance(name, str) else name
        e = InstV({'args': tuple(args)})
        e.cls = c
        return e

    def throw(self, name, *args):
        raise PyRaise(self.make_exc(name, *args))

    # ------------------------------------------------------------- statements
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported('execution fuel exhausted')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s line %s' % (type(s).__name__, s.lineno))
        if fr.module is not None:
            self.where = '%s:%d' % (os.path.basename(fr.module.path), s.lineno)
        return m(s, fr)

    def s_Pass(self, s, fr): pass
    def s_Break(self, s, fr): raise Break()
    def s_Continue(self, s, fr): raise Continue()
    def s_Global(self, s, fr):
        for n in s.names: fr.globals_.add(n)
    def s_Nonlocal(self, s, fr):
        for n in s.names: fr.ann['__nonlocal__' + n] = True

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Return(self, s, fr):
        raise Return(None if s.value is None else self.ev(s.value, fr))

    def s_Delete(self, s, fr):
        for tg in s.targets:
            if isinstance(tg, ast.Name):
                self.rem(fr, tg.id)
            elif isinstance(tg, ast.Subscript):
                o = self.ev(tg.value, fr)
                k = self.ev_index(tg.slice, fr)
                self.lib.delitem(self, o, k)
            else:
                raise Unsupported('del')

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            self.throw('AssertionError')

    def s_Import(self, s, fr):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.put(fr, a.asname, m)
            else:
                self.put(fr, a.name.split('.')[0], self.import_module(a.name.split('.')[0]))

    def s_ImportFrom(self, s, fr):
        if s.module == '__future__':
            return
        base = s.module or ''
        if s.level:
            pkg = fr.module.name.split('.')
            if not fr.module.path.endswith('__init__.py'):
                pkg = pkg[:-1]
            pkg = pkg[:len(pkg) - (s.level - 1)]
            base = '.'.join(pkg + ([s.module] if s.module else []))
        m = self.import_module(base)
        for a in s.names:
            if a.name == '*':
                if isinstance(m, ModV):
                    for k, v in list(m.d.items()):
                        if not k.startswith('_'): self.put(fr, k, v)
                continue
            if isinstance(m, ModV) and a.name not in m.d and m.path.startswith('<'):
                v = self.getattr(m, a.name)
            elif isinstance(m, ModV) and a.name not in m.d:
                sub = base + '.' + a.name
                if self.find_module(sub) or os.path.isdir(os.path.join(self.root, *sub.split('.'))):
                    v = self.import_module(sub)
                else:
                    self.throw('ImportError', 'cannot import name %s from %s' % (a.name, base))
            else:
                v = self.getattr(m, a.name)
            self.put(fr, a.asname or a.name, v)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for tg in s.targets:
            self.assign(tg, v, fr)

    def s_AnnAssign(self, s, fr):
        ty = None
        if isinstance(s.annotation, ast.Constant) and isinstance(s.annotation.value, str) \
                and fr.module is not None and fr.module.path.endswith('.pyx'):
            ty = s.annotation.value
            fr.ann[s.target.id] = ty
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)
        elif ty is not None and fr.ann.get('__cfunc__') is None:
            pass

    def s_AugAssign(self, s, fr):
        tg = s.target
        op = type(s.op).__name__
        if isinstance(tg, ast.Name):
            old = self.load_name(tg.id, fr)
            rhs = self.ev(s.value, fr)
            self.assign(tg, self.lib.inplace(self, op, old, rhs), fr)
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, fr)
            old = self.getattr(o, tg.attr)
            rhs = self.ev(s.value, fr)
            self.setattr(o, tg.attr, self.lib.inplace(self, op, old, rhs))
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, fr)
            k = self.ev_index(tg.slice, fr)
            old = self.lib.getitem(self, o, k)
            rhs = self.ev(s.value, fr)
            new = self.lib.inplace(self, op, old, rhs)
            self.lib.setitem(self, o, k, new)
        else:
            raise Unsupported('augmented assignment')

    def assign(self, tg, v, fr):
        if isinstance(tg, ast.Name):
            self.store_name(tg.id, v, fr)
        elif isinstance(tg, ast.Attribute):
            self.setattr(self.ev(tg.value, fr), tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            self.lib.setitem(self, self.ev(tg.value, fr), self.ev_index(tg.slice, fr), v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            items = self.lib.unpack(self, v, len(tg.elts) if not stars else None)
            if stars:
                k = stars[0]
                after = len(tg.elts) - k - 1
                if len(items) < len(tg.elts) - 1:
                    self.throw('ValueError', 'not enough values to unpack')
                items = list(items[:k]) + [ListV(items[k:len(items) - after])] + list(items[len(items) - after:])
            if len(items) != len(tg.elts):
                self.throw('ValueError', 'wrong number of values to unpack')
            for e, x in zip(tg.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        else:
            raise Unsupported('assignment target')

    def store_name(self, name, v, fr):
        if name in fr.globals_:
            self.put(fr.module, name, v)
            return
        if ('__nonlocal__' + name) in fr.ann:
            f = fr.parent
            while f is not None:
                if name in f.d:
                    self.put(f, name, v)
                    return
                f = f.parent
        ty = fr.ann.get(name)
        if ty is not None:
            v = self.lib.coerce_c(self, v, ty)
        self.put(fr, name, v)

    def load_name(self, name, fr):
        f = fr
        while f is not None:
            if name in f.d:
                v = f.d[name]
                if isinstance(v, Poison):
                    raise Unsupported('%s: %s' % (name, v.why))
                return v
            f = f.parent
        m = fr.module
        if m is not None and name in m.d:
            return m.d[name]
        if name in self.builtins:
            return self.builtins[name]
        if name.startswith('__vc_'):
            return self.lib.special(self, name)
        self.throw('NameError', name)

    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def run_ahead(self, once):
        """Iterations of a `while` loop that step through a run of a text file: the number of lines of the run whose first line the
        next iteration reads (None: it reads no first line of a run)."""
        old, self.accesses = self.accesses, []
        no, seen = len(self.obligations), dict(self._obl_seen)
        try:
            paths = [p for p in self.explore(once) if p.kind in ('ok', 'continue')]
            log = self.accesses
        except Unsupported:
            log = []
        finally:
            self.accesses = old
            del self.obligations[no:]
            self._obl_seen = seen
        for f, k in log:
            for off, end, n, fn, items in f.pieces:
                if fn is not None and not isinstance(n, int) and t.canon(t.sub(k, off)) is t.canon(t.const(0, 'I')): return t.T(n), steps(paths)
        return None

    def s_While(self, s, fr):
        n = 0
        def once():
            if not self.truth(self.ev(s.test, fr)): raise Break()
            self.block(s.body, fr)
        while True:
            if self.filelike:
                m, hints = self.run_ahead(once) or (None, None)
                if m is not None and P.decide(t.ge(m, 0), self.pc) is True:
                    out = []
                    try:
                        self.summarise_loop(m, lambda i: None, once, fr, False, lambda: out.append(1),
                                            '%s:%d' % (os.path.basename(fr.module.path) if fr.module else '?', s.lineno), hints)
                    except Break:
                        return
                    if not out: return
                    continue
            c = self.ev(s.test, fr)
            if not self.truth(c):
                self.block(s.orelse, fr)
                return
            n += 1
            if n > 5000:
                raise Unsupported('while loop does not terminate within the unrolling limit')
            try:
                self.block(s.body, fr)
            except Break:
                return
            except Continue:
                continue

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        seq = self.lib.iterate(self, it)
        prange = isinstance(seq, self.lib.RangeSeq) and seq.parallel
        if isinstance(seq, (list, tuple)):
            try:
                for x in seq:
                    self.assign(s.target, x, fr)
                    try:
                        self.block(s.body, fr)
                    except Continue:
                        pass
            except Break:
                return
            self.block(s.orelse, fr)
            return
        if hasattr(seq, 'concrete'):     # lazily produced concrete iteration
            raise Unsupported('iterator')
        n, elem = seq.n, seq.elem
        ci = aint(n)
        cuts = getattr(seq, 'cuts', None)
        if cuts is not None and not prange:
            try:
                for lo, cnt in cuts():
                    if isinstance(cnt, int):
                        for k in range(cnt):
                            self.assign(s.target, elem(t.add(lo, k)), fr)
                            try:
                                self.block(s.body, fr)
                            except Continue:
                                pass
                    else:
                        out = []
                        self.summarise_loop(t.T(cnt), lambda i: self.assign(s.target, elem(t.add(lo, i)), fr), lambda: self.block(s.body, fr), fr, False,
                                            lambda: out.append(1), '%s:%d' % (os.path.basename(fr.module.path) if fr.module else '?', s.lineno))
                        if not out: return
            except Break:
                return
            self.block(s.orelse, fr)
            return
        if isinstance(ci, int) and (ci <= 64 and not prange or ci <= 12):
            try:
                for k in range(ci):
                    self.assign(s.target, elem(k), fr)
                    try:
                        self.block(s.body, fr)
                    except Continue:
                        pass
            except Break:
                return
            self.block(s.orelse, fr)
            return
        self.summarise_loop(t.T(n), lambda i: self.assign(s.target, elem(i), fr),
                            lambda: self.block(s.body, fr), fr, prange,
                            lambda: self.block(s.orelse, fr), '%s:%d' % (os.path.basename(fr.module.path) if fr.module else '?', s.lineno))

    def s_FunctionDef(self, s, fr):
        defaults = [self.ev(d, fr) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        f = FuncV(s, fr, fr.module, defaults, kwd)
        f.kind = 'gen' if _is_generator(s) else None
        v = f
        for d in reversed(s.decorator_list):
            dv = None
            if isinstance(d, ast.Name) and d.id == 'property': v = PropV(v); continue
            if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod'): v = StaticV(v, d.id); continue
            if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter') and isinstance(d.value, ast.Name):
                prev = fr.d.get(d.value.id)
                if isinstance(prev, PropV):
                    v = PropV(prev.fget, v) if d.attr == 'setter' else PropV(v, prev.fset)
                    continue
            dv = self.ev(d, fr)
            if isinstance(dv, Opaque):
                continue
            v = self.call(dv, [v], {})
        self.put(fr, s.name, v)

    def s_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        c = ClassV({})
        c.name, c.native = s.name, None
        c.bases = [b for b in bases if isinstance(b, ClassV)]
        if any(isinstance(b, Opaque) for b in bases):
            c.bases = [b for b in bases if isinstance(b, ClassV)]
        c.mro = _mro(c)
        cf = Frame(c.d)
        cf.d = c.d
        cf.parent, cf.module, cf.globals_, cf.ann, cf.cls = fr, fr.module, set(), {}, c
        self.block(s.body, cf)
        for v in c.d.values():
            for f in ((v,) if isinstance(v, FuncV) else (v.fget, v.fset) if isinstance(v, PropV) else (v.fn,) if isinstance(v, StaticV) else ()):
                if isinstance(f, FuncV) and f.cls is None: f.cls = c
        self.put(fr, s.name, c)

    def s_Raise(self, s, fr):
        if s.exc is None:
            e = fr.d.get('__current_exc__')
            if e is None: raise Unsupported('bare raise')
            raise PyRaise(e)
        v = self.ev(s.exc, fr)
        if isinstance(v, ClassV):
            v = self.call(v, [], {})
        if not isinstance(v, InstV):
            raise Unsupported('raise of %r' % (v,))
        raise PyRaise(v)

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as r:
                for h in s.handlers:
                    if h.type is None or self.exc_match(r.exc, self.ev(h.type, fr)):
                        if h.name: self.store_name(h.name, r.exc, fr)
                        old = fr.d.get('__current_exc__')
                        self.put(fr, '__current_exc__', r.exc)
                        self.block(h.body, fr)
                        self.put(fr, '__current_exc__', old)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PyRaise, Return, Break, Continue):
            if s.finalbody: self.block(s.finalbody, fr)
            raise
        if s.finalbody:
            self.block(s.finalbody, fr)

    def exc_match(self, exc, ty):
        if isinstance(ty, (tuple,)):
            return any(self.exc_match(exc, x) for x in ty)
        if isinstance(ty, Opaque):
            return False
        return ty in exc.cls.mro

    def s_With(self, s, fr):
        entered = []
        for it in s.items:
            cm = self.ev(it.context_expr, fr)
            v = self.lib.enter(self, cm)
            entered.append(cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        try:
            self.block(s.body, fr)
        finally:
            for cm in reversed(entered):
                self.lib.exit(self, cm)

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        return self.decide(self.lib.truthval(self, v))

    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float): return t.lit(v)
        if isinstance(v, complex): return Cplx(t.lit(v.real), t.lit(v.imag))
        return v

    def e_Name(self, e, fr): return self.load_name(e.id, fr)
    def e_Tuple(self, e, fr): return tuple(self.elts(e.elts, fr))
    def e_List(self, e, fr): return ListV(self.elts(e.elts, fr))
    def e_Set(self, e, fr): return SetV(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.lib.unpack(self, self.ev(x.value, fr), None))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = DictV({})
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.d.update(self.ev(v, fr).d)
            else:
                d.d[self.lib.key(self, self.ev(k, fr))] = self.ev(v, fr)
        return d

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.lib.getitem(self, o, self.ev_index(e.slice, fr))

    def ev_index(self, s, fr):
        if isinstance(s, ast.Index):
            s = s.value
        return self.ev(s, fr)

    def e_Slice(self, e, fr):
        f = lambda x: None if x is None else self.ev(x, fr)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.lib.binop(self, type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        op = type(e.op).__name__
        if op == 'Not':
            c = self.lib.truthval(self, v)
            return (not c) if isinstance(c, bool) else t.not_(c)
        return self.lib.unop(self, op, v)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            c = self.lib.truthval(self, v)
            if isinstance(c, bool):
                if c != isand: return v
                continue
            # both symbolic booleans: keep as a formula when the remaining operands are pure
            if isinstance(v, Node) and v.sort == 'B' and all(_pure(y) for y in e.values[i + 1:]):
                try:
                    rest = self._pure_bool(e.values[i + 1:], isand, fr, c)
                except Unsupported:
                    rest = None
                if rest is not None:
                    return t.and_(c, rest) if isand else t.or_(c, rest)
            if self.decide(c) != isand: return v
        return v

    def _pure_bool(self, vals, isand, fr, guard):
        """Evaluate remaining comparisons (no side effects) under the guard."""
        n = len(self.obligations)
        self.pc.append(guard if isand else t.not_(guard))
        try:
            out = []
            ex = self.explorers[-1] if self.explorers else None
            pos = (ex.pos, len(ex.prefix), len(ex.pending)) if ex else None
            for y in vals:
                c = self.lib.truthval(self, self.ev(y, fr))
                out.append(t.B(c))
            if ex and (ex.pos, len(ex.prefix), len(ex.pending)) != pos:
                raise Unsupported('impure operand')
        finally:
            self.pc.pop()
        return t.and_(*out) if isand else t.or_(*out)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            c = self.lib.compare(self, type(op).__name__, left, right)
            if len(e.ops) == 1:
                return c
            c = self.lib.truthval(self, c)
            if c is False: return False
            res = c if res is None or res is True else (res if c is True else t.and_(res, c))
            left = right
        return res

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        return FuncV(e, fr, fr.module, [self.ev(d, fr) for d in e.args.defaults], {})

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else:
                val = self.ev(v.value, fr)
                spec = ''
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec, fr)
                if v.conversion == 114:
                    val = self.lib.py_repr(self, val)
                parts.append(self.lib.format_value(self, val, spec))
        return self.lib.sconcat(parts)

    def e_FormattedValue(self, e, fr): raise Unsupported('formatted value')
    def e_Starred(self, e, fr): raise Unsupported('starred')
    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Call(self, e, fr):
        f = self.ev(e.func, fr)
        args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, fr).d)
            else:
                kw[k.arg] = self.ev(k.value, fr)
        if isinstance(f, Builtin) and f.name == 'super' and not args:
            args = [fr_class(fr), fr_self(fr)]
        if isinstance(f, Builtin) and f.name in ('locals', 'vars') and not args:
            return DictV(dict(fr.d))
        if isinstance(f, Builtin) and f.name == 'eval' and len(args) == 1 and isinstance(args[0], str):
            try: tree = ast.parse(args[0].strip(), mode='eval')
            except SyntaxError: self.throw('SyntaxError', 'invalid syntax')
            return self.ev(tree.body, fr)
        return self.call(f, args, kw)

    def comp(self, e, fr, emit):
        sub = Frame({})
        sub.parent, sub.module, sub.globals_, sub.ann, sub.cls = fr, fr.module, set(), {}, None
        def rec(k):
            if k == len(e.generators):
                emit(sub)
                return
            g = e.generators[k]
            seq = self.lib.iterate(self, self.ev(g.iter, fr if k == 0 else sub))
            if getattr(seq, 'cuts', None) is not None and not isinstance(aint(seq.n), int) and g.ifs:
                items = []
                for lo, cnt in seq.cuts():
                    if isinstance(cnt, int): items += [seq.elem(t.add(lo, q)) for q in range(cnt)]
                    elif P.decide(t.gt(t.T(cnt), 0), self.pc) is not False:
                        i = t.fresh('c', 'I')
                        pcm = len(self.pc)
                        self.pc += [t.ge(i, 0), t.lt(i, cnt)]
                        def chk():
                            self.assign(g.target, seq.elem(t.add(lo, i)), sub)
                            return all(self.truth(self.ev(c, sub)) for c in g.ifs)
                        try: paths = self.explore(chk)
                        finally: del self.pc[pcm:]
                        if any(p.kind != 'ok' or p.value is not False for p in paths): raise Unsupported('comprehension over symbolic sequence')
                seq = items
            if not isinstance(seq, (list, tuple)):
                n = aint(seq.n)
                if isinstance(n, int) and n <= 4096:
                    seq = [seq.elem(i) for i in range(n)]
                else:
                    raise _SymComp(seq)
            for x in seq:
                self.assign(g.target, x, sub)
                if all(self.truth(self.ev(c, sub)) for c in g.ifs):
                    rec(k + 1)
        rec(0)

    def e_ListComp(self, e, fr):
        out = []
        try:
            self.comp(e, fr, lambda sub: out.append(self.ev(e.elt, sub)))
            return ListV(out)
        except _SymComp as sc:
            if len(e.generators) != 1 or e.generators[0].ifs:
                raise Unsupported('comprehension over symbolic sequence')
            seq = sc.seq
            return ListV(self.map_seq(seq, lambda i: self._comp_elem(e, fr, seq, i)))
    e_GeneratorExp = e_ListComp

    def map_seq(self, seq, f):
        """Symbolic sequence of f(i): evaluated once for a generic index."""
        i = t.fresh('c', 'I')
        pcm = len(self.pc)
        self.pc += [t.ge(i, 0), t.lt(i, seq.n)]
        try:
            paths = self.explore(lambda: f(i))
        finally:
            del self.pc[pcm:]
        if any(p.kind != 'ok' for p in paths):
            raise Unsupported('comprehension element may raise')
        v = paths[-1].value
        for p in reversed(paths[:-1]):
            v = self.lib.merge_values(self, t.and_(*p.conds), p.value, v)
        return SymSeq(t.T(seq.n), lambda k: self.lib.subst_value(v, {i: t.T(k)}))

    def _comp_elem(self, e, fr, seq, i):
        sub = Frame({})
        sub.parent, sub.module, sub.globals_, sub.ann, sub.cls = fr, fr.module, set(), {}, None
        self.assign(e.generators[0].target, seq.elem(i), sub)
        return self.ev(e.elt, sub)

    def e_SetComp(self, e, fr):
        out = []
        self.comp(e, fr, lambda sub: out.append(self.ev(e.elt, sub)))
        return self.lib.make_set(self, out)

    def e_DictComp(self, e, fr):
        d = DictV({})
        def emit(sub):
            d.d[self.lib.key(self, self.ev(e.key, sub))] = self.ev(e.value, sub)
        self.comp(e, fr, emit)
        return d

    # ------------------------------------------------------------- attributes
    def class_attr(self, c, name):
        for k in c.mro:
            if name in k.d:
                return k.d[name]
        return MISSING

    def getattr(self, o, name):
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, ModV):
            if name in o.d: return o.d[name]
            sub = o.name + '.' + name
            if self.find_module(sub) or sub in self.modules or self.lib.library_module(self, sub) is not None:
                return self.import_module(sub)
            la = self.lib.library_attr(self, o.name, name)
            if la is not None: return la
            self.throw('AttributeError', '%s.%s' % (o.name, name))
        if isinstance(o, InstV):
            ca = self.class_attr(o.cls, name)
            if isinstance(ca, PropV):
                return self.call(ca.fget, [o], {})
            if name in o.d:
                v = o.d[name]
                if isinstance(v, Poison): raise Unsupported('%s: %s' % (name, v.why))
                return v
            if ca is not MISSING:
                return self.bind(ca, o)
            if name == '__dict__': return DictV(o.d)
            if name == '__class__': return o.cls
            ga = self.class_attr(o.cls, '__getattr__')
            if ga is not MISSING:
                return self.call(ga, [o, name], {})
            self.throw('AttributeError', "'%s' object has no attribute '%s'" % (o.cls.name, name))
        if isinstance(o, ClassV):
            if name == '__name__': return o.name
            v = self.class_attr(o, name)
            if v is MISSING:
                self.throw('AttributeError', name)
            if isinstance(v, StaticV):
                return v.fn if v.kind == 'staticmethod' else BoundV(v.fn, o)
            return v
        return self.lib.attr(self, o, name)

    def bind(self, v, o):
        if isinstance(v, StaticV):
            return v.fn if v.kind == 'staticmethod' else BoundV(v.fn, o.cls)
        if isinstance(v, (FuncV, Builtin)):
            return BoundV(v, o)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, InstV):
            ca = self.class_attr(o.cls, name)
            if isinstance(ca, PropV):
                if ca.fset is None: self.throw('AttributeError', "can't set attribute " + name)
                self.call(ca.fset, [o, v], {})
                return
            self.put(o, name, v)
        elif isinstance(o, (ClassV, ModV)):
            self.put(o, name, v)
        else:
            self.lib.set_attr(self, o, name, v)

    # ------------------------------------------------------------------ calls
    def qualname(self, f):
        m = f.module.name if f.module is not None else '?'
        return '%s.%s%s' % (m, f.cls.name + '.' if f.cls else '', f.name)

    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, BoundV):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, FuncV):
            q = self.qualname(f)
            if q in self.overrides:
                self.contract_calls[q] = self.contract_calls.get(q, 0) + 1
                return self.overrides[q](self, list(args), kw)
            return self.call_func(f, list(args), kw)
        if isinstance(f, Builtin):
            return f.fn(self, list(args), kw)
        if isinstance(f, ClassV):
            if f.native is not None:
                return f.native(self, f, list(args), kw)
            o = InstV({})
            o.cls = f
            init = self.class_attr(f, '__init__')
            if init is not MISSING:
                self.call(self.bind(init, o), args, kw)
            return o
        if isinstance(f, StaticV):
            return self.call(f.fn, args, kw)
        if isinstance(f, InstV):
            c = self.class_attr(f.cls, '__call__')
            if c is not MISSING:
                return self.call(c, [f] + list(args), kw)
        if isinstance(f, Opaque):
            return self.lib.opaque_call(self, f, args, kw)
        if callable(getattr(f, 'vc_call', None)):
            return f.vc_call(self, list(args), kw)
        raise Unsupported('call of %r' % (f,))

    def call_func(self, f, args, kw):
        if self.depth > 150:
            raise Unsupported('call depth')
        if f.kind == 'gen':
            raise Unsupported('generator function %s' % f.name)
        self.functions_entered.add(self.qualname(f))
        a = f.node.args
        fr = Frame({})
        fr.parent = f.frame if not (f.frame is None or isinstance(f.frame, Frame) and (f.frame.cls is not None and f.frame.d is f.frame.cls.d or f.frame.d is (f.module.d if f.module else None))) else None
        fr.module, fr.globals_, fr.ann, fr.cls = f.module, set(), {}, f.cls
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        rest = list(args)
        for nm in names:
            if rest:
                vals[nm] = rest.pop(0)
        if rest:
            if a.vararg is None:
                self.throw('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, len(names), len(args)))
            vals[a.vararg.arg] = tuple(rest)
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in konly:
                if k in vals: self.throw('TypeError', 'multiple values for argument ' + k)
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.throw('TypeError', '%s() got an unexpected keyword argument %s' % (f.name, k))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = DictV(extra)
        nd = len(f.defaults)
        for nm, d in zip(names[len(names) - nd:], f.defaults):
            vals.setdefault(nm, d)
        for nm, d in f.kwdefaults.items():
            vals.setdefault(nm, d)
        for nm in names + konly:
            if nm not in vals:
                self.throw('TypeError', "%s() missing required argument '%s'" % (f.name, nm))
        ispyx = f.module is not None and f.module.path.endswith('.pyx')
        if ispyx:
            for x in a.args:
                if x.annotation is not None:
                    ty = x.annotation.value
                    fr.ann[x.arg] = ty
                    vals[x.arg] = self.lib.coerce_c(self, vals[x.arg], ty, True)
        fr.d.update(vals)
        where = self.where
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            try:
                self.block(f.node.body, fr)
                r = None
            except Return as r_:
                r = r_.v
            if ispyx and f.node.returns is not None:
                r = self.lib.coerce_c(self, r, f.node.returns.value)
            return r
        finally:
            self.depth -= 1
            self.where = where

    # ------------------------------------------------------- loop summarising
    def summarise_loop(self, n, bind, body, fr, prange, orelse, where, steps=None):
        from . import loops
        loops.summarise(self, n, bind, body, fr, prange, orelse, where, steps or {})


def steps(paths):
    """integer locations that every path changes by the same constant"""
    out = {}
    for loc in (paths[0].effects if paths else ()):
        ds = []
        for p in paths:
            old, new = p.effects.get(loc, (None, None))
            ok = all(isinstance(x, Node) and x.sort == 'I' or isinstance(x, int) and not isinstance(x, bool) for x in (old, new))
            d = aint(t.canon(t.sub(t.T(new), t.T(old)))) if ok else None
            ds.append(d if isinstance(d, int) else None)
        if ds[0] and all(d == ds[0] for d in ds): out[loc] = ds[0]
    return out


class _SymComp(Exception):
    def __init__(self, seq): self.seq = seq


def _mro(c):
    out = [c]
    # C3 is not needed for the single/multiple inheritance used here: depth-first, last occurrence kept
    seqs = []
    for b in c.bases:
        seqs.extend(b.mro)
    for i, k in enumerate(seqs):
        if k not in seqs[i + 1:]:
            out.append(k)
    return out


def _is_generator(fn):
    for n in ast.walk(fn):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def _pure(e):
    for n in ast.walk(e):
        if isinstance(n, (ast.Call, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.Await, ast.Yield)):
            return False
    return True


def fr_class(fr):
    return fr.cls


def fr_self(fr):
    return next(iter(fr.d.values()))
