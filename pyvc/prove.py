"""Back ends: (1) exact ring normaliser with case splitting, (2) z3, (3) cvc5 (via SMT-LIB text)."""
import time
import random
import subprocess
import tempfile
import os
from fractions import Fraction
import z3
from . import terms as t
from .terms import (nf, padd, pmul, mono_poly, polynode, ppow, free, TRUE, FALSE)

Z3_TIMEOUT_MS = 8000
STATS = {'z3_calls': 0, 'z3_s': 0.0, 'ring_calls': 0, 'ring_s': 0.0, 'cvc5_calls': 0, 'cvc5_s': 0.0}


# -------------------------------------------------------------- z3 encoding
class Z3Enc(object):
    def __init__(self):
        self.memo = {}
        self.axioms = []
        self.funcs = {}

    def fn(self, name, args, sort, boolean=False):
        key = (name, tuple(a.sort().name() for a in args), 'B' if boolean else sort)
        f = self.funcs.get(key)
        if f is None:
            rs = z3.BoolSort() if boolean else (z3.IntSort() if sort == 'I' else z3.RealSort())
            f = z3.Function(name + '/' + ''.join(k[0] for k in key[1]) + key[2], *([a.sort() for a in args] + [rs]))
            self.funcs[key] = f
        return f

    def real(self, e):
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def num(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self._num(n)
            self.memo[n] = r
        return r

    def _num(self, n):
        op = n.op
        if op == 'const':
            q = t.cval(n)
            if n.sort == 'I' and q.denominator == 1:
                return z3.IntVal(int(q))
            return z3.RealVal(q)
        if op in ('sym', 'bv'):
            nm = str(n.args[0]) if op == 'sym' else '#%s' % n.args[0]
            v = z3.Int(nm) if n.sort == 'I' else z3.Real(nm)
            if op == 'sym' and nm in t.POSITIVE:
                self.axioms.append(v > 0)
            if nm in t.DEFINED:
                self.axioms.append(v == self.real(self.num(t.DEFINED[nm])))
            return v
        if op == 'add':
            xs = [self.num(a) for a in n.args]
            if any(x.sort() == z3.RealSort() for x in xs):
                xs = [self.real(x) for x in xs]
            return z3.Sum(xs)
        if op == 'mul':
            xs = [self.num(a) for a in n.args]
            if any(x.sort() == z3.RealSort() for x in xs):
                xs = [self.real(x) for x in xs]
            return z3.Product(xs)
        if op == 'pow':
            b = self.num(n.args[0])
            e = t.cval(n.args[1])
            return self.pw(n.args[0], b, e)
        if op == 'ite':
            a, b = self.num(n.args[1]), self.num(n.args[2])
            if a.sort() != b.sort():
                a, b = self.real(a), self.real(b)
            return z3.If(self.boo(n.args[0]), a, b)
        if op == 'poly':
            r = self.num(t.depoly(n))
            return r
        if op == 'ind':
            k, a = n.args
            if k == 'b':
                c = self.boo(a)
            else:
                x = self.num(a)
                c = (x == 0) if k == 'zer' else (x < 0)
            return z3.If(c, z3.IntVal(1), z3.IntVal(0))
        if op == 'sum':
            try: c = t.canon(n)
            except (t.TooBig, TypeError): c = n
            if c is not n and c.op != 'sum': return self.num(c)
        if op in ('sum', 'msum'):
            return z3.Real('S<%d>' % n.id)
        if op == 'app':
            f = n.args[0]
            if f == 'pow' and n.args[2].op == 'const':
                return self.pw(n.args[1], self.num(n.args[1]), t.cval(n.args[2]))
            args = [self.num(a) for a in n.args[1:]]
            if f in ('exp', 'log', 'sin', 'cos', 'arccos', 'arcsin', 'arctan2', 'pow'):
                args = [self.real(a) for a in args]
            if f == 'floor' and n.sort == 'I':
                return z3.ToInt(self.real(args[0]))
            if f == 'mod':
                return args[0] % args[1]
            if f == 'idiv':
                return args[0] / args[1]
            r = self.fn(f, args, n.sort)(*args)
            if f == 'exp':
                a = args[0]
                self.axioms += [r > 0, z3.Implies(a > 0, r > 1 + a), z3.Implies(a < 0, r < 1), z3.Implies(a == 0, r == 1)]
            elif f == 'log':
                a = args[0]
                self.axioms += [z3.Implies(a > 1, r > 0), z3.Implies(z3.And(a > 0, a < 1), r < 0), z3.Implies(a == 1, r == 0)]
            elif f in ('sin', 'cos'):
                self.axioms += [r <= 1, r >= -1]
                oth = self.fn('cos' if f == 'sin' else 'sin', args, 'R')(*args)
                self.axioms.append(r * r + oth * oth == 1)
            elif f == 'pow':
                self.axioms.append(z3.Implies(args[0] > 0, r > 0))
            elif f in t.POSITIVE:
                self.axioms.append(r > 0)
            return r
        raise TypeError('z3: ' + op)

    def pw(self, node, b, e):
        b = self.real(b) if (e < 0 or e.denominator != 1) else b
        if e.denominator == 1:
            k = int(e)
            r = b
            for _ in range(abs(k) - 1):
                r = r * b
            if k < 0:
                r = 1 / r
            return r
        q = e.denominator
        base = z3.Function('root%d' % q, z3.RealSort(), z3.RealSort())(b)
        p = base
        for _ in range(q - 1):
            p = p * base
        self.axioms += [z3.Implies(b >= 0, z3.And(base >= 0, p == b)), z3.Implies(b > 0, base > 0)]
        k = e.numerator
        r = base
        for _ in range(abs(k) - 1):
            r = r * base
        return 1 / r if k < 0 else r

    def boo(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self._boo(n)
            self.memo[n] = r
        return r

    def _boo(self, n):
        op = n.op
        if op == 'true': return z3.BoolVal(True)
        if op == 'false': return z3.BoolVal(False)
        if op == 'eq0': return self.num(n.args[0]) == 0
        if op == 'lt0': return self.num(n.args[0]) < 0
        if op == 'not': return z3.Not(self.boo(n.args[0]))
        if op == 'and': return z3.And([self.boo(a) for a in n.args])
        if op == 'or': return z3.Or([self.boo(a) for a in n.args])
        if op == 'bsym': return z3.Bool(str(n.args[0]))
        if op == 'papp':
            args = [z3.IntVal(abs(hash(a)) % (1 << 30)) if isinstance(a, str) else self.num(a) for a in n.args[1:]]
            return self.fn(n.args[0], args, 'B', True)(*args) if args else z3.Bool(n.args[0])
        if op == 'forall':
            v, r, body = n.args
            zv = self.num(v)
            sub = Z3Enc()
            sub.funcs = self.funcs
            b = sub.boo(body)
            rr = self.num(r)
            self.axioms += [a for a in sub.axioms if not _uses(a, zv)]
            return z3.ForAll([zv], z3.Implies(z3.And(zv >= 0, zv < rr), b))
        raise TypeError('z3 bool: ' + op)


def _uses(e, v):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        st.extend(x.children())
    return False


_satcache = {}


def check_sat(conds, timeout=None):
    """'sat' / 'unsat' / 'unknown' of a conjunction."""
    conds = [c for c in (t.B(c) for c in conds) if c is not TRUE]
    if any(c is FALSE for c in conds):
        return 'unsat'
    key = (frozenset(conds), timeout)
    r = _satcache.get(key)
    if r is not None:
        return r
    t0 = time.time()
    enc = Z3Enc()
    s = z3.Solver()
    s.set('timeout', timeout or Z3_TIMEOUT_MS)
    for c in conds:
        s.add(enc.boo(c))
    done = 0
    while done < len(enc.axioms):
        a = enc.axioms[done]
        done += 1
        s.add(a)
    r = str(s.check())
    STATS['z3_calls'] += 1
    STATS['z3_s'] += time.time() - t0
    _satcache[key] = r
    return r


def model_of(conds, timeout=None):
    enc = Z3Enc()
    s = z3.Solver()
    s.set('timeout', timeout or Z3_TIMEOUT_MS)
    for c in conds:
        s.add(enc.boo(t.B(c)))
    for a in enc.axioms:
        s.add(a)
    if s.check() == z3.sat:
        return str(s.model())[:2000]
    return None


def smt2_of(conds):
    enc = Z3Enc()
    s = z3.Solver()
    for c in conds:
        s.add(enc.boo(t.B(c)))
    for a in enc.axioms:
        s.add(a)
    return s.to_smt2()


def cvc5_unsat(conds, timeout=10):
    t0 = time.time()
    txt = '(set-logic ALL)\n' + smt2_of(conds)
    fd, path = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(txt)
        p = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000), path], capture_output=True, text=True, timeout=timeout + 5)
        return p.stdout.strip().startswith('unsat')
    except Exception:
        return False
    finally:
        os.unlink(path)
        STATS['cvc5_calls'] += 1
        STATS['cvc5_s'] += time.time() - t0


_bounds = {}


def bounds_of(h):
    """what a hypothesis says of an integer atom: (atom, 'lo', k) for atom >= k, (atom, 'up', polynomial) for atom <= polynomial"""
    r = _bounds.get(h)
    if r is not None: return r
    out, neg = [], h.op == 'not'
    a = h.args[0] if neg else h
    if a.op == 'lt0':
        p = t.nf(a.args[0])         # neg: p >= 0, else p <= -1
        if all(len(m) <= 1 and all(e == 1 and x.sort == 'I' for x, e in m) and q.denominator == 1 for m, q in p.items()):
            if not neg: p = {m: -q for m, q in p.items()} | {(): -p.get((), 0) - 1}       # p >= 0 from now on
            p = {m: q for m, q in p.items() if q != 0}
            for m, q in p.items():
                if not m: continue
                if q == 1 and set(p) <= {m, ()}: out.append((m[0][0], 'lo', -p.get((), 0)))
                if q == -1: out.append((m[0][0], 'up', {k: v for k, v in p.items() if k != m}))
    r = _bounds[h] = tuple(out)
    return r


def _nonneg(p, lo, up, depth):
    """p >= 0 by the bounds known of its atoms?"""
    k, bad = p.get((), 0), None
    for m, q in p.items():
        if not m: continue
        if len(m) != 1 or m[0][1] != 1: return False
        x = m[0][0]
        if q > 0:
            if x not in lo: return False
            k += q * lo[x]
        elif x in up:
            bad = m
        else:
            return False
    if bad is None: return k >= 0
    if depth == 0: return False
    q, x = p[bad], bad[0][0]
    for u in up[x][:4]:
        r = {m: v for m, v in p.items() if m != bad}
        for m, v in u.items():
            w = r.get(m, 0) + q * v
            if w: r[m] = w
            else: r.pop(m, None)
        if _nonneg(r, lo, up, depth - 1): return True
    return False


def quick_sign(c, hyps):
    """a decision from bounds on integer atoms, where these suffice"""
    if c.op == 'not':
        r = quick_sign(c.args[0], hyps)
        return None if r is None else not r
    if c.op in ('and', 'or'):
        rs = [quick_sign(a, hyps) for a in c.args]
        stop = c.op == 'or'
        if stop in rs: return stop
        return None if None in rs else not stop
    if c.op != 'lt0': return True if c in hyps else None
    p = t.nf(c.args[0])
    if len(p) > 40 or any(len(m) > 1 or m and m[0][1] != 1 for m in p): return None
    lo, up = {}, {}
    for h in hyps:
        for x, kind, v in bounds_of(t.B(h)):
            if kind == 'lo': lo[x] = max(lo.get(x, v), v)
            else: up.setdefault(x, []).append(v)
    if _nonneg(p, lo, up, 3): return False
    r = {m: -q for m, q in p.items()}
    if all(x.sort == 'I' for m in p for x, _ in m) and all(q.denominator == 1 for q in p.values()): r[()] = r.get((), 0) - 1
    else: r = None
    if r is not None and _nonneg(r, lo, up, 3): return True
    return None


_names = {}


def names_of(n):
    """names of the symbols and functions occurring in n"""
    r = _names.get(n)
    if r is None:
        out = {s.args[0] for s in t.free(n) if s.op == 'sym'}
        seen, st = set(), [n]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x.op == 'app': out.add(('app', x.args[0]))
            if x.op == 'poly':
                for m, _ in x.args[0]: st.extend(a for a, _e in m)
            elif x.op == 'msum':
                st.extend(x.args[0])
                st.append(x.args[1])
            else:
                st.extend(a for a in x.args if isinstance(a, t.Node))
        r = _names[n] = frozenset(out)
    return r


def relevant(goals, hyps):
    """the hypotheses linked to the goals by common symbols or functions (leaving out others can only lose a proof)"""
    known, rest, out = set(), [(h, names_of(h)) for h in hyps], []
    for g in goals: known |= names_of(g)
    while True:
        more = [h for h in rest if not h[1] or h[1] & known]
        if not more: break
        rest = [h for h in rest if h[1] and not h[1] & known]
        for h, ns in more:
            out.append(h)
            known |= ns
    return out


def decide(c, hyps, timeout=1500):
    """True / False / None for condition c under hyps."""
    c = t.B(c)
    if c is TRUE: return True
    if c is FALSE: return False
    p = t.ind(c)
    if p == {}: return False
    if p == t.pconst(1): return True
    nc = t.not_(c)
    if c in hyps: return True
    if nc in hyps: return False
    r = quick_sign(c, hyps)
    if r is not None: return r
    hyps = relevant([c], [t.B(h) for h in hyps])
    if check_sat(list(hyps) + [nc], timeout) == 'unsat': return True
    if check_sat(list(hyps) + [c], timeout) == 'unsat': return False
    return None


# range facts inside sums
_rh = {}


def range_hook(a, vars_):
    kind, d = a.args
    names = {v: ('v%d' % i) for i, (v, _) in enumerate(vars_)}
    key = (a, tuple(vars_))
    if key in _rh:
        return _rh[key]
    hy = []
    for v, r in vars_:
        hy += [t.ge(v, 0), t.lt(v, r)]
    cond = t.eq(d, 0) if kind == 'zer' else t.lt(d, 0)
    r = None
    if all(x.sort == 'I' for x in free(d)):
        if check_sat(hy + [t.not_(cond)], 800) == 'unsat': r = True
        elif check_sat(hy + [cond], 800) == 'unsat': r = False
    _rh[key] = r
    return r


t.RANGE_HOOK[0] = range_hook


# ---------------------------------------------------------- ring equality
def replace(n, s):
    """Replace arbitrary sub-nodes (atoms) of a term."""
    memo = {}
    def go(n):
        if n in s: return s[n]
        r = memo.get(n)
        if r is not None: return r
        op = n.op
        if op in ('sym', 'bv', 'const', 'true', 'false', 'bsym'): r = n
        elif op == 'add': r = t.add(*[go(a) for a in n.args])
        elif op == 'mul': r = t.mul(*[go(a) for a in n.args])
        elif op == 'pow': r = t.power(go(n.args[0]), n.args[1])
        elif op == 'app':
            a = tuple(go(x) for x in n.args[1:])
            r = t.power(*a) if n.args[0] == 'pow' else t.mk('app', (n.args[0],) + a, n.sort)
        elif op == 'papp':
            r = t.mk('papp', (n.args[0],) + tuple(a if isinstance(a, str) else go(a) for a in n.args[1:]), 'B')
        elif op == 'ite': r = t.ite(go(n.args[0]), go(n.args[1]), go(n.args[2]))
        elif op == 'eq0': r = t.eq(go(n.args[0]), 0)
        elif op == 'lt0': r = t.lt(go(n.args[0]), 0)
        elif op == 'not': r = t.not_(go(n.args[0]))
        elif op == 'and': r = t.and_(*[go(a) for a in n.args])
        elif op == 'or': r = t.or_(*[go(a) for a in n.args])
        elif op == 'sum': r = t.sum_over(n.args[0], go(n.args[1]), go(n.args[2]))
        elif op == 'msum':
            r = t.subst(n, {}) if False else n
            rs, body, dd = n.args
            b2 = go(body)
            if b2 is not body or any(go(q) is not q for q in rs):
                ss, new = {}, []
                for i, q in enumerate(rs):
                    w = t.fresh('s', 'I')
                    ss[t.bv(dd + i)] = w
                    new.append((w, go(q)))
                b = t.subst(b2, ss)
                for w, q in reversed(new):
                    b = t.sum_over(w, q, b)
                r = b
        elif op == 'poly':
            r = t.add(*[t.mul(t.const(c, 'R'), *[t.power(go(a), t.const(e)) if e != 1 else go(a) for a, e in m]) for m, c in n.args[0]])
        elif op == 'ind':
            k, a = n.args
            c = go(a)
            if c is a: r = n
            else:
                cond = t.eq(c, 0) if k == 'zer' else (t.lt(c, 0) if k == 'neg' else c)
                r = t.ite(cond, t.const(1), t.const(0))
        elif op == 'forall': r = n
        else: raise TypeError(op)
        memo[n] = r
        return r
    return go(n)


def clear_den(p, cap=2000000):
    """Multiply out composite denominators until none is left."""
    for _ in range(60):
        mins = {}
        for m in p:
            for a, e in m:
                if a.op == 'poly':
                    fl = e.numerator // e.denominator
                    if fl < 0:
                        mins[a] = min(mins.get(a, 0), fl)
        if not mins or not p:
            return p
        a = max(mins, key=lambda x: x.id)    # outermost (largest id) first
        k = -mins[a]
        r = {}
        base = dict(a.args[0])
        for m, c in p.items():
            d = dict(m)
            e = d.get(a, Fraction(0)) + k
            d.pop(a, None)
            fl = e.numerator // e.denominator
            fr = e - fl
            q = mono_poly(d)
            if fr: q = pmul(q, t.patom(a, fr))
            if fl: q = pmul(q, ppow(base, fl))
            r = padd(r, q, c)
            if len(r) > cap: raise t.TooBig()
        p = r
    return p


def deep_inds(p):
    out, seen = [], set()
    def go(n):
        if n in seen: return
        seen.add(n)
        if n.op == 'ind':
            if not any(x.op == 'bv' for x in free(n)): out.append(n)
            return
        if n.op == 'poly':
            for m, _ in n.args[0]:
                for a, _e in m: go(a)
            return
        if n.op == 'msum':
            go(n.args[1])
            for r in n.args[0]: go(r)
            return
        for a in n.args:
            if isinstance(a, t.Node): go(a)
    for m in p:
        for a, _ in m: go(a)
    return out


def eq_substs(hyps):
    """Substitutions x := e from equality hypotheses."""
    s = {}
    for h in hyps:
        if h.op == 'eq0':
            v = _solve_any(h.args[0])
            if v is not None and v[0] not in s and not (free(v[1]) & {v[0]}):
                s[v[0]] = v[1]
    return s


def _solve_any(d):
    p = nf(d)
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sym' and m[0][0].args[0] not in t.DEFINED:
            x = m[0][0]
            rest = {mm: -cc / c for mm, cc in p.items() if mm != m}
            if any(x in free(a) for mm in rest for a, _ in mm): continue
            e = polynode(rest)
            if x.sort == 'I':
                if e.op == 'const':
                    if t.cval(e).denominator != 1: continue
                    e = t.const(int(t.cval(e)))
                elif e.op == 'poly': e = t.mk('poly', e.args, 'I')
            return x, e
    return None


def prove_eq(a, b, hyps=(), budget=64, rewrites=None):
    """(True, '') if a == b under hyps, else (False, residual description)."""
    t0 = time.time()
    STATS['ring_calls'] += 1
    try:
        hyps = [t.B(h) for h in hyps]
        d = t.sub(a, b)
        return _peq(d, hyps, [budget], rewrites)
    except t.TooBig:
        return False, 'normal form too large'
    finally:
        STATS['ring_s'] += time.time() - t0


def _peq(d, hyps, budget, rewrites):
    s = eq_substs(hyps)
    if s:
        for _ in range(3):
            d2 = t.subst(d, s)
            if d2 is d: break
            d = d2
    d = floor_divisions(d, hyps)
    p = clear_den(nf(d))
    if rewrites is not None:
        p = rewrites(p)
    if not p:
        return True, ''
    if budget[0] > 0 and _merge_sums(p, hyps, budget, rewrites):
        return True, ''
    inds = deep_inds(p)
    if not inds:
        if check_sat(list(hyps), 1500) == 'unsat':
            return True, ''
        return False, 'residual %s != 0 under %s' % (t.showp(p, 300), [t.show(h, 80) for h in hyps[:8]])
    budget[0] -= 1
    if budget[0] < 0:
        return False, 'case-split budget exhausted'
    # decide what can be decided
    n = polynode(p)
    for i in inds:
        k, arg = i.args
        cond = t.eq(arg, 0) if k == 'zer' else (t.lt(arg, 0) if k == 'neg' else arg)
        v = decide(cond, hyps)
        if v is not None:
            return _peq(replace(n, {i: t.const(1 if v else 0)}), hyps, budget, rewrites)
    i = inds[0]
    k, arg = i.args
    cond = t.eq(arg, 0) if k == 'zer' else (t.lt(arg, 0) if k == 'neg' else arg)
    ok, why = _peq(replace(n, {i: t.const(1)}), hyps + [cond], budget, rewrites)
    if not ok: return ok, why
    return _peq(replace(n, {i: t.const(0)}), hyps + [t.not_(cond)], budget, rewrites)


def div_nodes(n):
    out, seen, st = [], set(), [n]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'app' and x.args[0] == 'idiv': out.append(x)
        if x.op == 'poly':
            for m, _ in x.args[0]: st.extend(a for a, _e in m)
        elif x.op == 'msum':
            pass            # bound variables: decided when the summand is compared
        else: st.extend(a for a in x.args if isinstance(a, t.Node))
    return out


def floor_divisions(d, hyps):
    """idiv(b q + r, b) = q where 0 <= r < b follows from the hypotheses"""
    s = {}
    for x in div_nodes(d):
        a, b = x.args[1], x.args[2]
        if b.op == 'const': continue
        ba = nf(b)
        if len(ba) != 1: continue
        (bm, bc), = ba.items()
        if len(bm) != 1 or bc != 1 or bm[0][1] != 1: continue
        q, r = {}, {}
        for m, c in nf(a).items():
            e = dict(m)
            if e.get(bm[0][0], 0) >= 1 and c.denominator == 1:
                m2 = tuple((z, k - 1 if z is bm[0][0] else k) for z, k in m if not (z is bm[0][0] and k == 1))
                q[m2] = q.get(m2, 0) + c
            else: r[m] = c
        if not q: continue
        r = polynode(r)
        if decide(t.and_(t.ge(r, 0), t.lt(r, b)), hyps) is True: s[x] = polynode(q)
    return replace(d, s) if s else d


def _merge_sums(p, hyps, budget, rewrites):
    """p == 0 because, sum by sum over the same index ranges, the total summand is zero."""
    groups = {}
    for m, c in p.items():
        ms = [(a, e) for a, e in m if a.op == 'msum']
        if len(ms) != 1 or ms[0][1] != 1: return False
        a = ms[0][0]
        groups.setdefault(a.args[0], []).append((a, c, [x for x in m if x[0] is not a]))
    if not groups: return False
    for rs, terms in groups.items():
        vs = [t.fresh('b', 'I') for _ in rs]
        hy = list(hyps)
        for v, r in zip(vs, rs): hy += [t.ge(v, 0), t.lt(v, r)]
        tot = []
        for a, c, rest in terms:
            body = t.subst(a.args[1], {t.bv(a.args[2] + i): v for i, v in enumerate(vs)})
            f = polynode({tuple(rest): Fraction(1)}) if rest else t.const(1)
            tot.append(t.mul(t.const(c), f, body))
        budget[0] -= 1
        ok, _ = _peq(t.add(*tot), hy, budget, rewrites)
        if not ok: return False
    return True


def prove(goal, hyps=(), timeout=None, use_cvc5=True):
    """Prove a boolean goal under hyps. Returns (ok, backend, why)."""
    goal = t.B(goal)
    if goal is TRUE: return True, 'simplifier', ''
    hyps = [t.B(h) for h in hyps if t.B(h) is not TRUE]
    p = t.ind(goal)
    if p == t.pconst(1): return True, 'ring', ''
    if goal in hyps: return True, 'simplifier', ''
    if goal.op == 'eq0':
        ok, why = prove_eq(goal.args[0], 0, hyps)
        if ok: return True, 'ring', ''
    if goal.op == 'and':
        bk = 'simplifier'
        for g in goal.args:
            ok, bk, why = prove(g, hyps, timeout, use_cvc5)
            if not ok: return ok, bk, why
        return True, bk, ''
    r = check_sat(hyps + [t.not_(goal)], timeout)
    if r == 'unsat': return True, 'z3', ''
    if use_cvc5 and r == 'unknown':
        if cvc5_unsat(hyps + [t.not_(goal)]): return True, 'cvc5', ''
    why = 'z3: %s' % r
    return False, 'z3', why + ' for %s under %s' % (t.show(goal, 300), [t.show(h, 100) for h in hyps[:10]])
