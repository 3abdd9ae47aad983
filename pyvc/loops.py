"""Loop summaries.  Each is derived from ONE generic iteration i (0 <= i < n) of the real body,
executed with every location the loop modifies replaced by an arbitrary (havocked) value, so the
conclusion holds for every iteration by induction:
  counter      x' = x + c                         => x_n = x_0 + c*n
  accumulate   x' = x + t(i), t free of the loop state => x_n = x_0 + Sum_{i<n} t(i)
  map          only iteration g(k) touches cell k  => A_n[k] = F(g(k), A_0[k]) if 0<=g(k)<n
  append       exactly one append                  => L_n = L_0 ++ [v(0), ..., v(n-1)]
  assign       x' free of the loop state           => x_n = x'(n-1) (n>0)
  first exit   break/return/raise                  => least m whose exit condition holds
Anything else leaves the location unusable (reading it raises Unsupported)."""
import itertools
import math
from . import terms as t
from . import prove as P
from .terms import Node
from .interp import (Unsupported, Rep, Return, PyRaise, Poison, MISSING, Buf, Lam, Dense, ListV, SymSeq, Cat,
                     content_get, aint, _stamp, Cplx, Frame, DictV)


class HavocBase(object):
    def __init__(self, name, orig): self.name, self.orig = name, orig


_apps = {}


def app_names(n):
    """Names of all app functions in a term."""
    r = _apps.get(n)
    if r is not None:
        return r
    s = set()
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'app': s.add(x.args[0])
        if x.op == 'poly':
            for m, _ in x.args[0]:
                for a, _e in m: st.append(a)
        elif x.op == 'msum':
            st.extend(x.args[0]); st.append(x.args[1])
        else:
            for a in x.args:
                if isinstance(a, Node): st.append(a)
    r = frozenset(s)
    _apps[n] = r
    return r


def occurrences(n, name):
    out, seen, st = set(), set(), [n]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'app' and x.args[0] == name: out.add(x)
        if x.op == 'poly':
            for m, _ in x.args[0]:
                for a, _e in m: st.append(a)
        elif x.op == 'msum':
            st.extend(x.args[0]); st.append(x.args[1])
        else:
            for a in x.args:
                if isinstance(a, Node): st.append(a)
    return out


def isnum(v):
    return isinstance(v, Node) and v.sort != 'B' or (isinstance(v, int) and not isinstance(v, bool))


def isbool(v):
    return isinstance(v, bool) or isinstance(v, Node) and v.sort == 'B'


def leaves(e, facts, conds=()):
    """Decision-tree leaves of a term: list of (conds, value)."""
    if isinstance(e, Node) and e.op == 'ite':
        c = e.args[0]
        hy = list(facts) + list(conds)
        v = P.decide(c, hy, 600)
        if v is True: return leaves(e.args[1], facts, conds)
        if v is False: return leaves(e.args[2], facts, conds)
        return leaves(e.args[1], facts, conds + (c,)) + leaves(e.args[2], facts, conds + (t.not_(c),))
    return [(conds, e)]


def flatten(conds):
    out = []
    for c in conds:
        if c.op == 'and': out.extend(flatten(c.args))
        else: out.append(c)
    return out


def mod_sym(x):
    return x if isinstance(x, Node) and x.op in ('sym', 'bsym') else None


def content_mentions(c, syms):
    syms = [x for x in syms if x is not None]
    terms = []
    def walk(c):
        if isinstance(c, Node): terms.append(c)
        elif isinstance(c, (list, tuple)):
            for x in c: walk(x)
        elif isinstance(c, ArrV):
            from . import arrays as A
            terms.append(A.getter(c)(*[t.sym('ix!%d' % d, 'I') for d in range(c.ndim)]))
        elif callable(c): terms.append(c(t.sym('ix!0', 'I')))
    walk(c)
    return any(occurs_in(x, s) for x in terms if isinstance(x, Node) for s in syms)


def occurs_in(x, s):
    seen, st = set(), [x]
    while st:
        n = st.pop()
        if n is s: return True
        if n in seen: continue
        seen.add(n)
        if n.op == 'poly':
            for m, _ in n.args[0]:
                for a, _e in m: st.append(a)
        elif n.op == 'msum':
            st.extend(n.args[0]); st.append(n.args[1])
        else:
            st.extend(a for a in n.args if isinstance(a, Node))
    return False


def summarise(I, n, bind, body, fr, prange, orelse, where, steps={}):
    lib = I.lib
    i = t.fresh('i', 'I')
    hyps = [t.ge(i, 0), t.lt(i, n)]
    some = t.gt(n, 0)
    if P.quick_sign(some, I.pc) is not True and P.check_sat(P.relevant([some], I.pc) + [some], 2000) == 'unsat':     # no iteration
        orelse()
        return
    stamp0 = _stamp[0]
    stops0 = set(I.stops)
    mod, orig, hsyms = {}, {}, {}
    memo0 = set(I.memo)

    def run():
        for loc, h in mod.items():
            if h is not MISSING:
                I.put(loc[0], loc[1], h)
        bind(i)
        body()

    def attempt():
        no, seen = len(I.obligations), dict(I._obl_seen)
        pcm = len(I.pc)
        I.pc += hyps
        try:
            paths = I.explore(run)
        finally:
            del I.pc[pcm:]
        return paths, no, seen

    def havoc(loc, v):
        name = t.fresh('h').args[0]
        if v is MISSING:
            return Poison('%s may be undefined' % (loc[1],))
        if isbool(v):
            hsyms[name] = loc
            return t.bsym(name)
        if isnum(v):
            hsyms[name] = loc
            sort = 'I' if isinstance(v, int) or v.sort == 'I' else 'R'
            return t.sym(name, sort)
        if isinstance(v, (Dense, Lam)):
            hsyms[name] = loc
            return Lam(v.shape, lambda *ix: t.app(name, *ix))
        if isinstance(loc[0], ListV) and loc[1] == 'items':
            return Cat(HavocBase(name, v), ())
        return Poison('loop-carried value of %s' % (loc[1],))

    for loc, c in steps.items():
        orig[loc] = loc[0].d.get(loc[1], MISSING)
        mod[loc] = t.add(t.T(orig[loc]), t.mul(c, i))

    for _ in range(12):
        paths, no, seen = attempt()
        new = []
        for p in paths:
            for loc in p.effects:
                if loc[0].stamp <= stamp0 and loc not in mod and loc not in new:
                    new.append(loc)
        # sort change int -> real on accumulators
        widened = []
        for p in paths:
            for loc, h in mod.items():
                v = p.effects.get(loc, (None, h))[1]
                if isinstance(h, Node) and h.op == 'sym' and h.sort == 'I' and isinstance(v, Node) and v.sort == 'R':
                    widened.append(loc)
        if not new and not widened:
            break
        del I.obligations[no:]
        I._obl_seen = seen
        for loc in new:
            orig[loc] = loc[0].d.get(loc[1], MISSING)
            mod[loc] = havoc(loc, orig[loc])
        for loc in widened:
            name = t.fresh('h').args[0]
            hsyms[name] = loc
            mod[loc] = t.sym(name, 'R')
    else:
        raise Unsupported('loop %s: modified locations do not stabilise' % where)
    # a symbol of a library contract stands for one fixed argument: it must not depend on the iteration
    for k in set(I.memo) - memo0:
        if isinstance(k, str) and content_mentions(I.memo[k], [i] + [mod_sym(x) for x in mod.values()]):
            raise Unsupported('loop %s: library result depends on the iteration' % where)

    def merged(loc, paths):
        """Merged value of loc after a normal iteration."""
        vals = [(t.and_(*p.conds), p.effects.get(loc, (None, mod[loc]))[1]) for p in paths]
        if not vals:
            return mod[loc]
        v = vals[-1][1]
        for c, w in reversed(vals[:-1]):
            v = merge(I, c, w, v)
        return v

    def skolem(paths):
        """the index at which an inner loop stops is a function of the iteration of this one"""
        new = {k: v for k, v in I.stops.items() if k not in stops0}
        neg = {}
        if not new: return neg
        apps = {t.sym(k, 'I'): t.app(k, i, sort='I') for k in new}
        f = lambda x: P.replace(x, apps)
        for p in paths:
            e = t.and_(*p.conds)
            for k, N in reversed(list(new.items())):
                if t.sym(k, 'I') in t.free(e):
                    e = t.not_(t.forall(N, lambda j, e=e, k=k: t.not_(P.replace(e, {t.sym(k, 'I'): j}))))
            neg[id(p)] = f(e)
            p.conds[:] = [f(c) for c in p.conds]
            for loc, (old, v) in list(p.effects.items()):
                p.effects[loc] = (old, Cat(v.base, [lib.map_value(x, f) for x in v.tail]) if isinstance(v, Cat)
                                  else lib.map_content(v, f) if isinstance(v, (Dense, Lam)) else v if v is MISSING or isinstance(v, Poison) else lib.map_value(v, f))
            if p.kind == 'return': p.value = lib.map_value(p.value, f)
        for k in new: I.stops.pop(k)
        return neg

    negated = skolem(paths)
    normal = [p for p in paths if p.kind in ('ok', 'continue')]
    exits = [p for p in paths if p.kind in ('break', 'return', 'raise')]
    # counters: closed form, then run again so that bounds and conditions see it
    counters = {}
    for loc, c in steps.items():
        v = merged(loc, normal)
        if normal and not (isnum(v) and aint(t.canon(t.sub(t.T(v), mod[loc]))) == c): raise Unsupported('loop %s: %s is not a counter' % (where, loc[1]))
        counters[loc] = t.const(c)
    hinted = dict(counters)
    for loc, h in list(mod.items()):
        if isinstance(h, Node) and h.op == 'sym' and isnum(orig[loc]):
            v = merged(loc, normal)
            if isnum(v):
                d = t.nf(t.sub(v, h))
                if not d or (len(d) == 1 and () in d):
                    c = d.get((), 0)
                    counters[loc] = t.const(int(c)) if c.denominator == 1 else t.const(c) if c else t.const(0)
                    if c == 0: counters[loc] = t.const(0)
    if set(counters) - set(hinted):
        del I.obligations[no:]
        I._obl_seen = seen
        for loc, c in counters.items():
            if loc not in hinted: mod[loc] = t.add(t.T(orig[loc]), t.mul(c, i))
        paths, no, seen = attempt()
        negated = skolem(paths)
        normal = [p for p in paths if p.kind in ('ok', 'continue')]
        exits = [p for p in paths if p.kind in ('break', 'return', 'raise')]

    hnames = set(hsyms) - {mod[l].args[0] for l in counters if isinstance(mod[l], Node) and mod[l].op == 'sym'}

    def has_havoc(node, but=()):
        for s in t.free(node):
            if s.op == 'sym' and s.args[0] in hnames and s.args[0] not in but: return True
        for a in app_names(node):
            if a in hnames and a not in but: return True
        return _bsyms(node) & hnames != set()

    finals = {}      # loc -> function N -> value

    def clean(x, N_):
        """node at last iteration, or error when it refers to the loop state"""
        if has_havoc(x):
            raise Unsupported('loop %s: value depends on the loop-carried state' % where)
        return t.subst(x, {i: N_})

    for loc, h in mod.items():
        o = orig[loc]
        if loc in counters:
            c = counters[loc]
            finals[loc] = (lambda N, o=o, c=c: simp_int(t.add(t.T(o), t.mul(c, N))))
            continue
        try:
            v = merged(loc, normal)
        except Unsupported as e:
            v = Poison(str(e))
        if v is h:
            finals[loc] = (lambda N, o=o: o)
            continue
        if isinstance(h, Node) and h.op == 'sym' and isnum(v):
            v = t.T(v)
            d = t.polynode(t.nf(t.sub(v, h)))
            if not has_havoc(d):
                finals[loc] = (lambda N, o=o, d=d: t.add(t.T(o), sum_n(i, N, d)))
            elif not has_havoc(v):
                finals[loc] = (lambda N, o=o, v=v: vlast(I, N, t.subst(v, {i: t.sub(N, 1)}), o))
            else:
                finals[loc] = (lambda N, loc=loc: Poison('loop %s: %s has no closed form' % (where, loc[1])))
            continue
        if isinstance(h, Node) and h.op == 'bsym' and isbool(v):
            v = t.B(v)
            if not has_havoc(v):
                finals[loc] = (lambda N, o=o, v=v: vlast(I, N, t.subst(v, {i: t.sub(N, 1)}), o))
            elif not has_havoc(v, (h.args[0],)):
                # monotone flag: b' = b or c(i)   /   b' = b and c(i)
                v1 = P.replace(v, {h: t.TRUE})
                v0 = P.replace(v, {h: t.FALSE})
                if v1 is t.TRUE and o in (False, t.FALSE):
                    finals[loc] = (lambda N, v0=v0: t.not_(t.forall(N, lambda j: t.not_(t.subst(v0, {i: j})))))
                elif v0 is t.FALSE and o in (True, t.TRUE):
                    finals[loc] = (lambda N, v1=v1: t.forall(N, lambda j: t.subst(v1, {i: j})))
                else:
                    finals[loc] = (lambda N, loc=loc: Poison('loop %s: flag %s' % (where, loc[1])))
            else:
                finals[loc] = (lambda N, loc=loc: Poison('loop %s: flag %s' % (where, loc[1])))
            continue
        if isinstance(h, Lam) and isinstance(loc[0], Buf):
            finals[loc] = buffer_final(I, loc, h, v, o, i, n, hyps, has_havoc, where, prange)
            continue
        if isinstance(h, Cat):
            finals[loc] = list_final(I, loc, h, v, o, i, has_havoc, where)
            continue
        # other values (arrays, strings, objects assigned in the body)
        if isinstance(v, Poison):
            finals[loc] = (lambda N, v=v: v)
        else:
            def fin(N, v=v, o=o):
                if P.decide(t.gt(N, 0), I.pc) is not True:
                    if o is MISSING or not same_value(v, o):
                        return Poison('loop %s may execute no iteration' % where)
                    return o
                return lib.map_value(v, lambda x: clean(x, t.sub(N, 1)))
            finals[loc] = fin

    def set_state(N):
        vals = {loc: f(N) for loc, f in finals.items()}
        for loc, v in vals.items():
            if v is MISSING:
                continue
            I.put(loc[0], loc[1], v)

    def state_subst(N):
        """node map: havoc -> state after N iterations, i -> N"""
        smap = {i: t.T(N)}
        bufs = {}
        for nm, loc in hsyms.items():
            if loc not in finals or loc in counters:
                continue
            h = mod[loc]
            if isinstance(h, Node) and h.op in ('sym', 'bsym') and h.args[0] == nm:
                v = finals[loc](t.T(N))
                if isinstance(v, Poison): continue
                smap[h] = t.T(v) if h.op == 'sym' else t.B(v)
            elif isinstance(h, Lam):
                v = finals[loc](t.T(N))
                if not isinstance(v, Poison): bufs[nm] = v
        def f(x):
            x = t.subst(x, {k: v for k, v in smap.items() if k.op != 'bsym'})
            b = {k: v for k, v in smap.items() if k.op == 'bsym'}
            if b: x = P.replace(x, b)
            if bufs and (app_names(x) & set(bufs)):
                x = t.map_apps(x, lambda nm, a: content_get(bufs[nm], a) if nm in bufs else None)
            if has_havoc(x):
                raise Unsupported('loop %s: exit condition depends on the loop state' % where)
            return x
        return f

    if not exits:
        set_state(n)
        orelse()
        return
    # first exit
    exitc = [negated.get(id(p), t.and_(*p.conds)) for p in exits]
    c = I.choose(len(exits) + 1, ('loop', where))
    if c == 0:
        if not normal:
            I.assume(t.le(n, 0))
        I.assume(t.forall(n, lambda j: t.not_(t.or_(*[state_subst(j)(e) for e in exitc]))))
        for p_ in ():
            pass
        set_state(n)
        orelse()
        return
    p = exits[c - 1]
    m = t.fresh('m', 'I')
    I.stops[m.args[0]] = n
    I.assume(t.ge(m, 0))
    I.assume(t.lt(m, n))
    f = state_subst(m)
    for q in p.conds:
        I.assume(f(q))
    I.assume(t.forall(m, lambda j: t.not_(t.or_(*[state_subst(j)(e) for e in exitc]))))
    if P.check_sat(I.pc, 2000) == 'unsat':
        from .interp import Infeasible
        raise Infeasible()
    base = {loc: fn(m) for loc, fn in finals.items()}
    upd = {}
    for loc, (old, new) in p.effects.items():
        if loc[0].stamp > stamp0: continue
        if new is mod.get(loc):
            continue
        if isinstance(new, Cat) and isinstance(new.base, HavocBase):
            b = base[loc]
            tail = [lib.map_value(x, f) for x in new.tail]
            upd[loc] = concat_items(I, b, tail)
        elif isinstance(new, (Dense, Lam)):
            upd[loc] = lib.map_content(new, f)
        else:
            upd[loc] = lib.map_value(new, f)
    for loc, v in base.items():
        if v is not MISSING: I.put(loc[0], loc[1], v)
    for loc, v in upd.items():
        I.put(loc[0], loc[1], v)
    if p.kind == 'break': return
    if p.kind == 'return': raise Return(lib.map_value(p.value, f))
    raise PyRaise(p.value)


def _bsyms(n):
    out, seen, st = set(), set(), [n]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'bsym': out.add(x.args[0])
        if x.op == 'poly':
            for m, _ in x.args[0]:
                for a, _e in m: st.append(a)
        elif x.op == 'msum':
            st.append(x.args[1])
        else:
            for a in x.args:
                if isinstance(a, Node): st.append(a)
    return out


def simp_int(x):
    return aint(x) if isinstance(x, Node) and x.op == 'const' and x.sort == 'I' else x


def same_value(a, b):
    return a is b or (isinstance(a, (str, int, float, type(None))) and type(a) is type(b) and a == b)


def sum_n(i, N, d):
    if d.op == 'const' and t.cval(d) == 0: return d
    v = t.fresh('s', 'I')
    N = t.T(N)
    if N.op == 'const' and 0 <= t.cval(N) <= 64:
        return t.add(*([t.const(0)] + [t.subst(d, {i: t.const(k)}) for k in range(int(t.cval(N)))]))
    return t.sum_over(v, N, t.subst(d, {i: v}))


def vlast(I, N, v, o):
    if P.decide(t.gt(N, 0), I.pc) is True:
        return v
    if o is MISSING:
        return Poison('may be undefined')
    return t.ite(t.gt(N, 0), v, t.T(o) if not isbool(o) else t.B(o))


def merge(I, c, a, b):
    """value-level conditional"""
    if a is b: return a
    if isinstance(a, Poison): return a
    if isinstance(b, Poison): return b
    if isnum(a) and isnum(b): return t.ite(c, t.T(a), t.T(b))
    if isbool(a) and isbool(b): return t.ite(c, t.B(a), t.B(b))
    if isinstance(a, (Dense, Lam)) and isinstance(b, (Dense, Lam)):
        from .interp import vite
        if tuple(a.shape) != tuple(b.shape): raise Unsupported('merge of arrays of different shapes')
        return Lam(a.shape, lambda *ix: vite(c, content_get(a, ix), content_get(b, ix)))
    if isinstance(a, Cat) and isinstance(b, Cat) and a.base is b.base and len(a.tail) == len(b.tail):
        return Cat(a.base, [I.lib.merge_values(I, c, x, y) for x, y in zip(a.tail, b.tail)])
    if same_value(a, b): return a
    return I.lib.merge_values(I, c, a, b)


def buffer_final(I, loc, h, v, o, i, n, hyps, has_havoc, where, prange):
    shape = o.shape
    hname = None
    ks = [t.fresh('k', 'I') for _ in shape]
    facts = list(I.pc) + list(hyps)
    for k, s in zip(ks, shape):
        facts += [t.ge(k, 0), t.lt(k, s)]
    hk = content_get(h, ks)
    hname = hk.args[0]
    if isinstance(v, Poison):
        return lambda N: v
    try:
        e = content_get(v, ks)
    except Unsupported as x:
        pz = Lam(shape, _raiser(str(x)))
        return lambda N: pz
    if isinstance(e, int): e = t.T(e)
    if not isinstance(e, Node):
        pz = Lam(shape, _raiser('loop %s: array of non-numeric elements' % where))
        return lambda N: pz
    if e is hk:
        return lambda N: o
    lv = [(cs, norm_occ(val, hname, ks, flatten(cs))) for cs, val in leaves(e, facts)]
    changed = [(flatten(cs), val) for cs, val in lv if val is not hk]
    if not changed:
        return lambda N: o
    # ---- map rule
    sols, ok = [], True
    for cs, val in changed:
        sol = None
        for c in cs:
            if c.op == 'eq0' and i in t.free(c.args[0]):
                g = t.solve_lin(c.args[0], i)
                if g is not None and i not in t.free(g):
                    sol = (c, g)
                    break
        if sol is None:
            ok = False
            break
        sols.append(sol)
    if ok and len({t.canon(g).id for _, g in sols}) == 1:
        g = t.canon(sols[0][1])
        out = []
        good = True
        for (cs, val), (c, _) in zip(changed, sols):
            sub = {i: g}
            val2 = t.subst(val, sub)
            cond2 = t.and_(*[t.subst(x, sub) for x in cs if x is not c])
            for x in [val2, cond2]:
                for occ in occurrences(x, hname):
                    if tuple(t.canon(a) for a in occ.args[1:]) != tuple(t.canon(k) for k in ks):
                        good = False
                if has_havoc(x, (hname,)):
                    good = False
            out.append((cond2, val2))
        if good:
            kset = list(ks)
            def final(N, out=out, g=g):
                def fn(*ix):
                    s = dict(zip(kset, [t.T(x) for x in ix]))
                    a0 = content_get(o, ix)
                    r = a0
                    gg = t.subst(g, s)
                    for cond2, val2 in reversed(out):
                        c_ = t.subst(cond2, s)
                        w = t.subst(val2, s)
                        rep = lambda nm, a: t.T(a0) if nm == hname else None
                        if hname in app_names(c_): c_ = t.map_apps(c_, rep)
                        if hname in app_names(w): w = t.map_apps(w, rep)
                        guard = t.and_(c_, *range_guard(I, gg, N, ix, shape))
                        from .interp import vite
                        r = vite(guard, w, r)
                    return r
                return densify(shape, fn)
            return final
    if prange:
        I.oblige_fact('parallel loop: iterations write disjoint locations', False,
                      'loop %s writes the same location from different iterations of prange' % where, where)
    # ---- accumulate rule
    d = t.sub(e, hk)
    parts = []
    accum = True
    for cs, val in lv:
        dv = t.polynode(t.nf(t.sub(val, hk)))
        if has_havoc(dv) or any(has_havoc(c) for c in cs):
            accum = False
            break
        parts.append((cs, dv))
    if accum:
        # conditions common to all changing leaves and independent of the counter are hoisted
        inv = None
        for cs, dv in parts:
            if dv.op == 'const' and t.cval(dv) == 0: continue
            here = [c for c in flatten(cs) if i not in t.free(c)]
            inv = here if inv is None else [c for c in inv if c in here]
        inv = inv or []
        tt = t.const(0)
        for cs, dv in reversed(parts):
            tt = t.ite(t.and_(*[c for c in flatten(cs) if c not in inv]), dv, tt)
        hoist = t.and_(*inv)
        def final(N, tt=tt, hoist=hoist):
            def fn(*ix):
                from .interp import vite
                s = dict(zip(ks, [t.T(x) for x in ix]))
                a0 = content_get(o, ix)
                c_ = t.subst(hoist, s)
                return vite(c_, t.add(t.T(a0), sum_n(i, N, t.subst(tt, s))), a0)
            return densify(shape, fn)
        return final
    # ---- assigned in every iteration
    if not has_havoc(e):
        def final(N):
            def fn(*ix):
                s = dict(zip(ks, [t.T(x) for x in ix]))
                w = t.subst(e, s)
                return vlast(I, N, t.subst(w, {i: t.sub(N, 1)}), content_get(o, ix))
            return densify(shape, fn)
        return final
    # ---- few elements: each one on its own
    if all(isinstance(x, int) for x in shape) and 0 < math.prod(shape) <= 64:
        els = {}
        for ix in itertools.product(*[range(x) for x in shape]):
            w, own = content_get(v, ix), content_get(h, ix)
            if isinstance(w, int): w = t.T(w)
            dv = t.polynode(t.nf(t.sub(w, own)))
            if not has_havoc(dv): els[ix] = ('sum', dv)
            elif not has_havoc(w): els[ix] = ('last', w)
            else: break
        else:
            def final(N):
                def fn(*ix):
                    kind, w = els[ix]
                    a0 = content_get(o, ix)
                    return t.add(t.T(a0), sum_n(i, N, w)) if kind == 'sum' else vlast(I, N, t.subst(w, {i: t.sub(N, 1)}), a0)
                flat = [fn(*ix) for ix in itertools.product(*[range(x) for x in shape])]
                return Dense(shape, flat)
            return final
    pz = Lam(shape, _raiser('loop %s: array recurrence has no closed form' % where))
    return lambda N: pz


def norm_occ(val, hname, ks, cs):
    """rewrite the indices of occurrences of hname to ks where the path conditions make them equal"""
    if hname not in app_names(val): return val
    eqs = set()
    for c in cs:
        if c.op == 'eq0':
            eqs.add(t.canon(c.args[0]))
            eqs.add(t.canon(t.sub(0, c.args[0])))
    def f(nm, a):
        if nm != hname: return None
        out = []
        for x, k in zip(a, ks):
            d = t.canon(t.sub(x, k))
            out.append(k if (d.op == 'const' and t.cval(d) == 0) or d in eqs else x)
        return t.app(hname, *out)
    return t.map_apps(val, f)


def densify(shape, fn):
    from .interp import dense_size
    n = dense_size(shape)
    if n is not None and n <= 4096:
        import itertools
        return Dense(shape, [fn(*ix) for ix in itertools.product(*[range(s) for s in shape])])
    return Lam(shape, fn)


def range_guard(I, g, N, ix, shape):
    """0 <= g < N, dropping what follows from 0 <= ix < shape."""
    g = t.T(g)
    facts = []
    for k, s in zip(ix, shape):
        facts += [t.ge(k, 0), t.lt(k, s)]
    out = []
    for c in (t.ge(g, 0), t.lt(g, N)):
        # the element is only ever read at an index within the shape
        key = (c, tuple(facts), tuple(I.pc))
        v = _rg.get(key)
        if v is None:
            v = P.decide(c, list(I.pc) + facts, 600)
            _rg[key] = v
        if v is True: continue
        out.append(c)
    return out


_rg = {}


def _raiser(msg):
    def f(*a): raise Unsupported(msg)
    return f


def list_final(I, loc, h, v, o, i, has_havoc, where):
    if isinstance(v, Poison):
        return lambda N: v
    if not (isinstance(v, Cat) and v.base is h.base):
        return lambda N: Poison('loop %s: list is not only appended to' % where)
    c = len(v.tail)
    def elem(j):
        def one(k):
            def cl(x):
                if has_havoc(x): raise Unsupported('loop %s: appended value depends on loop state' % where)
                return t.subst(x, {i: k})
            return I.lib.map_value(v.tail[j], cl)
        return one
    if c == 0:
        return lambda N: o
    if any(isinstance(x, Rep) for x in v.tail):
        return lambda N: concat_seq(o, SymSeq(t.fresh('length', 'I'), _raiser('element of a list of repeated groups'), segs=((t.T(N), lambda k: tuple(elem(j)(k) for j in range(c))),)))
    if c == 1:
        return lambda N: concat_seq(o, SymSeq(t.T(N), elem(0)))
    def seqn(N):
        def fn(k):
            from .interp import vite
            r = elem(c - 1)(t.idiv(k, c))
            for j in reversed(range(c - 1)): r = vite(t.eq(t.imod(k, c), j), elem(j)(t.idiv(k, c)), r)
            return r
        return SymSeq(t.mul(t.T(N), c), fn, segs=((t.T(N), lambda k: tuple(elem(j)(k) for j in range(c))),))
    return lambda N: concat_seq(o, seqn(N))


def concat_seq(o, s):
    if isinstance(o, tuple):
        if not o: return s
        n0 = len(o)
        def fn(k):
            k = aint(k)
            if isinstance(k, int): return o[k] if k < n0 else s.fn(t.const(k - n0))
            r = s.fn(t.sub(k, n0))
            from .interp import vite
            for j in reversed(range(n0)): r = vite(t.eq(k, j), o[j], r)
            return r
        return SymSeq(t.add(s.n, n0), fn, segs=tuple((t.const(1, 'I'), lambda k, x=x: (x,)) for x in o) + s.segs)
    if isinstance(o, SymSeq):
        def fn(k):
            from .interp import vite
            a = lambda: o.fn(t.T(k)); b = lambda: s.fn(t.sub(k, o.n))
            return vite(t.lt(k, o.n), a(), b())
        return SymSeq(t.add(o.n, s.n), fn, segs=o.segs + s.segs)
    if isinstance(o, Cat): return Cat(o.base, o.tail + tuple(Rep(n, g) for n, g in s.segs))
    raise Unsupported('list concatenation')


def concat_items(I, b, tail):
    if isinstance(b, tuple): return b + tuple(tail)
    if not tail: return b
    if isinstance(b, SymSeq):
        tl = tuple(tail)
        def fn(k):
            k2 = t.sub(k, b.n)
            c = aint(k2)
            if isinstance(c, int): return tl[c]
            from .interp import vite
            r = b.fn(t.T(k))
            for j in range(len(tl)): r = vite(t.eq(k, t.add(b.n, j)), tl[j], r)
            return r
        return SymSeq(t.add(b.n, len(tl)), fn, segs=b.segs + tuple((t.const(1, 'I'), lambda k, x=x: (x,)) for x in tl))
    raise Unsupported('list concatenation')
