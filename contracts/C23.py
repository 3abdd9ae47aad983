"""Independence of history.

Frame: every operation that some contract of this directory covers (reading each kind of file, generating inputs, running
calculators, exporting files and tables) is executed here again, on all paths and all inputs of that contract, under a
frame condition: it modifies no object that exists before the operation and is reachable from a module, a class, a
function default or a closure (so nothing of one operation can reach the next, by induction over any history), and what it
leaves in its own objects does not alias such an object (so two objects never share data through them).

Reuse: load() is executed on a reader whose attributes hold arbitrary leftovers of an earlier file (reading one is an
error): whatever a fresh reader sets, the used one sets."""
import ast
from pyvc.vc import *
from pyvc import vc as VC
from pyvc import interp as II
from pyvc.interp import Frame, PropV, StaticV, Poison, Cat, _stamp, MISSING, SetV, Obj, Opaque

READERS = ['C20', 'C21', 'C22', 'C24', 'C25']
SOURCES = ['C%02d' % i for i in range(1, 30) if i != 23]


# ------------------------------------------------------------------ global state
def globals_of(I):
    """id -> (object, access path) of all mutable objects reachable from modules, classes, functions."""
    out, todo = {}, [(m, n) for n, m in I.modules.items() if isinstance(m, ModV)]
    while todo:
        x, path = todo.pop()
        if id(x) in out: continue
        if isinstance(x, (Obj, FuncV, BoundV, PropV, StaticV, ArrV)): out[id(x)] = (x, path)
        todo += children(x, path, True)
    return out


def children(x, path, code):
    """objects directly reachable from x; code: follow classes and functions too"""
    r = []
    if isinstance(x, ListV):
        it = x.d['items']
        if isinstance(it, tuple): r = [(y, '%s[%d]' % (path, i)) for i, y in enumerate(it)]
        elif isinstance(it, Cat): r = [(y, path + '[...]') for y in it.tail]
    elif isinstance(x, ArrV): r = [(x.buf, path)]
    elif isinstance(x, (tuple, list)): r = [(y, '%s[%d]' % (path, i)) for i, y in enumerate(x)]
    elif isinstance(x, (ModV, ClassV)):
        if code:
            r = [(y, '%s.%s' % (path, k)) for k, y in x.d.items()]
            if isinstance(x, ClassV): r += [(b, path) for b in x.mro]
    elif isinstance(x, FuncV):
        if code:
            r = [(y, path + ' default') for y in list(x.defaults or ()) + list((x.kwdefaults or {}).values())]
            if x.frame is not None: r.append((x.frame, path))
    elif isinstance(x, BoundV):
        r = [(x.self_, path)] + ([(x.fn, path)] if code else [])
    elif isinstance(x, (PropV, StaticV)):
        if code: r = [(getattr(x, a, None), path) for a in ('fget', 'fset', 'fn')]
    elif isinstance(x, Obj):
        r = [(y, '%s.%s' % (path, k)) for k, y in x.d.items()]
        if code and isinstance(x, InstV): r.append((x.cls, path))
        if code and isinstance(x, Frame) and getattr(x, 'parent', None) is not None: r.append((x.parent, path))
    return [(y, p) for y, p in r if y is not None]


def mutable(x): return isinstance(x, (ListV, DictV, SetV, ArrV, InstV, II.Buf)) and not getattr(x, 'istuple', False)


def reach(x, path):
    out, todo, seen = [], [(x, path)], set()
    while todo:
        y, p = todo.pop()
        if id(y) in seen: continue
        seen.add(id(y))
        if mutable(y): out.append((y, p))
        todo += children(y, p, False)
    return out


class Framed(Verify):
    """Runs the units of another contract module, stating the frame obligations instead of theirs."""
    def paths(self, name, fn, raises=None):
        I = self.I

        def framed():
            s0, mark = _stamp[0], len(I.trail)
            self.exempt = set()
            try:
                return fn()
            finally:
                self.frame(name, s0, mark)
        live = 0
        for p in I.explore(framed):
            if p.kind in ('break', 'continue'): raise Unsupported('stray control flow')
            live += 1
        self.states(name, live)
        return []

    def states(self, name, live): self.fact0('%s: some path' % name, live > 0, 'no path')

    def fact0(self, name, ok, why): return Interp.oblige_fact(self.I, name, ok, why)

    def set(self, o, name, value):
        if isinstance(o, (ModV, ClassV)) and hasattr(self, 'exempt'): self.exempt.add((id(o), name))
        return Verify.set(self, o, name, value)

    def frame(self, name, s0, mark):
        I = self.I
        glob = globals_of(I)
        first = {}
        for obj, key, old in I.trail[mark:]: first.setdefault((id(obj), key), (obj, old))
        bad = []
        for (i, key), (obj, old) in first.items():
            if obj.stamp > s0 or i not in glob or (i, key) in self.exempt: continue
            new = obj.d.get(key, MISSING)
            if new is old or same(new, old): continue
            if isinstance(new, ModV) or (isinstance(obj, ModV) and old is MISSING and isinstance(new, (ModV, FuncV, ClassV))): continue
            bad.append('%s (%s)' % (glob[i][1], key if isinstance(key, str) else repr(key)[:40]))
        say = lambda *a: Interp.oblige_fact(I, *a)
        say('%s: modifies nothing that outlives the operation' % name, not bad, 'modified: ' + '; '.join(sorted(set(bad))[:6]))
        # instances written during the operation hold no reference to a shared mutable object
        ali = []
        for (i, key), (obj, old) in first.items():
            if not isinstance(obj, InstV) or i in glob: continue
            if not str(getattr(obj.cls, 'name', '')) or getattr(obj.cls, 'native', None): continue
            for y, p in reach(obj.d.get(key), '%s.%s' % (obj.cls.name, key)):
                if id(y) in glob and not (isinstance(y, InstV) and not y.d): ali.append('%s is %s' % (p, glob[id(y)][1]))
        say('%s: own data alias nothing shared' % name, not ali, '; '.join(sorted(set(ali))[:6]))


def same(a, b):
    if isinstance(a, (bool, int, str, float, type(None))) or isinstance(b, (bool, int, str, float, type(None))):
        return type(a) is type(b) and a == b
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(x is y or same(x, y) for x, y in zip(a, b))
    return False


def framed(v, u):
    v.__class__ = Framed
    I = v.I
    I.oblige = lambda *a, **k: True
    I.oblige_eq = lambda *a, **k: True
    I.oblige_fact = lambda *a, **k: True
    I.check_defined = False
    u.fn(v)


def register(mod):
    for u in VC.units_of('contracts.' + mod):
        def fn(v, u=u): framed(v, u)
        fn.__module__ = __name__
        VC.UNITS.append(VC.Unit(fn, 'frame: %s %s' % (mod, u.name), u.timeout, u.bounded))


for _m in SOURCES: register(_m)


# ------------------------------------------------------------------ objects used more than once
def stored(cls):
    """names assigned through self anywhere in a class, and the class-level data among them"""
    names, level = set(), set()
    for c in cls.mro:
        for f in c.d.values():
            for g in (f, getattr(f, 'fget', None), getattr(f, 'fset', None)):
                if not isinstance(g, FuncV) or not g.node.args.args: continue
                me = g.node.args.args[0].arg
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me: names.add(n.attr)
    names = {n for n in names if not any(isinstance(c.d.get(n), PropV) for c in cls.mro)}
    return names, {n for n in names if any(n in c.d for c in cls.mro)}


def reuse(v, u):
    """the contract of a reader, for a reader that has read something else before: its attributes hold arbitrary leftovers"""
    init = 'quantas.core.reader.BasicReader.__init__'

    def again(I, a, k):
        me, f = a[0], a[1] if len(a) > 1 else k.get('input_file')
        if f is None: return None
        names, level = stored(me.cls)
        old = {n: Opaque('left over from an earlier file: ' + n) for n in names}
        for n in names: I.setattr(me, n, old[n])
        I.call(I.getattr(me, 'load'), [f])
        stale = sorted(n for n in names if me.d.get(n) is old[n])
        v.fact('load() sets error and completed', not {'error', 'completed'} & set(stale), 'kept from the earlier file: %s' % stale)
        v.fact('load() resets what a new reader has', not set(stale) & level, 'kept from the earlier file: %s' % sorted(set(stale) & level))
        if me.d.get('completed') is True: v.fact('load() of a complete file sets everything', not stale, 'kept from the earlier file: %s' % stale)
        return None
    v.I.overrides[init] = again
    u.fn(v)
    if not v.I.contract_calls.get(init): v.I.obligations = []       # a contract of a part of a reader: nothing to add here


def register_reuse(mod):
    for u in VC.units_of('contracts.' + mod):
        def fn(v, u=u): reuse(v, u)
        fn.__module__ = __name__
        VC.UNITS.append(VC.Unit(fn, 'reader used before: %s %s' % (mod, u.name), u.timeout, u.bounded))


for _m in READERS: register_reuse(_m)

SW, QW = 'quantas.IO.soec_writer.SOECInputCreator', 'quantas.IO.qha_writer.QHAInputCreator'


def creators(v, files):
    I = v.I
    I.overrides['quantas.cmdline.utils.messages.echo'] = lambda I, a, k: None
    for n in ['list', 'f0', 'f1', 'f2']: I.files[n] = [x + '\n' for x in files] if n == 'list' else []
    for q, flag, keep in [(SW, 'crystal', 'soec_data'), (SW, 'vasp', 'soec_data')] + [(QW, x, 'phondata') for x in ('crystal', 'crystal-qha', 'phonopy')]:
        if len(files) > 1 and (q is SW or flag == 'crystal-qha'): continue
        made = []

        def reader(I, a, k):
            o = InstV({'completed': bool(I.choose(2)), 'error': 'no data'})
            o.cls = v.get('quantas.core.reader.BasicReader')
            made.append((a[0], o))
            return o

        def run():
            del made[:]
            s0, mark = _stamp[0], len(I.trail)
            c = v.call(q, flag)
            left = InstV({})
            left.cls = v.get('quantas.core.reader.BasicReader')
            v.set(c, keep, left if I.choose(2) == 0 else ListV([left]))
            flt = v.attr(c, 'interface_filter')
            I.put(flt, flag, Builtin('reader', reader))
            v.exempt = {(id(flt), flag)}
            r = v.meth(c, 'read', 'f0') if q is SW else v.meth(c, 'read', 'list' if len(files) > 1 else 'f0', len(files) > 1)
            ok = I.lib.getitem(I, r, 0)
            got = [x for x, _ in reach(v.attr(c, keep), keep)] if v.attr(c, keep) is not None else []
            nm = 'one file' if len(files) == 1 else 'a list of files'
            v.fact('%s, %s: nothing of an earlier read is kept' % (flag, nm), left not in got, 'the data of the earlier file are still there')
            v.fact('%s, %s: each file is read once, in order' % (flag, nm), [x for x, _ in made] == files[:len(made)], str([x for x, _ in made]))
            v.fact('%s, %s: success and failure are told' % (flag, nm), ok is all(o.d['completed'] for _, o in made), '%r' % (ok,))
            if ok is True:
                d = v.attr(c, keep)
                d = list(d.items) if isinstance(d, ListV) else [d]
                v.fact('%s, %s: the data are those of the files just read' % (flag, nm), len(d) == len(files) == len(made) and all(x is o for x, (_, o) in zip(d, made)), '%d objects' % len(d))
            Framed.frame(v, '%s, %s: read()' % (flag, nm), s0, mark)
        v.paths('%s: read()' % flag, run)


@unit('creators: read() replaces whatever an earlier read() left (one file)')
def creators_one(v): creators(v, ['f0'])


@unit('creators: read() replaces whatever an earlier read() left (list of files)', bounded='lists of three files')
def creators_list(v): creators(v, ['f0', 'f1', 'f2'])


@unit('calculators: results and warnings of two objects are two objects')
def calculators(v):
    def run():
        C = v.get('quantas.core.calculator.BasicCalculator')
        a, b = v.call(C), v.call(C)
        for k in ('results', 'warnings'):
            x, y = v.attr(a, k), v.attr(b, k)
            v.fact('%s are not shared' % k, x is None or x is not y, 'one object')
            g = globals_of(v.I)
            v.fact('%s are not those of the class' % k, x is None or id(x) not in g, 'shared with %s' % (g.get(id(x), ('', ''))[1],))
    v.paths('new calculators', run)
