"""Driver: runs the contract units of a property, collects obligations, decides the verdict.

A contract module (contracts/<ID>.py) holds units: functions v -> None that run code of the
repository symbolically (through v.I, the executor) and state obligations.  The companion
conc/<ID>.py evaluates the same contracts on the compiled code for concrete inputs: it replays
failed obligations (search for a failing input) and cross-checks the executor's model.
"""
import importlib
import hashlib
import json
import math
import multiprocessing
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from . import terms as t
from . import prove as P
from .interp import (Interp, Unsupported, PyRaise, sym_array, new_array, ArrV, InstV, ClassV, ModV, ListV, DictV,
                     Builtin, BoundV, FuncV, VENV, Cplx, SymSeq, Buf, Dense, Lam)
from . import lib as L
from . import arrays as A

ROOT = os.environ.get('VC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Unit(object):
    def __init__(self, fn, name, timeout, bounded):
        self.fn, self.name, self.timeout, self.bounded = fn, name, timeout, bounded


UNITS = []


def unit(name, timeout=240, bounded=None):
    """Register a contract unit.  bounded: text stating the bound when the unit is a bounded check."""
    def deco(fn):
        UNITS.append(Unit(fn, name, timeout, bounded))
        return fn
    return deco


# ------------------------------------------------------------------ falsifier
class Rnd(object):
    """Pseudo-random interpretation of the free symbols of a term."""
    def __init__(self, seed, pos):
        self.seed, self.pos = seed, pos
        self.style = seed % 6

    def num(self, key, sort='R'):
        r = random.Random('%s|%s' % (self.seed, key))
        nm = key.split('(')[0]
        if sort == 'I':
            return r.choice([0, 1, 1, 2, 2, 3, 4])
        if nm in t.POSITIVE:
            return r.choice([r.uniform(.1, 3), r.uniform(.5, 2), 10 ** r.uniform(-2, 2)])
        if self.style == 0: return r.uniform(.2, 3)
        if self.style == 1: return r.uniform(-3, 3)
        if self.style == 2: return r.choice([-1, 0, 1, 2, .5, r.uniform(-2, 2)])
        if self.style == 3: return 10 ** r.uniform(-2, 2)
        if self.style == 4: return r.uniform(-1, 1)
        return r.choice([r.uniform(-10, 10), 10 ** r.uniform(-1, 3)])


class Env(dict):
    KNOWN = {'exp', 'log', 'sin', 'cos', 'arccos', 'arcsin', 'arctan2', 'arctan', 'pow', 'floor', 'trunc', 'atan2', 'acos', 'asin', 'atan'}

    def __init__(self, seed, sorts, memo=None):
        self.r, self.sorts, self.memo, self.cache = Rnd(seed, t.POSITIVE), sorts, memo or {}, {}

    def linalg(self, k):
        """interpretation of the symbols of the numpy.linalg contracts: computed from their argument"""
        base = k[:-1] if k[-1] in 'wv' else k
        kind = base.split('!')[0]
        if base not in self.cache:
            import numpy as np
            m = np.array([[t.evalf(e, self) for e in r] for r in self.memo[base]], dtype=float)
            try:
                self.cache[base] = {'inv': np.linalg.inv, 'pinv': np.linalg.pinv, 'eigh': np.linalg.eigh, 'eig': np.linalg.eig}[kind](m)
            except np.linalg.LinAlgError as e:
                raise t.EvalError(str(e))
        r = self.cache[base]
        if kind in ('eigh', 'eig'): r = r[0] if k[-1] == 'w' else r[1]
        return lambda *a: float(r[tuple(int(x) for x in a)])

    def __contains__(self, k):
        if k in ('pi', 'nan', 'inf') or k in self.KNOWN or k in t.CONST_VALUES or k in t.DEFINED: return False
        return True

    def smooth(self, k, a):
        """value of an opaque function at real arguments: continuous, so that rounding of an argument does not change it"""
        r = random.Random('%s|%s|%d' % (self.r.seed, k, len(a)))
        z = r.uniform(0, 6)
        for x in a: z += r.uniform(.5, 2) * math.copysign(math.log1p(min(abs(x), 1e300)), x)
        u = (1 + math.sin(z)) / 2
        if k in t.POSITIVE or self.r.style in (0, 3): return .1 + 2.9 * u
        return -3 + 6 * u

    def __getitem__(self, k):
        s = self.sorts.get(k)
        if k in self.memo or k[:-1] in self.memo: return self.linalg(k)
        if s in ('I', 'R'): return self.r.num(k, s)
        if s == 'B': return random.Random('%s|%s' % (self.r.seed, k)).random() < .5
        def f(*a):
            if s != 'AI' and any(isinstance(x, float) and x != int(x) for x in a if x == x and abs(x) != float('inf')): return self.smooth(k, a)
            key = '%s(%s)' % (k, ','.join('%.12g' % x if isinstance(x, float) else str(x) for x in a))
            return self.r.num(key, 'I' if s == 'AI' else 'R')
        return f


def sorts_of(nodes):
    out, seen, st = {}, set(), list(nodes)
    while st:
        n = st.pop()
        if not isinstance(n, t.Node) or n in seen: continue
        seen.add(n)
        if n.op == 'sym': out[n.args[0]] = n.sort
        elif n.op == 'bsym': out[n.args[0]] = 'B'
        elif n.op == 'app': out[n.args[0]] = 'A' + n.sort
        if n.op == 'poly':
            for m, _ in n.args[0]:
                for a, _e in m: st.append(a)
        else:
            for a in n.args:
                if isinstance(a, t.Node): st.append(a)
                elif isinstance(a, tuple): st.extend(x for x in a if isinstance(x, t.Node))
    return out


def opaque(nodes):
    """does a term use interpreted functions or contract symbols, which a z3 model may give any value?"""
    return any((k in Env.KNOWN or '!' in k) and str(s).startswith('A') for k, s in sorts_of(nodes).items())


def falsify(goal, pc, seed=1, tries=400, budget=6.0, memo=None):
    """A pseudo-random assignment satisfying pc under which goal fails, or None.
    goal: boolean term or pair (a, b) claimed equal."""
    nodes = list(pc) + (list(goal) if isinstance(goal, tuple) else [goal])
    try:
        sorts = sorts_of(nodes)
    except Exception:
        return None
    t0 = time.time()
    for k in range(tries):
        if time.time() - t0 > budget: break
        env = Env(seed * 100003 + k, sorts, memo)
        try:
            if not all(t.evalf(c, env) for c in pc): continue
            if isinstance(goal, tuple):
                x, y = t.evalf(goal[0], env), t.evalf(goal[1], env)
                if x != x or y != y or abs(x) > 1e200 or abs(y) > 1e200: continue
                bad = abs(x - y) > 1e-5 * (abs(x) + abs(y)) + 1e-9
            else:
                bad = not t.evalf(goal, env)
        except (t.EvalError, OverflowError, ZeroDivisionError, TypeError, ValueError, RecursionError):
            continue
        if bad:
            vals = {}
            for nm, s in sorted(sorts.items()):
                if nm in env and s in ('I', 'R', 'B'): vals[nm] = env[nm]
            return {'assignment': {k: vals[k] for k in list(vals)[:40]},
                    'sides': [x, y] if isinstance(goal, tuple) else None, 'sample': k}
    return None


def struct(name, **fields):
    """library result object with the given attributes"""
    c = ClassV({})
    c.name, c.native, c.bases, c.mro = name, None, [], []
    c.mro = [c]
    o = InstV(dict(fields))
    o.cls = c
    return o


def vec(x):
    """elements of a list, tuple or 1-axis array of known length"""
    if isinstance(x, ArrV): return [x.get(i) for i in range(x.shape[0])]
    return list(x.items) if isinstance(x, ListV) else list(x)


class Verify(object):
    """Handle given to a unit."""
    def __init__(self, tier='quick'):
        self.I = Interp(ROOT)
        self.tier = tier
        self.notes = []
        self.vacuity = 0
        self.assumptions = set()

    # ---- code access
    def get(self, qual): return self.I.get(qual)

    def call(self, f, *args, **kw):
        if isinstance(f, str): f = self.I.get(f)
        return self.I.call(f, list(args), kw)

    def attr(self, o, name): return self.I.getattr(o, name)
    def set(self, o, name, v): self.I.setattr(o, name, v)
    def meth(self, o, name, *args, **kw): return self.I.call(self.I.getattr(o, name), list(args), kw)

    # ---- exploration with obligations
    def paths(self, name, fn, raises=None):
        """Explore fn (which states obligations on its paths).  raises(exc_name, exc) -> bool tells
        whether an exception is allowed by the contract on the current path (None: never)."""
        I = self.I
        out = I.explore(fn)
        live = 0
        for p in out:
            if p.kind == 'raise':
                if P.check_sat(p.conds, 3000) == 'unsat': continue
                nm = p.value.cls.name
                args = p.value.d.get('args', ())
                ok = bool(raises and raises(nm, p))
                I.pc = list(p.conds)
                I.oblige_fact('%s: no exception' % name, ok, '%s%r raised under %s' % (nm, tuple(str(a)[:80] for a in args), [t.show(c, 80) for c in p.conds[:6]]))
                I.pc = []
            elif p.kind in ('break', 'continue'):
                raise Unsupported('stray control flow')
            if P.check_sat(p.conds, 2000) != 'unsat': live += 1
        self.I.oblige_fact('%s: precondition satisfiable' % name, live > 0, 'no feasible path: vacuous contract')
        return out

    def index(self, shape, names='ijklm'):
        """generic in-range index for a shape (assumes the range facts)"""
        out = []
        for nm, s in zip(names, shape):
            if isinstance(s, int):
                k = t.fresh(nm, 'I')
                self.I.assume(t.ge(k, 0)); self.I.assume(t.lt(k, s))
            else:
                k = t.fresh(nm, 'I')
                self.I.assume(t.ge(k, 0)); self.I.assume(t.lt(k, s))
            out.append(k)
        return out

    def assume(self, *cs):
        for c in cs: self.I.assume(c)

    def eq(self, name, a, b, rewrites=None):
        return self.I.oblige_eq(name, scal(a), scal(b), rewrites=rewrites)

    def true(self, name, c): return self.I.oblige(name, c)
    def fact(self, name, ok, why=''): return self.I.oblige_fact(name, ok, why)

    def shape(self, name, arr, shape):
        ok = isinstance(arr, ArrV) and len(arr.shape) == len(shape)
        if not self.fact(name + ': is an array of %d axes' % len(shape), ok, 'got %r' % (arr,)): return False
        for a, b in zip(arr.shape, shape):
            if isinstance(a, int) and isinstance(b, int): self.fact(name + ': shape', a == b, '%s != %s' % (a, b))
            else: self.true(name + ': shape', t.eq(a, b))
        return True

    def arr_eq(self, name, arr, shape, spec, generic=True, split=True):
        """arr has the given shape and arr[ix] == spec(*ix) for every index"""
        if not self.shape(name, arr, shape): return False
        if all(isinstance(s, int) for s in shape) and split:
            import itertools
            ok = True
            for ix in itertools.product(*[range(s) for s in shape]):
                ok = self.eq('%s%s' % (name, list(ix) if ix else ''), arr.get(*ix), spec(*ix)) and ok
            return ok
        ix = self.index(shape)
        return self.eq(name, arr.get(*ix), spec(*ix))


def scal(x):
    if isinstance(x, ArrV) and len(x.shape) == 0: return x.get()
    if isinstance(x, (bool,)): return t.T(int(x))
    if isinstance(x, float): return t.lit(x)
    return t.T(x)


class _Timeout(BaseException):
    pass


def units_of(mod):
    importlib.import_module(mod)
    return [u for u in UNITS if u.fn.__module__ == mod]


def run_unit(args):
    mod, idx, tier = args
    u = units_of(mod)[idx]
    v = Verify(tier)
    def onalarm(*a): raise _Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    lim = u.timeout if tier == 'quick' else 4 * u.timeout
    signal.setitimer(signal.ITIMER_REAL, lim, 5)
    t0 = time.time()
    err, kind = None, None
    for k in P.STATS: P.STATS[k] = 0 * P.STATS[k]
    try:
        u.fn(v)
    except Unsupported as e:
        err, kind = str(e), 'unsupported'
    except _Timeout:
        err, kind = 'time limit of %d s' % lim, 'timeout'
    except t.TooBig as e:
        err, kind = 'term too large', 'unsupported'
    except PyRaise as e:
        err, kind = 'uncaught exception in the code: %s' % e, 'raise'
    except (RecursionError, MemoryError) as e:
        err, kind = 'executor: %r' % e, 'unsupported'
    except Exception as e:
        err, kind = 'executor error: %s' % traceback.format_exc()[-1200:], 'internal'
    signal.setitimer(signal.ITIMER_REAL, 0)
    obs = []
    refute_until = time.time() + (90 if tier == 'quick' else 300)
    memo = {k: m for k, m in v.I.memo.items() if isinstance(k, str) and isinstance(m, list)}
    for o in v.I.obligations:
        d = {'name': o.name, 'ok': bool(o.ok), 'backend': o.backend, 'why': str(o.why)[:1500], 'where': str(o.where), 's': round(o.seconds, 4)}
        if not o.ok:
            left = min(20, refute_until - time.time())
            try:
                if left <= .5 and o.goal is not None: raise _Timeout()
                signal.setitimer(signal.ITIMER_REAL, max(left, 1), 5)
                if isinstance(o.goal, tuple):
                    d['refuted'] = falsify((o.goal[1], o.goal[2]), o.goal[3], memo=memo)
                elif o.goal is not None:
                    pc = o.pc if getattr(o, 'pc', None) is not None else []
                    d['refuted'] = falsify(o.goal, pc, memo=memo)
                    if d['refuted'] is None:
                        m = None
                        try: m = P.model_of(list(pc) + [t.not_(o.goal)], 5000)
                        except Exception: pass
                        if m and not opaque(list(pc) + [o.goal]): d['z3_model'] = m
                else:
                    d['refuted'] = {'structural': True}
            except _Timeout:
                pass
            except Exception as e:
                d['falsify_error'] = str(e)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        obs.append(d)
    return {'unit': u.name, 'bounded': u.bounded, 'obligations': obs, 'error': err, 'kind': kind, 's': round(time.time() - t0, 2),
            'functions': sorted(v.I.functions_entered), 'trusted': sorted(v.I.trusted), 'contracts': dict(v.I.contract_calls),
            'assumptions': sorted(v.assumptions), 'stats': {k: (round(x, 3) if isinstance(x, float) else x) for k, x in P.STATS.items()}}


def run_units(pid, tier, only=None, jobs=None):
    mod = 'contracts.' + pid
    idx = [i for i, u in enumerate(units_of(mod)) if only is None or only in u.name]
    jobs = jobs or min(8, max(1, len(idx)))
    if jobs == 1:
        return [run_unit((mod, i, tier)) for i in idx]
    ctx = multiprocessing.get_context('fork')
    all_units = units_of(mod)
    until = time.time() + (600 if tier == 'quick' else 10000)
    with ctx.Pool(jobs, maxtasksperchild=1) as pool:
        pending = [(i, pool.apply_async(run_unit, ((mod, i, tier),))) for i in idx]
        out = []
        for i, r in pending:
            try:
                out.append(r.get(max(1, until - time.time())))
            except multiprocessing.TimeoutError:
                out.append({'unit': all_units[i].name, 'bounded': all_units[i].bounded, 'obligations': [], 'error': 'no answer within the time limit', 'kind': 'timeout', 's': 0.,
                            'functions': [], 'trusted': [], 'contracts': {}, 'assumptions': [], 'stats': {k: 0 for k in P.STATS}})
        pool.terminate()
        return out


# --------------------------------------------------------- concrete execution
def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f: h.update(f.read())
    return h.hexdigest()[:24]


def build_scratch():
    """Copy of the package with freshly compiled extensions; returns (dir, error)."""
    d = tempfile.mkdtemp(prefix='quantas-vc-')
    shutil.copytree(os.path.join(ROOT, 'quantas'), os.path.join(d, 'quantas'),
                    ignore=shutil.ignore_patterns('*.so', '*.c', '__pycache__'))
    for f in ('setup.py', 'README.md', 'README.rst', 'setup.json'):
        p = os.path.join(ROOT, f)
        if os.path.isfile(p): shutil.copy(p, d)
    pyx = []
    for r, _, fs in os.walk(os.path.join(d, 'quantas')):
        pyx += [os.path.join(r, f) for f in fs if f.endswith('.pyx')]
    hs = hashlib.sha256()
    for p in sorted(pyx) + [os.path.join(d, 'setup.py')]:
        hs.update(os.path.relpath(p, d).encode())
        with open(p, 'rb') as f: hs.update(f.read())
    cache = os.path.join(tempfile.gettempdir(), 'quantas-vc-cache', hs.hexdigest()[:24])
    if os.path.isfile(os.path.join(cache, 'ok')) and os.environ.get('VC_CACHE') == '1':
        for r, _, fs in os.walk(cache):
            for f in fs:
                if f.endswith('.so'):
                    shutil.copy(os.path.join(r, f), os.path.join(d, os.path.relpath(r, cache), f))
        return d, None
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', CFLAGS='-O1')
    p = subprocess.run([VENV, 'setup.py', 'build_ext', '--inplace', '-j', '4'], cwd=d, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        return d, (p.stdout + p.stderr)[-2000:]
    if os.environ.get('VC_CACHE') == '1':
        for r, _, fs in os.walk(os.path.join(d, 'quantas')):
            for f in fs:
                if f.endswith('.so'):
                    q = os.path.join(cache, os.path.relpath(r, d))
                    os.makedirs(q, exist_ok=True)
                    shutil.copy(os.path.join(r, f), q)
        os.makedirs(cache, exist_ok=True)
        open(os.path.join(cache, 'ok'), 'w').close()
    return d, None


def start_concrete(pid, tier, seed, replay=None):
    """Run conc/<pid>.py in the project's interpreter; returns a handle."""
    path = os.path.join(VERIF, 'conc', pid + '.py')
    if not os.path.isfile(path): return None
    d, err = build_scratch()
    if err: return {'dir': d, 'error': 'build of the extensions failed: ' + err}
    out = os.path.join(d, 'conc-result.json')
    env = dict(os.environ, PYTHONPATH=d + os.pathsep + os.path.join(VERIF, 'conc'), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               VC_ROOT=d, OMP_NUM_THREADS='2', LANG='C.UTF-8', LC_ALL='C.UTF-8')
    args = [VENV, '-W', 'ignore', os.path.join(VERIF, 'conc', 'run.py'), pid, tier, str(seed), out]
    if replay: args.append(replay)
    log = open(os.path.join(d, 'conc.log'), 'wb')
    p = subprocess.Popen(args, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    return {'dir': d, 'proc': p, 'out': out, 'error': None}


def finish_concrete(h, limit):
    if h is None: return None
    res = None
    if h.get('proc') is not None:
        try:
            h['proc'].wait(limit)
        except subprocess.TimeoutExpired:
            os.killpg(h['proc'].pid, signal.SIGKILL)
            h['error'] = 'time limit'
        if os.path.isfile(h['out']):
            try:
                with open(h['out']) as f: res = json.load(f)
            except ValueError:
                pass
        if res is None:
            with open(os.path.join(h['dir'], 'conc.log'), errors='replace') as f: tail = f.read()[-3000:]
            res = {'cases': 0, 'failures': [], 'error': (h['error'] or 'harness died') + ': ' + tail}
    else:
        res = {'cases': 0, 'failures': [], 'error': h['error']}
    shutil.rmtree(h['dir'], ignore_errors=True)
    return res
