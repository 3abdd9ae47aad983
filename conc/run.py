"""run.py <ID> <tier> <seed> <out> [replay]: evaluates the contracts of a property on the real code."""
import importlib, json, os, signal, sys, time, traceback
import numpy as np


class Skip(Exception):
    pass


class NoAnswer(BaseException):
    """the code under test used STALL seconds of processor time without finishing one evaluation"""


STALL = 60.


def js(x):
    if isinstance(x, np.ndarray): return js(x.tolist())
    if isinstance(x, (np.floating,)): return js(float(x))
    if isinstance(x, (np.integer,)): return int(x)
    if isinstance(x, (np.bool_,)): return bool(x)
    if isinstance(x, complex): return repr(x)
    if isinstance(x, float): return x if x == x and abs(x) != float('inf') else repr(x)
    if isinstance(x, dict): return {str(k): js(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [js(v) for v in x]
    if isinstance(x, (str, int, bool, type(None))): return x
    return repr(x)


class H(object):
    def __init__(self, pid, tier, seed, only=None):
        self.pid, self.tier, self.seed, self.only = pid, tier, seed, only
        self.cases, self.failures, self.samples, self.skipped, self.by = 0, [], [], [], {}
        self.t0 = time.time()
        self.budget = 100 if tier == 'quick' else 1500
        self.scratch = os.path.join(os.environ['VC_ROOT'], 'work')
        os.makedirs(self.scratch, exist_ok=True)
        self.keys = set()
        self.input, self.stalls = None, 0
        signal.signal(signal.SIGPROF, self.stalled)

    # processor time (not wall-clock time) since the last input or comparison bounds one evaluation, so
    # that code which never returns is reported with its input and a loaded machine changes nothing
    def stalled(self, *a):
        raise NoAnswer('no answer after %g s of processor time' % STALL)

    def arm(self, on=True):
        signal.setitimer(signal.ITIMER_PROF, STALL if on else 0., 1. if on else 0.)

    @property
    def current(self): return self.input

    @current.setter
    def current(self, x):
        self.input = x
        self.arm()

    @property
    def quick(self): return self.tier == 'quick'

    def n(self, quick, thorough): return quick if self.quick else thorough

    def rng(self, case): 
        import zlib
        return np.random.default_rng([self.seed, zlib.crc32(case.encode())])

    def lits(self, *modnames):
        """numeric literals of the current source of the modules: boundary values for generators"""
        import re
        out = set()
        for m in modnames:
            base = os.path.join(os.environ['VC_ROOT'], *m.split('.'))
            for ext in ('.py', '.pyx', '/__init__.py'):
                if os.path.isfile(base + ext):
                    with open(base + ext, encoding='utf-8') as f: src = f.read()
                    for x in re.findall(r'(?<![\w.])(\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)', src):
                        try: out.add(float(x))
                        except ValueError: pass
        return sorted(out)

    def need(self, modname, *names):
        try:
            m = importlib.import_module(modname)
        except ImportError as e:
            raise Skip('cannot import %s: %s' % (modname, e))
        if not names: return m
        out = []
        for n in names:
            if not hasattr(m, n): raise Skip('%s has no %s' % (modname, n))
            x = getattr(m, n)
            out.append(self.guard(x, n) if type(x).__name__ in ('function', 'builtin_function_or_method', 'cython_function_or_method') else x)
        return out[0] if len(out) == 1 else out

    def guard(self, fn, name):
        """fn with the history contract evaluated along: a call leaves its arguments and the results of earlier
        calls as they were, and an earlier call made again, on the same arrays with other contents meanwhile,
        gives what it gave"""
        import functools
        past, buffers, count = [], {}, [0]

        def arrays(x): return [a for a in (x if isinstance(x, (tuple, list)) else (x,)) if isinstance(a, np.ndarray)]
        def alike(x, y):
            return len(x) == len(y) and all(a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc') for a, b in zip(x, y))
        def near(x, y):
            return len(x) == len(y) and all(a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12 * (np.nanmax(np.abs(b)) if b.size else 0.), equal_nan=a.dtype.kind in 'fc') for a, b in zip(x, y))
        def fail(args, expected, actual, msg):
            self.record(self.group, [name, self.input, args], False, expected, actual, msg)
        def value(x): return arrays(x) or [np.asarray(a) for a in (x if isinstance(x, (tuple, list)) else (x,)) if isinstance(a, (float, int, np.generic))]

        @functools.wraps(fn)
        def g(*args, **kw):
            live = arrays(args)
            before = [a.copy() for a in live]
            res = fn(*args, **kw)
            if not alike(live, before):
                fail(before, before, live, '%s leaves its arguments as they were' % name)
                return res
            for a0, live0, copy0 in past:
                if not alike(live0, copy0):
                    fail(a0, copy0, live0, 'the result of an earlier call of %s is left as it was' % name)
                    past[:] = []
                    break
            out = arrays(res)
            if kw or any(not isinstance(a, (np.ndarray, float, int, str, np.generic)) for a in args): return res
            count[0] += 1
            if count[0] <= 400 and sum(a.size for a in before + out) < 20000:
                saved, had = [a.copy() if isinstance(a, np.ndarray) else a for a in args], [a.copy() for a in value(res)]
                own = [a for a in out if not any(np.may_share_memory(a, b) for b in live)]
                past.append((saved, own, [a.copy() for a in own]))
                if len(past) > 30: del past[0]
                if had and self.input is not None:
                    # the same arguments in arrays that held those of an earlier call
                    again = []
                    for i, a in enumerate(saved):
                        if isinstance(a, np.ndarray):
                            b = buffers.setdefault((i, a.shape, a.dtype.str), a.copy(order='K'))
                            b[...] = a
                            a = b
                        again.append(a)
                    now = value(fn(*again))
                    if not near(now, had): fail(saved, had, now, '%s of the same arguments gives the same again' % name)
            return res
        return g

    def record(self, case, inputs, ok, expected=None, actual=None, msg=''):
        self.arm()
        self.cases += 1
        self.by[case] = self.by.get(case, 0) + 1
        self.keys.add(hash(json.dumps(js(inputs), sort_keys=True)[:4000]))
        if len(self.samples) < 8 and self.by[case] == 1: self.samples.append({'case': case, 'inputs': js(inputs)})
        if not ok and len([f for f in self.failures if f['case'] == case]) < 2:
            self.failures.append({'case': case, 'inputs': js(inputs), 'expected': js(expected), 'actual': js(actual), 'msg': msg})
        return ok

    def close(self, case, inputs, actual, expected, rtol=1e-8, atol=0., msg='', floor=1e-6):
        try:
            a, e = np.asarray(actual, dtype=complex), np.asarray(expected, dtype=complex)
            if a.shape != e.shape:
                ok, msg = False, msg + ' shape %s != %s' % (a.shape, e.shape)
            else:
                nn = np.isnan(e)
                scale = np.max(np.abs(e[~nn])) if (~nn).any() else 0.
                d = np.abs(a - e)
                ok = bool(np.all(np.where(nn, np.isnan(a), d <= rtol * np.maximum(np.abs(e), floor * scale) + atol)))
        except (TypeError, ValueError) as x:
            ok, msg = False, msg + ' not comparable: %s' % x
        return self.record(case, inputs, ok, expected, actual, msg)

    def same(self, case, inputs, actual, expected, msg=''):
        return self.record(case, inputs, js(actual) == js(expected), expected, actual, msg)

    def run(self, case, fn):
        """run a group of evaluations; an exception of the code under test is a failure"""
        if self.only and not any(case == c or c.startswith(case) for c in self.only): return
        if time.time() - self.t0 > self.budget:
            self.skipped.append('%s: time budget' % case)
            return
        self.current, self.group = None, case
        cwd = os.getcwd()
        try:
            fn()
        except Skip as e:
            self.skipped.append('%s: %s' % (case, e))
        except (Exception, NoAnswer) as e:
            self.arm(False)
            tb = traceback.extract_tb(sys.exc_info()[2])
            root = os.environ['VC_ROOT']
            inside = any(f.filename.startswith(root + os.sep + 'quantas') or '.pyx' in f.filename for f in tb)
            txt = traceback.format_exc()[-1500:]
            if inside or self.current is not None: self.record(case, self.current, False, 'no exception', repr(e), txt)
            else: self.skipped.append('%s: harness: %s' % (case, txt))
            if isinstance(e, NoAnswer):
                self.stalls += 1
                if self.stalls == 2: self.budget = 0     # the remaining groups are skipped
        finally:
            self.arm(False)
            os.chdir(cwd)


def main():
    pid, tier, seed, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    only = None
    if len(sys.argv) > 5:
        with open(sys.argv[5]) as f: r = json.load(f)
        only = sorted({x['case'] for x in r['failing_inputs']})
        seed, tier = r['seed'], r['tier']
    h = H(pid, tier, seed, only)
    err = None
    try:
        m = importlib.import_module(pid)
        for name in sorted(dir(m)):
            if name.startswith('case_'):
                h.run(name[5:], lambda: getattr(m, name)(h))
    except Exception:
        err = traceback.format_exc()[-2000:]
    with open(out + '.tmp', 'w') as f:
        json.dump({'cases': h.cases, 'distinct': len(h.keys), 'failures': h.failures, 'samples': h.samples, 'skipped': h.skipped,
                   'by_case': h.by, 'error': err, 'seconds': round(time.time() - h.t0, 1)}, f)
    os.replace(out + '.tmp', out)


if __name__ == '__main__':
    main()
