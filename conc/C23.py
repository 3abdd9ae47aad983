"""Histories: random sequences of operations (reading each kind of file, generating inputs, running, exporting) in one
process; every outcome is compared with that of the same operation as the first one of a fresh process, on new objects and on
objects used before; objects kept from earlier operations are checked again later, and some of them are overwritten by hand."""
import builtins
import importlib
import io
import contextlib
import json
import os
import shutil
import subprocess
import sys
import types
import numpy as np
import ha_np
import soec_run
import qha_np
from C06 import make


# ------------------------------------------------------------------ outcome of an object, as plain text
def plain(x, depth=0):
    if depth > 8: return '...'
    if isinstance(x, np.ndarray): return ['array', list(x.shape), [plain(v, depth + 1) for v in x.ravel().tolist()]]
    if isinstance(x, (np.floating, float)): return repr(float(x))
    if isinstance(x, (bool, np.bool_)): return bool(x)
    if isinstance(x, (int, np.integer)): return int(x)
    if isinstance(x, complex): return repr(x)
    if isinstance(x, bytes): return x.decode('latin1')
    if isinstance(x, (str, type(None))): return x
    if isinstance(x, dict): return {str(k): plain(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [plain(v, depth + 1) for v in x]
    if callable(x) or isinstance(x, types.ModuleType): return 'code'
    if type(x).__module__.startswith('quantas'): return state(x, depth + 1)
    return type(x).__name__


def state(o, depth=0):
    out = {}
    for k in sorted(set(vars(o)) | {k for c in type(o).__mro__ for k, v in vars(c).items() if not callable(v) and not k.startswith('__') and not isinstance(v, (staticmethod, classmethod))}):
        if k in ('log', 'descriptions', '_formats', 'interface_filter', '_plot_functions'): continue
        try: out[k] = plain(getattr(o, k), depth + 1)
        except Exception as e: out[k] = 'raises ' + type(e).__name__
    return out


def scribble(x, seen=None):
    """the owner of a result overwrites it"""
    seen = set() if seen is None else seen
    if id(x) in seen: return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype != object: x[...] = 77
    elif isinstance(x, dict):
        for v in list(x.values()): scribble(v, seen)
        x['scribble'] = 'scribble'
    elif isinstance(x, list):
        for v in list(x): scribble(v, seen)
        x.append('scribble')
    elif type(x).__module__.startswith('quantas') and hasattr(x, '__dict__'):
        for v in list(vars(x).values()): scribble(v, seen)
        for k in ('data', 'results', 'warnings', '_data', '_results'):
            try: v = getattr(x, k)
            except Exception: continue
            scribble(v, seen)


# ------------------------------------------------------------------ operations
class Answers(object):
    def __init__(self, a): self.a = list(a)
    def __call__(self, *k, **kw): return self.a.pop(0) if self.a else ''


@contextlib.contextmanager
def quiet(answers=()):
    keep = builtins.input
    builtins.input = Answers(answers)
    try:
        with contextlib.redirect_stdout(io.StringIO()) as out: yield out
    finally: builtins.input = keep


def cls(name):
    m, c = name.rsplit('.', 1)
    return getattr(importlib.import_module(m), c)


READERS = {'soec': 'quantas.IO.soec_reader.SOECInputFileReader', 'eos': 'quantas.IO.eos_reader.EoSInputFileReader', 'qha': 'quantas.IO.qha_reader.QHAInputFileReader',
           'vasp': 'quantas.interfaces.vasp.VASPSOECReader', 'csoec': 'quantas.interfaces.crystal.CrystalSOECReader', 'cphon': 'quantas.interfaces.crystal.CrystalPhononReader',
           'cqha': 'quantas.interfaces.crystal.CrystalQHAReader', 'phonopy': 'quantas.interfaces.phonopy.PhonopyReader'}
GENERATE = {'vasp': ('soec', 'vasp'), 'csoec': ('soec', 'crystal'), 'cphon': ('qha', 'crystal'), 'cqha': ('qha', 'crystal-qha'), 'phonopy': ('qha', 'phonopy')}
W = {'soec': 'quantas.IO.soec_writer.SOECInputCreator', 'qha': 'quantas.IO.qha_writer.QHAInputCreator'}


def put(where, files):
    for n, x in files.items():
        p = os.path.join(where, n)
        if x is None:
            if os.path.exists(p): os.remove(p)
        else:
            with open(p, 'w', encoding='utf-8') as f: f.write(x)


def main_file(where, op): return os.path.join(where, sorted(op['files'], key=lambda n: (op['main'] != n, n))[0])


def do(op, where, used=None):
    """perform an operation in a directory; returns (outcome, objects).  used: object of an earlier operation of this kind"""
    put(where, op['files'])
    fn, kind = main_file(where, op), op['kind']
    try:
        with quiet(['a job'] * 3) as out: r, objs = perform(op, kind, fn, where, used, out)
    except Exception as e:
        return {'raised': '%s: %s' % (type(e).__name__, str(e)[:200].replace(where, ''))}, [used] if used is not None else []
    return relative(r, where), objs


def relative(x, where):
    """messages that name the file do not depend on where it is"""
    if isinstance(x, str): return x.replace(where, '')
    if isinstance(x, dict): return {k: relative(v, where) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [relative(v, where) for v in x]
    return x


def table(path):
    with open(path, encoding='utf-8') as f: return f.read()


def perform(op, kind, fn, where, used, out):
    if kind in READERS:
        if used is None: r = cls(READERS[kind])(fn)
        else:
            r = used
            r.load(fn)
        return state(r), [r]
    if kind.startswith('gen-'):
        w, flag = GENERATE[kind[4:]]
        g = cls(W[w])(flag) if used is None else used
        res = os.path.join(where, 'generated')
        if os.path.exists(res): os.remove(res)
        ok, err = g.read(fn) if w == 'soec' else g.read(fn, False)
        if ok: g.write(res)
        return {'ok': bool(ok), 'error': err, 'text': table(res) if ok else None}, [g]
    if kind == 'ha':
        c = cls('quantas.harmonic.harmonic.HACalculator')(op['settings'])
    elif kind == 'qharun':
        c = cls('quantas.qha.qha.QHACalculator')(op['settings'])
    elif kind == 'elastic':
        c = cls('quantas.soec.soec.SOECCalculator')(op['settings'])
    elif kind.startswith('exp-'):
        E = cls({'exp-HA': 'quantas.harmonic.utils.export.QuantasHarmonicExport', 'exp-QHA': 'quantas.qha.utils.export.QuantasQHAExport', 'exp-SOEC': 'quantas.soec.utils.export.QuantasSOECExport'}[kind])
        import h5py
        with h5py.File(fn, 'w') as f:
            f.attrs['info'] = op['info']
            for k, (a, u) in op['data'].items():
                x = f.create_dataset(k, data=np.array(a))
                x.attrs['unit'] = u
        e = E() if used is None else used
        e.load(fn)
        if e.error is not None: return {'error': e.error}, [e]
        import click
        keep = click.prompt
        mod = importlib.import_module(E.__module__)
        keepc = mod.confirm
        picks, texts = list(op['picks']), {}
        n = [0]
        def prompt(*a, **k):
            p = picks[n[0]]
            q = os.path.splitext(fn)[0] + '_' + p + '.dat'
            if os.path.exists(q): os.remove(q)
            return p
        def confirm(*a, **k):
            n[0] += 1
            return n[0] < len(picks)
        click.prompt, mod.confirm = prompt, confirm
        try: e.run()
        finally: click.prompt, mod.confirm = keep, keepc
        for p in picks: texts[p] = table(os.path.splitext(fn)[0] + '_' + p + '.dat')
        return {'tables': texts, 'said': out.getvalue().replace(where, '')}, [e]
    elif kind == 'eosfit':
        from click.testing import CliRunner
        log = os.path.join(where, 'session')
        r = CliRunner().invoke(cls('quantas.eosfit.commands.cmd_eosfit.eos_calculation'), [fn, '-o', log], input='\n'.join(op['answers']) + '\n')
        if r.exception is not None and not isinstance(r.exception, SystemExit): raise r.exception
        return {'exit': r.exit_code, 'log': [x for x in table(log + '.log').replace(where, '').split('\n') if 'time' not in x.lower()]}, []
    else: raise KeyError(kind)
    err = c.read_input(fn)
    if err is not None: return {'error': plain(err)}, [c]
    before = state(c.input) if hasattr(c, 'input') else None
    c.run()
    if before is not None and before != state(c.input): return {'input changed': True}, [c]
    return {'results': plain(c.results), 'completed': c.completed, 'error': plain(c.error)}, [c]


# ------------------------------------------------------------------ inputs: the generators of the other properties
class Stub(object):
    """collects the files of a case written for another property"""
    def __init__(self, h, name):
        self.h, self.name, self.scratch, self.got, self._c = h, name, os.path.join(h.scratch, 'stub'), [], None
        os.makedirs(self.scratch, exist_ok=True)
    def rng(self, x): return self.h.rng('C23' + self.name + x)
    def n(self, *a): return 8
    def need(self, *a): return self.h.need(*a)
    def record(self, *a, **k): return True
    close = same = record
    @property
    def current(self): return self._c
    @current.setter
    def current(self, x):
        self._c = x
        if isinstance(x, tuple): x = x[1]
        if isinstance(x, dict): self.got.append(dict(x))


def files_of(h, mod, case):
    s = Stub(h, mod + case)
    try: getattr(importlib.import_module(mod), 'case_' + case)(s)
    except Exception: pass
    return s.got


def operations(h):
    rng = h.rng('C23ops')
    ops = []
    def add(kind, files, main, **kw): ops.append(dict(kind=kind, files=files, main=main, **kw))
    take = lambda xs, n: [xs[int(i)] for i in rng.permutation(len(xs))[:n]]
    for kind, mod, case, n in (('soec', 'C20', 'good', 5), ('soec', 'C20', 'bad', 3), ('eos', 'C21', 'good', 6), ('eos', 'C21', 'bad', 3), ('vasp', 'C24', 'vasp', 5), ('csoec', 'C24', 'crystal', 5)):
        for x in take([x for x in files_of(h, mod, case) if 'text' in x], n): add(kind, {'in.txt': x['text']}, 'in.txt')
    import C22
    for k in range(5): add('qha', {'in.txt': C22.build(rng, drop=('energy',) if k == 3 else (), edit='bands' if k == 4 else None)[0]}, 'in.txt')
    import C25
    for k in range(6):
        L = C25.phonon_output(rng, ('gamma', 'super', 'disp', 'interp')[k % 4])[0]
        add('cphon', {'in.txt': ''.join(L if k != 5 else L[:len(L) // 2])}, 'in.txt')
    for x in take([x for x in files_of(h, 'C25', 'qha') if 'file' in x], 4): add('cqha', {'in.txt': x['file']}, 'in.txt')
    for x in take([x for x in files_of(h, 'C25', 'phonopy') if 'mesh.yaml' in x], 4):
        add('phonopy', {'in.yaml': x['mesh.yaml'], 'in_disp.yaml': x['mesh_disp.yaml'], 'in.xml': x['mesh.xml']}, 'in.yaml')
    for op in list(ops):
        if op['kind'] in GENERATE: add('gen-' + op['kind'], op['files'], op['main'])
    for k in range(3):
        u = qha_np.units(rng)
        d, V0, K0 = make(rng, u)
        d['job'] = 'run %d' % k
        add('ha', {'in.yaml': ha_np.text(d)}, 'in.yaml', settings=dict(trange=[0., 300. + 100 * k, 100.], energy_unit=u['energy_unit'], frequency_unit=u['frequency_unit'], lenght_unit=u['lenght_unit'],
            temperature_unit='K', silent=True, logfile=None, debug=False))
        add('qharun', {'in.yaml': ha_np.text(d)}, 'in.yaml', settings=qha_np.settings(trange=[0., 300., 150.], prange=[0., 2., 2.], **dict(u, qha_scheme=('freq', 'td')[k % 2], minimization=('poly', 'eos')[k // 2])))
    for k in range(4):
        t, a = session(rng, k)
        add('eosfit', {'in.dat': t}, 'in.dat', answers=a)
    import elastic_np as el
    for k in range(3):
        C = soec_matrix(rng, k)
        t = 'sample %d\n' % k + '\n'.join(' '.join('%.6f' % x for x in r) for r in C) + '\n%.1f\n' % rng.uniform(2000, 5000)
        add('elastic', {'in.dat': t}, 'in.dat', settings=dict(soec_run.SETTINGS))
    import C28
    for kind in ('HA', 'QHA'):
        for k in range(3):
            d, tab, other = C28.stored(rng, kind)
            picks = [str(x) for x in rng.permutation(sorted(tab))[:2]]
            add('exp-' + kind, {}, 'in.hdf5', info='%s number %d' % (kind, k), data={n: (np.asarray(a).tolist(), str(u)) for n, (a, u, _) in d.items()}, picks=picks)
    for k in range(2):
        n = int(rng.integers(2, 9))
        names = ['E', 'G'] if k else ['E', 'LC', 'Nu']
        data = {'stiffness': (rng.normal(size=(6, 6)).tolist(), 'GPa')}
        for x in names:
            for p in ('xy', 'xz', 'yz'): data['polar_%s_%s' % (x, p)] = (np.column_stack([np.linspace(0, 360, n), rng.normal(size=(n, {'E': 1, 'LC': 2, 'G': 2, 'Nu': 3}[x]))]).tolist(), 'GPa')
        add('exp-SOEC', {}, 'in.hdf5', info='elastic %d' % k, data=data, picks=names)
    for op in ops:
        if not op['files']: op['files'] = {op['main']: ''}
    return ops


def session(rng, k):
    """an input file and the answers given in an interactive fit of one quantity after another"""
    n = int(rng.integers(7, 11))
    P = np.linspace(0., 12., n)
    K, kp = rng.uniform(80, 200), rng.uniform(3.8, 4.5)
    v = (1 + kp * P / K) ** (-1 / kp)
    cols = {'P': P, 'V': rng.uniform(60, 300) * v, 'a': rng.uniform(4, 9) * v ** .3, 'b': rng.uniform(4, 9) * v ** .37, 'c': rng.uniform(4, 9) * v ** .33}
    text = 'JOB\nsession %d\nFORMAT\n%s\nDATA\n' % (k, ' '.join(cols)) + ''.join(' '.join('%.6f' % cols[c][i] for c in cols) + '\n' for i in range(n))
    answers = []
    order = ('a', 'bc', 'c', 'va')[k]
    for i, q in enumerate(order):
        eos = str(int(rng.integers(1, 6)))
        answers += [q, eos, '3', 'n'] + (['y', 'n', 'y', 'y', 'n'] if k == 2 else ['n']) + ['n', 'n', 'n' if i == len(order) - 1 else 'y']
    return text, answers


def soec_matrix(rng, k):
    a, b, c = rng.uniform(200, 300), rng.uniform(60, 110), rng.uniform(60, 120)
    C = np.zeros((6, 6))
    C[:3, :3] = b
    for i in range(3): C[i, i], C[i + 3, i + 3] = a, c
    if k: C[0, 0], C[4, 4], C[0, 1] = a * 1.1, c * .9, b * .9; C[1, 0] = C[0, 1]
    return C


def fresh(h, ops, ids):
    """outcomes of operations, each the first one of its own process"""
    src = os.path.join(h.scratch, 'ops.json')
    with open(src, 'w') as f: json.dump(ops, f)
    def start(i):
        d = os.path.join(h.scratch, 'fresh%d' % i)
        os.makedirs(d, exist_ok=True)
        return subprocess.Popen([sys.executable, '-W', 'ignore', os.path.abspath(__file__), src, str(i), d], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
    out, todo, run = {}, list(ids), []
    while todo or run:
        while todo and len(run) < 4: run.append((todo[0], start(todo.pop(0))))
        i, p = run.pop(0)
        x = p.communicate()[0]
        if p.returncode == 0: out[i] = json.loads(x.decode())
        shutil.rmtree(os.path.join(h.scratch, 'fresh%d' % i), ignore_errors=True)
    return out


def label(op): return {'operation': op['kind'], 'files': {k: (x or '')[:1500] for k, x in op['files'].items()}, 'picks': op.get('picks')}


def case_histories(h):
    ops = json.loads(json.dumps(operations(h)))
    rng = h.rng('C23seq')
    # at least one fresh process per kind of operation; the others are first performed before anything else of their kind
    kinds = {}
    for i in rng.permutation(len(ops)): kinds.setdefault(ops[int(i)]['kind'], []).append(int(i))
    ids = [x for v in kinds.values() for x in v[:h.n(2, 5)]]
    h.current = None
    want = fresh(h, ops, ids)
    if len(want) < len(ids): h.record('fresh process', {'lost': sorted(set(ids) - set(want))}, len(want) > len(ids) // 2, len(ids), len(want))
    where = os.path.join(h.scratch, 'here')         # every operation of a kind uses the same paths
    os.makedirs(where, exist_ok=True)
    kept, history = [], []
    known = dict(want)
    def at(op):
        d = os.path.join(where, op['kind'])
        os.makedirs(d, exist_ok=True)
        return d
    # the second operation of a kind is the interesting one: all kinds in order first, then random histories
    seq = [i for v in kinds.values() for i in v if i in want] + [int(i) for _ in range(h.n(2, 12)) for i in rng.permutation(len(ops))]
    for n, i in enumerate(seq):
        op = ops[i]
        h.current = cur = dict(label(op), after=history[-6:])
        got, objs = do(op, at(op))
        got = json.loads(json.dumps(got))
        history.append('%s #%d' % (op['kind'], i))
        if i in known:
            h.record('same outcome after other operations: %s' % op['kind'], cur, got == known[i], known[i], got, 'first difference: %s' % diff(known[i], got))
        else: known[i] = got
        for o in objs: kept.append((o, state(o), op, n))
        for o, s, p, m in kept:
            now = state(o)
            if not h.record('objects of earlier operations are unchanged', dict(label(p), then=history[m + 1:]), now == s, None, diff(s, now)): break
        if len(kept) > 12: kept = kept[-12:]
        if rng.random() < .3 and kept:
            o = kept.pop(int(rng.integers(len(kept))))[0]
            scribble(o)
            history.append('(results of an earlier operation overwritten by hand)')
    # objects used more than once
    reuse = [i for i in range(len(ops)) if ops[i]['kind'] in READERS or ops[i]['kind'].startswith(('gen-', 'exp-'))]
    for _ in range(h.n(3, 15)):
        for i in rng.permutation(reuse):
            op = ops[int(i)]
            prev = [j for j in kinds[op['kind']] if j != i]
            if not prev or int(i) not in known: continue
            j = int(prev[int(rng.integers(len(prev)))])
            h.current = cur = dict(label(op), same_object_used_before_for=label(ops[j]))
            _, objs = do(ops[j], at(op))
            if not objs: continue
            got, _ = do(op, at(op), objs[0])
            got = json.loads(json.dumps(got))
            w = known[int(i)]
            if op['kind'] in READERS:
                # what an earlier file left in attributes that a fresh reader does not have is not used by this one
                got, w = {k: x for k, x in got.items() if k in w}, w
            h.record('same outcome with an object used before: %s' % op['kind'], cur, got == w, w, got, 'first difference: %s' % diff(w, got))
    h.current = None


def case_fresh_objects(h):
    """two objects of a class share neither data nor results, from the moment they exist"""
    mk = {'HACalculator': ('quantas.harmonic.harmonic', dict(trange=[0., 300., 100.], energy_unit='Ha', frequency_unit='cm^-1', lenght_unit='A', temperature_unit='K', silent=True, logfile=None, debug=False)),
          'QHACalculator': ('quantas.qha.qha', qha_np.settings()), 'SOECCalculator': ('quantas.soec.soec', dict(soec_run.SETTINGS))}
    for name, (mod, s) in mk.items():
        C = h.need(mod, name)
        h.current = {'class': name}
        a, b = C(dict(s)), C(dict(s))
        for k in ('results', 'warnings'):
            x, y = getattr(a, k), getattr(b, k)
            h.record('%s of two objects' % k, dict(h.current, attribute=k), x is None or x is not y, 'two objects', 'one shared object')
    h.current = None


def diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k): return diff(a.get(k), b.get(k), path + '/' + k)
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y: return diff(x, y, '%s[%d]' % (path, i))
    return '%s: %s -> %s' % (path, str(a)[:150], str(b)[:150])


if __name__ == '__main__':
    with open(sys.argv[1]) as f: OPS = json.load(f)
    r = do(OPS[int(sys.argv[2])], sys.argv[3])[0]
    print(json.dumps(r))
