"""Exported tables.  For grids of any size (numbers of rows and columns symbolic) and any stored values and units, the
text written by the exporters is read back here cell by cell: title, units and column headings of the requested
quantity, one heading per stored column coordinate, one line per stored row coordinate, and in every cell the stored
value with the documented number of digits.  Several quantities are exported in one session.  Files that hold no such
results, and quantities that a file does not hold, are reported."""
from fractions import Fraction
from pyvc.vc import *
from pyvc import arrays as A, lib as L
from pyvc.interp import Rep, Opaque
from pyvc.objects import fmt_digits
from pyvc.syslib import H5Node, H5Data
from .C02 import dims
from .C11 import messages

HX, QX, SX = 'quantas.harmonic.utils.export.QuantasHarmonicExport', 'quantas.qha.utils.export.QuantasQHAExport', 'quantas.soec.utils.export.QuantasSOECExport'
LEG, RD = 'quantas.IO.hdf5_export.', 'quantas.IO.hdf5_reader.QuantasHDF5Reader'
E_, V_ = '.12E', '.8f'
#            description, digits, unit
DESC = {'Uzp': ('Zero-point energy', E_, 'EU'), 'Uth': ('Thermal energy', E_, 'EU'), 'Utot': ('Internal energy', E_, 'EU'), 'S': ('Entropy', E_, 'mEU'),
        'Fvib': ('Vibrational Helmholtz free energy', E_, 'EU'), 'F': ('Helmholtz free energy', E_, 'EU'), 'Cv': ('Isochoric heat capacity', E_, 'mEU')}
HA = dict(DESC, U0=('Static energy', E_, 'EU'))
QHA = dict(DESC, VT=('Unit cell volume', V_, 'LU'), Cp=('Isobaric heat capacity', E_, 'mEU'), KT=('Isothermal bulk modulus', V_, 'PU'), KS=('Adiabatic bulk modulus', V_, 'PU'),
           Kp=('First-derivative of bulk modulus', V_, ''), alphaV=('Volumetric coefficient of thermal expansion', E_, 'K^-1'), H=('Enthalpy', E_, 'EU'),
           G=('Gibbs free energy', E_, 'EU'), gruneisen=('Gruneisen parameters', E_, ''))
QHA['Cp-Cv'] = ('Correction for isobaric heat capacity', E_, 'mEU')


# ------------------------------------------------------------------ reading the written text
class Line(list):
    """cells: text | ('num', digits, value) | ('rep', n, k -> cells); glued: two cells touch each other"""
    def __init__(self): self.open, self.glued = False, False


class Reader(object):
    def __init__(self, narrow=False): self.lines, self.cur, self.narrow = [], Line(), narrow

    def text(self, s):
        for i, part in enumerate(s.split('\n')):
            if i: self.end()
            if not part: continue
            ws = part.split()
            if part[0].isspace(): self.cur.open = False
            for j, w in enumerate(ws):
                if j == 0 and self.cur.open:
                    if isinstance(self.cur[-1], str): self.cur[-1] += w
                    else: self.cur.glued = True
                else: self.cur.append(w)
            if ws: self.cur.open = not part[-1].isspace()

    def cell(self, c):
        if self.cur.open: self.cur.glued = True
        self.cur.append(c)
        self.cur.open = True

    def piece(self, p):
        if isinstance(p, str): return self.text(p)
        if isinstance(p, L.SStr):
            for q in p.parts: self.piece(q)
            return
        if isinstance(p, Rep): return self.group(p.n, p.fn)
        if isinstance(p, L.Fmt):
            spec = p.spec if isinstance(p.spec, str) else next((x for x in p.spec.parts if isinstance(x, str)), '')
            fill = spec[0] if len(spec) > 1 and spec[1] in '<>^' else ' '
            if L.isstr(p.value) and fill != ' ': return self.text(p.value + fill if isinstance(p.value, str) else p.value)
            pad = isinstance(p.spec, str) and self.narrow and spec[:1] == ' '
            if pad: self.cur.open = False
            if L.isstr(p.value): self.piece(p.value)
            else: self.cell(('num', fmt_digits(spec) if isinstance(p.spec, str) else '?', p.value))
            if pad: self.cur.open = False
            return
        raise Unsupported('written text %r' % (p,))

    def end(self):
        self.lines.append(self.cur)
        self.cur = Line()

    def group(self, n, g):
        def inner(k):
            r = Reader(self.narrow)
            for x in g(t.T(k)): r.piece(x)
            return r
        one = inner(t.fresh('k', 'I'))
        if not one.lines:
            if one.cur.glued or (one.cur and one.cur.open and not self.blank_first(g)): self.cur.glued = True
            if self.cur.open and not self.blank_first(g): self.cur.glued = True
            self.cur.append(('rep', n, lambda k: inner(k).cur))
            self.cur.open = one.cur.open
            return
        if self.cur or one.cur: raise Unsupported('lines of the table are put together differently')
        self.lines.append(('lines', n, lambda k: [x for x in inner(k).lines if x]))

    def blank_first(self, g):
        x = g(t.fresh('k', 'I'))[0]
        x = x.parts[0] if isinstance(x, L.SStr) else x
        return isinstance(x, str) and x[:1].isspace()


def read_table(v, name, narrow=False):
    w = v.I.written.get(name)
    if w is None: return None
    r, it = Reader(narrow), w.items
    for n, g in ([(1, lambda k, x=x: (x,)) for x in it] if isinstance(it, tuple) else it.segs):
        if n == 1 or n is t.const(1, 'I'):
            for x in g(t.const(0, 'I')): r.piece(x)
        else: r.group(n, g)
    if r.cur: r.end()
    rule = lambda l: isinstance(l, Line) and l and all(isinstance(x, str) and not x.strip('+-=') for x in l)
    return [l for l in r.lines if l and not rule(l)]


def cells(v, nm, line, want):
    """want: list of (digits, value) | ('rep', n, j -> (digits, value))"""
    if isinstance(line, Line): v.fact('%s: cells separated' % nm, not line.glued, repr(list(line))[:200])
    if not v.fact('%s: number of cells' % nm, len(line) == len(want), '%d cells, %d stored' % (len(line), len(want))): return
    for i, (c, w) in enumerate(zip(line, want)):
        if w[0] == 'rep':
            if not v.fact('%s: a cell for every column' % nm, c[0] == 'rep', repr(c)): return
            v.eq('%s: number of columns' % nm, c[1], w[1])
            j, = v.index((w[1],))
            cells(v, nm + ', column j', c[2](j), [w[2](j)])
        else:
            if not v.fact('%s: a number' % nm, c[0] == 'num', repr(c)): return
            v.fact('%s: digits' % nm, c[1] == w[0], '%s, documented: %s' % (c[1], w[0]))
            v.eq('%s: value %d' % (nm, i), c[2], w[1])


def words(line): return ' '.join(x if isinstance(x, str) else '#' for x in line) if isinstance(line, Line) else '#'


def grid(v, nm, name, desc, unit, labels, nrow, ncol, x, y, z, digits, ydigits):
    """the whole table"""
    ls = read_table(v, name)
    if not v.fact('%s: table written' % nm, ls is not None, 'files written: %r' % (list(v.I.written),)): return
    try: i = next(k for k, l in enumerate(ls) if not isinstance(l, Line) or not all(isinstance(c, str) for c in l))
    except StopIteration: i = len(ls)
    head = [words(l) for l in ls[:i]]
    v.fact('%s: quantity named' % nm, desc in head, repr(head))
    v.fact('%s: unit of the values' % nm, any(h.split()[:2] == ['Data', 'in'] and unit in h.split() for h in head) if unit else not any(h.startswith('Data in') and h != 'Data in units' for h in head), repr(head))
    v.fact('%s: coordinates named, with units' % nm, labels in head, repr(head))
    body = ls[i:]
    if not v.fact('%s: headings and rows' % nm, len(body) == 2 and isinstance(body[0], Line) and not isinstance(body[1], Line), repr([words(b) for b in body])): return
    cells(v, '%s: column headings' % nm, body[0], [('rep', ncol, lambda j: (ydigits, y(j)))])
    v.eq('%s: number of rows' % nm, body[1][1], nrow)
    r, = v.index((nrow,))
    rows = body[1][2](r)
    if not v.fact('%s: one line per row' % nm, len(rows) == 1, str(len(rows))): return
    cells(v, '%s: row i' % nm, rows[0], [('.2f', x(r)), ('rep', ncol, lambda j: (digits, z(r, j)))])


# ------------------------------------------------------------------ files and sessions
def h5(v, name, info, data):
    v.I.written.clear()
    v.I.files.clear()
    f = H5Node()
    if info is not None: f.attrs.d['info'] = info
    for k, (arr, unit, desc) in data.items():
        d = H5Data(arr)
        d.attrs.d['unit'] = unit
        if desc is not None: d.attrs.d['desc'] = desc
        f.d[k] = d
    v.I.h5[name] = f


def results(v, kind):
    nT, nC = dims('nT', 'nC')
    v.assume(t.ge(nT, 1), t.ge(nC, 1))
    X, Y = sym_array('X', (nT,)), sym_array('Y', (nC,))
    table, other, lab = (HA, 'V', 'T (TU) V (LU^3)') if kind == 'HA' else (QHA, 'P', 'T (TU) P (PU)')
    data = {'T': (X, 'TU', 'Temperature'), other: (Y, 'LU' if other == 'V' else 'PU', 'Unit cell volume' if other == 'V' else 'Pressure')}
    Z = {}
    for k, (desc, digits, unit) in table.items():
        nm = 'Z_' + k
        if k == 'U0': arr, f = sym_array(nm, (nC,)), lambda i, j, nm=nm: t.app(nm, j)
        elif k == 'Uzp' and kind == 'HA': arr, f = sym_array(nm, (1, nC)), lambda i, j, nm=nm: t.app(nm, t.const(0, 'I'), j)
        else: arr, f = sym_array(nm, (nT, nC)), lambda i, j, nm=nm: t.app(nm, i, j)
        data[k], Z[k] = (arr, unit, desc), f
    return nT, nC, X, Y, table, lab, data, Z


class Session(object):
    """the user asks for one quantity after the other; existing files are (not) overwritten"""
    def __init__(self, v, picks, overwrite=True):
        self.v, self.picks, self.offered, self.n, self.overwrite, self.asked = v, list(picks), [], 0, overwrite, 0
        self.out = messages(v, self.answer)

    def answer(self, f, text, a, k):
        if f == 'confirm':
            if 'verwrite' in repr(text):
                self.asked += 1
                return self.overwrite
            return self.n < len(self.picks)
        ty = k.get('type')
        if isinstance(ty, Opaque) and hasattr(ty, 'choices'):
            self.offered.append(list(ty.choices.items if isinstance(ty.choices, ListV) else ty.choices))
            if self.n >= len(self.picks): raise Unsupported('the session goes on after the last answer')
            self.n += 1
            return self.picks[self.n - 1]
        return 'elsewhere.dat'


def gridded(kind, cls):
    @unit('%s tables: every quantity, any grid, one session' % kind, timeout=400)
    def u(v):
        def run():
            nT, nC, X, Y, table, lab, data, Z = results(v, kind)
            h5(v, 'd/run.hdf5', 'about the run', data)
            s = Session(v, table)
            o = v.call(cls)
            v.meth(o, 'load', 'd/run.hdf5')
            if not v.fact('file accepted', v.attr(o, 'error') is None, repr(v.attr(o, 'error'))): return
            v.meth(o, 'run')
            v.fact('exactly the stored quantities are offered', all(sorted(x) == sorted(table) for x in s.offered) and s.offered, repr(s.offered[:1]))
            v.fact('one file per quantity', set(v.I.written) == {'d/run_%s.dat' % k for k in table}, repr(sorted(v.I.written)))
            for k, (desc, digits, unit) in table.items():
                grid(v, k, 'd/run_%s.dat' % k, desc, unit, lab, nT, nC, lambda i: X.get(i), lambda j: Y.get(j), Z[k], digits, V_)
        v.paths('session', run)

        def run2():
            nT, nC, X, Y, table, lab, data, Z = results(v, kind)
            h5(v, 'run.hdf5', 'about the run', data)
            v.I.files['run_F.dat'] = ('precious\n',)
            s = Session(v, ['F'], overwrite=False)
            o = v.call(cls)
            v.meth(o, 'load', 'run.hdf5')
            v.meth(o, 'run')
            v.fact('an existing file is overwritten only with consent', s.asked == 1 and 'run_F.dat' not in v.I.written, repr(sorted(v.I.written)))
            grid(v, 'F under another name', 'elsewhere.dat', table['F'][0], 'EU', lab, nT, nC, lambda i: X.get(i), lambda j: Y.get(j), Z['F'], E_, V_)
        v.paths('existing file', run2)

        def bad(what, info, drop):
            def run():
                data = results(v, kind)[6]
                for x in drop: data.pop(x)
                h5(v, 'run.hdf5', info, data)
                messages(v, lambda *a: True)
                o = v.call(cls)
                v.meth(o, 'load', 'run.hdf5')
                v.fact('%s: reported' % what, L.isstr(v.attr(o, 'error')), repr(v.attr(o, 'error')))
            v.paths(what, run)
        bad('not a Quantas file', None, [])
        bad('no temperatures', 'about', ['T'])
        bad('no %s' % ('volumes' if kind == 'HA' else 'pressures'), 'about', ['V' if kind == 'HA' else 'P'])

        def run3():
            data = results(v, kind)[6]
            for x in ('S', 'Uth'): data.pop(x)
            h5(v, 'run.hdf5', 'about', data)
            s = Session(v, ['F'])
            o = v.call(cls)
            v.meth(o, 'load', 'run.hdf5')
            v.fact('an incomplete file is accepted', v.attr(o, 'error') is None, repr(v.attr(o, 'error')))
            v.meth(o, 'run')
            v.fact('quantities that are not stored are not offered', not [x for y in s.offered for x in y if x in ('S', 'Uth')], repr(s.offered))
        v.paths('incomplete file', run3)
    return u


gridded('HA', HX)
gridded('QHA', QX)


# ------------------------------------------------------------------ elastic properties
SOEC = {'E': ("Young's modulus", 1, 'PU', []), 'LC': ('Linear compressibility', 2, 'TPa^-1', ['positive', 'negative']), 'G': ('Shear modulus', 2, 'PU', ['minimum', 'maximum']),
        'Nu': ("Poisson's ratio", 3, '', ['negative', 'positive', 'measurement']), 'waves': ('Seismic wave velocities', 3, 'km s^-1', ['v_s1', 'vs_2', 'v_l'])}
PLANES = ('xy', 'xz', 'yz')


def polar(v, have, planes=PLANES):
    n, = dims('n')
    v.assume(t.ge(n, 1))
    D = sym_array('deg', (n,))
    data = {'stiffness': (sym_array('C', (6, 6)), 'PU', None), 'compliance': (sym_array('S', (6, 6)), 'TPa^-1', None), 'averages': (sym_array('avg', (3, 4)), 'PU', None),
            'eigenvals': (sym_array('eig', (6,)), 'PU', None)}
    for x in have:
        for p in planes:
            nm = 'polar_%s_%s' % (x, p)
            data[nm] = (new_array((n, SOEC[x][1] + 1), lambda i, c, nm=nm: t.ite(t.eq(t.T(c), 0), D.get(i), t.app(nm, i, t.T(c)))), SOEC[x][2], None)
    return n, D, data


@unit('elastic tables: every polar property, any number of directions, one session', timeout=400)
def u_soec(v):
    v.assumptions.add('printed elastic values are narrower than their column of 15 characters')

    def session(have):
        def run():
            n, D, data = polar(v, have)
            h5(v, 'd/el.hdf5', 'about the run', data)
            s = Session(v, have)
            o = v.call(SX)
            v.meth(o, 'load', 'd/el.hdf5')
            if not v.fact('file accepted', v.attr(o, 'error') is None, repr(v.attr(o, 'error'))): return
            v.meth(o, 'run')
            v.fact('exactly the stored properties are offered', all(sorted(x) == sorted(have) for x in s.offered) and s.offered, repr(s.offered[:1]))
            v.fact('one file per property', set(v.I.written) == {'d/el_%s.dat' % k for k in have}, repr(sorted(v.I.written)))
            for k in have:
                desc, cols, unit, sub = SOEC[k]
                ls = read_table(v, 'd/el_%s.dat' % k, narrow=True)
                if not v.fact('%s: table written' % k, ls is not None): continue
                head = [words(l) for l in ls if isinstance(l, Line)]
                v.fact('%s: property named' % k, desc in head, repr(head))
                v.fact('%s: unit of the values' % k, ('Data in %s units' % unit in head) if unit else not any(h.startswith('Data in') for h in head), repr(head))
                v.fact('%s: planes named in order' % k, '(xy) (xz) (yz)' in head, repr(head))
                if sub: v.fact('%s: columns named in order' % k, ' '.join(sub * 3) in head, repr(head))
                body = [l for l in ls if not isinstance(l, Line)]
                if not v.fact('%s: rows' % k, len(body) == 1 and ls[-1] is body[0]): continue
                v.eq('%s: number of rows' % k, body[0][1], n)
                r, = v.index((n,))
                rows = body[0][2](r)
                if not v.fact('%s: one line per row' % k, len(rows) == 1): continue
                cells(v, '%s: row i' % k, rows[0], [('.1f', D.get(r))] + [('.4f', t.app('polar_%s_%s' % (k, p), r, t.const(c + 1, 'I'))) for p in PLANES for c in range(cols)])
        v.paths('session %s' % (have,), run)
    session(['E', 'LC', 'G', 'Nu', 'waves'])
    session(['Nu', 'G', 'LC', 'E'])

    def bad(what, info, drop):
        def run():
            data = polar(v, [] if drop is None else ['E'])[2]
            for x in drop or (): data.pop(x)
            h5(v, 'el.hdf5', info, data)
            messages(v, lambda *a: True)
            o = v.call(SX)
            v.meth(o, 'load', 'el.hdf5')
            v.fact('%s: reported' % what, L.isstr(v.attr(o, 'error')), repr(v.attr(o, 'error')))
        v.paths(what, run)
    bad('not a Quantas file', None, [])
    bad('not an elastic file', 'about', ['stiffness'])
    bad('no polar properties', 'about', None)


# ------------------------------------------------------------------ the console exporter
LEGACY = {'HA': {'T': 'Temperature', 'V': 'Unit cell volume'}, 'QHA': {'T': 'Temperature', 'P': 'Pressure'}}


def style(desc):
    return '.8f' if 'bulk modulus' in desc or desc == 'Unit cell volume' else '.12E'


def legacy(kind):
    @unit('console exporter, %s files: every quantity, any grid, one session' % kind, timeout=400)
    def u(v):
        def talk(lines):
            said = ListV(())
            from pyvc.objects import list_method
            it = iter(lines)
            def ask(I, a, k):
                x = next(it, None)
                if x is None: raise Unsupported('the session goes on after the last answer')
                return x
            v.I.contracts['input'] = ask
            v.I.builtins['print'] = Builtin('print', lambda I, a, k: list_method(I, said, 'append').fn(I, [a[0] if a else ''], {}))
            return said, it
        info = '\nThis file was created with Quantas.\n\nresults of the something (%s) calculations' % kind

        def run():
            nT, nC, X, Y, table, lab, data, Z = results(v, kind)
            h5(v, 'd/run.hdf5', info, data)
            ans = ['help', 'Nothing', 'T']
            for k in table: ans += [k, '' if k != 'F' else 'd/free.txt', 'y' if k != list(table)[-1] else 'maybe']
            said, it = talk(ans + ['N', 'quit'])
            o = v.call(LEG + 'QuantasHDF5Export')
            e = v.meth(o, 'read_input', 'd/run.hdf5')
            if not v.fact('file accepted', e is None, repr(e)): return
            v.meth(o, 'run')
            said = [repr(x) for x in said.items]
            v.fact('a quantity that is not stored is reported', any('Error' in x and 'Nothing' in x for x in said), repr(said)[:400])
            v.fact('a grid coordinate is no table: reported', any('Error' in x and "'T'" in x for x in said), repr(said)[-400:])
            names = {k: 'd/run_%s.dat' % k if k != 'F' else 'd/free.txt' for k in table}
            v.fact('one file per quantity', set(v.I.written) == set(names.values()), repr(sorted(v.I.written)))
            lb = 'T (TU) ' + ('Volume (LU)' if kind == 'HA' else 'Pressure (PU)')
            for k, (desc, digits, unit) in table.items():
                grid(v, k, names[k], desc, unit, lb, nT, nC, lambda i: X.get(i), lambda j: Y.get(j), Z[k], style(desc), V_)
        v.paths('session', run)

        def run2():
            data = results(v, kind)[6]
            data.pop('S')
            h5(v, 'run.hdf5', info, data)
            said, it = talk(['S', 'quit'])
            o = v.call(LEG + 'QuantasHDF5Export')
            v.meth(o, 'read_input', 'run.hdf5')
            v.meth(o, 'run')
            v.fact('missing quantity reported', any('Error' in repr(x) for x in said.items) and not v.I.written, repr(said.items))
        v.paths('incomplete file', run2)

        def run3():
            data = results(v, kind)[6]
            for other in ('created by somebody else', 'This file was created with Quantas.\n elastic constants'):
                h5(v, 'run.hdf5', other, data)
                talk([])
                o = v.call(LEG + 'QuantasHDF5Export')
                v.fact('file without (Q)HA results reported', L.isstr(v.meth(o, 'read_input', 'run.hdf5')))
        v.paths('other files', run3)
    return u


legacy('HA')
legacy('QHA')


@unit('result reader: data and attributes as stored, or a message')
def u_reader(v):
    def run():
        nT, nC, X, Y, table, lab, data, Z = results(v, 'HA')
        h5(v, 'run.hdf5', 'about the run', data)
        o = v.call(RD, 'run.hdf5')
        v.meth(o, 'read')
        inf = repr(v.attr(o, 'info'))
        for k in data: v.fact('%s announced' % k, k + ':' in inf and data[k][1] in inf, inf)
        for k in table:
            v.fact('%s is there' % k, v.meth(o, 'has_data', k) is True)
            got = v.meth(o, 'get_data', k)
            v.arr_eq('data of %s' % k, got, data[k][0].shape, data[k][0].get)
            for w, x in (('unit', data[k][1]), ('desc', data[k][2])): v.fact('%s of %s' % (w, k), v.meth(o, 'get_attribute', k, w) == x)
            v.fact('%s: missing attribute reported' % k, L.isstr(v.meth(o, 'get_attribute', k, 'nothing')) and 'nothing' in repr(v.meth(o, 'get_attribute', k, 'nothing')))
        i, j = v.index((nT, nC))
        v.eq('row', v.meth(o, 'get_data_row', 'F', i).get(j), Z['F'](i, j))
        v.eq('column', v.meth(o, 'get_data_column', 'F', j).get(i), Z['F'](i, j))
        for nm, a in (('get_data', ()), ('get_data_row', (0,)), ('get_data_column', (0,)), ('get_attribute', ('unit',))):
            r = v.meth(o, nm, 'nothing', *a)
            v.fact('%s: missing dataset reported' % nm, L.isstr(r) and 'nothing' in repr(r), repr(r))
        v.fact('has_data: missing dataset reported', v.meth(o, 'has_data', 'nothing') is not True)
    v.paths('read', run)
