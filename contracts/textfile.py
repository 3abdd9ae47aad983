"""Program outputs as text files: given lines, and runs of unknown length of lines of which only is known that they contain none of the texts searched for."""
from pyvc.vc import *
from pyvc import lib as L
from pyvc.interp import FileSeq


def num(x, kind='num'): return L.SStr((L.Tok(x if not isinstance(x, str) else t.sym(x), kind),))
def word(x): return num(x, 'word')
def line(*ws, end='\n', lead='', sep=' '):
    out = [lead]
    for j, w in enumerate(ws): out += ([sep] if j else []) + [w]
    return L.sconcat(out + [end])


def gap(v, name):
    """A run of lines without markers; any number of them (0 included)."""
    n = t.sym('lines!' + name, 'I')
    return ('run', n, lambda k: L.SStr((L.Tok(t.app('line!' + name, k), 'text'),)))


def output(v, name, markers, pieces):
    """Makes the file; `v.paths` bodies must call `nonneg(v)` first."""
    v.I.markers[:] = list(markers)
    del v.I.filelike[:]
    v.runs = [p[1] for p in pieces if len(p) == 3 and p[0] == 'run']
    v.I.files[name] = FileSeq(v.I, pieces)


def nonneg(v):
    for n in v.runs: v.assume(t.ge(n, 0))
