"""Elastic constants extracted from CRYSTAL and VASP outputs."""
from pyvc.vc import *
from pyvc import lib as L
from .textfile import *

VA, CR = 'quantas.interfaces.vasp.VASPSOECReader', 'quantas.interfaces.crystal.CrystalSOECReader'
CLAMPED, TOTAL = 'SYMMETRIZED ELASTIC MODULI (kBar)', 'TOTAL ELASTIC MODULI (kBar)'
VASP = ('XX', 'YY', 'ZZ', 'XY', 'YZ', 'ZX')
VOIGT = ('XX', 'YY', 'ZZ', 'YZ', 'ZX', 'XY')
OPTION, DONE, CONSTANTS = 'ELASTCON OPTION', 'FINAL RESULTS START', 'SYMMETRIZED ELASTIC CONSTANTS'
GROUP, CELL = 'GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP', 'PRIMITIVE CELL - '


def vasp_block(marker, pre):
    return tuple([' ' + marker + '\n', ' Direction    XX          YY          ZZ          XY          YZ          ZX\n', ' ' + '-' * 80 + '\n'] +
                 [line(a, *[num('%s%s.%s' % (pre, a, b)) for b in VASP], lead=' ', sep='    ') for a in VASP] + [' ' + '-' * 80 + '\n'])


def no_result(v, tag, cls):
    r = v.call(cls, 'out')
    v.fact('%s: not completed' % tag, v.attr(r, 'completed') is False)
    v.fact('%s: an error is reported' % tag, L.isstr(v.attr(r, 'error')))


@unit('VASP: the printed matrix in Voigt order, GPa; the total one when it is printed')
def u_vasp(v):
    g = [gap(v, 'abc'[j]) for j in range(3)]
    for tag, pieces, pre in (('clamped only', [g[0], vasp_block(CLAMPED, 'c'), g[1]], 'c'),
                             ('clamped and total', [g[0], vasp_block(CLAMPED, 'c'), g[1], vasp_block(TOTAL, 't'), g[2]], 't')):
        output(v, 'out', (CLAMPED, TOTAL), pieces)
        def run():
            nonneg(v)
            r = v.call(VA, 'out')
            v.fact('%s: completed' % tag, v.attr(r, 'completed') is True)
            v.fact('%s: no error' % tag, v.attr(r, 'error') is None)
            C = v.attr(r, 'stiffness')
            if not v.shape('%s: shape' % tag, C, (6, 6)): return
            for i, a in enumerate(VOIGT):
                for j, b in enumerate(VOIGT): v.eq('%s: C%d%d' % (tag, i + 1, j + 1), C.get(i, j), t.div(t.sym('%s%s.%s' % (pre, a, b)), 10))
            v.eq('%s: no density is printed' % tag, v.attr(r, 'density'), t.T(0))
        v.paths(tag, run)
    output(v, 'out', (CLAMPED, TOTAL), [g[0]])
    v.paths('other output', lambda: (nonneg(v), no_result(v, 'other output', VA)))
    for i in range(6):
        for j in sorted({0, i, 5}):
            b = list(vasp_block(CLAMPED, 'c'))
            b[3 + i] = line(VASP[i], *['********' if q == j else num('c%d%d' % (i, q)) for q in range(6)], lead=' ')
            output(v, 'out', (CLAMPED, TOTAL), [g[0], tuple(b), g[1]])
            v.paths('overflown value', lambda: (nonneg(v), no_result(v, 'value %d,%d is not a number' % (i + 1, j + 1), VA)))


MARKS = (OPTION, DONE, CONSTANTS, GROUP, CELL)
def cell(rho): return (line(' PRIMITIVE CELL - CENTRING CODE', '5/0', 'VOLUME=', num('vol' + rho), '-', 'DENSITY', num(rho), 'g/cm^3'),)
def crystal_block(bad=None):
    return tuple([' ' + CONSTANTS + ' FOR CUBIC        CASE, IN GPa\n', '\n'] +
                 [line(*['********' if bad == (i, j) else num('c%d%d' % (i, j)) for j in range(i, 6)], lead=' |' + ' ' * (9 * i + 3), sep='  ', end=' |\n') for i in range(6)])


@unit('CRYSTAL: the printed triangle as a symmetric matrix in GPa; the density of the cell consistent with the group')
def u_crystal(v):
    g = [gap(v, 'abcdefgh'[j]) for j in range(8)]
    opt, done, grp = (' * ELASTCON OPTION, W.F. PERGER\n',), ('          FINAL RESULTS START\n',), (' ' + GROUP + '\n',)
    good = crystal_block()
    tail = [g[5], done, g[6], good, g[7]]
    for tag, head in (('one cell', [g[0], grp, g[1], cell('rho'), g[2], opt]),
                      ('cells before and after', [g[0], cell('x'), g[3], grp, g[1], cell('rho'), g[2], cell('y'), g[4], opt]),
                      ('no density', [g[0], grp, g[1], opt]), ('density of another geometry', [g[0], cell('x'), g[1], grp, g[2], opt])):
        output(v, 'out', MARKS, head + tail)
        def run():
            nonneg(v)
            r = v.call(CR, 'out')
            v.fact('%s: completed' % tag, v.attr(r, 'completed') is True)
            v.fact('%s: no error' % tag, v.attr(r, 'error') is None)
            C = v.attr(r, 'stiffness')
            if not v.shape('%s: shape' % tag, C, (6, 6)): return
            for i in range(6):
                for j in range(6): v.eq('%s: C%d%d' % (tag, i + 1, j + 1), C.get(i, j), t.sym('c%d%d' % (min(i, j), max(i, j))))
            v.eq('%s: density' % tag, v.attr(r, 'density'), t.T(0) if 'density' in tag else t.mul(t.sym('rho'), 1000))
        v.paths(tag, run)
    head = [g[0], grp, g[1], cell('rho'), g[2], opt]
    for tag, pieces in (('other output', [g[0], done, g[1], good]), ('unfinished', head + [g[3], good]), ('empty', [g[0]])):
        output(v, 'out', MARKS, pieces)
        v.paths(tag, lambda: (nonneg(v), no_result(v, tag, CR)))
    for i in range(6):
        for j in sorted({i, 5}):
            output(v, 'out', MARKS, head + [g[5], done, g[6], crystal_block((i, j)), g[7]])
            v.paths('overflown value', lambda: (nonneg(v), no_result(v, 'value %d,%d is not a number' % (i + 1, j + 1), CR)))
