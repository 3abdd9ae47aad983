import os
import numpy as np
VOIGT = [0, 1, 2, 4, 5, 3]


def filler(rng, k=None):
    w = ['', ' some text 1.0 2.0', ' ELASTIC MODULI  (kBar)', ' ELASTIC MODULI CONTR FROM IONIC RELAXATION (kBar)', ' | 1.0 2.0 |', ' ELASTIC MODULI (COMPLIANCE TENSOR), IN TPa^-1',
         ' CRYSTALLOGRAPHIC CELL (VOLUME=  75.58744740)', ' GEOMETRY FOR WAVE FUNCTION - DIMENSIONALITY OF THE SYSTEM    3', ' BULK MODULUS 160.0 GPa', ' DENSITY 1.0 g/cm^3', 'XX 1 2 3 4 5 6']
    return [w[int(rng.integers(len(w)))] for _ in range(int(rng.integers(12)))]


def load(h, mod, cls, lines):
    p = os.path.join(h.scratch, 'out')
    with open(p, 'w') as f: f.write('\n'.join(lines) + '\n')
    return h.need(mod, cls)(p)


def vblock(rng, title, A):
    return [' ' + title, ' Direction    XX          YY          ZZ          XY          YZ          ZX', ' ' + '-' * 80] + \
        [' %-7s' % d + ''.join('%12.4f' % x for x in A[i]) for i, d in enumerate(('XX', 'YY', 'ZZ', 'XY', 'YZ', 'ZX'))] + [' ' + '-' * 80]


def sym(rng, s=1000.):
    A = rng.normal(size=(6, 6)) * s
    return np.round(A + A.T, 4)


def case_vasp(h):
    rng = h.rng('C24v')
    for _ in range(h.n(40, 400)):
        A, B, X = sym(rng), sym(rng), sym(rng)
        if rng.random() < .3: A, B = np.round(rng.normal(size=(6, 6)) * 1000, 4), np.round(rng.normal(size=(6, 6)) * 1000, 4)
        total = rng.random() < .6
        L = filler(rng) + vblock(rng, 'ELASTIC MODULI  (kBar)', X) + filler(rng) + vblock(rng, 'SYMMETRIZED ELASTIC MODULI (kBar)', A) + filler(rng)
        if total: L += vblock(rng, 'ELASTIC MODULI CONTR FROM IONIC RELAXATION (kBar)', X) + filler(rng) + vblock(rng, 'TOTAL ELASTIC MODULI (kBar)', B) + filler(rng)
        h.current = dict(text='\n'.join(L))
        r = load(h, 'quantas.interfaces.vasp', 'VASPSOECReader', L)
        M = B if total else A
        h.record('VASP read', h.current, r.completed is True, True, r.error)
        h.close('VASP matrix', h.current, r.stiffness, M[np.ix_(VOIGT, VOIGT)] / 10, 1e-13, 1e-13)
    L = filler(rng) + vblock(rng, 'ELASTIC MODULI  (kBar)', X)
    h.current = dict(text='\n'.join(L))
    r = load(h, 'quantas.interfaces.vasp', 'VASPSOECReader', L)
    h.record('VASP: no moduli', h.current, r.completed is False and isinstance(r.error, str))
    bad = vblock(rng, 'SYMMETRIZED ELASTIC MODULI (kBar)', A)
    bad[5] = bad[5][:-12] + '************'
    h.current = dict(text='\n'.join(bad))
    r = load(h, 'quantas.interfaces.vasp', 'VASPSOECReader', bad)
    h.record('VASP: overflown', h.current, r.completed is False and isinstance(r.error, str))


def cell(rho): return ' PRIMITIVE CELL - CENTRING CODE 5/0 VOLUME=    18.896862 - DENSITY %6.3f g/cm^3' % rho


def case_crystal(h):
    rng = h.rng('C24c')
    for _ in range(h.n(40, 400)):
        A = np.round(sym(rng, 100), 3)
        rho = round(float(rng.uniform(.5, 20)), 3)
        L = filler(rng)
        if rng.random() < .5: L += [cell(1.234)] + filler(rng)
        L += [' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP'] + filler(rng) + [cell(rho)] + filler(rng)
        if rng.random() < .5: L += [cell(2.345)] + filler(rng)
        if rng.random() < .3: L += [' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP', cell(3.456)]
        M = ['', ' SYMMETRIZED ELASTIC CONSTANTS FOR CUBIC        CASE, IN GPa', ''] + \
            [' |' + ' ' * (9 * i) + ''.join('%9.3f' % A[i, j] for j in range(i, 6)) + ' |' for i in range(6)] + ['']
        comp = [' ELASTIC MODULI (COMPLIANCE TENSOR), IN TPa^-1', ''] + [' |' + ' ' * (9 * i) + ''.join('%9.4f' % 1.5 for j in range(i, 6)) + ' |' for i in range(6)]
        opt, done = [' * ELASTCON OPTION, W.F. PERGER, B. CIVALLERI, R. DOVESI                *'], ['                           FINAL RESULTS START']
        full = L + opt + filler(rng) + done + filler(rng) + M + filler(rng) + comp + filler(rng)
        h.current = dict(text='\n'.join(full))
        r = load(h, 'quantas.interfaces.crystal', 'CrystalSOECReader', full)
        h.record('CRYSTAL read', h.current, r.completed is True, True, r.error)
        h.close('CRYSTAL matrix', h.current, r.stiffness, A, 1e-13, 1e-13)
        h.close('CRYSTAL density', h.current, r.density, rho * 1000, 1e-12)
    x = [cell(1.234)] + filler(rng) + (filler(rng) + [' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP'] if rng.random() < .5 else []) + opt + done + M
    h.current = dict(text='\n'.join(x))
    r = load(h, 'quantas.interfaces.crystal', 'CrystalSOECReader', x)
    h.record('CRYSTAL: density of another geometry', h.current, r.completed is True and r.density == 0, 0, r.density)
    for what, x in (('no option', L + done + M), ('unfinished', L + opt + M), ('empty', [])):
        h.current = dict(text='\n'.join(x))
        r = load(h, 'quantas.interfaces.crystal', 'CrystalSOECReader', x)
        h.record('CRYSTAL: ' + what, h.current, r.completed is False and isinstance(r.error, str))
    M[5] = ' |' + ' ' * 18 + '*********' * 4 + ' |'
    x = L + opt + done + M
    h.current = dict(text='\n'.join(x))
    r = load(h, 'quantas.interfaces.crystal', 'CrystalSOECReader', x)
    h.record('CRYSTAL: overflown', h.current, r.completed is False and isinstance(r.error, str))
