"""Random result files exported through the real commands, the tables read back token by token."""
import os
import builtins
import numpy as np
E_, V_ = '%.12E', '%.8f'
DESC = {'Uzp': ('Zero-point energy', E_), 'Uth': ('Thermal energy', E_), 'Utot': ('Internal energy', E_), 'S': ('Entropy', E_),
        'Fvib': ('Vibrational Helmholtz free energy', E_), 'F': ('Helmholtz free energy', E_), 'Cv': ('Isochoric heat capacity', E_)}
HA = dict(DESC, U0=('Static energy', E_))
QHA = dict(DESC, VT=('Unit cell volume', V_), Cp=('Isobaric heat capacity', E_), KT=('Isothermal bulk modulus', V_), KS=('Adiabatic bulk modulus', V_),
           Kp=('First-derivative of bulk modulus', V_), alphaV=('Volumetric coefficient of thermal expansion', E_), H=('Enthalpy', E_),
           G=('Gibbs free energy', E_), gruneisen=('Gruneisen parameters', E_))
QHA['Cp-Cv'] = ('Correction for isobaric heat capacity', E_)
SOEC = {'E': ("Young's modulus", 1, 'GPa'), 'LC': ('Linear compressibility', 2, 'TPa^-1'), 'G': ('Shear modulus', 2, 'GPa'),
        'Nu': ("Poisson's ratio", 3, ''), 'waves': ('Seismic wave velocities', 3, 'km s^-1')}
DIMLESS = ('Kp', 'gruneisen')


def stored(rng, kind):
    nT, nC = int(rng.integers(1, 25)), int(rng.integers(1, 25))
    eu, lu, pu, tu = rng.choice(['Ha', 'eV', 'Ry']), rng.choice(['A', 'bohr']), rng.choice(['GPa', 'kbar']), rng.choice(['K', 'C'])
    table, other = (HA, 'V') if kind == 'HA' else (QHA, 'P')
    def val(*sh):
        x = rng.normal(size=sh) * 10. ** rng.integers(-9, 5, sh)
        return np.where(rng.random(sh) < .2, rng.choice([0., 1., -1., 1e99, -1e-120, np.nan, 1e9], sh), x)
    grid = lambda n: np.cumsum(rng.uniform(.1, 30, n)) if rng.random() < .4 else np.arange(n) * 10. + rng.choice([0., -20., 298.15, .125])
    d = {'T': (grid(nT), tu, 'Temperature'),
         other: (grid(nC), lu if other == 'V' else pu, 'Unit cell volume' if other == 'V' else 'Pressure')}
    for k in table:
        u = '' if k in DIMLESS else pu if k in ('KT', 'KS') else lu if k == 'VT' else 'K^-1' if k == 'alphaV' else ('m' if k in ('S', 'Cv', 'Cp', 'Cp-Cv') else '') + eu
        d[k] = (val(nC) if k == 'U0' else val(1, nC) if k == 'Uzp' and kind == 'HA' else val(nT, nC), u, table[k][0])
    return d, table, other


def save(fn, d, info):
    import h5py
    with h5py.File(fn, 'w') as f:
        if info is not None: f.attrs['info'] = info
        for k, (a, u, desc) in d.items():
            x = f.create_dataset(k, data=a)
            x.attrs['unit'] = str(u)
            if desc is not None: x.attrs['desc'] = desc


def rows(fn):
    with open(fn, encoding='utf8') as f: ls = f.read().split('\n')
    ls = [l for l in ls if l.strip() and l.strip('+-= ')]
    return ls


def numeric(l):
    try: return [float(x) for x in l.split()] or None
    except ValueError: return None


def check(h, cur, fn, d, other, k, desc, digits):
    if not h.record('table written', cur, os.path.isfile(fn), fn): return
    ls = rows(fn)
    i = next((j for j, l in enumerate(ls) if numeric(l) is not None), len(ls))
    head = ls[:i]
    unit = d[k][1]
    h.record('quantity named', cur, desc in [l.strip() for l in head], desc, head)
    if unit: h.record('unit of the values', cur, 'Data in %s units' % unit in [l.strip() for l in head], unit, head)
    h.record('coordinates with units', cur, any('(%s)' % d['T'][1] in l and d[other][1] in l.split('(')[-1] for l in head), [d['T'][1], d[other][1]], head)
    X, Y, Z = d['T'][0], d[other][0], np.broadcast_to(d[k][0], (len(d['T'][0]), len(d[other][0])))
    want = [[V_ % y for y in Y]] + [['%.2f' % x] + [digits % z for z in r] for x, r in zip(X, Z)]
    got = [l.split() for l in ls[i:]]
    h.record('cells', cur, got == want, want, got)


def session(h, cmd, fn, picks, existing=(), consent='y'):
    """answers: an unknown name first; every existing file asks"""
    from click.testing import CliRunner
    text = 'no_such_quantity\n'
    for n, k in enumerate(picks):
        text += k + '\n'
        if k in existing: text += consent + '\n' + ('' if consent == 'y' else os.path.join(h.scratch, 'other_%s.dat' % k) + '\n')
        text += 'y\n' if n < len(picks) - 1 else 'n\n'
    r = CliRunner().invoke(cmd, [fn], input=text)
    if r.exception is not None and not isinstance(r.exception, SystemExit): raise r.exception
    return r


def gridded(h, kind, mod, name):
    cmd = h.need(mod, name)
    rng = h.rng('C28' + kind)
    for it in range(h.n(25, 250)):
        d, table, other = stored(rng, kind)
        drop = [k for k in table if rng.random() < .15] if it % 3 == 0 else []
        for k in drop: d.pop(k)
        fn = os.path.join(h.scratch, '%s%d.hdf5' % (kind, it))
        save(fn, d, 'Results of a %s run' % kind)
        picks = [k for k in rng.permutation(sorted(d)) if k not in ('T', other)][:int(rng.integers(1, 6))]
        if not picks: continue
        existing = [k for k in picks if rng.random() < .3]
        for k in existing:
            with open(fn[:-5] + '_%s.dat' % k, 'w') as f: f.write('precious\n')
        consent = 'y' if it % 2 else 'n'
        h.current = cur = {'kind': kind, 'picks': picks, 'rows': len(d['T'][0]), 'columns': len(d[other][0]), 'existing': existing, 'consent': consent, 'data': {k: d[k][0] for k in picks}}
        r = session(h, cmd, fn, picks, existing, consent)
        if not h.record('command succeeds', cur, r.exit_code == 0, 0, [r.exit_code, r.output[-300:]]): continue
        for k in picks:
            out = fn[:-5] + '_%s.dat' % k
            if k in existing and consent == 'n':
                h.record('kept', cur, open(out).read() == 'precious\n', 'precious', out)
                out = os.path.join(h.scratch, 'other_%s.dat' % k)
            check(h, dict(cur, quantity=k), out, d, other, k, *table[k])
            if os.path.exists(out): os.remove(out)
    for what, info, drop in (('not a Quantas file', None, []), ('no temperatures', 'x', ['T']), ('no second coordinate', 'x', ['V', 'P'])):
        d = stored(rng, kind)[0]
        for k in drop: d.pop(k, None)
        fn = os.path.join(h.scratch, 'bad%s.hdf5' % kind)
        save(fn, d, info)
        h.current = {'kind': kind, 'file': what}
        r = session(h, cmd, fn, ['F'])
        h.record('reported: %s' % what, h.current, 'does not' in r.output, 'a message', r.output[-300:])
        h.record('nothing exported: %s' % what, h.current, not os.path.exists(fn[:-5] + '_F.dat'))


def case_ha(h): gridded(h, 'HA', 'quantas.harmonic.commands.cmd_export', 'ha_export')
def case_qha(h): gridded(h, 'QHA', 'quantas.qha.commands.cmd_export', 'qha_export')


def case_soec(h):
    cmd = h.need('quantas.soec.commands.cmd_export', 'soec_export')
    rng = h.rng('C28s')
    for it in range(h.n(20, 200)):
        n = int(rng.integers(1, 40))
        have = [['E', 'LC', 'G', 'Nu', 'waves'], ['E', 'LC', 'G', 'Nu'], ['Nu'], ['E', 'G']][it % 4]
        ang = np.linspace(0, 360, n)
        d = {'stiffness': (rng.normal(size=(6, 6)), 'GPa', None), 'compliance': (rng.normal(size=(6, 6)), 'TPa^-1', None)}
        for k in have:
            for p in ('xy', 'xz', 'yz'): d['polar_%s_%s' % (k, p)] = (np.column_stack([ang, rng.normal(size=(n, SOEC[k][1])) * 10. ** rng.integers(-3, 4)]), SOEC[k][2], None)
        fn = os.path.join(h.scratch, 'el%d.hdf5' % it)
        save(fn, d, 'Elastic results')
        picks = list(rng.permutation(have))
        h.current = cur = {'picks': picks, 'rows': n, 'data': {k: d[k][0] for k in d if k.startswith('polar')}}
        r = session(h, cmd, fn, picks)
        if not h.record('command succeeds', cur, r.exit_code == 0, 0, [r.exit_code, r.output[-300:]]): continue
        for k in picks:
            out = fn[:-5] + '_%s.dat' % k
            if not h.record('table written', cur, os.path.isfile(out), out): continue
            ls = rows(out)
            i = next((j for j, l in enumerate(ls) if numeric(l) is not None), len(ls))
            head = [l.strip() for l in ls[:i]]
            h.record('property named', cur, SOEC[k][0] in head, SOEC[k][0], head)
            if SOEC[k][2]: h.record('unit of the values', cur, 'Data in %s units' % SOEC[k][2] in head, SOEC[k][2], head)
            h.record('planes in order', cur, any(l.split() == ['(xy)', '(xz)', '(yz)'] for l in head), None, head)
            want = [['%.1f' % a] + ['%.4f' % x for p in ('xy', 'xz', 'yz') for x in d['polar_%s_%s' % (k, p)][0][j, 1:]] for j, a in enumerate(ang)]
            h.record('cells', dict(cur, quantity=k), [l.split() for l in ls[i:]] == want, want, [l.split() for l in ls[i:]])
    for what, info, drop in (('not a Quantas file', None, []), ('not an elastic file', 'x', ['stiffness']), ('no polar data', 'x', ['polar_E_xy'])):
        d = {'stiffness': (np.eye(6), 'GPa', None), 'polar_E_xy': (np.ones((3, 2)), 'GPa', None)}
        for k in drop: d.pop(k)
        fn = os.path.join(h.scratch, 'badel.hdf5')
        save(fn, d, info)
        h.current = {'file': what}
        r = session(h, cmd, fn, ['E'])
        h.record('reported: %s' % what, h.current, r.exit_code == 0 and 'does not' in r.output and not os.path.exists(fn[:-5] + '_E.dat'), 'a message', r.output[-300:])


def case_console(h):
    K = h.need('quantas.IO.hdf5_export', 'QuantasHDF5Export')
    rng = h.rng('C28c')
    for it in range(h.n(20, 200)):
        kind = ['HA', 'QHA'][it % 2]
        d, table, other = stored(rng, kind)
        fn = os.path.join(h.scratch, 'con%d.hdf5' % it)
        save(fn, d, 'This file was created with Quantas.\n(%s) calculations\n' % kind)
        picks = [k for k in rng.permutation(sorted(d)) if k not in ('T', other)][:4]
        lines = ['Missing', 'help', 'T']
        for n, k in enumerate(picks): lines += [k, '', 'y' if n < len(picks) - 1 else '']
        h.current = cur = {'kind': kind, 'picks': picks, 'data': {k: d[k][0] for k in picks}}
        said, feed, old = [], iter(lines), (builtins.input, builtins.print)
        try:
            builtins.input = lambda *a: next(feed)
            builtins.print = lambda *a, **k: said.append(' '.join(map(str, a)))
            o = K()
            e = o.read_input(fn)
            o.run() if e is None else None
        finally:
            builtins.input, builtins.print = old
        h.record('file accepted', cur, e is None, None, e)
        h.record('missing quantity reported', cur, any('Missing' in x for x in said), 'a message', said[:5])
        for k in picks:
            desc = d[k][2]
            check(h, dict(cur, quantity=k), fn[:-5] + '_%s.dat' % k, d, other, k, desc, V_ if 'bulk modulus' in desc or desc == 'Unit cell volume' else E_)
