"""Result files written by real runs, read back: names, values, and units (values converted to SI by their labels)."""
import os
import numpy as np
from qha_np import *
from spec_np import osc, NA
import elastic_np as el
import ha_np
import soec_run
from C06 import make, kernels
KEYS = {'HA': ['Uzp', 'Uth', 'Utot', 'S', 'Fvib', 'F', 'Cv', 'T', 'V', 'U0'],
        'QHA': ['Uzp', 'Uth', 'Utot', 'S', 'Fvib', 'F', 'Cv', 'VT', 'Cp', 'Cp-Cv', 'KT', 'KS', 'Kp', 'H', 'G', 'alphaV', 'gruneisen', 'T', 'P']}


def text(x): return x.decode() if isinstance(x, bytes) else str(x)


def load(fn):
    import h5py
    with h5py.File(fn, 'r') as f:
        return ({k: np.array(f[k][()]) for k in f}, {k: text(f[k].attrs.get('unit', '?')) for k in f}, text(f.attrs.get('info', '')))


def factor(kind, label):
    """SI value of one labelled unit (energies per mole of cells in J, volumes in m^3)"""
    if kind == 'E':
        m = 1.
        if label not in EU and label.startswith('m'): m, label = 1e-3, label[1:]
        return m * EU[label] if label in EU else np.nan
    if kind == 'V': return LU[label] ** 3 if label in LU else np.nan
    if kind == 'P': return PU[label] if label in PU else np.nan
    return 1. if label == {'0': '', 'a': 'K^-1'}[kind] else np.nan


KIND = dict({k: 'E' for k in ('Uzp', 'Uth', 'Utot', 'S', 'Fvib', 'F', 'Cv', 'Cp', 'Cp-Cv', 'H', 'G', 'U0')}, V='V', VT='V', P='P', KT='P', KS='P', Kp='0', gruneisen='0', alphaV='a')


def si(d, u): return {k: d[k] * factor(KIND[k], u[k]) for k in d if k in KIND}


def compare(h, d, u, results, keys, info, s, job):
    h.record('datasets', h.current, set(d) == set(keys), sorted(keys), sorted(d))
    for k, x in results.items():
        if k in d: h.same('stored %s' % k, h.current, d[k], np.asarray(x))
    h.record('temperature unit', h.current, u.get('T') == s['temperature_unit'], s['temperature_unit'], u.get('T'))
    for x in (job, s['energy_unit'], s['lenght_unit'], s['frequency_unit'], s['temperature_unit']):
        h.record('description', h.current, x in info, x, info)


def case_ha(h):
    C = h.need('quantas.harmonic.harmonic', 'HACalculator')
    rng = h.rng('C27')
    for it in range(h.n(25, 250)):
        u = units(rng)
        d, V0, K0 = make(rng, u)
        d['job'] = 'harmonic run no %d' % rng.integers(1e6)
        if it % 3 == 0:          # the volumes of a harmonic input come in any order
            p = rng.permutation(len(d['volume']))
            d['volume'], d['energy'], d['frequency'] = d['volume'][p], d['energy'][p], d['frequency'][:, :, p]
        fn = os.path.join(h.scratch, 'ha%d.yaml' % it)
        with open(fn, 'w') as f: f.write(ha_np.text(d))
        t0 = (0. if u['temperature_unit'] == 'K' else -273.15) + 100.
        s = settings(**u)
        s['trange'] = (t0, t0 + 50. * int(rng.integers(0, 4)), 50.)
        h.current = dict(s, input=ha_np.text(d)[:3000])
        o = C(s)
        if not h.record('input accepted', h.current, o.read_input(fn) is None): continue
        o.run()
        out = os.path.join(h.scratch, 'ha%d.hdf5' % it)
        o.export_hdf5(out)
        r, un, info = load(out)
        compare(h, r, un, o.results, KEYS['HA'], info, s, d['job'])
        if not set(KEYS['HA']) <= set(r): continue
        h.same('T', h.current, r['T'], np.asarray(o.temperature))
        h.close('V', h.current, r['V'] * factor('V', un['V']), d['volume'] * LU[u['lenght_unit']] ** 3, 1e-12)
        h.close('U0', h.current, r['U0'] * factor('E', un['U0']), d['energy'] * EU[u['energy_unit']], 1e-12)
        T = r['T'] + (273.15 if un['T'] == 'C' else 0.)
        w = d['weight'] / np.sum(d['weight'])
        ref = kernels(d, T, d['frequency'] * FU[u['frequency_unit']], w)
        q = si(r, un)
        for k, x in ref.items():
            x = x / NA if k in ('S', 'Cv') else x * 1000 / NA
            h.close('%s in SI units' % k, h.current, q[k], x, 2e-6, np.max(np.abs(x)) * 1e-7)
        h.close('Utot in SI units', h.current, q['Utot'], d['energy'] * EU[u['energy_unit']] + q['Uzp'] + q['Uth'], 1e-9)
        h.close('F in SI units', h.current, q['F'], d['energy'] * EU[u['energy_unit']] + q['Fvib'], 1e-9)


def case_qha(h):
    C = h.need('quantas.qha.qha', 'QHACalculator')
    rng = h.rng('C27q')
    for it in range(h.n(16, 200)):
        u = units(rng)
        d, V0, K0 = make(rng, u)
        d['job'] = 'quasi-harmonic run no %d' % rng.integers(1e6)
        fn = os.path.join(h.scratch, 'q%d.yaml' % it)
        with open(fn, 'w') as f: f.write(ha_np.text(d))
        n = int(rng.integers(50, 54)) if it % 2 else int(rng.integers(1, 4))
        t0 = (0. if u['temperature_unit'] == 'K' else -273.15) + 150.
        p1 = 1. if u['pressure_unit'] == 'GPa' else 10.
        npr = int(rng.integers(1, 4))
        s = settings(**u)
        s.update(qha_scheme=['td', 'freq'][it // 2 % 2], minimization=['poly', 'eos'][it // 4 % 2], trange=(t0, t0 + (n - 1) * 8., 8.), prange=(0., (npr - 1) * p1, p1))
        h.current = dict(s, input=ha_np.text(d)[:3000])
        o = C(s)
        if not h.record('input accepted', h.current, o.read_input(fn) is None): continue
        o.run()
        if not o.completed: continue
        out = os.path.join(h.scratch, 'q%d.hdf5' % it)
        o.export_hdf5(out)
        r, un, info = load(out)
        compare(h, r, un, o.results, KEYS['QHA'], info, s, d['job'])
        if not set(KEYS['QHA']) <= set(r): continue
        h.same('T', h.current, r['T'], np.asarray(o.temperature))
        h.same('P', h.current, r['P'], np.asarray(o.pressure))
        q = si(r, un)
        T = (r['T'] + (273.15 if un['T'] == 'C' else 0.))[:, None]
        P, V = q['P'][None, :], q['VT']
        big = lambda *a: max(float(np.max(np.abs(x))) for x in a)
        h.close('volume in SI units', h.current, bool(np.all((V > .8 * V0 * LU[u['lenght_unit']] ** 3) & (V < 1.2 * V0 * LU[u['lenght_unit']] ** 3))), True, 0)
        k0 = K0 * EU[u['energy_unit']] / LU[u['lenght_unit']] ** 3
        h.close('bulk modulus in SI units', h.current, bool(np.all((q['KT'] > .2 * k0) & (q['KT'] < 5 * k0))), True, 0)
        h.close('H = U + PV', h.current, q['H'] - q['Utot'], P * V, 1e-6, 1e-7 * big(q['Utot']))
        h.close('G = F + PV', h.current, q['G'] - q['F'], P * V, 1e-6, 1e-7 * big(q['F']))
        vib = big(q['Fvib'], q['Uth'])
        h.close('Fvib = Uzp + Uth - TS', h.current, q['Fvib'], q['Uzp'] + q['Uth'] - T * q['S'], 1e-4, 1e-4 * vib)
        h.close('Cp = Cv + (Cp - Cv)', h.current, q['Cp'], q['Cv'] + q['Cp-Cv'], 1e-9) if n >= 50 else None
        if n >= 50 and np.all(q['Cv'] > 0):
            h.close('Cp - Cv = alpha^2 K V T', h.current, q['Cp-Cv'], q['alphaV'] ** 2 * q['KT'] * V * T, 1e-5, 1e-7 * big(q['Cv']))
            h.close('gruneisen = alpha K V / Cv', h.current, q['gruneisen'], q['alphaV'] * q['KT'] * V / q['Cv'], 1e-5)
            h.close('KS / KT = Cp / Cv', h.current, q['KS'] / q['KT'], q['Cp'] / q['Cv'], 1e-5)


def case_soec(h):
    rng = h.rng('C27s')
    SI = {'GPa': 1e9, 'TPa^-1': 1e-12, 'GPa^-1': 1e-9, 'km s^-1': 1e3, '': 1.}
    for it in range(h.n(6, 40)):
        C = np.round(el.spd(rng, 100., rng.choice(el.CLASSES)), 9)
        rho = 0. if it % 3 == 1 else round(float(rng.uniform(1000, 8000)), 3)
        polar = it % 3 != 2
        h.current = {'C': C, 'density': rho, 'polar': polar}
        c, err = soec_run.calculator(h, C, rho if rho else None, polar=polar)
        if not h.record('input accepted', h.current, err is None, None, err): continue
        avg = np.asarray(c.soec.averages())
        c.results['avgs'], c.results['eigv'] = avg, sorted(np.linalg.eigvalsh(C))
        nr = int(rng.integers(20, 40))
        if polar: c.calculate_polar_properties(nrad=nr)
        out = os.path.join(h.scratch, 's%d.hdf5' % it)
        c.export_hdf5(out)
        r, un, info = load(out)
        have = [] if not polar else ['E', 'LC', 'G', 'Nu'] + (['waves'] if rho else [])
        names = ['stiffness', 'compliance', 'averages', 'eigenvals'] + ['polar_%s_%s' % (x, p) for x in have for p in ('xy', 'xz', 'yz')]
        if not h.record('datasets', h.current, set(r) == set(names), sorted(names), sorted(r)): continue
        f = {k: SI.get(un[k], np.nan) for k in r}
        h.close('stiffness', h.current, r['stiffness'] * f['stiffness'], C * 1e9, 1e-12, 1e-3)
        h.close('compliance in SI units', h.current, r['compliance'] * f['compliance'], np.linalg.inv(C * 1e9), 1e-8, 1e-22)
        h.same('averages', h.current, r['averages'], avg)
        h.close('eigenvalues', h.current, r['eigenvals'] * f['eigenvals'], np.sort(np.linalg.eigvalsh(C)) * 1e9, 1e-9)
        s4, c4 = el.S4(np.linalg.inv(C * 1e9)), el.C4(C * 1e9)
        for p in ('xy', 'xz', 'yz') if polar else ():
            for i in rng.integers(0, nr, 6):
                a = np.radians(r['polar_E_' + p][i, 0])
                n = {'xy': np.array([np.cos(a), np.sin(a), 0]), 'xz': np.array([np.sin(a), 0, np.cos(a)]), 'yz': np.array([0, np.sin(a), np.cos(a)])}[p]
                cur = dict(h.current, plane=p, angle=float(a))
                k = lambda x: 'polar_%s_%s' % (x, p)
                g = {x: r[k(x)][i, 1:] * f[k(x)] for x in have}
                for x in have: h.close('angle', cur, r[k(x)][i, 0], i * 360 / (nr - 1), 1e-9)
                h.close("Young's modulus", cur, g['E'], [1 / np.einsum('ijkl,i,j,k,l', s4, n, n, n, n)], 1e-7)
                b = np.einsum('ijkk,i,j', s4, n, n)
                h.close('linear compressibility', cur, g['LC'], [max(b, 0), max(-b, 0)], 1e-6, 1e-18)
                if rho: h.close('velocities', cur, g['waves'], np.sqrt(np.linalg.eigvalsh(np.einsum('ijkl,j,k->il', c4, n, n)) / rho), 1e-6)
                x = np.linspace(0, np.pi, 721)
                e1 = np.array([-n[1], n[0], 0]) if abs(n[2]) < .9 else np.array([0, -n[2], n[1]])
                e1 = e1 / np.linalg.norm(e1)
                B = np.cos(x)[:, None] * e1 + np.sin(x)[:, None] * np.cross(n, e1)
                G = 1 / (4 * np.einsum('ijkl,i,aj,k,al->a', s4, n, B, n, B))
                h.close('shear modulus', cur, [min(g['G']), max(g['G'])], [G.min(), G.max()], 0, .02 * G.max())
                nu = -np.einsum('ijkl,i,j,ak,al->a', s4, n, n, B, B) / np.einsum('ijkl,i,j,k,l', s4, n, n, n, n)
                h.close("Poisson's ratio: largest", cur, g['Nu'][2], nu.max(), 0, .02)
