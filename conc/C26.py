import builtins
import os
import types
import numpy as np
import yaml

NAMES = ['MgO', 'calcite at 300 K', '2H-MoS2 bulk', '10 GPa', "Bob's run: #1", '-phase', '1 2 3 4 5 x', 'x 1 2', 'a,b\\c "d"', 'Unknown', "it's: a [test] - #1", 'yes or no', 'null', '- item {x}',
         'a: b', '%d {0} %s', "''", '@`|>&*!?', 'α-SiO2 – 300 K', 'nothing', 'e', '3C SiC', 'name with      many blanks', '#', '---', 'x' * 150]


def half(d): return .5000001 * 10. ** -d


def case_soec(h):
    rng = h.rng('C26s')
    W, R = h.need('quantas.IO.soec_writer', 'SOECInputCreator'), h.need('quantas.IO.soec_reader', 'SOECInputFileReader')
    p = os.path.join(h.scratch, 'out.dat')
    for n in range(h.n(120, 1500)):
        A = rng.normal(size=(6, 6)) * 10. ** rng.integers(-3, 5)
        if rng.random() < .3: A[rng.random((6, 6)) < .4] = 0.
        A = A + A.T
        if rng.random() < .2: A *= 0
        rho = float(rng.uniform(0, 10. ** rng.integers(1, 6)))
        job = NAMES[int(rng.integers(len(NAMES)))]
        h.current = dict(stiffness=A, density=rho, job=job)
        w = W('vasp' if n % 2 else 'crystal')
        w.soec_data = types.SimpleNamespace(stiffness=A.copy(), density=rho)
        if job == 'Unknown': w.write(p)
        else: w.write(p, job)
        r = R(p)
        h.record('read back', h.current, r.completed is True and r.error is None, True, r.error)
        h.record('job name', h.current, r.jobname == job, job, r.jobname)
        h.close('matrix to four decimals', h.current, r.stiffness, A, 1e-14, half(4))
        h.close('density to one decimal', h.current, r.density, rho, 1e-14, half(1))
    h.current = None


def write(g, job, *a):
    keep = builtins.input
    builtins.input = lambda *x: job
    try: g.write(*a)
    finally: builtins.input = keep


def compare(h, p, job, nat, nq, nv, V, E, w, F, Q, D):
    r = h.need('quantas.IO.qha_reader', 'QHAInputFileReader')(p)
    h.record('read back', h.current, r.completed is True and r.error is None, True, r.error)
    h.record('job name', h.current, r.jobname == job.rstrip(), job, r.jobname)
    h.record('number of atoms', h.current, int(r.natoms) == nat, nat, r.natoms)
    h.record('number of q-points', h.current, int(r.qpoints) == nq, nq, r.qpoints)
    h.close('volumes', h.current, np.ravel(r.volume), V, 1e-14, half(8))
    h.close('energies', h.current, np.ravel(r.energy), E, half(12))
    h.close('weights', h.current, r.weights, w, 0)
    h.record('frequencies: shape', h.current, np.shape(r.frequencies) == F.shape, F.shape, np.shape(r.frequencies))
    h.close('frequencies', h.current, r.frequencies, F, 1e-14, half(10))
    doc = yaml.safe_load(open(p, encoding='utf-8'))
    h.close('q-points', h.current, np.array([x['q-position'] for x in doc['phonon']], float), Q, 1e-14, half(7))
    h.close('supercell', h.current, np.array(doc['supercell'], float), D, 0)
    h.record('kpoints', h.current, abs(r.kpoints) == abs(round(np.linalg.det(D))), round(np.linalg.det(D)), r.kpoints)


def data(rng, nq, nat, nv):
    nb = 3 * nat
    V = np.sort(rng.uniform(5, 10. ** rng.integers(1, 5), nv))
    E = rng.normal(size=nv) * 10. ** rng.integers(-1, 6)
    F = rng.uniform(-20, 4000, (nq, nb, nv))
    w = rng.integers(1, 200000, nq)
    s = rng.integers(1, 12, 3)
    Q = rng.integers(-12, 13, (nq, 3)).astype(float)
    D = rng.integers(-3, 4, (3, 3)) if rng.random() < .3 else np.diag(rng.integers(1, 5, 3))
    return nb, V, E, F, w, s, Q, D


def case_phonons(h):
    rng = h.rng('C26q')
    G = h.need('quantas.IO.qha_writer', 'QHAInputCreator')
    p = os.path.join(h.scratch, 'out.yaml')
    N = types.SimpleNamespace
    for n in range(h.n(60, 600)):
        nq, nat, nv = int(rng.integers(1, 6)), int(rng.integers(1, 4)), int(rng.integers(1, 13))
        if n == 0: nq, nat, nv = 25, 12, 3
        job = NAMES[int(rng.integers(len(NAMES)))] if n % 4 else ['2024', '', '1e5', ' x '.rstrip(), 'true'][int(rng.integers(5))]
        nb, V, E, F, w, s, Q, D = data(rng, nq, nat, nv)
        if n % 3:
            ref = int(rng.integers(nv))
            other = [data(rng, nq, nat, nv) for _ in range(nv)]
            fs = [N(natom=nat, nphonon=nb, qpoints=nq, volume=V[k], energy=E[k], phonons=F[:, :, k].copy(), qcoords=Q if k == ref else other[k][6],
                    shrinkf=s if k == ref else other[k][5], weights=w if k == ref else other[k][4], dim=D if k == ref else other[k][7]) for k in range(nv)]
            h.current = dict(nq=nq, nat=nat, nv=nv, ref=ref, job=job, volume=V, energy=E, weights=w, shrink=s, q=Q, dim=D)
            g = G('crystal' if n % 2 else 'phonopy')
            g.phondata = fs
            write(g, job, p, ref)
        else:
            h.current = dict(nq=nq, nat=nat, nv=nv, job=job, volume=V, energy=E, weights=w, shrink=s, q=Q, dim=D)
            g = G('crystal-qha')
            g.phondata = N(natom=nat, nphonon=nb, qpoints=nq, points=nv, volume=V, energy=E, phonons=F, qcoords=Q, shrinkf=s, weights=w, dim=D)
            write(g, job, p)
        compare(h, p, job, nat, nq, nv, V, E, w, F, Q / s, D)
    h.current = None


def case_commands(h):
    """the same through the command line: only the file reader of the ab initio code is replaced"""
    from click.testing import CliRunner
    rng = h.rng('C26c')
    import importlib
    N = types.SimpleNamespace
    sw, qw = h.need('quantas.IO.soec_writer', 'SOECInputCreator'), h.need('quantas.IO.qha_writer', 'QHAInputCreator')
    sc = importlib.import_module('quantas.soec.commands.cmd_inpgen').soec_inpgen
    hc = importlib.import_module('quantas.harmonic.commands.cmd_inpgen').ha_inpgen
    R = h.need('quantas.IO.soec_reader', 'SOECInputFileReader')
    keep = dict(sw.interface_filter), dict(qw.interface_filter)
    try:
        for n in range(h.n(10, 60)):
            base = os.path.join(h.scratch, 'run%d' % n)
            A = rng.normal(size=(6, 6)) * 100
            A, rho, job = A + A.T, float(rng.uniform(100, 9000)), NAMES[int(rng.integers(len(NAMES)))]
            src = base + '.out'
            with open(src, 'w') as f: f.write('x\n')
            h.current = dict(stiffness=A, density=rho, job=job)
            for k in sw.interface_filter: sw.interface_filter[k] = lambda f: N(completed=True, error=None, stiffness=A, density=rho)
            CliRunner().invoke(sc, [src, '-o', base], input=job + '\n', catch_exceptions=False)
            r = R(base + '.dat')
            h.record('command: read back', h.current, r.completed is True, True, r.error)
            h.record('command: job name', h.current, r.jobname == job, job, r.jobname)
            h.close('command: matrix', h.current, r.stiffness, A, 1e-14, half(4))
            h.close('command: density', h.current, r.density, rho, 1e-14, half(1))
            nq, nat, nv = int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(1, 6))
            sets = [data(rng, nq, nat, 1) for _ in range(nv)]
            names = ['%s_%d.out' % (base, k) for k in range(nv)]
            for f in names:
                with open(f, 'w') as g: g.write('x\n')
            order = [names[i] for i in rng.permutation(nv)]
            made = {f: N(completed=True, error=None, natom=nat, nphonon=d[0], qpoints=nq, volume=d[1][0], energy=d[2][0], phonons=d[3][:, :, 0], weights=d[4], shrinkf=d[5], qcoords=d[6], dim=d[7])
                    for f, d in zip(names, sets)}
            ref = int(rng.integers(nv))
            h.current = dict(files=order, nq=nq, nat=nat, ref=ref, job=job, data=[sets[names.index(f)][1:4] for f in order])
            for k in qw.interface_filter: qw.interface_filter[k] = lambda f: made[f]
            lst = base + '.txt'
            with open(lst, 'w') as f: f.write('\n'.join(order) + ('\n' if n % 2 else ''))
            out = CliRunner().invoke(hc, [lst, '-o', base, '-l', '-r', str(ref), '-i', 'phonopy' if n % 2 else 'crystal'], input=job + '\n', catch_exceptions=False)
            o = [made[f] for f in order]
            compare(h, base + '.yaml', job, nat, nq, nv, np.array([x.volume for x in o]), np.array([x.energy for x in o]), o[ref].weights,
                    np.stack([x.phonons for x in o], axis=-1), o[ref].qcoords / o[ref].shrinkf, o[ref].dim)
    finally:
        sw.interface_filter.update(keep[0])
        qw.interface_filter.update(keep[1])
    h.current = None
