import os
import numpy as np
from qha_np import EU, FU, units
from spec_np import osc, NA
import ha_np


def expected(d, Ta, eunit, funit, tunit):
    T = np.asarray(Ta, float) + (273.15 if tunit == 'C' else 0.)
    w = d['weight'] / np.sum(d['weight'])
    om = d['frequency'] * FU[funit]
    kj = 1000 / NA / EU[eunit]
    f = lambda k, T: kj * np.einsum('q,qbtv->tv', w, osc(k, T[None, None, :, None], om[:, :, None, :]))
    z = f('zpe', np.zeros(1))
    r = {'Uzp': z, 'Uth': f('eth', T), 'S': f('S', T), 'Cv': f('Cv', T), 'Fvib': f('F', T)}
    r['Utot'] = d['energy'] + z + r['Uth']
    r['F'] = d['energy'] + r['Fvib']
    return r


def case_run(h):
    C = h.need('quantas.harmonic.harmonic', 'HACalculator')
    rng = h.rng('C04')
    for it in range(h.n(60, 600)):
        u = units(rng)
        d = ha_np.rounded(ha_np.data(rng))
        if u['frequency_unit'] != 'cm^-1': d['frequency'] = d['frequency'] * (.03 if u['frequency_unit'] == 'THz' else 3e10)
        d = ha_np.rounded(d)
        fn = os.path.join(h.scratch, 'ha%d.yaml' % it)
        with open(fn, 'w') as f: f.write(ha_np.text(d))
        t0, dt, n = (0. if u['temperature_unit'] == 'K' else -273.15) + rng.choice([0., 100., 298.15]), float(rng.choice([10., 50., 25.5])), int(rng.integers(0, 6))
        s = dict(u, silent=True, debug=False, logfile=None, trange=(t0, t0 + n * dt, dt))
        h.current = dict(s, input=ha_np.text(d)[:3000])
        o = C(s)
        e = o.read_input(fn)
        if not h.record('input accepted', h.current, e is None, None, e): continue
        o.run()
        T = np.asarray(o.temperature)
        h.record('temperatures', h.current, len(T) >= n + 1 and np.allclose(T[:n + 1], t0 + dt * np.arange(n + 1), rtol=1e-12, atol=1e-9), (t0, dt, n), T)
        h.record('completed', h.current, o.completed is True)
        T = T[:n + 1]
        want = expected(d, T, u['energy_unit'], u['frequency_unit'], u['temperature_unit'])
        for k in want:
            got = np.asarray(o.results[k])
            got = got[:n + 1] if k != 'Uzp' else got
            h.close(k, h.current, got, want[k], 1e-7, 1e-13)


def case_command(h):
    """the command line: options reach the calculation"""
    from click.testing import CliRunner
    import h5py
    cmd = h.need('quantas.harmonic.commands.cmd_ha', 'ha_calculation')
    rng = h.rng('C04c')
    for it in range(h.n(8, 40)):
        u = units(rng)
        d = ha_np.rounded(ha_np.data(rng, 3))
        if u['frequency_unit'] != 'cm^-1': d['frequency'] = d['frequency'] * (.03 if u['frequency_unit'] == 'THz' else 3e10)
        d = ha_np.rounded(d)
        fn = os.path.join(h.scratch, 'hc%d.yaml' % it)
        with open(fn, 'w') as f: f.write(ha_np.text(d))
        out = os.path.join(h.scratch, 'hco%d' % it)
        args = [fn, '-o', out, '-T', '300', '900', '200', '--eunit', u['energy_unit'], '--vunit', u['lenght_unit'], '--funit', u['frequency_unit'].replace('^', ''), '--tunit', u['temperature_unit'], '-q']
        h.current = dict(args=args, input=ha_np.text(d)[:3000])
        r = CliRunner().invoke(cmd, args)
        if r.exception is not None and not isinstance(r.exception, SystemExit): raise r.exception
        if not h.record('command succeeds', h.current, r.exit_code == 0 and os.path.isfile(out + '.hdf5'), 0, [r.exit_code, r.output[-500:]]): continue
        want = expected(d, [300., 500., 700., 900.], u['energy_unit'], u['frequency_unit'], u['temperature_unit'])
        with h5py.File(out + '.hdf5', 'r') as f:
            for k in want: h.close('command ' + k, h.current, f[k][()][:4], want[k], 1e-7, 1e-13)
            h.close('command volumes', h.current, f['V'][()], d['volume'], 1e-13)
