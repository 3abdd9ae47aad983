#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--only UNIT] [--replay FILE] [--verbose]

Discharges the contracts of one property on the current source of /repo and cross-checks them on
the compiled code.  Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: machinery error."""
import argparse
import fnmatch
import hashlib
import json
import os
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--noconc', action='store_true')
    ap.add_argument('--verbose', '-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    pid = a.property
    from pyvc import vc
    if a.replay:
        h = vc.start_concrete(pid, a.tier, seed, os.path.abspath(a.replay))
        r = vc.finish_concrete(h, 600)
        print(json.dumps(r, indent=1)[:6000])
        return 1 if r['failures'] else 0
    t0 = time.time()
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        known = [k for k in json.load(f) if k['property'] == pid and k['status'] == 'known']
    conc = None if a.noconc else vc.start_concrete(pid, a.tier, seed)
    units = vc.run_units(pid, a.tier, a.only)
    res = vc.finish_concrete(conc, max(10, min(420, 820 - (time.time() - t0))) if a.tier == 'quick' else 3000)
    # ---- classify
    obs = [dict(o, unit=u['unit']) for u in units for o in u['obligations']]
    def is_known(name, field):
        for k in known:
            if any(fnmatch.fnmatchcase(name, p) for p in k.get(field, [])): return k
        return None
    hit = {}
    failed, undecided = [], []
    for o in obs:
        if o['ok']: continue
        k = is_known(o['unit'] + ' :: ' + o['name'], 'obligations')
        if k is not None:
            hit[k['id']] = k
            o['known'] = k['id']
        elif o.get('refuted') or o.get('z3_model'): failed.append(o)
        else: undecided.append(o)
    broken = [u for u in units if u['error']]
    internal = [u for u in broken if u['kind'] == 'internal']
    cfail = []
    for f in (res or {}).get('failures', []):
        k = is_known(f['case'], 'cases')
        if k is not None: hit[k['id']] = k
        else: cfail.append(f)
    for k in hit.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    proved = [o for o in obs if o['ok']]
    if a.verbose:
        for u in units:
            print('%-60s %4d obligations %7.1f s  %s' % (u['unit'], len(u['obligations']), u['s'], u['error'] or ''))
        for o in failed + undecided:
            print('FAILED %s :: %s [%s] %s\n     %s' % (o['unit'], o['name'], o['where'], o['why'][:700], o.get('refuted') or o.get('z3_model')))
        if res is not None:
            print('concrete: %d cases, %d failures, skipped %s, error %s' % (res['cases'], len(res['failures']), res.get('skipped'), res['error']))
            for f in res['failures'][:12]: print('   ', json.dumps(f)[:900])
    for x in (res or {}).get('skipped') or ():
        if 'harness' in x: print('concrete case not evaluated: ' + x[-300:].replace(chr(10), ' '))
    # ---- evidence
    by = {}
    for o in proved: by[o['backend']] = by.get(o['backend'], 0) + 1
    fns = sorted({f for u in units for f in u['functions']})
    trusted = sorted({x for u in units for x in u['trusted']})
    assum = sorted({x for u in units for x in u['assumptions']})
    full = [u['unit'] for u in units if not u['error'] and not u['bounded'] and all(o['ok'] or o.get('known') for o in u['obligations'])]
    bounded = [{'unit': u['unit'], 'why': u['error'] or u['bounded'] or 'obligation undecided'} for u in units if u['unit'] not in full]
    stats = {}
    for u in units:
        for k, x in u['stats'].items(): stats[k] = round(stats.get(k, 0) + x, 3)
    violated = bool(failed or cfail)
    ev = {
        'property': pid, 'tier': a.tier, 'seed': seed, 'level': LEVEL.get(pid, 'proof'), 'wall_s': round(time.time() - t0, 2),
        'violations': len(failed) + len(cfail),
        'coverage': {
            'obligations': len(obs), 'discharged': len(proved),
            'checker_cmd': 'python3-vt check.py %s --tier %s' % (pid, a.tier),
            'trusted_base': trusted + BASE,
            'units_proved': full, 'units_not_proved': bounded,
            'functions_under_contract': fns, 'callee_contracts_used': merge(units),
            'backends': by, 'solver': stats,
            'obligation_seconds': round(sum(o['s'] for o in obs), 2),
            'undecided': [o['unit'] + ' :: ' + o['name'] for o in undecided][:50],
            'known_findings': sorted(hit),
            'concrete_cross_check': None if res is None else {
                'label': 'bounded: contracts evaluated on the compiled code for sampled inputs; never counted as proved',
                'evaluations': res['cases'], 'by_case': res.get('by_case', {}), 'skipped': res.get('skipped', []), 'error': res['error'],
                'samples': res.get('samples', [])[:5]},
        },
        'assumptions': assum,
    }
    if ev['level'] != 'proof':
        ev['coverage'].update({'evaluations': (res or {}).get('cases', 0), 'distinct_nontrivial': (res or {}).get('distinct', 0),
                               'rule': 'see concrete_cross_check; bounded', 'samples': (res or {}).get('samples', [])[:5] or ['none'],
                               'explanation': 'contracts discharged deductively plus bounded stand-ins for the units listed under units_not_proved'})
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, sort_keys=True)
    # ---- verdict
    if violated:
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        body = {'property': pid, 'failing_inputs': cfail[:20], 'failed_obligations': failed[:40], 'undecided': undecided[:20],
                'seed': seed, 'tier': a.tier, 'replay_cmd': 'python3-vt check.py %s --replay <this file>' % pid if cfail else None}
        txt = json.dumps(body, indent=1)
        path = os.path.join(HERE, 'replay', '%s-%s.json' % (pid, hashlib.sha256(txt.encode()).hexdigest()[:10]))
        with open(path, 'w') as f: f.write(txt)
        for o in failed[:5]: print('failed obligation: %s :: %s [%s] %s' % (o['unit'], o['name'], o['where'], o['why'][:300]))
        for f in cfail[:3]: print('failing input: %s' % json.dumps(f)[:600])
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if cfail else ' no-failing-input-found'))
        return 1
    for u in broken: print('unit not decided by the verifier (bounded stand-in only): %s: %s' % (u['unit'], (u['error'] or '')[-300:]))
    for o in undecided[:10]: print('obligation undecided and not refuted (bounded stand-in only): %s :: %s' % (o['unit'], o['name']))
    if res is not None and res['error']: print('concrete cross-check incomplete: %s' % res['error'][-500:])
    if internal and (res is None or res['error']):
        return 2
    if not obs:
        print('no obligation was generated')
        return 2
    print('%s: %d/%d obligations discharged in %d units (%d functions entered), %s concrete evaluations, %.1f s' % (
        pid, len(proved), len(obs), len(units), len(fns), 'no' if res is None else res['cases'], time.time() - t0))
    return 0


def merge(units):
    d = {}
    for u in units:
        for k, n in u['contracts'].items(): d[k] = d.get(k, 0) + n
    return d


LEVEL = {}
BASE = ['pyvc (this VC generator, its Python/Cython/numpy semantics and loop-summary rules)',
        'machine floating point treated as exact real arithmetic', 'z3 4.x / cvc5 / the pyvc ring normaliser',
        'Cython: compiled extension behaves as its source']

if __name__ == '__main__':
    sys.exit(main())
