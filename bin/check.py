#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's working tree.

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Anything else: an error of the check itself."""
import os, sys, json, time, subprocess, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from registry import REGISTRY

def known(prop):
    """Violation classes recorded as known findings: 'property=<id> scenario=<s> class=<c> <text>'."""
    out = []
    p = os.path.join(vlib.VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('KNOWN-FINDING:') and ('property=%s ' % prop) in line:
                kv = dict(x.split('=', 1) for x in line.split() if '=' in x and x.split('=')[0] in ('property', 'scenario', 'class'))
                out.append((kv.get('scenario', ''), kv.get('class', ''), line))
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    spec = REGISTRY[prop]
    os.makedirs(vlib.REPLAYS, exist_ok=True)
    os.makedirs(vlib.EVIDENCE, exist_ok=True)
    che = vlib.build_che()
    kn = known(prop)
    results, violations, harness = [], [], []
    for sc in spec['scenarios']:
        runs = max(1, sc[tier] // int(os.environ.get('VERIF_DIV', '1')))  # VERIF_DIV: shorter runs during development
        replay = os.path.join(vlib.REPLAYS, '%s-%s.replay' % (prop, sc['name']))
        if os.path.exists(replay): os.unlink(replay)
        e = None
        if sc.get('engine') == 'driver':
            exe, info, e = vlib.build_driver(che, sc['name'], sc['scen'])
            out = os.path.join(vlib.BUILD, 'dsim', sc['name'] + '.json')
        else:
            exe, info = vlib.build_scenario(che, sc['name'], sc['driver'].replace('@REPO', vlib.REPO), sc['scen'], sc.get('defs', ()), sc.get('beside'))
            out = os.path.join(vlib.BUILD, 'scen', sc['name'], 'result.json')
        if os.path.exists(out): os.unlink(out)
        skip = ','.join([c for s, c, _ in kn if s in ('', sc['name'])] + list(sc.get('skip', ())))
        cmd = [exe, '--seed', str(seed), '--runs', str(runs), '--jobs', str(vlib.JOBS), '--prop', prop, '--out', out,
               '--replay-out', replay, '--det', str(sc.get('det', 25))]
        if skip: cmd += ['--skip', skip]
        if sc.get('only'): cmd += ['--only', ','.join(sc['only'])]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
        sys.stderr.write(p.stderr.decode('utf8', 'replace'))
        if p.returncode not in (0, 1) or not os.path.exists(out):
            harness.append('%s: exit %d %s' % (sc['name'], p.returncode, p.stderr.decode('utf8', 'replace')[-500:]))
            if not os.path.exists(out): continue
        r = json.load(open(out))
        r['info'] = info
        if r['rc'] == 1:
            # the replay file must reproduce the violation in a fresh process
            q = subprocess.run([exe, '--replay', replay], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
            sys.stderr.write(q.stdout.decode('utf8', 'replace'))
            if q.returncode != 1:
                harness.append('%s: the replay does not reproduce the violation' % sc['name'])
                r['rc'] = 2
        results.append(r)
        if r['rc'] == 1:
            violations.append((sc['name'], replay, r['verdict']))
        elif r['rc'] == 2:
            harness.append('%s: %s' % (sc['name'], r.get('verdict')))
    for s, c, line in kn:
        print(line)
    wall = time.time() - t0
    write_evidence(prop, tier, seed, spec, results, violations, wall)
    for name, replay, verdict in violations:
        print('%s: %s' % (name, verdict))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    if violations:
        return 1
    if harness:
        sys.stderr.write('harness error: ' + '\n'.join(harness) + '\n')
        return 2
    print('%s held: %d simulated runs, %.1f s' % (prop, sum(r['runs'] for r in results), wall))
    return 0

def write_evidence(prop, tier, seed, spec, results, violations, wall):
    runs = sum(r['runs'] for r in results)
    sw = sum(r['wall_s'] for r in results) or 1e-9
    faults = {}
    for r in results:
        for k, v in r['faults'].items():
            f = faults.setdefault(k, {'injected': 0, 'runs': 0})
            f['injected'] += v['injected']; f['runs'] += v['runs']
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': sum(r['distinct'] for r in results),
        'rule': '; '.join('%s: %s' % (r['scenario'], r['rule']) for r in results),
        'samples': [s for r in results for s in r['samples']][:12],
        'simulated_runs_per_hour': int(runs / sw * 3600),
        'seeds': 'one derived seed per run, VERIF_SEED=%d' % seed,
        'simulated_seconds': round(sum(r['sim_seconds'] for r in results), 3),
        'scheduler_steps': sum(r['steps'] for r in results),
        'faults_injected': faults,
        'runs_with_faults': sum(r['runs_with_faults'] for r in results),
        'per_scenario': [{k: r.get(k) for k in ('scenario', 'runs', 'distinct', 'steps', 'max_steps', 'sim_seconds', 'wall_s', 'probes', 'rc', 'verdict')} for r in results],
        'real_components': spec.get('real', ''),
        'stub_components': spec.get('stub', ''),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': spec.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(violations)}
    json.dump(ev, open(os.path.join(vlib.EVIDENCE, prop + '.json'), 'w'), indent=1)

if __name__ == '__main__':
    try:
        sys.exit(main())
    except vlib.HarnessError as e:
        sys.stderr.write('harness error: %s\n' % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
