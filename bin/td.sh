#!/bin/bash
# td.sh NAME RUNS: development run of a scenario over che processes
cd /verif && python3 - "$@" <<'P'
import sys, os, json, subprocess
sys.path.insert(0, 'bin')
import vlib
n, runs = sys.argv[1:3]
che = vlib.build_che()
exe, info, e = vlib.build_driver(che, n, n + '.c')
json.dump(e, open('/tmp/o/td.env', 'w'))
p = subprocess.run([exe, '--seed', '1', '--runs', runs, '--jobs', '8', '--prop', 'X', '--out', '/tmp/o/%s.json' % n, '--replay-out', '/tmp/o/%s.replay' % n, '--det', '20'], env=e)
r = json.load(open('/tmp/o/%s.json' % n))
print('rc', p.returncode, 'runs', r['runs'], 'distinct', r['distinct'], 'wall', r['wall_s'], 'steps', r['steps'], 'max', r['max_steps'])
print('verdict', r['verdict']); print('faults', r['faults']); print('probes', r['probes'])
for s in r['samples']: print(s)
P
