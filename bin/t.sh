#!/bin/sh
# t.sh NAME [runs] [extra]: quick development run of a scenario with equally named driver
n=$1; r=${2:-20000}; shift; shift
python3 /verif/bin/try.py $n ${DRV:-$n.c} $n.c --seed ${SEED:-1} --runs $r --jobs 8 --prop X --out /tmp/o/$n.json --replay-out /tmp/o/$n.replay "$@" && python3 -c "
import json;r=json.load(open('/tmp/o/$n.json'))
for k in ('runs','runs_with_faults','distinct','max_steps','sim_seconds','wall_s','rc','verdict','faults','probes'): print(k, r.get(k))
for s in r['samples'][:2]: print(s)"
