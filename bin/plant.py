#!/usr/bin/env python3
"""plant.py ID PROP NEEDS BREAKS file::old::new [file::old::new ...]: records a planted bug as seeded/ID and tests it.
With only an ID: re-tests (patch applies, builds, tests pass, demo 0/nonzero, the property's check reports it)."""
import os, sys, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
id = sys.argv[1]; D = V + '/seeded/' + id
W = '/tmp/plant.%d' % os.getpid()
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
try:
    if len(sys.argv) > 2:
        prop, needs, breaks = sys.argv[2:5]
        os.makedirs(W); sh('cd /repo && git archive HEAD | tar x -C %s && cd %s && git init -q && git add -A -f && git -c user.email=a -c user.name=a commit -qm a' % (W, W))
        for e in sys.argv[5:]:
            f, a, b = e.split('@@' if '@@' in e else '::')
            a = a.encode().decode('unicode_escape'); b = b.encode().decode('unicode_escape')
            s = open(W + '/' + f).read()
            assert a in s, 'not found: ' + a
            open(W + '/' + f, 'w').write(s.replace(a, b, 1))
        os.makedirs(D, exist_ok=True)
        open(D + '/patch.diff', 'wb').write(subprocess.check_output(['git', 'diff'], cwd=W))
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(D + '/meta.json', 'w'), indent=1)
        shutil.rmtree(W)
    meta = json.load(open(D + '/meta.json'))
    def demo():
        r = sh('timeout 300 bash %s/demo.sh' % D, cwd='/repo'); return r.returncode, r.stdout.decode('utf8', 'replace')[-400:]
    assert not sh('git -C /repo status --porcelain').stdout, 'dirty'
    if '-nb' not in sys.argv:
        sh('bash /opt/vp/build.sh')
    c = demo(); print('clean demo', c[0], c[1] if c[0] else '')
    r = sh('git -C /repo apply %s/patch.diff' % D); assert r.returncode == 0, r.stdout
    try:
        r = sh('bash /opt/vp/build.sh'); assert r.returncode == 0, r.stdout[-3000:]
        d = demo(); print('patched demo', d[0], d[1] if not d[0] else '')
        sh('bash /opt/vp/test.sh /tmp/o/plant.json')
        o = json.load(open('/tmp/o/plant.json')); base = json.load(open('/opt/vp/BASELINE.json'))
        miss = [t for t in base['stable'] if t not in o['passed']]
        print('tests missing', miss)
    finally:
        sh('git -C /repo checkout -- .'); 
    sh('cd /repo && git clean -fdq; bash /opt/vp/build.sh')
    ok = c[0] == 0 and d[0] != 0 and not miss
    print(id, 'COUNTS' if ok else 'DOES NOT COUNT'); sys.stdout.flush()
    subprocess.run([sys.executable, V + '/bin/mut.py', meta['property'], D + '/patch.diff'])
finally:
    shutil.rmtree(W, ignore_errors=True)
