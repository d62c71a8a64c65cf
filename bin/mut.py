#!/usr/bin/env python3
"""mut.py PROP[,PROP] PATCH...: development aid. Runs checks on a scratch copy of /repo with a patch applied.
A PATCH may also be 'file::old::new' (exact text replacement)."""
import os, sys, subprocess, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = sys.argv[1].split(',')
D = '/tmp/mut.%d' % os.getpid()
rc = 0
try:
    for patch in sys.argv[2:]:
        shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
        subprocess.check_call('cd /repo && git archive HEAD | tar x -C %s/ ' % D, shell=True)
        if '@@' in patch or '::' in patch:
            f, a, b = patch.split('@@' if '@@' in patch else '::')
            a = a.encode().decode('unicode_escape'); b = b.encode().decode('unicode_escape')
            s = open(D + '/' + f).read()
            if a not in s: print('NOT FOUND', patch); continue
            open(D + '/' + f, 'w').write(s.replace(a, b, 1))
        elif patch != '-':
            subprocess.check_call(['git', 'apply', '--directory=' , os.path.abspath(patch)], cwd=D) if False else subprocess.check_call(['patch', '-s', '-p1', '-i', os.path.abspath(patch)], cwd=D)
        e = dict(os.environ, VERIF_REPO=D, VERIF_BUILD='/tmp/mutbuild', VERIF_REPLAYS='/tmp/mutreplays', VERIF_EVIDENCE='/tmp/mutevidence')
        for p in props:
            t = time.time()
            r = subprocess.run([sys.executable, V + '/bin/check.py', p, 'quick'], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            print('%-60s %s exit %d (%.0f s)' % (patch[-60:], p, r.returncode, time.time() - t))
            o = r.stdout.decode('utf8', 'replace').strip().split('\n')
            for l in o[-3:]: print('    ' + l[:300])
            sys.stdout.flush()
finally:
    shutil.rmtree(D, ignore_errors=True)
