#!/usr/bin/env python3
"""camp.py N SEED [FILE-PREFIX...]: development aid. N random mutants of the files the properties are anchored in,
each judged by the checks of those properties; prints the survivors."""
import os, sys, re, random, subprocess, shutil, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
R = os.environ.get('CAMP_SRC', '/repo')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N, seed, pre = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
W = int(os.environ.get('CAMP_WORKERS', '4')); DIV = os.environ.get('CAMP_DIV', '3')
files = {}
for p in PROPS:
    for f in p['anchors']['files'] if isinstance(p['anchors'], dict) else [a['file'] for a in p['anchors']]:
        if os.environ.get('CAMP_PROPS') and p['id'] not in os.environ['CAMP_PROPS'].split(','): continue
        if os.path.isfile(R + '/' + f): files.setdefault(f, set()).add(p['id'])
names = [f for f in sorted(files) if not pre or any(f.startswith(x) for x in pre)]
rnd = random.Random(seed)

def code_lines(f, s):
    out = []
    for i, l in enumerate(s):
        t = l.strip()
        if not t or t.startswith(('//', '/*', '*', '#', 'use ', 'import', 'pub typedef', 'typedef', 'assert', 'panic')): continue
        if f.endswith('.rs') and '#[cfg(test)]' in l: break
        out.append(i)
    return out

OPS = [(r'(?<![<>=!-])<(?![<=])', '<='), (r'<=', '<'), (r'(?<![->=])>(?![>=])', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='),
       (r'&&', '||'), (r'\|\|', '&&'), (r'(?<= )\+(?= )', '-'), (r'(?<= )-(?= )', '+'), (r'\+\+', '--'), (r'\+=', '-='), (r'-=', '+='),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bbreak;', ';'), (r'\bcontinue;', 'break;'),
       (r'if \((.*)\) ([{r])', r'if (!(\1)) \2'), (r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1)),
       (r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(max(0, int(m.group(1)) - 1)))]

def mutate(f):
    s = open(R + '/' + f).read().split('\n')
    cl = code_lines(f, s)
    for _ in range(200):
        i = rnd.choice(cl); l = s[i]; k = rnd.randrange(len(OPS) + 5)
        if k >= len(OPS):
            t = l.strip()
            if k < len(OPS) + 4:  # a statement is lost
                if not t.endswith(';') or re.match(r'(const |pub |static |let |return|\w+[\w.]* \*?\w+( =|;|\[)|\w+\.t )', t): continue
                n = ''
            else:  # two statements change places
                if i + 1 >= len(s): continue
                u = s[i + 1]
                if not t.endswith(';') or not u.strip().endswith(';') or u.strip().startswith(('return', '}')) or t == u.strip() or re.match(r'(const )?[\w.]+ \**\w+[^=()]*;', t) and re.match(r'(const )?[\w.]+ \**\w+[^=()]*;', u.strip()): continue
                m = list(s); m[i], m[i + 1] = u, l
                return i, l.strip() + ' <-> ' + u.strip(), '\n'.join(m)
        else:
            pat, rep = OPS[k]
            ms = list(re.finditer(pat, l))
            if not ms: continue
            m_ = rnd.choice(ms); n = l[:m_.start()] + (m_.expand(rep) if isinstance(rep, str) else rep(m_)) + l[m_.end():]
            if n == l or re.search(r'"[^"]*$', l[:m_.start()]) and rnd.random() < .8: continue
        m = list(s); m[i] = n
        return i, l.strip() + '  ->  ' + n.strip(), '\n'.join(m)

# weight by size, so that every line has the same chance
sizes = [len(code_lines(f, open(R + '/' + f).read().split('\n'))) ** .8 for f in names]
jobs, seen = [], set()
while len(jobs) < N:
    f = rnd.choices(names, sizes)[0]
    r = mutate(f)
    if r and (f, r[0], r[1]) not in seen: seen.add((f, r[0], r[1])); jobs.append((f,) + r)
lock = threading.Lock(); stat = {'killed': 0, 'stillborn': 0, 'survived': 0}
def work(w):
    D = '/tmp/camp/%d' % w
    shutil.rmtree(D, ignore_errors=True); os.makedirs(D + '/repo')
    subprocess.check_call('cd /repo && git ls-files > %s/list; cd %s && tar c -T %s/list | tar x -C %s/repo' % (D, R, D, D), shell=True)
    e = dict(os.environ, VERIF_REPO=D + '/repo', VERIF_BUILD=D + '/build', VERIF_REPLAYS=D + '/replays', VERIF_EVIDENCE=D + '/evidence', VERIF_JOBS=str(8 // W), VERIF_DIV=DIV)
    while True:
        with lock:
            if not jobs: break
            f, i, d, text = jobs.pop()
        p = D + '/repo/' + f; old = open(p).read()
        open(p, 'w').write(text)
        res = []; t = time.time()
        for q in sorted(files[f]):
            try:
                r = subprocess.run([sys.executable, V + '/bin/check.py', q, 'quick'], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                res.append((q, r.returncode))
                if r.returncode == 1: break
                if r.returncode != 0: res[-1] = (q, 'err ' + r.stdout.decode('utf8', 'replace').strip().split('\n')[-1][:150])
            except subprocess.TimeoutExpired: res.append((q, 'timeout'))
        open(p, 'w').write(old)
        kind = 'killed' if any(x == 1 for _, x in res) else 'stillborn' if any(x != 0 for _, x in res) else 'survived'
        with lock:
            stat[kind] += 1
            if kind != 'killed': print('%s %s:%d  %s   [%s] %.0f s' % (kind.upper(), f, i + 1, d, ' '.join('%s:%s' % x for x in res), time.time() - t))
            sys.stdout.flush()
ts = [threading.Thread(target=work, args=(w,)) for w in range(W)]
for t in ts: t.start()
for t in ts: t.join()
print(stat)
shutil.rmtree('/tmp/camp', ignore_errors=True)
