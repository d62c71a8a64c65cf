# Shared machinery of the checks: building che from /repo, translating,
# compiling against the simulator, running batches, evidence.
import os, sys, subprocess, json, hashlib, shutil, time, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
SIM = os.path.join(VERIF, 'sim')
REPLAYS = os.environ.get('VERIF_REPLAYS', os.path.join(VERIF, 'replays'))
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

class HarnessError(Exception):
    pass

def env():
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    e['RUSTUP_TOOLCHAIN'] = e.get('RUSTUP_TOOLCHAIN', 'stable-x86_64-unknown-linux-gnu')
    e['HOME'] = '/root'
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['LANG'] = 'C.UTF-8'; e['LC_ALL'] = 'C.UTF-8'; e['TZ'] = 'UTC'
    e['CARGO_PROFILE_DEV_DEBUG'] = '0'
    e['RUSTC_WRAPPER'] = ''
    e['RUSTFLAGS'] = ''
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'target')
    return e

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise HarnessError('%s\n%s' % (' '.join(cmd), p.stdout.decode('utf8', 'replace')[-4000:]))
    return p.stdout

def build_che():
    os.makedirs(BUILD, exist_ok=True)
    run(['cargo', 'build', '--locked', '--offline', '--manifest-path', REPO + '/Cargo.toml'], env=env(), cwd=REPO)
    return os.path.join(BUILD, 'target', 'debug', 'che')

CFLAGS = ['-std=c99', '-O1', '-g', '-w', '-fno-pie', '-fno-builtin', '-fno-common', '-U_FORTIFY_SOURCE',
          '-fsanitize=thread', '-fstack-protector-all', '-fno-inline', '-fno-strict-aliasing', '-fwrapv']

def build_sim():
    """The simulator objects; independent of /repo."""
    d = os.path.join(BUILD, 'sim')
    os.makedirs(d, exist_ok=True)
    srcs = ['core.c', 'main.c', 'mem.c', 'fd.c', 'net.c', 'thr.c', 'sio.c']
    h = hashlib.sha256()
    for f in srcs + ['sim.h', 'int.h', 'runner.h', 'choice.inc', 'mkredirect.py']:
        h.update(open(os.path.join(SIM, f), 'rb').read())
    stamp = os.path.join(d, 'stamp')
    objs = [os.path.join(d, s[:-2] + '.o') for s in srcs]
    if os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return objs
    procs = [(s, subprocess.Popen(['gcc', '-std=gnu11', '-O2', '-g', '-Wall', '-Wextra', '-Wno-format-truncation', '-U_FORTIFY_SOURCE', '-fno-pie', '-fno-strict-aliasing',
              '-fno-builtin-log', '-c', os.path.join(SIM, s), '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for s, o in zip(srcs, objs)]
    for s, p in procs:
        out = p.communicate()[0].decode()
        if p.returncode: raise HarnessError('gcc %s: %s' % (s, out))
        if out: sys.stderr.write(out)
    open(os.path.join(d, 'redirect.txt'), 'wb').write(run([sys.executable, os.path.join(SIM, 'mkredirect.py')]))
    open(os.path.join(d, 'alias.txt'), 'wb').write(run([sys.executable, os.path.join(SIM, 'mkredirect.py'), 'alias']))
    open(stamp, 'w').write(h.hexdigest())
    return objs

def build_scenario(che, name, driver, scen, defs=(), beside=None):
    """Translates the driver with che, compiles it, redirects its libc calls to the simulator, links."""
    objs = build_sim()
    d = os.path.join(BUILD, 'scen', name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    e = env(); e['CHELANG_HOME'] = REPO
    src = os.path.join(REPO, driver[6:]) if driver.startswith('@REPO/') else driver if os.path.isabs(driver) else os.path.join(VERIF, 'drv', driver)
    if beside:
        # the driver is translated among the modules of a program
        sd = os.path.join(d, 'src')
        os.makedirs(sd)
        bd = os.path.join(REPO, beside)
        for f in sorted(os.listdir(bd)):
            if f.endswith('.c'): shutil.copy(os.path.join(bd, f), sd)
        shutil.copy(src, sd)
        src = os.path.join(sd, os.path.basename(src))
    gen = os.path.join(d, 'gen')
    # che names the generated files after the path it was given
    run([che, 'genc', src, gen], env=e, cwd=d)
    cs = sorted(f for f in os.listdir(gen) if f.endswith('.c'))
    if not cs: raise HarnessError('genc produced nothing for ' + src)
    procs = []
    for f in cs:
        o = os.path.join(gen, f[:-2] + '.o')
        procs.append((f, o, subprocess.Popen(['gcc'] + CFLAGS + list(defs) + ['-include', os.path.join(SIM, 'sim_app.h'), '-c', os.path.join(gen, f), '-o', o],
                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    so = os.path.join(d, 'scen.o')
    sp = subprocess.Popen(['gcc', '-std=gnu11', '-O2', '-g', '-Wall', '-Wextra', '-Wno-sign-compare', '-fno-pie', '-fno-strict-aliasing', '-c', os.path.join(VERIF, 'scen', scen), '-o', so],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    aobjs = []
    for f, o, p in procs:
        out = p.communicate()[0].decode('utf8', 'replace')
        if p.returncode: raise HarnessError('gcc %s (%s): %s' % (f, driver, out[-3000:]))
        aobjs.append(o)
    out = sp.communicate()[0].decode()
    if sp.returncode: raise HarnessError('gcc %s: %s' % (scen, out))
    if out: sys.stderr.write(out)
    ro = os.path.join(d, 'app.o')
    run(['ld', '-r', '-o', ro] + aobjs)
    # .data/.bss of the program become per-process images
    secs = run(['objdump', '-h', ro]).decode()
    if ' .data.rel' in secs:
        raise HarnessError('unexpected data sections')
    run(['objcopy', '--redefine-syms', os.path.join(BUILD, 'sim', 'redirect.txt'),
         '--rename-section', '.data=appdata,alloc,load,data,contents', '--rename-section', '.bss=appbss,alloc,load,data,contents',
         '--set-section-flags', '.bss=alloc,load,data,contents', ro])
    stub = os.path.join(d, 'stub.c')
    open(stub, 'w').write('char app_pad1 __attribute__((section("appdata"),aligned(16))) = 1; char app_pad2 __attribute__((section("appbss"),aligned(16))) = 0;\n')
    run(['gcc', '-fno-pie', '-c', stub, '-o', stub[:-2] + '.o'])
    exe = os.path.join(d, name)
    p = subprocess.run(['gcc', '-no-pie', '-o', exe, ro, stub[:-2] + '.o', so] + objs + open(os.path.join(BUILD, 'sim', 'alias.txt')).read().split() + ['-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: raise HarnessError('link %s: %s' % (name, p.stdout.decode()[-3000:]))
    u = run(['nm', '-u', ro]).decode().split()
    real = sorted(x for x in u if len(x) > 1 and not x.startswith('sim_') and not x.startswith('__tsan') and x != '_GLOBAL_OFFSET_TABLE_')
    return exe, {'modules': len(cs), 'libc_passthrough': real}

def build_driver(che, name, scen):
    """The process simulator with one scenario; returns the executable and the environment it needs."""
    objs = build_sim()
    D = os.path.join(VERIF, 'dsim')
    d = os.path.join(BUILD, 'dsim')
    os.makedirs(d, exist_ok=True)
    shim, stub, core = d + '/shim.so', d + '/stub', d + '/dcore.o'
    run(['gcc', '-std=gnu11', '-O2', '-w', '-fno-delete-null-pointer-checks', '-shared', '-fPIC', '-o', shim, D + '/shim.c', '-ldl'])
    run(['gcc', '-std=gnu11', '-O2', '-w', '-o', stub, D + '/stub.c'])
    run(['gcc', '-std=gnu11', '-O2', '-g', '-w', '-fno-pie', '-I' + SIM, '-c', D + '/dcore.c', '-o', core])
    e = env()
    e.update({'DSIM_CHE': che, 'DSIM_SHIM': shim, 'DSIM_STUB': stub, 'DSIM_SRC': D + '/src', 'DSIM_EXPECT': d + '/expected', 'DSIM_TMP': d})
    def mk(n, s):
        o = os.path.join(d, n)
        run(['gcc', '-std=gnu11', '-O2', '-g', '-Wall', '-Wextra', '-Wno-sign-compare', '-Wno-unused-function', '-Wno-unused-variable', '-U_FORTIFY_SOURCE', '-no-pie', '-fno-pie', '-o', o, os.path.join(VERIF, 'scen', s), core, objs[1], '-lm'])
        return o
    prep = mk('dprep', 'dprep.c')
    if os.path.exists(e['DSIM_EXPECT']): os.unlink(e['DSIM_EXPECT'])
    run([prep, '--run', '0'], env=e)
    return mk(name, scen), {}, e
