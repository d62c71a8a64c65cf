#!/usr/bin/env python3
# Writes the symbol map for objcopy --redefine-syms: libc name -> simulator name.
import re, sys, os
here = os.path.dirname(os.path.abspath(__file__))
names = set()
for f in ('mem.c', 'fd.c', 'net.c', 'thr.c', 'sio.c'):
    for m in re.finditer(r'^(?:[A-Za-z_][\w ]*[\s*]+)sim_([a-zA-Z_]\w*)\(', open(os.path.join(here, f)).read(), re.M):
        names.add(m.group(1))
skip = {'proc_signal', 'set_tty', 'tty_mode', 'set_pipe_cap', 'ofd', 'mem_point', 'mem_point_slow', 'stdout_of', 'stderr_of', 'set_stdin', 'stdio_sink_fail', 'stdin_frag', 'stdin_open', 'stdin_left', 'stdin_bad',
        'tcp_state', 'setup_unused', 'yield', 'sleep', 'proc_exited'}
out = {}
alias = {}
for n in names - skip:
    out[n] = 'sim_' + n
out['sleep'] = 'sim_sleep_'
out.pop('sleep_', None)
for n in ('stdin', 'stdout', 'stderr', 'environ'):
    out[n] = 'sim_' + n
for a in ('sscanf',):
    out.pop(a, None)
# aliases emitted by the headers
for a, b in {'__isoc99_scanf': 'scanf', '__isoc99_fscanf': 'fscanf', '__isoc99_vfscanf': 'vfscanf', '__isoc23_scanf': 'scanf',
             '__isoc23_fscanf': 'fscanf', '_IO_getc': 'getc', '_IO_putc': 'putc', '_Exit': '_exit', 'open64': 'open', 'fopen64': 'fopen',
             'lseek64': 'lseek', 'fseeko64': 'fseeko', 'ftello64': 'ftello', 'stat64': 'stat', 'fstat64': 'fstat', 'lstat64': 'lstat',
             'readdir64': 'readdir', 'pread64': 'pread', 'pwrite64': 'pwrite', 'bcopy': None, 'fdatasync': 'fsync', 'sigsetmask': None,
             'getc_unlocked': 'getc', 'putc_unlocked': 'putc', 'getchar_unlocked': 'getchar', 'putchar_unlocked': 'putchar',
             'fgetc_unlocked': 'fgetc', 'fputc_unlocked': 'fputc', 'fread_unlocked': 'fread', 'fwrite_unlocked': 'fwrite',
             'ftruncate64': 'ftruncate', 'bsd_signal': 'signal', 'ssignal': 'signal', '__fdelt_chk': None}.items():
    if b: out[a] = 'simx_' + a; alias[a] = 'sim_' + b
out['main'] = 'app_main'
if len(sys.argv) > 1:
    for a in sorted(alias): print('-Wl,--defsym=simx_%s=%s' % (a, alias[a]))
else:
    for k in sorted(out): print(k, out[k])
