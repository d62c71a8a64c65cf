#!/usr/bin/env python3
# tryd.py NAME args...: builds one scenario over che processes and runs it (development aid)
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
che = vlib.build_che()
exe, info, e = vlib.build_driver(che, sys.argv[1], sys.argv[1] + '.c')
if len(sys.argv) > 2: os.execve(exe, [exe] + sys.argv[2:], e)
