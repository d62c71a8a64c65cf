#!/usr/bin/env python3
# try.py NAME DRIVER SCEN args...: builds one scenario and runs it (development aid)
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
che = vlib.build_che()
exe, info = vlib.build_scenario(che, sys.argv[1], sys.argv[2], sys.argv[3], beside=os.environ.get('BESIDE'))
print(exe, info)
if len(sys.argv) > 4: os.execv(exe, [exe] + sys.argv[4:])
