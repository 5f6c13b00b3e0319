#!/usr/bin/env python3
"""check.py <property id>: runs the static check of one property."""
import ctypes, os, resource, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
threading.stack_size(512 * 1024 * 1024)
resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
from sa import check
from sa.interp import Budget
res = []
def go():
    res.append(check.main(sys.argv))
t = threading.Thread(target=go)
t.start()
while t.is_alive():
    t.join(0.5)
    d = check.DEADLINE[0]
    if d is not None and time.time() > d:
        check.DEADLINE[0] = None
        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(Budget))
sys.stdout.flush()
os._exit(res[0] if res else 2)
