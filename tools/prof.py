#!/usr/bin/env python3-vt
"""profile one harness: tools/prof.py PROP TASK [seconds]"""
import sys, os, cProfile, pstats, signal
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import run, terms as tm
import importlib
sys.setrecursionlimit(100000)
P = importlib.import_module("props." + sys.argv[1].lower())
t = [t for t in P.tasks("thorough") if t.name == sys.argv[2]][0]
from vp.build import Build
b = Build("/repo", t.ubsan, t.flags)
b.prebuild(t.mods)
pr = cProfile.Profile()
def stop(*a): raise KeyboardInterrupt
signal.signal(signal.SIGALRM, stop); signal.alarm(int(sys.argv[3]) if len(sys.argv) > 3 else 60)
pr.enable()
try: r = run.run_task(t, b); print(r["status"], r["wall"])
except KeyboardInterrupt: print("stopped")
finally:
    pr.disable(); b.cleanup()
    pstats.Stats(pr).sort_stats("tottime").print_stats(18)
