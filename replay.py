#!/usr/bin/env python3
"""replay.py FILE: run one counterexample against the built package (PYTHONPATH must name the built copy).
Exit 1 and REPRODUCED when the property is violated, 0 when it is not."""
import sys, json, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp.conc import ConcWorld, PathEnd
d = json.load(open(sys.argv[1]))
m = importlib.import_module("props." + d["property"].lower())
t = [t for t in m.tasks(d.get("tier", "thorough")) if t.name == d["task"]]
if not t:
    print("no such task"); sys.exit(2)
t = t[0]
w = ConcWorld(d["env"])
w.mode = os.environ.get("VP_REPLAY_MODE", "plain")
try:
    t.fn(w, **t.params)
except PathEnd:
    if not w.fails:
        print("assumptions of the harness do not hold"); sys.exit(0)
except Exception as e:
    print("REPRODUCED exception %s: %s" % (type(e).__name__, e)); traceback.print_exc(); sys.exit(1)
if w.fails:
    for f in w.fails[:10]: print("REPRODUCED %s: %s" % f)
    sys.exit(1)
print("not reproduced: %d checks hold" % w.nchecks)
