#!/usr/bin/env python3
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"
if not sys.prefix.startswith("/opt/veriftools"):
    exe = VT if os.path.exists(VT) else "python3-vt"
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    os.execvp(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:])
import argparse
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
p = argparse.ArgumentParser()
p.add_argument("prop"); p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); p.add_argument("--only"); p.add_argument("-v", action="store_true")
p.add_argument("--jobs", type=int)
a = p.parse_args()
from vp import run
sys.exit(run.main(a.prop, a.tier if a.tier in ("quick", "thorough") else "quick", a.only, a.v, a.jobs, int(os.environ.get("VERIF_SEED", "1") or 1)))
