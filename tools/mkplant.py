"""mkplant.py ID PROPERTY FILE: reads OLD/NEW/NEEDS/BREAKS/DEMO from stdin (sections start with '@@NAME') and writes seeded/ID"""
import sys, json, os, subprocess
i, p, f = sys.argv[1:4]
sec = {}; cur = None
for l in sys.stdin.read().split("\n"):
    if l.startswith("@@"): cur = l[2:].strip(); sec[cur] = []
    elif cur: sec[cur].append(l)
sec = {k: "\n".join(v) for k, v in sec.items()}
d = "/verif/seeded/" + i; os.makedirs(d, exist_ok=True)
path = "/repo/" + f; s = open(path).read(); o = s
n = 1
for a, b in [("OLD", "NEW"), ("OLD2", "NEW2")]:
    if a not in sec: continue
    old, new = sec[a].rstrip("\n"), sec[b].rstrip("\n")
    assert s.count(old) == 1, (a, s.count(old))
    s = s.replace(old, new)
open(path, "w").write(s)
open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout)
open(path, "w").write(o)
json.dump({"property": p, "needs": sec["NEEDS"].strip(), "what_it_breaks": sec["BREAKS"].strip()}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.sh", "w").write('#!/bin/bash\nP=/opt/randomgen-env/venv/bin/python\n[ -x $P ] || P=python3\nPYTHONPATH=$PWD exec $P "$(dirname "$0")/demo.py"\n')
open(d + "/demo.py", "w").write(sec["DEMO"].strip() + "\n")
