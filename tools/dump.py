"""print the two sides of the obligations that do not match structurally: tools/dump.py PROP TASK [depth] [count]"""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import run, terms as tm, world as worldm, solve
from vp.build import Build
from vp.ctx import explore
sys.setrecursionlimit(200000)
prop, name = sys.argv[1:3]; depth = int(sys.argv[3]) if len(sys.argv) > 3 else 8; cnt = int(sys.argv[4]) if len(sys.argv) > 4 else 2
m, ts = run.load_tasks(prop, "thorough")
t = [t for t in ts if t.name == name][0]
b = Build("/repo", ubsan=t.ubsan, extra_flags=t.flags)
try:
    run.prebuild(b, sorted(t.mods))
    def h(c):
        kw = dict(t.world); kw.pop("addr_residue", None); cpu = kw.pop("cpu_ecx", None)
        tm.XORMERGE = kw.pop("xormerge", False); tm.XORPUSH = kw.pop("xorpush", False); tm.DEEP = kw.pop("deep", getattr(sys.modules.get(t.fn.__module__), "DEEP", False) or t.deep); w = worldm.World(b, t.mods, **kw)
        if cpu is not None: w.m.cpu_ecx = cpu
        t0 = time.time()
        t.fn(w, **t.params)
        print("harness", round(time.time() - t0, 2))
        return w
    def diff(a, b, seen):
        if a is b: return
        if type(a) is int or type(b) is int or a.op != b.op or a.w != b.w or len(a.args) != len(b.args) or a.data != b.data:
            print("DIFF", [x if type(x) is int else (x.op, x.w, len(x.args)) for x in (a, b)]); print("  ", tm.show(a, depth)[:900] if type(a) is not int else a); print("  ", tm.show(b, depth)[:900] if type(b) is not int else b); return 1
        if (a, b) in seen: return
        seen.add((a, b))
        x = [u for u in a.args if u not in b.args]; y = [u for u in b.args if u not in a.args]
        if a.op not in ("xor", "lin", "and", "or"): x, y = a.args, b.args
        for u, v in zip(x, y):
            if diff(u, v, seen): return 1
        print("DIFF", tm.show(a, 3)[:300], "|||", tm.show(b, 3)[:300]); return 1
    def size(x): return len(tm.topo([x])) if not isinstance(x, int) else 0
    for c, w in explore(h, time.time() + 600, 50):
        print("path", [tm.show(p, 4)[:200] for p in c.pc][-6:])
        n = 0
        for l, term, p in w.obligs:
            if type(term) is int and term == 1: continue
            n += 1
            if n > cnt: continue
            print("==", l)
            if p is None: print(tm.show(term, depth)[:3000]); continue
            print(size(p[1]), size(p[2])); print(tm.show(p[1], depth)[:2500]); print("--"); print(tm.show(p[2], depth)[:2500]); diff(p[1], p[2], set())
        print("unmatched", n, "of", len(w.obligs))
        break
finally: b.cleanup()
