"""Runs the harnesses of one property: symbolic exploration in forked workers, solver verdicts,
replay of every counterexample against the really built package, evidence."""
import ctypes, os, sys, time, json, re, traceback, resource, signal, subprocess, shutil, tempfile, importlib, pickle, select, random
from . import terms as tm, solve, ctx as ctxm, world as worldm
from .build import Build
from .ctx import explore, Unsupported, PathEnd, Limit
from .llsym import Violation
from .solve import STATS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENVPY = "/opt/randomgen-env/venv/bin/python"
REPO = os.environ.get("VP_REPO", "/repo")

def load_tasks(prop, tier):
    sys.path.insert(0, ROOT)
    m = importlib.import_module("props." + prop.lower())
    ts = m.tasks(tier)
    names = set()
    for t in ts:
        if t.name in names: raise SystemExit("duplicate task " + t.name)
        names.add(t.name)
    return m, ts

# ------------------------------------------------------------------ one task, symbolically
def run_task(t, build):
    t0 = time.time()
    tm.reset()
    end = t0 + t.deadline
    solve.DEADLINE[0] = end
    r = dict(task=t.name, status="ok", paths=0, obligations=0, trivial=0, proved=0, unknown=[], cex=[], vacuous=False,
             decisions=0, undef=0, funcs=[], bound=t.bound, why="")
    funcs = set()
    def h(c):
        kw = dict(t.world)
        res = kw.pop("addr_residue", None); cpu = kw.pop("cpu_ecx", None)
        tm.XORMERGE = kw.pop("xormerge", False); tm.XORPUSH = kw.pop("xorpush", False); tm.DEEP = kw.pop("deep", getattr(sys.modules.get(t.fn.__module__), "DEEP", False) or t.deep)
        c.big = kw.pop("big", None)
        w = worldm.World(build, t.mods, **kw)
        if res is not None: w.m.addr_residue = res
        if cpu is not None: w.m.cpu_ecx = cpu
        w.exc = None
        try:
            t.fn(w, **t.params)
        except Violation as e:
            w.exc = ("violation", str(e))
        except (PathEnd, Unsupported):
            raise
        except Exception as e:
            w.exc = ("exception", "%s: %s" % (type(e).__name__, str(e)[:300]), "".join(traceback.format_tb(e.__traceback__)[-6:]))
        funcs.update(w.m.called)
        return w
    try:
        for c, w in explore(h, end, t.max_paths):
            r["paths"] += 1; r["decisions"] += len(c.taken)
            r["undef"] += len(c.undef)
            if w.exc:
                if w.exc[0] == "violation" and not t.memory:
                    pass
                st, env = solve.check(c.pc, t.ms)
                if st == "sat": r["cex"].append(dict(label=w.exc[0] + ": " + w.exc[1], env=env, kind=w.exc[0], tb=w.exc[2] if len(w.exc) > 2 else ""))
                elif st == "unknown": r["unknown"].append(w.exc[0] + " " + w.exc[1])
            decide(t, r, c, w)
            if len(r["cex"]) >= 4: break
            if time.time() > end: raise Limit("time limit after %d paths" % r["paths"])
    except Unsupported as e:
        r["status"] = "inconclusive"; r["why"] = "%s: %s" % (type(e).__name__, e)
        r["tb"] = "".join(traceback.format_tb(e.__traceback__)[-8:])
    except Violation as e:
        r["status"] = "inconclusive"; r["why"] = "violation outside a path: %s" % e
    except RecursionError as e:
        r["status"] = "inconclusive"; r["why"] = "recursion"
    if r["cex"]: r["status"] = "cex"
    elif r["unknown"] and r["status"] == "ok":
        r["status"] = "inconclusive"; r["why"] = "solver gave no verdict on: " + ", ".join(r["unknown"][:4])
    elif r["status"] == "ok" and (r["paths"] == 0 or r["obligations"] == 0):
        r["status"] = "inconclusive"; r["vacuous"] = True; r["why"] = "vacuous: no path reaches an obligation"
    r["funcs"] = sorted(funcs)
    r["stats"] = STATS.asdict(); r["wall"] = round(time.time() - t0, 2)
    r["rss"] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024
    return r

def fixed_by(pc):
    """variables a path condition fixes"""
    m = {}
    todo = list(pc)
    while todo:
        x = todo.pop()
        if type(x) is int: continue
        if x.op == "and" and x.w == 1: todo.extend(x.args); continue
        if x.op == "eq":
            a, b = x.args
            if type(a) is int: a, b = b, a
            if type(b) is int and a.op == "var": m[a] = b
    return m

def decide(t, r, c, w):
    pairs = []; conds = []
    sub = fixed_by(c.pc)
    obl = [(l, x, p) for l, x, p in w.obligs if type(x) is not int or x != 1]
    r["obligations"] += len(w.obligs) - len(obl); r["trivial"] += len(w.obligs) - len(obl); r["proved"] += len(w.obligs) - len(obl)
    if sub and obl:
        n = []
        for l, x, p in obl:
            if type(x) is not int:
                if p is not None and p[0] > 1:
                    a, b = tm.substitute([p[1], p[2]], sub); p = (p[0], a, b); x = tm.eq(p[0], a, b)
                else: x = tm.substitute([x], sub)[0]
            n.append((l, x, p))
        obl = n
    for label, term, p in obl:
        r["obligations"] += 1
        if type(term) is int and term == 1:
            r["trivial"] += 1; r["proved"] += 1
            continue
        if type(term) is int:
            st, env = solve.check(c.pc, t.ms)
            if st == "sat": r["cex"].append(dict(label=label, env=env, kind="obligation"))
            elif st == "unknown": r["unknown"].append(label)
            else: r["proved"] += 1
            if r["cex"]: return
            continue
        if c.pcset.get(term) == 1: r["proved"] += 1; continue
        if p is not None and p[0] > 1: pairs.append((label, p))
        else: conds.append((label, term))
    if pairs:
        st, env = solve.prove_equal([p for _, p in pairs], c.pc, t.ms)
        if st == "proved": r["proved"] += len(pairs)
        elif st == "cex":
            lab = which(pairs, env)
            r["cex"].append(dict(label=lab, env=env, kind="obligation")); return
        else:
            # one by one
            for label, p in pairs:
                st, env = solve.prove_equal([p], c.pc, t.ms)
                if st == "proved": r["proved"] += 1
                elif st == "cex":
                    r["cex"].append(dict(label=label, env=env, kind="obligation")); return
                else: r["unknown"].append(label)
    if conds:
        conds = [(l, x) for l, x in conds if not by_abstraction(t, r, c, x)]
    if conds:
        allc = 1
        for _, x in conds: allc = tm.band(1, allc, x)
        st = None
        if len(conds) > 1:
            st, env = solve.check(list(c.pc) + [tm.bnot(1, allc)], t.ms)
            if st == "unsat": r["proved"] += len(conds); return
        for label, x in conds:
            st, env = solve.check(list(c.pc) + [tm.bnot(1, x)], t.ms)
            if st == "unsat": r["proved"] += 1
            elif st == "sat":
                r["cex"].append(dict(label=label, env=env, kind="obligation")); return
            else: r["unknown"].append(label)

_stop = ("lin", "mul", "uf", "udiv", "urem")
def by_abstraction(t, r, c, x):
    """a condition on large arithmetic terms: prove it for arbitrary values in their place"""
    roots = [p for p in c.pc if type(p) is not int] + [x]
    if len(tm.topo(roots)) < 400: return False
    def above(roots):
        """nodes above the arithmetic, children first; the arithmetic nodes"""
        seen = set(); stack = [(u, 0) for u in roots if type(u) is not int]; order = []; cut = []
        while stack:
            u, done = stack.pop()
            if done: order.append(u); continue
            if u in seen: continue
            seen.add(u)
            if len(seen) > 4000: return None, None
            if u.op in _stop: cut.append(u); continue
            stack.append((u, 1))
            stack.extend((a, 0) for a in u.args if type(a) is not int)
        return order, cut
    def redo(roots, order, val, f=None):
        for u in order:
            if not u.args: val[u] = u; continue
            na = [a if type(a) is int else val.get(a, a) for a in u.args]
            val[u] = f(u, na) if f else u if all(a is b for a, b in zip(na, u.args)) else tm.rebuild(u, na)
        return [u if type(u) is int else val[u] for u in roots]
    def slices(u, na):
        # a slice of a choice is a choice of slices
        y = na[0]
        if u.op == "ext" and type(y) is not int and y.op == "ite":
            return tm.ite(y.args[0], tm.ext(y.args[1], u.data, u.w), tm.ext(y.args[2], u.data, u.w), u.w)
        return u if all(a is b for a, b in zip(na, u.args)) else tm.rebuild(u, na)
    order, cut = above(roots)
    if order is None or not cut: return False
    roots = redo(roots, order, {u: u for u in cut}, slices)
    order, cut = above(roots)
    if order is None: return False
    new = {}; names = {}
    def name(k, w):
        if k not in names: names[k] = tm.var("!abs%d" % len(names), w)
        return names[k]
    for u in cut:
        if u.op == "lin" and u.w == 1: new[u] = tm.bxor(1, name((u.args, u.data[1]), 1), u.data[0])
        else: new[u] = name(u, u.w)
    ps = redo(roots, order, dict(new))
    if type(ps[-1]) is int: ok = ps[-1] == 1
    else: ok = solve.check([p for p in ps[:-1] if type(p) is not int or p != 1] + [tm.bnot(1, ps[-1])], t.ms)[0] == "unsat"
    if ok: r["proved"] += 1
    return ok

def which(pairs, env):
    for label, (w, a, b) in pairs:
        try:
            e = dict(env)
            for v in tm.free_vars([a, b]): e.setdefault(v.data, 0)
            x, y = tm.evaluate([a, b], e)
            if x != y: return label
        except Exception:
            pass
    return pairs[0][0]

# ------------------------------------------------------------------ worker pool
def pool(tasks, builds, jobs, overall_end, log):
    todo = sorted(tasks, key=lambda t: -t.weight)
    running = {}; results = []
    while todo or running:
        while todo and len(running) < jobs:
            t = todo.pop(0)
            if time.time() > overall_end - 5:
                results.append(dict(task=t.name, status="inconclusive", why="not started: overall time limit", bound=t.bound, skipped=True)); continue
            t.deadline = min(t.deadline, max(3, overall_end - time.time() - 5))
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(rd)
                    os.setpgid(0, 0)
                    ctypes.CDLL(None).prctl(1, 9)           # end with the parent
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    sys.setrecursionlimit(100000)
                    STATS.__init__()
                    try:
                        r = run_task(t, builds[bkey(t)])
                    except BaseException as e:
                        r = dict(task=t.name, status="inconclusive", why="machinery: %s: %s" % (type(e).__name__, str(e)[:300]), tb=traceback.format_exc()[-3000:], bound=t.bound)
                    data = pickle.dumps(r)
                    with os.fdopen(wr, "wb") as f: f.write(data)
                finally:
                    os._exit(0)
            os.close(wr)
            running[pid] = (t, rd, time.time(), [])
        if not running: continue
        rl, _, _ = select.select([v[1] for v in running.values()], [], [], 0.5)
        now = time.time()
        for pid in list(running):
            t, rd, st, buf = running[pid]
            done = False
            if rd in rl:
                d = os.read(rd, 1 << 20)
                if d: buf.append(d)
                else: done = True
            if not done and now - st > t.deadline * 1.3 + 8:
                try: os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    try: os.kill(pid, signal.SIGKILL)
                    except ProcessLookupError: pass
                done = True
            if done:
                os.close(rd)
                try: os.waitpid(pid, 0)
                except ChildProcessError: pass
                del running[pid]
                try: r = pickle.loads(b"".join(buf))
                except Exception: r = dict(task=t.name, status="inconclusive", why="worker ended without a result (time or memory limit)", bound=t.bound)
                r.setdefault("wall", round(now - st, 2))
                results.append(r); log(r)
    return results

def bkey(t):
    return (t.ubsan, tuple(sorted((k, tuple(v)) for k, v in t.flags.items())))

# ------------------------------------------------------------------ replay
class Replayer:
    def __init__(self, repo): self.repo = repo; self.copies = {}
    def copy(self, mode):
        d = self.copies.get(mode)
        if d: return d
        d = tempfile.mkdtemp(prefix="vpreplay.")
        dst = os.path.join(d, "repo")
        shutil.copytree(self.repo, dst, ignore=shutil.ignore_patterns(".git", "build", "doc"), symlinks=True)
        env = dict(os.environ)
        cf = MODES[mode].get("cflags", "")
        env["PATH"] = os.path.dirname(VENVPY) + ":" + env.get("PATH", "")
        env.setdefault("CC", "ccache gcc" if shutil.which("ccache") else "gcc")
        env.update(MODES[mode].get("build_env", {}))
        env["CFLAGS"] = (env.get("CFLAGS", "") + " " + cf).strip()
        if mode != "plain": env["LDFLAGS"] = MODES[mode].get("ldflags", "")
        env["SETUPTOOLS_SCM_PRETEND_VERSION"] = env.get("SETUPTOOLS_SCM_PRETEND_VERSION", "2.1.0")
        p = subprocess.run([VENVPY, "setup.py", "build_ext", "--inplace", "--force", "-j", "8"], cwd=dst, env=env, capture_output=True, text=True)
        if p.returncode:
            p = subprocess.run([VENVPY, "setup.py", "build_ext", "--inplace", "--force"], cwd=dst, env=env, capture_output=True, text=True)
        self.err = p.stderr[-2000:] if p.returncode else ""
        self.copies[mode] = dst
        return dst
    def run(self, prop, task, cex, path):
        """True when the violation shows on the real package"""
        modes = task.replay if isinstance(task.replay, (list, tuple)) else [task.replay]
        if cex["kind"] == "violation": modes = list(modes) + ["asan"]
        runs = []
        for m in modes:
            if m in runs: continue
            runs.append(m)
        variants = [("", {})]
        if any(k.startswith("undef!") for k in cex["env"]) or cex["kind"] == "violation":
            variants += [("perturb", {"MALLOC_PERTURB_": "85", "PYTHONMALLOC": "malloc"}), ("perturb", {"MALLOC_PERTURB_": "170", "PYTHONMALLOC": "malloc"})]
        out = []
        for m in runs:
            dst = self.copy(m)
            if self.err: out.append("build failed: " + self.err); continue
            for vn, ve in (variants if m != "asan" else variants[:1]):
                env = dict(os.environ); env.update(ve)
                env.update(MODES[m].get("env", {}))
                for k, v in cex.get("shim", {}).items(): env[k] = v
                env["PYTHONPATH"] = dst + ":" + ROOT
                env["VP_REPLAY_MODE"] = m
                try:
                    p = subprocess.run([VENVPY, os.path.join(ROOT, "replay.py"), path], env=env, capture_output=True, text=True, timeout=240, cwd="/tmp")
                except subprocess.TimeoutExpired:
                    out.append("%s %s: timeout" % (m, vn)); continue
                out.append("%s %s: rc=%d %s" % (m, vn, p.returncode, (p.stdout + p.stderr)[-1500:]))
                txt = p.stdout + p.stderr
                if p.returncode == 1 and "REPRODUCED" in txt: return True, out
                if p.returncode < 0 or "AddressSanitizer" in txt or "runtime error:" in txt: return True, out
        return False, out
    def cleanup(self):
        for d in self.copies.values(): shutil.rmtree(os.path.dirname(d), ignore_errors=True)

def _asan():
    try: return subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip() + ":" + \
                subprocess.run(["gcc", "-print-file-name=libubsan.so"], capture_output=True, text=True).stdout.strip()
    except OSError: return ""
MODES = {
    "plain": {},
    "emu128": {"cflags": "-DPCG_FORCE_EMULATED_128BIT_MATH"},
    "nosse": {"build_env": {"RANDOMGEN_NO_SSE2": "1"}},
    "rdshim": {"cflags": "-include %s" % os.path.join(ROOT, "shim", "rdrand_shim.h")},
    "entshim": {"cflags": "-include %s" % os.path.join(ROOT, "shim", "entropy_shim.h")},
    "alignshim": {"cflags": "-include %s" % os.path.join(ROOT, "shim", "align_shim.h")},
    "asan": {"cflags": "-O1 -g -fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=undefined", "ldflags": "-fsanitize=address,undefined",
             "env": {"LD_PRELOAD": _asan(), "ASAN_OPTIONS": "detect_leaks=0:detect_odr_violation=0", "PYTHONMALLOC": "malloc"}},
}

# ------------------------------------------------------------------ known findings
def known(prop):
    """[(task regex, label regex, text)] from known_findings.txt"""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith("known:"): continue
            m = re.match(r"known: property=(\S+) task=(\S+) label=(\S+) (.*)$", l)
            if m and m.group(1) == prop: out.append((re.compile(m.group(2)), re.compile(m.group(3)), m.group(4)))
    return out

# ------------------------------------------------------------------ main
def main(prop, tier, only=None, verbose=False, jobs=None, seed=1):
    t0 = time.time()
    m, tasks = load_tasks(prop, tier)
    if tier == "quick": tasks = [t for t in tasks if t.quick]
    if only: tasks = [t for t in tasks if re.search(only, t.name)]
    overall_end = t0 + (float(os.environ.get("VP_LIMIT", 0)) or (600 if tier == "quick" else 3300))
    builds = {}
    build_err = None
    try:
        for t in tasks:
            k = bkey(t)
            if k not in builds:
                builds[k] = Build(REPO, ubsan=t.ubsan, extra_flags=t.flags)
        for k, b in builds.items():
            mods = set()
            for t in tasks:
                if bkey(t) == k: mods |= set(t.mods)
            good = prebuild(b, sorted(mods))
        tb = time.time() - t0
        counts = {}
        def log(r):
            counts[r["status"]] = counts.get(r["status"], 0) + 1
            if verbose or r["status"] != "ok":
                print("  %-46s %-12s %6.1fs paths=%s obl=%s proved=%s q=%s %s" % (r["task"], r["status"], r.get("wall", 0), r.get("paths"), r.get("obligations"),
                      r.get("proved"), (r.get("stats") or {}).get("queries"), r.get("why", "")), flush=True)
                if verbose and r.get("tb"): print(r["tb"])
                for c in r.get("cex", [])[:3]:
                    print("      cex %s %s" % (c["label"], {k: hex(v) for k, v in list(c["env"].items())[:12]}))
                    if verbose and c.get("tb"): print(c["tb"])
        results = pool(tasks, builds, jobs or int(os.environ.get("VP_JOBS", "0")) or 8, overall_end, log)
    finally:
        for b in builds.values(): b.cleanup()
    # ---- counterexamples
    bynm = {t.name: t for t in tasks}
    rep = Replayer(REPO)
    confirmed = []; unrepro = []; kf = []; knowns = known(prop)
    try:
        n = 0
        rdir = os.path.join(ROOT, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
        for r in sorted([r for r in results if r.get("cex")], key=lambda r: r["wall"]):
            if len(confirmed) >= 3: break
            t = bynm[r["task"]]
            for i, c in enumerate(r["cex"][:3]):
                if n >= 14 or time.time() > t0 + 840 and tier == "quick": break
                n += 1
                path = os.path.join(rdir, "%s-%s-%d.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", t.name), i))
                json.dump(dict(property=prop, tier=tier, task=t.name, label=c["label"], kind=c["kind"], env={k: v for k, v in c["env"].items()},
                               modes=t.replay), open(path, "w"), indent=1)
                k = [x for x in knowns if x[0].search(t.name) and x[1].search(c["label"])]
                if k:
                    kf.append(k[0][2]); r["status"] = "known"; continue
                ok, out = rep.run(prop, t, c, path)
                if verbose or not ok: print("      replay of %s [%s]: %s %s" % (t.name, c["label"], "reproduced" if ok else "NOT reproduced", "" if ok else "\n".join(out)[-1200:]), flush=True)
                if ok:
                    confirmed.append((t.name, c["label"], path)); break
                unrepro.append((t.name, c["label"]))
    finally:
        rep.cleanup()
    for name, l in unrepro:
        for r in results:
            if r["task"] == name and r["status"] == "cex" and not any(n == name for n, _, _ in confirmed):
                r["status"] = "inconclusive"; r["why"] = "counterexample not reproduced on the built package: " + l
    write_evidence(prop, tier, seed, m, tasks, results, confirmed, unrepro, t0, tb, kf)
    for x in sorted(set(kf)): print("KNOWN-FINDING: property=%s %s" % (prop, x))
    nin = [r for r in results if r["status"] == "inconclusive"]
    print("%s %s: %d tasks, %d decided, %d inconclusive, %d violations, %.0f s" % (prop, tier, len(results), len([r for r in results if r["status"] in ("ok", "known")]), len(nin), len(confirmed), time.time() - t0))
    if confirmed:
        for name, label, path in confirmed[:3]:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  task %s: %s" % (name, label))
        return 1
    return 0

def prebuild(b, mods):
    ok = []
    for m in mods:
        try: b.project.scope(m)
        except BaseException as e: print("  front end: %s: %s" % (m, e)); continue
        ok.append(m)
    try:
        b.prebuild(ok)
    except BaseException as e:
        print("  build: %s" % str(e)[:600])
        for m in ok:
            try: b.ir(m)
            except BaseException as e: print("  build of %s: %s" % (m, str(e)[:300]))
    for m in ok:
        if b.is_cython(m):
            try: b.module_code(m)
            except BaseException as e: print("  translation of %s: %s: %s" % (m, type(e).__name__, str(e)[:300]))
    return ok

def write_evidence(prop, tier, seed, m, tasks, results, confirmed, unrepro, t0, tb, kf):
    tot = {}
    for r in results:
        for k, v in (r.get("stats") or {}).items():
            tot[k] = round(tot.get(k, 0) + v, 3)
    funcs = sorted({f for r in results for f in r.get("funcs", [])})
    mods = sorted({x for t in tasks for x in t.mods})
    dec = [r for r in results if r["status"] in ("ok", "known")]
    samples = [dict(task=r["task"], status=r["status"], bound=r.get("bound", ""), paths=r.get("paths"), obligations=r.get("obligations"), proved=r.get("proved"),
                    queries=(r.get("stats") or {}).get("queries"), wall_s=r.get("wall"), why=r.get("why", "")) for r in results]
    cov = dict(explanation=getattr(m, "EXPLANATION", "") + " Every listed harness ran the package's own Cython (translated) and C (LLVM IR from clang) code over symbolic inputs; "
               "each obligation on each feasible path was decided by the solver for all values within the bound of its harness; counterexamples count only when they reproduce on the built package.",
               obligations=sum(r.get("obligations") or 0 for r in results), discharged=sum(r.get("proved") or 0 for r in results),
               harnesses=len(results), harnesses_decided=len(dec), paths=sum(r.get("paths") or 0 for r in results),
               decisions=sum(r.get("decisions") or 0 for r in results), solver=tot, functions_encoded=funcs, cython_modules=mods,
               inconclusive=[dict(task=r["task"], why=r.get("why", "")) for r in results if r["status"] == "inconclusive"],
               unreproduced=["%s: %s" % x for x in unrepro], known_findings=sorted(set(kf)), samples=samples, build_s=round(tb, 1))
    ev = dict(property=prop, tier=tier, seed=seed, level="other", coverage=cov, assumptions=list(getattr(m, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)

COMMON_ASSUMPTIONS = [
    "clang 18 -O1 LLVM IR and the shipped gcc build agree on defined behaviour; the Cython translator, the NumPy model and the term engine are trusted (tests/ compares them with the built package)",
    "NumPy's own BitGenerator base class, SeedSequence, normal sampler and dtype conversions are modelled, not encoded",
    "little-endian x86-64",
]
