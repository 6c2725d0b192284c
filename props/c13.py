"""C13: failures of the RDRAND instruction."""
from vp.task import Task

EXPLANATION = "The instruction is replaced by a symbolic environment: execution number i succeeds or fails (symbolic bit inside the stated window, success outside) and delivers a symbolic word. Every command is compared with a small reference that counts retries, consumes words in order and remembers failure."
ASSUMPTIONS = ["a failing RDRAND stores 0 (Intel SDM)", "the interpreter's error indicator is modelled: PyErr_SetString/Occurred/Clear, and any Python operation such as print() raises a pending error",
               "instruction executions outside the stated window succeed"]
M32 = 0xffffffff

class Ref:
    """what the user is promised"""
    def __init__(self, w, retries): self.w = w; self.r = retries; self.i = 0; self.ok = True; self.buf = []
    def hw(self):
        for _ in range(self.r + 1):
            i = self.i; self.i += 1
            if self.w.cond(self.w.rdok(i)): return self.w.rdval(i)
        self.ok = False
        return None
    def word(self):
        if not self.buf: self.buf = [self.hw() for _ in range(256)]
        return self.buf.pop(0)
    def cmd(self, kind, n):
        return [self.hw() if kind == "raw" else self.word() for _ in range(n)] if n else []
    def reset(self):
        if not self.ok: self.ok = True; self.buf = []

def command(w, bg, kind, n):
    """one user-level command drawing n values; None when it raised RuntimeError"""
    EG = w.cls("generator", "ExtendedGenerator")
    try:
        if kind == "raw1": return [bg.random_raw()]
        if kind == "raw": return w.items(bg.random_raw(n))
        if kind == "rawskip": bg.random_raw(n, output=False); return "skip"
        if kind == "rawskip1": bg.random_raw(output=False); return "skip"
        if kind == "u64": return w.items(EG(bg).uintegers(n, 64))
        if kind == "u32": return w.items(EG(bg).uintegers(n, 32))
        if kind == "u641": return [EG(bg).uintegers(None, 64)]
        if kind == "dbl": return [w.dbits(x) for x in w.fitems(EG(bg).random(n))]
        if kind == "ld": return w.fitems(EG(bg).random(n, dtype="longdouble"))
    except RuntimeError:
        return None
    raise ValueError(kind)

def step(w, bg, ref, kind, n, what):
    v = ref.cmd("raw" if kind.startswith("raw") else "buf", n)
    got = command(w, bg, kind, n)
    if ref.ok:
        w.check(what + " returns", got is not None)
        if got is None: return
        if got != "skip":
            for j, (a, b) in enumerate(zip(got, v)):
                if kind == "dbl": w.eq("%s value %d" % (what, j), a, w.dbits(w.dyadic(b >> 11, -53)))
                elif kind != "ld": w.eq("%s value %d" % (what, j), a, b & M32 if kind == "u32" else b)
            w.eq(what + " number of values", len(got), n)
    else:
        w.check(what + " raises", got is None)
    w.eq(what + " success flag", bool(bg.success), ref.ok)

def program(w, retries, window, cmds):
    w.rdsetup(window)
    bg = w.cls("rdrand", "RDRAND")(retries=retries)
    ref = Ref(w, retries)
    for i, (kind, n) in enumerate(cmds):
        if kind == "reset":
            bg._reset(); ref.reset(); continue
        step(w, bg, ref, kind, n, "command %d (%s)" % (i, kind))

def late(w, f, cmds):
    """exactly one failure, at instruction f, no retries"""
    w.rdsetup([f])
    w.assume(w.not_(w.rdok(f)))
    bg = w.cls("rdrand", "RDRAND")(retries=0)
    ref = Ref(w, 0)
    for i, (kind, n) in enumerate(cmds): step(w, bg, ref, kind, n, "command %d (%s)" % (i, kind))

def negative(w):
    """the retry limit cannot be negative; with the limit forced below zero through the state nothing is ever returned"""
    R = w.cls("rdrand", "RDRAND")
    r = w.ssym("r", 31)
    w.rdsetup([])
    if w.cond(r < 0):
        w.check("a negative limit is refused", w.raises(ValueError, lambda: R(retries=r)))
    else:
        b = R(retries=r)
        w.eq("the limit is the one given", b.state["retries"], r)
        w.eq("no failure yet", b.state["status"], 1)
    b = R()
    s = b.state; s["retries"] = -1; b.state = s
    for k in ("raw1", "raw", "rawskip", "rawskip1", "u64", "dbl"):
        w.check("%s raises when no attempt is allowed" % k, command(w, b, k, 2) is None)

def seedless(w):
    R = w.cls("rdrand", "RDRAND")
    w.rdsetup([])
    w.check("a seed is refused", w.raises(TypeError, lambda: R(w.sym("seed", 64))))
    w.check("a seed is refused by seed()", w.raises(TypeError, lambda: R().seed(w.sym("seed", 64))))
    b = R(); b.random_raw(3)
    j = b.jumped()
    w.eq("the words continue in a jumped instance", j.random_raw(), w.rdval(3))

def tasks(tier):
    T = []; mods = ["generator", "broadcasting", "distributions", "common", "rdrand"]
    def add(name, retries, window, cmds, quick=True, bound=""):
        T.append(Task(name, program, mods, dict(retries=retries, window=window, cmds=cmds), quick=quick, deadline=150, replay="rdshim", world=dict(cpu_ecx=1 << 30),
                      bound="retry limit %d; every success/failure pattern of instruction executions %s; every word value; commands %s" % (retries, "%d..%d" % (window[0], window[-1]) if window else "(none fails)", " ".join("%s(%d)" % c for c in cmds))))
    W = lambda a, n: list(range(a, a + n))
    for r in (0, 1, 2):
        add("raw.%d" % r, r, W(0, 7), [("raw1", 1), ("raw", 2), ("raw1", 1)])
        add("skip.%d" % r, r, W(0, 7), [("rawskip", 2), ("rawskip1", 1), ("raw1", 1)])
        for pos in (0, 254):
            add("fill%d.%d" % (pos, r), r, W(pos, 5), [("u64", 3), ("dbl", 2)])
    add("sticky", 0, W(0, 4), [("raw", 2), ("raw1", 1), ("u64", 2), ("dbl", 1), ("u32", 1)])
    add("midbuffer", 0, W(256, 4), [("u64", 2), ("raw1", 1), ("u64", 2), ("raw", 2), ("u32", 2)])
    add("refill", 1, W(256, 3), [("u64", 255), ("u641", 1), ("u32", 3), ("dbl", 1)])
    add("crossing", 0, W(256, 3), [("u64", 250), ("dbl", 12), ("u64", 4)])
    add("pastend", 0, W(3, 2), [("u64", 250), ("u64", 4), ("u64", 4), ("dbl", 3), ("u32", 3)])
    add("pastend2", 0, W(511, 2), [("u64", 256), ("u64", 300), ("u64", 4)], quick=False)
    add("reset", 0, W(3, 2), [("u64", 2), ("reset", 0), ("u64", 2), ("raw1", 1), ("u64", 1)])
    add("resetraw", 0, W(0, 2), [("raw1", 1), ("reset", 0), ("raw1", 1), ("u64", 2)])
    add("longdouble", 0, W(2, 2), [("ld", 2), ("u64", 1)])
    add("shapes", 0, W(5, 3), [("rawskip", 0), ("raw", 0), ("u64", 0), ("raw", 5), ("raw1", 1)])
    for f in [1, 100, 255] + ([2, 3, 31, 63, 127, 128, 254, 256, 300, 511] if tier == "thorough" else []):
        T.append(Task("late.%d" % f, late, mods, dict(f=f, cmds=[("u64", 1), ("dbl", 1), ("u64", 254), ("u64", 2), ("u64", 1)]), deadline=120, replay="rdshim", world=dict(cpu_ecx=1 << 30),
                      bound="no retries; exactly one failure, at instruction %d; every word value; 5 commands over two buffers" % f))
    T.append(Task("negative", negative, mods, {}, deadline=60, replay="rdshim", world=dict(cpu_ecx=1 << 30), bound="every 31-bit retry limit"))
    T.append(Task("seedless", seedless, mods, {}, deadline=60, replay="rdshim", world=dict(cpu_ecx=1 << 30), bound="every 64-bit seed"))
    return T
