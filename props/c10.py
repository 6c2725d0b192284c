"""C10: native code stays inside its state and has defined behaviour."""
from vp.task import Task
from .gens import *

EXPLANATION = "The native code is compiled with the undefined-behaviour sanitizer's checks as traps and executed from every valid state (all words symbolic, every buffer position). Each access is bounds-checked against its object, each trap must be unreachable, results must not depend on uninitialised memory (two instances with the same state agree; a read of uninitialised memory differs between them) and the state left behind must again be a valid one, so the step is inductive over histories."
ASSUMPTIONS = ["valid states: flags 0/1, positions inside their buffers, increments odd, as set by the package itself"]
KINDS = ("raw", "u64", "u32", "dbl")
OVER = {"LXM": {"b": None}}

def inspec(w, label, st, spec):
    for k, v in st.items():
        if isinstance(v, dict): inspec(w, label, v, spec); continue
        s = spec.get(k)
        if s is None or isinstance(s, int) or hasattr(v, "shape"): continue
        if s[0] == "bits" and s[1] == 1: w.check("%s: %s is 0 or 1" % (label, k), (v == 0) | (v == 1) if w.symbolic else v in (0, 1))
        elif s[0] == "odd": w.eq("%s: %s stays odd" % (label, k), v % 2, 1)
        elif s[0] == "range":
            lo, hi, step = s[1:]
            w.check("%s: %s in range" % (label, k), w.and_(v >= lo, v <= hi))
            if step > 1: w.eq("%s: %s on its grid" % (label, k), (v - lo) % step, 0)

def valid(w, g, label, st):
    inspec(w, label, st, g.spec)
    w.check("%s: reached without a trap" % label, True)

def val(w, kind, v): return w.dbits(v) if kind == "dbl" else v

def step(w, g, kinds, over=None, low=None):
    a = g.make(w, "#a"); b = g.make(w, "#b")
    st = g.symstate(w, a, "s", over)
    if low is not None:
        c = w.items(st["state"]["ctr"])
        st["state"]["ctr"] = w.arr([((c[0] >> 4) << 4) | low, c[1]], "uint64")
    a.state = st; b.state = st
    for i, k in enumerate(kinds):
        w.eq("%s draw depends on the state only" % k, val(w, k, w.draw(a, k)), val(w, k, w.draw(b, k)))
    valid(w, g, "after " + "+".join(kinds), a.state)

def seeded(w, g, tag):
    """seeding leaves a valid state; draws follow"""
    if tag == "r" and g.cls == "LXM": w.assume(w.or_(*[w.ssword("r", i) != 0 for i in range(8)]))
    a = g.make(w, tag)
    valid(w, g, "after seeding", a.state)
    a.state = g.symstate(w, a, "s", OVER.get(g.cls)) if "big" not in g.tags else a.state
    a.seed(w.ss(tag))
    valid(w, g, "after reseeding", a.state)

def moved(w, g, how, sh=0):
    a = g.make(w, "#a")
    if "f2" not in g.tags: a.state = g.symstate(w, a, "s", OVER.get(g.cls))
    if how == "jump": a.jump()
    elif how == "jumped": a = a.jumped()
    else:
        d = w.int(w.sym("d", 16)) << abs(sh) if sh else w.int(w.sym("d", 16))
        a.advance(-d if sh < 0 else d)
    valid(w, g, "after " + how, a.state)
    for k in ("u64", "u32"): w.draw(a, k)
    valid(w, g, "after a draw", a.state)

def roundtrip(w, g):
    """state conversion: what is read back is valid and equal"""
    a = g.make(w, "#a")
    st = g.symstate(w, a, "s")
    a.state = st
    s1 = a.state
    valid(w, g, "after setting", s1)
    a.state = s1
    w.eq("state read back twice", a.state, s1)

def rotations(w, g, kind):
    a = g.make(w, "#a")
    n = 6 if g.raw == 64 else 5
    st = g.symstate(w, a, "s", {"p": ("bits", n), "q": ("bits", n), "r": ("bits", n)})
    a.state = st
    w.draw(a, kind)
    s2 = a.state
    for k in "pqr": w.eq("rotation constant %s kept" % k, s2["state"][k] if k in s2["state"] else s2[k], st["state"][k] if k in st["state"] else st[k])

def fills(w, mod, fn, n):
    """array fills stay in the array"""
    from .gens import GENS
    g = GENS["Xoshiro256"]
    a = g.make(w, "#a"); a.state = g.symstate(w, a, "s")
    G = w.cls("generator", "ExtendedGenerator")(a)
    if fn == "raw": r = a.random_raw(n)
    elif fn == "u64": r = G.uintegers(n, 64)
    elif fn == "u32": r = G.uintegers(n, 32)
    else: r = G.random(n, dtype=fn)
    w.eq("shape", w.shape(r), (n,))
    valid(w, g, "after the fill", a.state)

JUMPS = {"AESCounter", "SPECK128", "Philox", "ThreeFry", "PCG64", "LCG128Mix", "Squares", "LXM", "Xoroshiro128", "Xorshift1024", "Xoshiro256", "Xoshiro512", "PCG32"}
ADVS = {"AESCounter": (0, 32, 100), "SPECK128": (0, 32, 100), "Philox": (0, 40), "ThreeFry": (0, 40), "PCG32": (0, 40, -1), "PCG64": (0, 40, 100, -1), "PCG64DXSM": (0, 100, -1), "LCG128Mix": (0, 100, -1), "Squares": (0, 40)}

def tasks(tier):
    T = []
    def add(name, f, g, p, b, quick=True, d=60): T.append(Task(name, f, g.mods if g else ["common"], dict(p, g=g) if g else p, ubsan=True, deadline=150 if g and "big" in g.tags else d, ms=20000, bound=b, quick=quick))
    for g in GENS.values():
        big = "big" in g.tags
        for k in KINDS:
            ov = dict(OVER.get(g.cls, {}))
            if g.cls == "DSFMT":
                for loc in (0, 381, 382): add("step.%s.%s.%d" % (k, g.name, loc), step, g, dict(kinds=(k,), over={"buffer_loc": loc}), "any valid state at buffer position %d" % loc, k != "raw" or loc == 382)
            elif g.cls == "ChaCha":
                for low in range(16): add("step.%s.%s.%d" % (k, g.name, low), step, g, dict(kinds=(k,), low=low), "any valid state at word %d" % low, low in (0, 14, 15) and (g.name == "ChaCha" or k == "u64"))
            else: add("step.%s.%s" % (k, g.name), step, g, dict(kinds=(k,)), "any valid state", quick=not ("-pre" in g.name and k != "u64"))
        if g.cls == "JSF":
            for k in ("u64", "u32"): add("step.%s.%s.rot" % (k, g.name), rotations, g, dict(kind=k), "any valid state, any rotation constants")
        if g.cls == "LXM": add("step.u64.LXM.b", step, g, dict(kinds=("u64",), over={}), "any valid state, any odd multiplier")
        add("seeded.fixed." + g.name, seeded, g, dict(tag="#r"), "one concrete seed over any valid state", quick="-pre" not in g.name)
        if not big and g.cls not in ("Squares", "EFIIX64"): add("seeded." + g.name, seeded, g, dict(tag="r"), "every seed word, over any valid state", quick="-pre" not in g.name)
        add("roundtrip." + g.name, roundtrip, g, {}, "any valid state", quick=not big or tier != "quick")
        if g.cls in JUMPS:
            add("jump." + g.name, moved, g, dict(how="jumped"), "any valid state" if "f2" not in g.tags else "one concrete state", quick="-pre" not in g.name)
        for sh in ADVS.get(g.cls, ()):
            if g.cls in ("Squares", "PCG32") and sh > 40: continue
            if g.cls in ("Philox", "ThreeFry") and g.N * g.raw <= 64 and sh: continue
            add("advance.%d.%s" % (sh, g.name), moved, g, dict(how="advance", sh=sh), "any valid state, delta below 2^16 times 2^%d" % abs(sh), quick="-pre" not in g.name and (sh == 0 or g.name in ("PCG64", "AESCounter", "SPECK128")))
    for fn in ("raw", "u64", "u32", "float64", "float32", "longdouble"):
        for n in (0, 1, 5): T.append(Task("fill.%s.%d" % (fn, n), fills, ["common", "xoshiro256", "generator", "broadcasting", "distributions"], dict(mod=None, fn=fn, n=n), ubsan=True, deadline=60, bound="%d values from any state" % n))
    return T
