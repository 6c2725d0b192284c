"""C08: accelerated and portable implementations give identical streams."""
import copy, re
from vp.task import Task
from .gens import *
from . import ref as R, c02, c03, c07

DEEP = True
EXPLANATION = ("Both implementations run from the same arbitrary state inside one harness (the use_aesni / use_simd / use_sse41 switches) and their outputs and successor states are "
               "compared; implementations selected when the package is compiled (no SSE2, emulated 128-bit arithmetic) are compiled that way and compared with the same references as the default build.")
ASSUMPTIONS = ["states are valid ones", "ChaCha vector code: one double round with every key and counter (the loop body); more rounds for fixed keys only",
               "compile-time alternatives are compared through a common reference (props/ref.py) for equal inputs",
               "emulated 128-bit sums and products are replaced by exact ones after the lemmas emu.mult64/mult128/add128; the lemmas rest on the ring identities (x1*2^32+x0)(y1*2^32+y0) = sum xi*yj*2^(32(i+j)) and (ah*2^64+al)(bh*2^64+bl) = al*bl + (ah*bl+al*bh)*2^64 mod 2^128"]

ATTR = {"AESCounter": "use_aesni", "ChaCha": "use_simd", "SPECK128": "use_sse41"}
def toggle(w, cls, kw, pre, n, over):
    """the same state continued by both implementations; then each continued by the other one"""
    g = GENS[cls]; at = ATTR[cls]
    C = w.cls(g.mod, g.cls)
    a = C(w.ss("#a"), **kw); b = C(w.ss("#b"), **kw)
    st = g.symstate(w, a, "s", over)
    if cls == "ChaCha":
        st["state"]["ctr"] = w.arr([(w.sym("c0", 60) << 4) | over["pos"], w.sym("c1", 64)], "uint64")
    if cls == "SPECK128":
        rk = [w.sym("rk%d" % i, 64) for i in range(34)]
        st["state"]["round_key"] = w.arr([x for x in rk for _ in range(2)], "uint64")
    a.state = st; b.state = st
    k = "u64" if cls != "ChaCha" else "u32"
    setattr(a, at, True)
    x = [w.draw(a, k) for _ in range(n)]
    sa = a.state
    setattr(b, at, False)
    y = [w.draw(b, k) for _ in range(n)]
    w.eq("outputs", x, y); w.eq("states", sa, b.state)

def mixed(w, cls, kw, n):
    """switching in the middle of a block does not change the stream (fixed state, switch position arbitrary)"""
    g = GENS[cls]; at = ATTR[cls]
    C = w.cls(g.mod, g.cls)
    a = C(w.ss("#a"), **kw); b = C(w.ss("#a"), **kw)
    setattr(a, at, True)
    x = [w.draw(a, "u32") for _ in range(n)]
    s = [w.sym("switch%d" % i, 1) for i in range(3)]
    setattr(b, at, w.cond(s[0] == 1))
    y = []
    for i in range(n):
        if i in (n // 3, 2 * n // 3): setattr(b, at, w.cond(s[1 + i // (2 * n // 3)] == 1))
        y.append(w.draw(b, "u32"))
    w.eq("outputs", x, y); w.eq("states", a.state, b.state)

def seeded(w, cls, kw):
    """construction and the switch: the switch does not enter the seeded state"""
    g = GENS[cls]; at = ATTR[cls]
    C = w.cls(g.mod, g.cls)
    a = C(w.ss("r"), **kw)
    sa = a.state
    for v in (True, False):
        setattr(a, at, v)
        w.check("switch kept", bool(getattr(a, at)) == v)
        b = C(w.ss("r"), **kw)
        w.eq("state with the switch at %s" % v, b.state, sa)

def refuse(w, cls):
    """on a machine without the instructions the switch cannot be turned on"""
    g = GENS[cls]; at = ATTR[cls]
    a = w.cls(g.mod, g.cls)(w.ss("#a"))
    w.check("off", not getattr(a, at))
    w.raises(ValueError, setattr, a, at, True)
    w.check("still off", not getattr(a, at))

# ------------------------------------------------------------------ emulated 128-bit arithmetic
def eqt(w, label, n, a, b):
    from vp import terms as tm
    w.obligs.append((label, tm.eq(n, a, b), (n, a, b)))

def mult64(w):
    """the 64x64-bit product from 32-bit halves; the four partial products are opaque, with their range"""
    if not hasattr(w, "m"): return c07_step(w)
    from vp import terms as tm
    from vp.ctx import Ctx
    x = [tm.var("x%d" % i, 32) for i in range(2)]; y = [tm.var("y%d" % i, 32) for i in range(2)]
    m = w.m
    fn = m.find("_pcg_mult64")
    if fn is None: raise RuntimeError("no function _pcg_mult64")
    z1, z0 = m.alloc(8, "z1"), m.alloc(8, "z0")
    from vp.irparse import Types; IntT = Types().mkint
    X, Y = tm.cat([(x[0], 32), (x[1], 32)]), tm.cat([(y[0], 32), (y[1], 32)])
    m.run(fn, [X, Y, z1, z0])
    hi, lo = (m.load(IntT(64), p) for p in (z1, z0))
    Z = lambda t: tm.zext(t, 32, 64)
    sub = {}; P = {}
    for i in range(2):
        for j in range(2):
            P[i, j] = tm.var("p%d%d" % (i, j), 64)
            sub[tm.mul(64, Z(x[i]), Z(y[j]))] = P[i, j]
            sub[tm.mul(32, x[i], y[j])] = tm.ext(P[i, j], 0, 32)
    hi = tm.substitute([hi], sub)[0]
    lim = ((1 << 32) - 1) ** 2
    for v in P.values(): Ctx.cur.assume(tm.bnot(1, tm.ult(64, lim, v)))
    t = 0
    for (i, j), v in P.items(): t = tm.add(128, t, tm.cat([(0, 32 * (i + j)), (v, 64), (0, 64 - 32 * (i + j))]) if i + j else tm.zext(v, 64, 128))
    eqt(w, "high half", 64, hi, tm.ext(t, 64, 64))
    eqt(w, "low half", 64, lo, tm.mul(64, X, Y))

def mult128(w):
    """the 128-bit product from the 64x64-bit one"""
    if not hasattr(w, "m"): return c07_step(w)
    from vp import terms as tm
    from vp.irparse import Types; IntT = Types().mkint
    m = w.m; a = [tm.var(n, 64) for n in ("ah", "al", "bh", "bl")]; P = tm.var("p", 128)
    fn = m.find("pcg128_mult")
    if fn is None: raise RuntimeError("no function pcg128_mult")
    def f(m, args):
        w.check("operands", args[0] is a[1] and args[1] is a[3] or args[0] is a[3] and args[1] is a[1])
        m.store(IntT(64), args[2], tm.ext(P, 64, 64)); m.store(IntT(64), args[3], tm.ext(P, 0, 64))
    m.fn_override["_pcg_mult64"] = f
    hi, lo = m.run(fn, list(a))
    cross = tm.add(64, tm.mul(64, a[0], a[3]), tm.mul(64, a[1], a[2]))
    eqt(w, "product", 128, tm.cat([(lo, 64), (hi, 64)]), tm.add(128, P, tm.cat([(0, 64), (cross, 64)])))

def add128(w):
    if not hasattr(w, "m"): return c07_step(w)
    from vp import terms as tm
    m = w.m; a = [tm.var(n, 64) for n in ("ah", "al", "bh", "bl")]
    fn = m.find("pcg128_add")
    if fn is None: raise RuntimeError("no function pcg128_add")
    hi, lo = m.run(fn, list(a))
    eqt(w, "sum", 128, tm.cat([(lo, 64), (hi, 64)]), tm.add(128, tm.cat([(a[1], 64), (a[0], 64)]), tm.cat([(a[3], 64), (a[2], 64)])))

def c07_step(w): c07.step(w, GENS["PCG64"], 3)

def emu(w, fn, **kw):
    """the harness with the emulated sum and product replaced by what the lemmas show they compute"""
    if hasattr(w, "m"):
        from vp import terms as tm
        def op(f):
            def g(m, a):
                r = f(128, tm.cat([(a[1], 64), (a[0], 64)]), tm.cat([(a[3], 64), (a[2], 64)]))
                return [tm.ext(r, 64, 64) if type(r) is not int else r >> 64, tm.ext(r, 0, 64) if type(r) is not int else r & R.M64]
            return g
        w.m.fn_override["pcg128_mult"] = op(tm.mul)
        w.m.fn_override["pcg128_add"] = op(tm.add)
    fn(w, **kw)

NOSSE = {"sfmt": ["-UHAVE_SSE2"], "dsfmt": ["-UHAVE_SSE2"], "aes": ["-mno-aes"], "chacha": ["-mno-ssse3"], "speck128": ["-mno-ssse3"]}
EMU = {"pcg64": ["-DPCG_FORCE_EMULATED_128BIT_MATH", "-O0"]}
def derive(ts, rx, prefix, flags, replay, quick=None):
    out = []
    for t in ts:
        if not re.search(rx, t.name): continue
        t = copy.copy(t); t.name = prefix + t.name; t.deep = True
        f = {k: list(v) for k, v in t.flags.items()}
        for k, v in flags.items(): f[k] = f.get(k, []) + v
        t.flags = f; t.replay = replay
        if replay == "emu128": t.params = dict(t.params, fn=t.fn); t.fn = emu
        if quick is not None and t.quick: t.quick = bool(re.search(quick, t.name))
        out.append(t)
    return out

def tasks(tier):
    T = []
    for off in (0, 8, 56, 64):
        T.append(Task("aes.toggle.%d" % off, toggle, ["common", "aes"], dict(cls="AESCounter", kw={}, pre=0, n=9 if off else 8, over={"offset": off}), deadline=60, world={"xorpush": True},
                      bound="any round keys, counters, buffer at offset %d; 9 outputs" % off))
    for r in (2, 4):
        T.append(Task("chacha.toggle.%d" % r, toggle, ["common", "chacha"], dict(cls="ChaCha", kw={"rounds": r}, pre=0, n=17 if r < 0 else 16, over={"pos": 0, "keysetup": None}), deadline=100, quick=r == 2,
                      bound="any key and counter, %d rounds, one block" % r))
    for pos in (1, 15):
        T.append(Task("chacha.toggle.pos%d" % pos, toggle, ["common", "chacha"], dict(cls="ChaCha", kw={"rounds": 2}, pre=0, n=16 - pos, over={"pos": pos}), deadline=60, bound="any buffered block"))
    for off in (0, 88, 96):
        T.append(Task("speck.toggle.%d" % off, toggle, ["common", "speck128"], dict(cls="SPECK128", kw={}, pre=0, n=13 if off else 12, over={"offset": off}), deadline=60, bound="any round keys, counters, buffer at offset %d; 13 outputs" % off))
    for r in (8, 12, 20): T.append(Task("chacha.mixed.%d" % r, mixed, ["common", "chacha"], dict(cls="ChaCha", kw={"rounds": r}, n=51), deadline=60, bound="one key; every choice of implementation in three stretches of 51 draws"))
    T.append(Task("aes.mixed", mixed, ["common", "aes"], dict(cls="AESCounter", kw={}, n=51), deadline=60, bound="one key; every choice of implementation in three stretches of 51 draws"))
    T.append(Task("speck.mixed", mixed, ["common", "speck128"], dict(cls="SPECK128", kw={}, n=51), deadline=60, bound="one key; every choice of implementation in three stretches of 51 draws"))
    for c in ATTR:
        T.append(Task("seeded." + c, seeded, GENS[c].mods, dict(cls=c, kw={}), deadline=60, bound="any seed words", world={"xorpush": True} if c == "AESCounter" else {}))
        T.append(Task("refuse." + c, refuse, GENS[c].mods, dict(cls=c), deadline=60, world={"cpu_ecx": 0}, conc_ok=False, bound="processor without the instructions", memory=False))
    c7 = c07.tasks(tier); c2 = c02.tasks(tier); c3 = c03.tasks(tier)
    T += derive(c7, r"^aeskey", "ref.", {}, "plain")
    T += derive(c7, r"^(aes\.soft\.(0|64)|aeskey\.soft|chacha\.(2|20)\.scalar|speck\.scalar\.96|speckkey)", "nosse.", NOSSE, "nosse")
    T += derive(c7, r"^(sfmt|dsfmt|seed\.D?SFMT)", "nosse.", NOSSE, "nosse", r"^nosse\.(?!sfmt\.refill)")
    for t in T:
        if t.name == "nosse.sfmt.refill.some": t.deadline = 300
    T += derive(c3, r"^(twister|step|add)\.D?SFMT", "nosse.", NOSSE, "nosse", r"\.(add|step)\.|jumped1\.")
    for n, f in (("mult64", mult64), ("mult128", mult128), ("add128", add128)):
        T.append(Task("emu." + n, f, ["common", "pcg64"], {}, flags=EMU, replay="emu128", deadline=100, ms=60000, bound="any operands"))
    T += derive(c7, r"^(step|seed|lcgparam)\.?(PCG64|LCG128|xsl|dxsm|murmur|upper|lower)", "emu.", EMU, "emu128")
    T += derive(c2, r"^(lcg|draws|sum)\.(PCG64|LCG128Mix-(xsl-rr|upper))", "emu.", EMU, "emu128", r"emu\.(lcg|draws)\.(PCG64|PCG64DXSM|LCG128Mix-upper)\.")
    T += derive(c3, r"^lcg\.(PCG64|LCG128Mix-(xsl-rr|upper))", "emu.", EMU, "emu128", r"(jumped|jump)1$")
    return T
