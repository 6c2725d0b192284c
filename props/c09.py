"""C09: seeding never leaves a degenerate or invalid state."""
from vp.task import Task
from .gens import *
from . import ref as R
from . import c20

DEEP = False
EXPLANATION = "Every word the seed sequence can deliver is symbolic; the state after construction or reseeding, as the user reads it, is checked against the conditions the algorithm needs (odd increments, nonzero linear states, period certification, guard bits, positions)."
ASSUMPTIONS = ["the seed sequence may deliver any words (no assumption on its hash)", "Xoroshiro128, Xoshiro256, Xoshiro512 and Xorshift1024 take their words as delivered: no protection against an all-zero delivery is documented, none is demanded"]

def parity(w, x, n):
    while n > 1:
        n //= 2; x = (x ^ (x >> n)) & ((1 << n) - 1)
    return x

def rng(w, what, v, lo, hi): w.check("%s in %d..%d" % (what, lo, hi), w.and_(v >= lo, v <= hi))

def valid(w, g, st, fresh=True):
    """the conditions on a state"""
    if "has_uint32" in st:
        if fresh: w.eq("no half left over", st["has_uint32"], 0)
        else: rng(w, "flag", st["has_uint32"], 0, 1)
    s = st.get("state", st.get("s"))
    c = g.cls
    if c in ("PCG32", "PCG64", "PCG64DXSM", "LCG128Mix"): w.eq("odd increment", s["inc"] & 1, 1)
    if c == "LCG128Mix": w.eq("odd multiplier", s["multiplier"] & 1, 1); w.eq("odd dxsm multiplier", s["dxsm_multiplier"] & 1, 1)
    if c == "LXM":
        w.eq("odd increment", s["b"] & 1, 1)
        w.check("some nonzero word", w.or_(*[x != 0 for x in w.items(s["x"])]))
    if c == "SFC64": w.eq("odd increment", s["k"] & 1, 1)
    if c in ("MT19937", "MT64"):
        n = 624 if c == "MT19937" else 312
        k = w.items(s["key"])
        w.check("guard bit", k[0] >> (31 if n == 624 else 63) == 1)
        rng(w, "position", s["pos"], 0, n)
    if c == "SFMT":
        k = w.items(s["state"])
        w.check("period certification", parity(w, (k[0] & 1) ^ (k[3] & 0x13c9e684), 32) == 1)
        w.eq("position", s["idx"], 624)
        rng(w, "buffer position", st["buffer_loc"], 0, 312)
    if c == "DSFMT":
        k = w.items(s["state"])
        w.check("period certification", parity(w, ((k[382] ^ 0x90014964b32f4329) & 0x3d84e1ac0dc82880) ^ ((k[383] ^ 0x3b8d12ac548a7c7a) & 1), 64) == 1)
        for i in range(382): w.eq("exponent %d" % i, k[i] >> 52, 0x3ff)
        w.eq("position", s["idx"], 382)
        rng(w, "buffer position", st["buffer_loc"], 0, 382)
    if c == "HC128": rng(w, "index", s["hc_idx"], 0, 1023); rng(w, "buffer position", s["buffer_idx"], 0, 16)
    if c == "AESCounter": rng(w, "offset", s["offset"], 0, 64)
    if c == "SPECK128": rng(w, "offset", s["offset"], 0, 96)
    if c in ("Philox", "ThreeFry"): rng(w, "buffer position", st["buffer_pos"], 0, 4)
    if c == "Xorshift1024": rng(w, "position", s["p"], 0, 15)
    if c == "Tyche": return w.eq("no half left over", 0, 0)
    if c == "ChaCha": w.check("even positive number of rounds", s["rounds"] > 0 and s["rounds"] % 2 == 0)

def nonzero(w, g, st, words):
    """Romu: never all zero"""
    s = tuple(st["state"][k] for k in ("wxyz" if "quad" in g.name else "xyz"))
    if w.symbolic:
        # undo the warm-up; a permutation that maps zero to zero keeps a nonzero state nonzero
        from vp import solve, fw
        from vp.ctx import Ctx
        W64 = words
        z = w.ite(w.and_(*[x == 0 for x in W64]), 1, W64[3])
        first = R.fix(w, (W64[0], W64[1], W64[2], z) if len(s) == 4 else (W64[1], W64[2], z))
        t = R.fix(w, s)
        for _ in range(10): t = (c20.i_quad if len(s) == 4 else c20.i_trio)(t)
        if solve.prove_equal([(64, fw.at(a, 64), fw.at(b, 64)) for a, b in zip(t, first)], Ctx.cur.pc, 20000)[0] == "proved":
            w.eq("state before the warm-up", list(t), list(first))
            if len(s) == 4: w.check("that state is not zero", w.or_(*[x != 0 for x in first]))
            else: w.check("that state is not zero, or w alone is not", w.or_(*[x != 0 for x in first + (W64[0],)]))
            return
    w.check("not all zero", w.or_(*[st["state"][k] != 0 for k in "wxyz"]))

@R.fixed
def seeded(w, g, kw=None, used=False):
    """construction from, or reseeding with, arbitrary words"""
    if used:
        a = g.make(w, "#a", **(kw or {}))
        a.state = g.symstate(w, a, "s")
        a.seed(w.ss("r"))
    else: a = g.make(w, "r", **(kw or {}))
    st = a.state
    valid(w, g, st)
    if g.cls == "Romu": nonzero(w, g, st, [w.ssword("r", i, 64) for i in range(4)])

@R.fixed
def increment(w, g, width, how):
    """a user-supplied increment"""
    inc = w.sym("inc", width)
    if how == "ctor": a = g.make(w, "#a", inc=inc)
    else:
        a = g.make(w, "#a"); a.state = g.symstate(w, a, "s"); a.seed(w.ss("#r"), inc)
    valid(w, g, a.state)

@R.fixed
def weyl(w, kk, ww):
    k = w.sym("k", 64) if kk else 1; x = w.sym("w", 64) if ww else 1
    a = w.cls("sfc", "SFC64")(w.ss("r"), w=x, k=k)
    valid(w, GENS["SFC64"], a.state)
    a.seed(w.ss("#q"))
    valid(w, GENS["SFC64"], a.state)

def lxmb(w):
    b = w.sym("b", 64)
    L = w.cls("lxm", "LXM")
    if w.cond(b & 1 == 1):
        a = L(w.ss("#r"), b=b)
        w.eq("increment", a.state["state"]["b"], b)
    else: w.check("an even increment is refused or made odd", w.raises(ValueError, lambda: L(w.ss("#r"), b=b)) or _odd(w, L, b))
def _odd(w, L, b): return bool(L(w.ss("#r"), b=b).state["state"]["b"] & 1 == 1)

@R.fixed
def keyed(w, g, kn, cn):
    kw = {"key": w.arr([w.sym("k%d" % i, 64) for i in range(kn)], "uint64")}
    if cn: kw["counter"] = w.arr([w.sym("c%d" % i, 64) for i in range(cn)], "uint64")
    valid(w, g, g.new(w, **kw).state)

@R.fixed
def stepping(w, g, kinds):
    """the conditions survive draws"""
    a = g.make(w, "#a")
    a.state = g.symstate(w, a, "s", {"has_uint32": 0} if "has_uint32" in g.spec else None)
    for k in kinds: w.draw(a, k)
    valid(w, g, a.state, False)

def tasks(tier):
    T = []
    big = ("SFMT", "DSFMT", "MT19937", "MT64", "HC128")
    for n, g in GENS.items():
        if g.cls in ("EFIIX64", "Squares"): continue        # no condition on the state (Squares keys: C15)
        if g.cls != "HC128": T.append(Task("seed." + n, seeded, g.mods, dict(g=g), deadline=150, ms=60000, bound="every word the seed sequence delivers", world={"big": 3000} if g.cls in ("SFMT", "DSFMT") else {}))
        if g.cls not in ("SFMT", "DSFMT", "HC128"): T.append(Task("reseed." + n, seeded, g.mods, dict(g=g, used=True), deadline=150, ms=60000, bound="any valid state before; every word the seed sequence delivers", quick=g.name not in ("MT19937", "MT64")))
        if g.cls in ("PCG32", "PCG64", "LCG128Mix", "PCG64DXSM"):
            for how in ("ctor", "seed"): T.append(Task("inc.%s.%s" % (how, n), increment, g.mods, dict(g=g, width=64 if g.cls == "PCG32" else 128, how=how), deadline=60, bound="every increment"))
            T.append(Task("draws." + n, stepping, g.mods, dict(g=g, kinds=("u64", "dbl")), deadline=60, bound="any valid state; 2 draws"))
    for kk in (0, 1):
        for ww in (0, 1): T.append(Task("weyl.%d%d" % (kk, ww), weyl, ["common", "sfc"], dict(kk=kk, ww=ww), deadline=60, bound="every w and k; every seed word"))
    T.append(Task("lxmb", lxmb, ["common", "lxm"], {}, deadline=60, bound="every 64-bit increment"))
    for n, kn, cn in (("AESCounter", 2, 2), ("ChaCha", 4, 2), ("HC128", 4, 0), ("SPECK128", 4, 2), ("Philox-4x64", 2, 4), ("ThreeFry-4x64", 4, 4)):
        g = GENS[n]
        T.append(Task("key." + n, keyed, g.mods, dict(g=g, kn=kn, cn=cn), deadline=100, bound="every key and counter", quick=n != "HC128"))
    for n in ("LXM", "SFC64"): T.append(Task("draws." + n, stepping, GENS[n].mods, dict(g=GENS[n], kinds=("u64", "u32")), deadline=60, bound="any valid state; 2 draws", quick=n != "LXM"))
    return T
