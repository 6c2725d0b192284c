"""C05: mixed 32/64-bit draws."""
from vp.task import Task
from .gens import *

EXPLANATION = "Draw programs from an arbitrary valid state (all state words symbolic), compared with a twin that draws the native stream only, for every generator configuration."
ASSUMPTIONS = ["states are valid ones: flags 0/1, positions inside their buffers, increments odd"]
M32 = 0xffffffff

def pairgens(w, g, over=None, n=2, low=None):
    a = g.make(w, "#a")
    st = g.symstate(w, a, "s", over)
    if low is not None:
        c = w.items(st["state"]["ctr"])
        st["state"]["ctr"] = w.arr([((c[0] >> 4) << 4) | low, c[1]], "uint64")
    out = []
    for i in range(n):
        b = g.make(w, "#%d" % i); b.state = st
        out.append(b)
    return st, out

def halves(w, g):
    """64-bit generators: two 32-bit draws are the low and high half of one output; 64-bit and double draws leave a buffered half alone"""
    st, (a, t) = pairgens(w, g, {"has_uint32": 0})
    x = w.draw(t, "u64")
    h = w.draw(a, "u32")
    s = a.state
    w.eq("first 32-bit draw", h, x & M32)
    w.eq("a half is buffered", s["has_uint32"], 1)
    w.eq("the buffered half", s["uinteger"], x >> 32)
    y = w.draw(t, "u64")
    w.eq("64-bit draw with a buffered half", w.draw(a, "u64"), y)
    w.eq("the half survives a 64-bit draw", a.state["uinteger"], x >> 32)
    w.eq("the flag survives a 64-bit draw", a.state["has_uint32"], 1)
    w.eq("double draw with a buffered half", w.dbits(w.draw(a, "dbl")), w.dbits(w.draw(t, "dbl")))
    w.eq("raw draw with a buffered half", w.draw(a, "raw"), w.draw(t, "raw"))
    w.eq("second 32-bit draw", w.draw(a, "u32"), x >> 32)
    w.eq("nothing buffered any more", a.state["has_uint32"], 0)
    z = w.draw(t, "u64")
    w.eq("third 32-bit draw starts the next output", w.draw(a, "u32"), z & M32)
    w.eq("fourth 32-bit draw", w.draw(a, "u32"), z >> 32)
    sa, stt = a.state, t.state
    for q in (sa, stt): q.pop("uinteger", None)
    w.eq("same state as the twin", sa, stt)

def flagfree(w, g):
    """64-bit draws do not depend on the flag or on the buffered half"""
    st, (a, t) = pairgens(w, g)
    t0 = t.state; t0["has_uint32"] = 0; t0["uinteger"] = 0; t.state = t0
    for k in ("u64", "dbl", "raw", "u64"):
        w.eq("%s draw" % k, w.draw(a, k) if k != "dbl" else w.dbits(w.draw(a, k)), w.draw(t, k) if k != "dbl" else w.dbits(w.draw(t, k)))
    w.eq("flag kept", a.state["has_uint32"], st["has_uint32"])
    w.eq("half kept", a.state["uinteger"], st["uinteger"])

def pairs(w, g, low=None):
    """32-bit generators: a 64-bit draw is two consecutive 32-bit draws in the fixed order"""
    st, (a, t) = pairgens(w, g, low=low)
    def two():
        x, y = w.draw(t, "u32"), w.draw(t, "u32")
        return (x << 32) | y if g.pair == "hi" else x | (y << 32)
    w.eq("64-bit draw", w.draw(a, "u64"), two())
    w.eq("raw draw", w.draw(a, "raw"), w.draw(t, "u32") if g.rawdraw == 32 else two())
    w.eq("64-bit draw at another position", w.draw(a, "u64"), two())
    w.eq("32-bit draw", w.draw(a, "u32"), w.draw(t, "u32"))
    w.draw(a, "dbl"); w.draw(t, "u32"); w.draw(t, "u32")
    w.eq("64-bit draw after a double", w.draw(a, "u64"), two())
    w.eq("same state as the twin", a.state, t.state)

def dsfmt(w, g, loc):
    """DSFMT: every draw takes whole mantissas: 32-bit one, 64-bit two, double one"""
    over = {"buffer_loc": loc}
    st, (a, t) = pairgens(w, g, over)
    x, y, z, v = [w.draw(t, "raw") for _ in range(4)]
    w.eq("32-bit draw", w.draw(a, "u32"), (x >> 16) & M32)
    w.eq("64-bit draw", w.draw(a, "u64"), (((y >> 16) & M32) << 32) | ((z >> 16) & M32))
    w.draw(a, "dbl")
    w.eq("raw draw", w.draw(a, "raw"), w.draw(t, "raw"))
    w.eq("same state as the twin", a.state, t.state)

def discard(w, g, how, sh=0):
    """seed, advance and jump drop a buffered half"""
    a = g.make(w, "#a")
    a.state = g.symstate(w, a, "s", {"has_uint32": 1})
    if how == "seed": a.seed(w.ss("#r"))
    elif how == "advance": a.advance((w.sym("n", 32) + 1) << sh if sh >= 0 else -(w.sym("n", 32) + 1))
    elif how == "jump": a = a.jumped()
    elif how == "jumpin": a.jump()
    s = a.state
    w.eq("no buffered half after %s" % how, s["has_uint32"], 0)
    if how != "advance":
        b = g.make(w, "#b"); s2 = dict(s); s2["has_uint32"] = 0; b.state = s2
        x = w.draw(b, "u64")
        w.eq("the next 32-bit draw comes from a new output", w.draw(a, "u32"), x & M32)

ADV = {"AESCounter", "SPECK128", "Philox", "ThreeFry", "PCG64", "PCG64DXSM", "LCG128Mix", "Squares"}
JUMP = {"AESCounter", "SPECK128", "Philox", "ThreeFry", "PCG64", "LCG128Mix", "Squares", "LXM", "Xoroshiro128", "Xorshift1024", "Xoshiro256", "Xoshiro512", "SFMT"}

def tasks(tier):
    T = []
    for g in GENS.values():
        d = 150 if "big" in g.tags else 60
        if g.half == "lohi":
            T.append(Task("halves." + g.name, halves, g.mods, dict(g=g), deadline=d, bound="any valid state; 9 draws"))
            T.append(Task("flagfree." + g.name, flagfree, g.mods, dict(g=g), deadline=d, bound="any valid state; 4 draws", quick="big" not in g.tags))
            if "big" not in g.tags or tier == "thorough":
                T.append(Task("discard.seed." + g.name, discard, g.mods, dict(g=g, how="seed"), deadline=d, bound="any valid state, one concrete seed"))
                if g.cls in JUMP:
                    T.append(Task("discard.jumped." + g.name, discard, g.mods, dict(g=g, how="jump"), deadline=d, bound="any valid state, one jump", quick="f2" not in g.tags or g.name in ("Xoroshiro128", "Xoshiro256")))
                    T.append(Task("discard.jump." + g.name, discard, g.mods, dict(g=g, how="jumpin"), deadline=d, bound="any valid state, one jump", quick=False))
            if g.cls in ADV:
                for sh in (0, 32, 64, 96, -1):
                    if sh > 0 and g.cls == "Squares" and sh > 31 or sh == -1 and g.cls == "Squares": continue
                    T.append(Task("discard.advance%s.%s" % ("" if not sh else ".neg" if sh < 0 else ".%d" % sh, g.name), discard, g.mods, dict(g=g, how="advance", sh=sh), deadline=d, bound="any valid state, delta %s1..2^32%s" % ("-" if sh < 0 else "", " times 2^%d" % sh if sh > 0 else ""), quick="pre" not in g.name and g.name[-4:] not in ("pper", "ower", "mur3")))
        elif g.half == "pair":
            if g.cls == "ChaCha":
                for low in range(16): T.append(Task("pairs.%s.%d" % (g.name, low), pairs, g.mods, dict(g=g, low=low), deadline=d, bound="any valid state at word %d of a block; 6 draws" % low, quick=low in (0, 3, 8, 14, 15)))
            else: T.append(Task("pairs." + g.name, pairs, g.mods, dict(g=g), deadline=d, bound="any valid state; 6 draws"))
        elif g.cls == "DSFMT":
            for loc in (0, 379, 380, 381, 382):
                T.append(Task("dsfmt.%d" % loc, dsfmt, g.mods, dict(g=g, loc=loc), deadline=d, bound="any valid state with buffer position %d; 4 draws" % loc, quick=loc >= 380))
    return T
