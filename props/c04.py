"""C04: a seeded stream depends only on the seed."""
from vp.task import Task
from .gens import *

EXPLANATION = "An instance with an arbitrary state (all words symbolic) is reseeded and compared with a fresh instance given the same seed material: same state, same draws of every kind. Construction from fully symbolic seed words twice gives equal states that contain no uninitialised memory (reading uninitialised memory is reported by the engine)."
ASSUMPTIONS = ["states of the instance before the reseed are valid ones: flags 0/1, positions inside their buffers, increments odd"]

DRAWS = ("u32", "u64", "dbl", "raw", "u32", "u32")

def nofloat(w, k, v): return w.dbits(v) if k == "dbl" else v

OVER = {"LXM": {"b": None}}     # the multiplier b is configuration, not seeded
DEAD = ("buffer", "buffered_uint64", "buffered_uniforms", "uinteger")
def live(st, g):
    """the state without buffer contents (whether they can be reached is decided by the positions, which stay)"""
    o = {k: live(v, g) if isinstance(v, dict) else v for k, v in st.items() if k not in DEAD}
    if g.cls == "AESCounter" and "s" in o: o["s"] = {k: v for k, v in o["s"].items() if k != "state"}
    return o

def same(w, g, a, b, what, draws=DRAWS):
    w.eq("state after " + what, live(a.state, g), live(b.state, g))
    for i, k in enumerate(draws):
        w.eq("%s draw %d after %s" % (k, i, what), nofloat(w, k, w.draw(a, k)), nofloat(w, k, w.draw(b, k)))
    w.eq("state after the draws", live(a.state, g), live(b.state, g))

def reseed(w, g, tag="#r"):
    if tag == "r": nonzero(w, g)
    a = g.make(w, "#a")
    a.state = g.symstate(w, a, "s", OVER.get(g.cls))
    a.seed(w.ss(tag))
    same(w, g, a, g.make(w, tag), "reseeding")

def drawnreseed(w, g, n, tag="#r"):
    """reseeding after some draws from a fresh instance (histories that go through hidden fields)"""
    a = g.make(w, "#a")
    for k in DRAWS[:n]: w.draw(a, k)
    a.seed(w.ss(tag))
    same(w, g, a, g.make(w, tag), "reseeding")

def nonzero(w, g, n=8):
    if g.cls in ("LXM",):       # these redraw until a word is nonzero (without end for a seed sequence that only returns zeros)
        w.assume(w.or_(*[w.ssword("r", i) != 0 for i in range(n)]))

def twice(w, g):
    """fully symbolic seed words"""
    nonzero(w, g)
    a = g.make(w, "r"); b = g.make(w, "r")
    same(w, g, a, b, "construction", ("u32", "u64", "raw"))

def intseed(w, g, big=False):
    """integer seeds: the whole integer reaches the seed sequence; the reseeded instance equals the fresh one"""
    v = w.sym("seed", 63)
    a = g.make(w, "#a")
    a.state = g.symstate(w, a, "s", OVER.get(g.cls))
    a.seed(v)
    b = g.new(w, v)
    same(w, g, a, b, "an integer seed", ("u32", "u64"))

def ctrarr(w, g, cn, cw, low):
    c = [w.sym("ctr%d" % i, cw) for i in range(cn)] if cn else [w.sym("ctr", cw)]
    if low is not None: c[0] = ((c[0] >> 4) << 4) | low
    return w.arr(c, "uint%d" % cw) if cn else c[0]

def keyseed(w, g, kn, kw_, cn, cw, counter, low=None):
    """seed(key=, counter=) equals construction with that key and counter"""
    a = g.make(w, "#a")
    a.state = g.symstate(w, a, "s", OVER.get(g.cls))
    key = w.arr([w.sym("key%d" % i, kw_) for i in range(kn)], "uint%d" % kw_) if kn else w.sym("key", kw_)
    if g.cls == "Squares": w.assume(key % 2 == 1)
    kw = {"key": key}
    if counter:
        kw["counter"] = ctrarr(w, g, cn, cw, low)
    b = g.new(w, None, **kw)
    a.seed(None, **kw)
    same(w, g, a, b, "seed(key=...)", DRAWS if low is None else ("u32", "u64"))

def seedcounter(w, g, cn, cw, low=None):
    """seed(seed, counter=)"""
    a = g.make(w, "#a")
    a.state = g.symstate(w, a, "s", OVER.get(g.cls))
    c = ctrarr(w, g, cn, cw, low)
    a.seed(w.ss("#r"), counter=c)
    same(w, g, a, g.make(w, "#r", counter=c), "seed(seed, counter=...)", DRAWS if low is None else ("u32", "u64"))

def seedinc(w, g, width, none):
    a = g.make(w, "#a")
    a.state = g.symstate(w, a, "s", OVER.get(g.cls))
    inc = None if none else w.sym("inc", width)
    a.seed(w.ss("#r"), inc=inc)
    same(w, g, a, g.make(w, "#r", inc=inc), "seed(seed, inc=...)", ("u32", "u64", "raw"))

def tycheidx(w, g):
    a = g.make(w, "#a")
    a.state = g.symstate(w, a, "s", OVER.get(g.cls))
    i = w.sym("idx", 32)
    a.seed(w.ss("#r"), idx=i)
    same(w, g, a, g.make(w, "#r", idx=i), "seed(seed, idx=...)", ("u32", "u64", "raw"))

def indep(w, g, other):
    """work on other instances between two constructions does not show"""
    a = g.make(w, "#r")
    o = other.make(w, "#o"); o.state = other.symstate(w, o, "o")
    for k in ("u32", "u64"): w.draw(o, k)
    b = g.make(w, "#r")
    same(w, g, a, b, "construction", ("u32", "u64"))

KEYS = {"AESCounter": (2, 64, 2, 64), "ChaCha": (4, 64, 2, 64), "ChaCha8": (4, 64, 2, 64), "HC128": (4, 64, None, None), "SPECK128": (4, 64, 2, 64),
        "Philox-2x64": (1, 64, 2, 64), "Philox-4x64": (2, 64, 4, 64), "ThreeFry-2x64": (2, 64, 2, 64), "ThreeFry-4x64": (4, 64, 4, 64),
        "Philox-2x32": (0, 32, 0, 64), "Philox-4x32": (0, 64, 0, 128), "ThreeFry-2x32": (0, 64, 0, 64), "ThreeFry-4x32": (0, 128, 0, 128),
        "Squares64": (0, 64, 0, 64), "Squares32": (0, 64, 0, 64)}

def tasks(tier):
    T = []
    for g in GENS.values():
        d = 150 if "big" in g.tags else 60
        T.append(Task("reseed." + g.name, reseed, g.mods, dict(g=g), deadline=d, bound="any valid state before; one concrete seed; 6 draws"))
        T.append(Task("drawn." + g.name, drawnreseed, g.mods, dict(g=g, n=5), deadline=d, bound="5 draws before; one concrete seed; 6 draws", quick="big" in g.tags or "block" in g.tags))
        if "big" not in g.tags and not g.cls == "Squares":
            T.append(Task("twice." + g.name, twice, g.mods, dict(g=g), deadline=d, bound="every value of all seed words; 3 draws"))
            if g.cls != "EFIIX64": T.append(Task("reseedsym." + g.name, reseed, g.mods, dict(g=g, tag="r"), deadline=d, bound="any valid state before; every value of all seed words; 6 draws"))
        if g.name in KEYS:
            kn, kw_, cn, cw = KEYS[g.name]
            for low in ((0, 15) if g.cls == "ChaCha" else (None,)):
                sfx = "" if low is None else ".%d" % low
                for c in (False, True):
                    if c and cn is None or low and not c: continue
                    T.append(Task("key%s.%s%s" % (".counter" if c else "", g.name, sfx), keyseed, g.mods, dict(g=g, kn=kn, kw_=kw_, cn=cn, cw=cw, counter=c, low=low), deadline=d,
                                  bound="any valid state before; every key and counter%s; up to 6 draws" % ("" if low is None else " with low four bits %d" % low), quick=g.cls != "HC128"))
                if cn is not None:
                    T.append(Task("counter.%s%s" % (g.name, sfx), seedcounter, g.mods, dict(g=g, cn=cn, cw=cw, low=low), deadline=d, bound="any valid state before; one concrete seed, every counter; up to 6 draws"))
        if g.cls in ("PCG32", "PCG64", "LCG128Mix", "PCG64DXSM"):
            for none in (False, True):
                T.append(Task("inc%s.%s" % (".none" if none else "", g.name), seedinc, g.mods, dict(g=g, width=64 if g.cls == "PCG32" else 128, none=none), deadline=d, bound="any valid state before; one concrete seed; every increment"))
        if g.cls == "Tyche":
            T.append(Task("idx." + g.name, tycheidx, g.mods, dict(g=g), deadline=d, bound="any valid state before; one concrete seed, every idx below 2^32"))
        if g.name in ("Xoshiro256", "JSF64", "Romu-quad", "PCG64", "Philox-4x64"):
            T.append(Task("int." + g.name, intseed, g.mods, dict(g=g), deadline=d, bound="any valid state before; every integer seed below 2^63"))
            T.append(Task("indep." + g.name, indep, g.mods, dict(g=g, other=g), deadline=d, bound="two instances of one class"))
    return T
