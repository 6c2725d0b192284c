"""C14: bulk draws."""
from vp.task import Task
from .gens import *

EXPLANATION = "Bulk commands from an arbitrary valid state against a twin that makes the same number of single draws: values in C order, and the same state afterwards. Sizes are enumerated shapes and symbolic integers within the bound."
ASSUMPTIONS = ["states are valid ones", "shapes: None, integers 0..5 and the listed tuples"]

SHAPES = [0, 1, 3, 5, (), (4,), (2, 3), (3, 2), (2, 0), (0, 3), (1, 1, 4), (2, 1, 2)]
def prod(s):
    if isinstance(s, int): return s
    n = 1
    for x in s: n *= x
    return n
def shp(s): return (s,) if isinstance(s, int) else tuple(s)

def twins(w, g, tag="s", n=2):
    a = g.make(w, "#a")
    st = g.symstate(w, a, tag, g.over14)
    out = []
    for i in range(n):
        b = g.make(w, "#%d" % i); b.state = st; out.append(b)
    return out

def raw(w, g, shape):
    a, t, d = twins(w, g, n=3)
    n = prod(shape)
    want = [w.draw(t, "raw") for _ in range(n)]
    r = a.random_raw(shape)
    w.eq("shape", w.shape(r), shp(shape))
    w.eq("values in C order", w.items(r), want)
    w.check("discarding returns nothing", d.random_raw(shape, output=False) is None)
    w.eq("state after the draws", a.state, t.state)
    w.eq("state after discarding", d.state, t.state)

def rawnone(w, g):
    a, t, d = twins(w, g, n=3)
    x = w.draw(t, "raw")
    w.eq("one value", a.random_raw(), x)
    w.check("discarding returns nothing", d.random_raw(output=False) is None)
    w.eq("state after the draw", a.state, t.state)
    w.eq("state after discarding", d.state, t.state)

def rawsym(w, g, hi):
    """symbolic count"""
    a, t, d = twins(w, g, n=3)
    n = w.sym("n", 4); w.assume(n <= hi)
    n = w.int(n)
    for k in range(hi + 1):
        if w.cond(n == k):
            want = [w.draw(t, "raw") for _ in range(k)]
            w.eq("values", w.items(a.random_raw(n)), want)
            d.random_raw(n, output=False)
            w.eq("state after the draws", a.state, t.state)
            w.eq("state after discarding", d.state, t.state)
            return
    w.check("a count was met", False)

def uints(w, g, shape, bits):
    a, t = twins(w, g)
    G = w.cls("generator", "ExtendedGenerator")
    k = "u%d" % bits
    if shape is None:
        w.eq("one value", w.int(G(a).uintegers(None, bits)), w.draw(t, k))
    else:
        want = [w.draw(t, k) for _ in range(prod(shape))]
        r = G(a).uintegers(shape, bits)
        w.eq("shape", w.shape(r), shp(shape))
        w.eq("type", str(r.dtype), "uint%d" % bits)
        w.eq("values in C order", w.items(r), want)
    w.eq("state", a.state, t.state)

def uintbad(w, g, bits):
    a, t = twins(w, g)
    G = w.cls("generator", "ExtendedGenerator")
    w.check("refused", w.raises(ValueError, lambda: G(a).uintegers(2, bits)))
    w.eq("state", a.state, t.state)

def doubles(w, g, shape, dtype, out=False):
    a, t = twins(w, g)
    G = w.cls("generator", "ExtendedGenerator")
    if shape is None:
        r = G(a).random(dtype=dtype)
        if dtype == "float64": w.eq("one value", w.dbits(r), w.dbits(w.draw(t, "dbl")))
        elif dtype == "float32": w.eq("one value", w.f32bits(r), w.f32bits(w.dyadic(w.draw(t, "u32") >> 9, -23, 32)))
        else: w.draw(t, "u64")
    else:
        n = prod(shape)
        if dtype == "float64": want = [w.dbits(w.draw(t, "dbl")) for _ in range(n)]
        elif dtype == "float32": want = [w.f32bits(w.dyadic(w.draw(t, "u32") >> 9, -23, 32)) for _ in range(n)]
        else: want = [w.dyadic(w.draw(t, "u64"), -64, 80) if False else w.draw(t, "u64") for _ in range(n)]
        r = G(a).random(shape, dtype=dtype)
        w.eq("shape", w.shape(r), shp(shape))
        if dtype == "float64": w.eq("values in C order", [w.dbits(x) for x in w.fitems(r)], want)
        elif dtype == "float32": w.eq("values in C order", [w.f32bits(x) for x in w.fitems(r)], want)
        else: w.eq("number of values", len(w.fitems(r)), n)
    w.eq("state", a.state, t.state)

def outarg(w, g, shape, dtype):
    """out= is filled completely and returned; mismatching arrays are refused without drawing"""
    a, t, c = twins(w, g, n=3)
    G = w.cls("generator", "ExtendedGenerator")
    np = w.np
    n = prod(shape)
    k = {"float64": "dbl", "float32": "u32", "longdouble": "u64"}[dtype]
    ref = G(c).random(shape, dtype=dtype)
    o = np.zeros(shape, dtype=dtype)
    r = G(a).random(out=o, dtype=dtype)
    for _ in range(n): w.draw(t, k)
    if dtype == "float64": w.eq("out holds the values", [w.dbits(x) for x in w.fitems(o)], [w.dbits(x) for x in w.fitems(ref)])
    elif dtype == "float32": w.eq("out holds the values", [w.f32bits(x) for x in w.fitems(o)], [w.f32bits(x) for x in w.fitems(ref)])
    else: w.eq("out holds the values", w.fitems(o), w.fitems(ref))
    w.check("out is returned", r is o)
    w.eq("state", a.state, t.state)
    bad = "float32" if dtype == "float64" else "float64"
    for what, oo, sz in (("type", np.zeros(shape, dtype=bad), None), ("shape", np.zeros(shape, dtype=dtype), (n + 1,)), ("layout", np.zeros((n + 2, 2), dtype=dtype)[:, 0], None)):
        w.check("out of the wrong %s is refused" % what, w.raises((ValueError, TypeError), lambda: G(a).random(sz, dtype=dtype, out=oo)))
    w.eq("state after refusals", a.state, t.state)

def seq(w, g):
    """one bulk command equals two smaller ones"""
    a, b = twins(w, g)
    x = w.items(a.random_raw(5))
    y = w.items(b.random_raw((2, 1))) + [b.random_raw()] + w.items(b.random_raw(2))
    w.eq("values", x, y)
    G = w.cls("generator", "ExtendedGenerator")
    x = w.items(G(a).uintegers(5, 32)); y = w.items(G(b).uintegers(3, 32)) + w.items(G(b).uintegers((1, 2), 32))
    w.eq("32-bit values", x, y)
    w.eq("state", a.state, b.state)

EGMODS = ["generator", "broadcasting", "distributions"]
def tasks(tier):
    T = []
    for g in GENS.values():
        g.over14 = None
        d = 120
        full = g.name in ("Xoshiro256", "PCG32", "JSF32", "Philox-2x64", "SFC64", "Tyche", "MT19937")
        block = "big" in g.tags or "block" in g.tags
        q = full
        for s in (SHAPES if full else [5, (2, 3)]):
            T.append(Task("raw.%s.%s" % (g.name, s), raw, g.mods, dict(g=g, shape=s), deadline=d, bound="any valid state; shape %s" % (s,), quick=(full and not block) or s in (5, (2, 3), (2, 0))))
        T.append(Task("raw1.%s" % g.name, rawnone, g.mods, dict(g=g), deadline=d, bound="any valid state; one draw"))
        T.append(Task("seq.%s" % g.name, seq, EGMODS + g.mods, dict(g=g), deadline=d, bound="any valid state; 5 + 5 draws split differently", quick=not block))
        if full:
            T.append(Task("rawn.%s" % g.name, rawsym, g.mods, dict(g=g, hi=5), deadline=d, bound="any valid state; every count 0..5", quick=not block))
        for s in ([None] + SHAPES if full else [None, (2, 3)]):
            for b in (32, 64):
                T.append(Task("uint%d.%s.%s" % (b, g.name, s), uints, EGMODS + g.mods, dict(g=g, shape=s, bits=b), deadline=d, bound="any valid state; shape %s" % (s,), quick=(full and not block) or s == (2, 3)))
            for dt in ("float64", "float32", "longdouble"):
                if g.name in ("Xoshiro256", "PCG32", "MT19937") or tier == "thorough":
                    T.append(Task("%s.%s.%s" % (dt, g.name, s), doubles, EGMODS + g.mods, dict(g=g, shape=s, dtype=dt), deadline=d, bound="any valid state; shape %s" % (s,), quick=(full and not block) or s == (2, 3)))
        if g.name in ("Xoshiro256", "PCG32", "SFC64", "LCG128Mix-lower", "JSF32"):
            for n in (17, 34, 67, 132) + ((260, 1030) if g.name in ("Xoshiro256", "PCG32") else ()):
                q = n < 100 or g.name in ("Xoshiro256", "PCG32") and n < 1000
                b = "any valid state; %d values" % n
                T.append(Task("raw.%s.%d" % (g.name, n), raw, g.mods, dict(g=g, shape=n), deadline=d, bound=b, quick=q))
                for bits in (32, 64): T.append(Task("uint%d.%s.%d" % (bits, g.name, n), uints, EGMODS + g.mods, dict(g=g, shape=n, bits=bits), deadline=d, bound=b, quick=q))
                for dt in ("float64", "float32"): T.append(Task("%s.%s.%d" % (dt, g.name, n), doubles, EGMODS + g.mods, dict(g=g, shape=n, dtype=dt), deadline=d, bound=b, quick=q))
        if g.name in ("Xoshiro256", "PCG32"):
            for dt in ("float64", "float32", "longdouble"):
                for s in (3, (2, 2), (0,)):
                    T.append(Task("out.%s.%s.%s" % (dt, g.name, s), outarg, EGMODS + g.mods, dict(g=g, shape=s, dtype=dt), deadline=d, bound="any valid state; shape %s" % (s,)))
            for b in (0, 16, 31, 33, 63, 128):
                T.append(Task("bits.%s.%d" % (g.name, b), uintbad, EGMODS + g.mods, dict(g=g, bits=b), deadline=d, bound="any valid state; bits=%d" % b))
    return T
