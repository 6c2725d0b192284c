"""C06: doubles are exact images of the raw bits."""
from vp.task import Task
from .gens import *

EXPLANATION = "Double draws from an arbitrary valid state compared with the exact dyadic rational built from the raw words a twin draws."
ASSUMPTIONS = ["states are valid ones: flags 0/1, positions inside their buffers, increments odd", "DSFMT buffers hold doubles in [1,2), which C09/C07 establish for seeded states"]

def twins(w, g, over=None):
    a = g.make(w, "#a")
    st = g.symstate(w, a, "s", over)
    a.state = st
    t = g.make(w, "#t"); t.state = st
    return a, t

def expected(w, g, t):
    if g.dbl == "top53": return w.dyadic(w.draw(t, "u64") >> 11, -53)
    x, y = w.draw(t, "u32"), w.draw(t, "u32")
    return w.dyadic(((x >> 5) << 26) + (y >> 6), -53)

def exact(w, g, n=2, pre=()):
    a, t = twins(w, g)
    for k in pre: w.draw(a, k); w.draw(t, k)
    for i in range(n):
        d = w.draw(a, "dbl")
        w.eq("double %d" % i, w.dbits(d), w.dbits(expected(w, g, t)))
        w.check("double %d in [0,1)" % i, w.lt1(d))
    w.eq("state after the doubles", a.state, t.state)

def dsfmt_bits(w, tag, st):
    """buffered values of the form [1,2)"""
    u = []
    for i in range(w.shape(st["buffered_uniforms"])[0]):
        u.append(w.f64(0x3ff0000000000000 | w.sym("%s.u[%d]" % (tag, i), 52)))
    return w.farr(u)

def exact_dsfmt(w, g, loc, n=2):
    a = g.make(w, "#a")
    st = g.symstate(w, a, "s", {"buffer_loc": loc, "buffered_uniforms": "keep", "state": "keep"})
    st["state"] = dict(st["state"])
    st["buffered_uniforms"] = dsfmt_bits(w, "s", st)
    a.state = st
    t = g.make(w, "#t"); t.state = st
    for i in range(n):
        m = w.draw(t, "raw") & ((1 << 52) - 1)
        d = w.draw(a, "dbl")
        w.eq("double %d" % i, w.dbits(d), w.dbits(w.dyadic(m, -52)))
        w.check("double %d in [0,1)" % i, w.lt1(d))
    w.eq("state after the doubles", a.state, t.state)

def generator_random(w, g, dtype, size):
    """ExtendedGenerator.random"""
    a, t = twins(w, g)
    eg = w.cls("generator", "ExtendedGenerator")(a)
    r = eg.random(size, dtype)
    n = 1
    for x in (size or ()): n *= x
    vals = [r] if size is None else w.fitems(r)
    for i in range(n):
        if dtype == "float64": e = expected(w, g, t)
        elif dtype == "float32": e = w.dyadic(w.draw(t, "u32") >> 9, -23, 32)
        else: e = w.dyadic(w.draw(t, "u64"), -64, 80)
        v = vals[i]
        if dtype == "float32": w.eq("value %d" % i, w.f32bits(v), w.f32bits(e))
        elif dtype == "float64": w.eq("value %d" % i, w.dbits(v), w.dbits(e))
        else: w.eq("value %d" % i, v, e)
        w.check("value %d in [0,1)" % i, w.lt1(v))
    w.eq("state after random", a.state, t.state)

def tasks(tier):
    T = []
    for g in GENS.values():
        big = "big" in g.tags
        d = 150 if big else 60
        if g.cls == "DSFMT":
            for loc in (0, 200, 380, 381, 382):
                T.append(Task("dsfmt.%d" % loc, exact_dsfmt, g.mods, dict(g=g, loc=loc), deadline=d, quick=loc in (0, 381), bound="any [1,2) buffer, position %d, concrete recursion state; 2 doubles" % loc))
            continue
        T.append(Task("exact." + g.name, exact, g.mods, dict(g=g), deadline=d, bound="any valid state; 2 doubles"))
        T.append(Task("exact32." + g.name, exact, g.mods, dict(g=g, pre=("u32",)), deadline=d, quick=not big, bound="any valid state; a 32-bit draw, then 2 doubles"))
    for nm in ("PCG64", "JSF32", "PCG32", "SFC64", "Xoroshiro128", "Squares32", "Romu-quad", "LXM"):
        g = GENS[nm]
        mods = g.mods + ["generator", "broadcasting", "distributions", "pcg64"]
        for dt in ("float64", "float32", "longdouble"):
            for size in (None, (3,), (2, 2)):
                T.append(Task("random.%s.%s.%s" % (nm, dt, "x".join(map(str, size or ())) or "scalar"), generator_random, mods, dict(g=g, dtype=dt, size=size), deadline=60,
                              quick=nm in ("PCG64", "JSF32", "SFC64"), bound="any valid state; %s values" % (size,)))
    return T
