"""C01: restoring a saved state resumes exactly the same stream."""
from vp.task import Task
from .gens import *

EXPLANATION = "State dictionary round trip from an arbitrary valid state (all state words symbolic), for every generator configuration."
ASSUMPTIONS = ["states are valid ones: flags 0/1, positions inside their buffers, increments odd"]

def roundtrip(w, g, pre, seq, over=None, low=None):
    a = g.make(w, "#a")
    st = g.symstate(w, a, "s", over)
    if low is not None:         # ChaCha: position inside the block
        c = w.items(st["state"]["ctr"])
        st["state"]["ctr"] = w.arr([((c[0] >> 4) << 4) | low, c[1]], "uint64")
    a.state = st
    w.eq("reading back what was assigned", a.state, st)
    t = g.make(w, "#t"); t.state = st                     # twin whose state is never read
    for k in pre: w.draw(a, k); w.draw(t, k)
    saved = a.state
    b = g.make(w, "#b")
    for k in pre[:1]: w.draw(b, k)
    b.state = saved
    w.eq("state after assignment", b.state, saved)
    for i, k in enumerate(seq):
        x = w.draw(a, k); y = w.draw(b, k); z = w.draw(t, k)
        w.eq("draw %d (%s) of the restored instance" % (i, k), y, x)
        w.eq("draw %d (%s) after reading the state" % (i, k), x, z)
    w.eq("states after the draws", b.state, a.state)
    w.eq("state of the undisturbed twin", t.state, a.state)

def selfrestore(w, g, seq, over=None):
    """restoring an instance to its own earlier state"""
    a = g.make(w, "#a")
    a.state = g.symstate(w, a, "s", over)
    w.draw(a, "u32")
    saved = a.state
    x = [w.draw(a, k) for k in seq]
    e = a.state
    a.state = saved
    y = [w.draw(a, k) for k in seq]
    w.eq("replayed draws", y, x)
    w.eq("state after replay", a.state, e)

def cross(w, g, h, seq, over=None):
    """restoring into an instance of the same class built with other options"""
    a = g.make(w, "#a")
    st = g.symstate(w, a, "s", over)
    a.state = st
    b = h.make(w, "#b")
    w.draw(b, "u32")
    b.state = a.state
    w.eq("state after assignment", b.state, a.state)
    for i, k in enumerate(seq):
        w.eq("draw %d (%s)" % (i, k), w.draw(b, k), w.draw(a, k))
    w.eq("states after the draws", b.state, a.state)

def tasks(tier):
    T = []
    byc = {}
    for g in GENS.values(): byc.setdefault(g.cls, []).append(g)
    for c, gs in byc.items():
        for i, g in enumerate(gs):
            for j, h in enumerate(gs):
                if g is h: continue
                near = (j == (i + 1) % len(gs))
                T.append(Task("cross.%s.into.%s" % (g.name, h.name), cross, g.mods, dict(g=g, h=h, seq=("u32", "u64", "dbl", "raw")), deadline=60, quick=near,
                              bound="any valid state of %s assigned to a used instance of %s; 4 draws" % (g.name, h.name)))
    for g in GENS.values():
        big = "big" in g.tags
        seqs = [("u32", "u64", "dbl", "u32"), ("u32", "u32", "u64")]
        d = 150 if big else 60
        pos = [k for k, s in g.spec.items() if isinstance(s, tuple) and s and s[0] == "range"]
        if g.cls == "ChaCha":
            for low in range(16):
                T.append(Task("roundtrip.%s.%d" % (g.name, low), roundtrip, g.mods, dict(g=g, pre=("u32",), seq=("u32", "u64", "dbl", "u32"), low=low), deadline=d, quick=low in (0, 5, 11, 15),
                      bound="any valid state at word %d of a block; one 32-bit draw before saving; u32,u64,double,u32 after restoring" % low))
        T.append(Task("roundtrip.%s" % g.name, roundtrip, g.mods, dict(g=g, pre=("u32",), seq=("u32", "u64", "dbl", "u32")), deadline=d if g.cls != "ChaCha" else 400, quick=g.cls != "ChaCha",
                      bound="any valid state; one 32-bit draw before saving; u32,u64,double,u32 after restoring"))
        T.append(Task("selfrestore.%s" % g.name, selfrestore, g.mods, dict(g=g, seq=("u64", "u32", "u32")), deadline=d, quick=not big,
                      bound="any valid state; 1 draw, save, 3 draws, restore, 3 draws"))
        T.append(Task("roundtrip0.%s" % g.name, roundtrip, g.mods, dict(g=g, pre=(), seq=("u64", "u32", "dbl")), deadline=d, quick=False,
                      bound="any valid state; restored directly; u64,u32,double after restoring"))
    return T
