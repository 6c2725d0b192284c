"""C17: user-defined generators deliver the values their functions return."""
from vp.task import Task
from .gens import *
from . import ref as R

EXPLANATION = "UserBitGenerator and the native entry points it publishes are executed with user functions whose k-th return value is a free symbolic word; every draw is compared with the documented combination of those words."
ASSUMPTIONS = ["ctypes is modelled: a prototype called with a Python function yields an entry point that passes the pointer (None for NULL) and reduces the result to the C type",
               "the user's functions run without exceptions and return values of the documented width"]

class Source:
    """a user function; call k returns the k-th word and records the pointer it was given"""
    def __init__(self, w, name, width, wrap=None): self.w = w; self.name = name; self.width = width; self.n = 0; self.seen = []; self.words = []; self.wrap = wrap
    def word(self, i):
        while len(self.words) <= i: self.words.append(self.w.sym("%s%d" % (self.name, len(self.words)), self.width))
        return self.words[i]
    def fn(self):
        def f(p):
            self.seen.append(p)
            v = self.word(self.n); self.n += 1
            return self.wrap(v) if self.wrap else v
        return f

def dbl(w, hi53): return w.dbits(w.dyadic(hi53, -53))

def defaulted(w, bits, kinds, given=(), state=None):
    """draws of any kind; functions not given are derived from next_raw"""
    raw = Source(w, "r", bits)
    S = {"u64": Source(w, "a", 64), "u32": Source(w, "b", 32), "dbl": Source(w, "d", 53, lambda v: w.dyadic(v, -53))}
    kw = {}
    names = {"u64": "next_64", "u32": "next_32", "dbl": "next_double"}
    for k in given: kw[names[k]] = S[k].fn()
    if state is not None: kw["state"] = w.ctypes.c_void_p(state)
    bg = w.cls("wrapper", "UserBitGenerator")(raw.fn(), bits, **kw)
    pos = 0; own = dict.fromkeys(S, 0)
    def nxt():
        nonlocal pos
        pos += 1; return raw.word(pos - 1)
    for i, k in enumerate(kinds):
        got = w.draw(bg, k)
        if k in given:
            v = S[k].word(own[k]); own[k] += 1
            want = dbl(w, v) if k == "dbl" else v
        elif k == "raw": want = nxt()
        elif k == "u64":
            want = nxt()
            if bits == 32: want = (want << 32) | nxt()
        elif k == "u32":
            want = nxt()
            if bits == 64: want = want >> 32
        else:
            a = nxt()
            if bits == 64: want = dbl(w, a >> 11)
            else: b = nxt(); want = dbl(w, ((a >> 5) << 26) | (b >> 6))
        w.eq("draw %d (%s)" % (i, k), w.dbits(got) if k == "dbl" else got, want)
    w.check("raw function called once per value", raw.n == pos)
    for k in S: w.check("%s function called once per value" % k, S[k].n == own[k])
    for s in [raw] + list(S.values()):
        for p in s.seen: w.check("pointer passed through", p == state if state is not None else p is None)

def ctyped(w, kinds, state):
    ct = w.ctypes
    S = {"raw": Source(w, "r", 64), "u64": Source(w, "a", 64), "u32": Source(w, "b", 32), "dbl": Source(w, "d", 53, lambda v: w.dyadic(v, -53))}
    ty = {"raw": ct.c_uint64, "u64": ct.c_uint64, "u32": ct.c_uint32, "dbl": ct.c_double}
    F = {k: ct.CFUNCTYPE(ty[k], ct.c_void_p)(S[k].fn()) for k in S}
    st = ct.c_void_p(state) if state is not None else None
    box = {"v": 0}
    bg = w.cls("wrapper", "UserBitGenerator").from_ctypes(F["raw"], F["u64"], F["u32"], F["dbl"], st, lambda: box["v"], lambda v: box.update(v=v))
    own = dict.fromkeys(S, 0)
    for i, k in enumerate(kinds):
        got = w.draw(bg, k)
        v = S[k].word(own[k]); own[k] += 1
        w.eq("draw %d (%s)" % (i, k), w.dbits(got) if k == "dbl" else got, dbl(w, v) if k == "dbl" else v)
    for k in S:
        w.check("%s function called once per value" % k, S[k].n == own[k])
        for p in S[k].seen: w.check("pointer passed through", p == state if state is not None else p is None)
    x = w.sym("x", 64)
    bg.state = x
    w.eq("setter received", box["v"], x); w.eq("getter returns", bg.state, x)

def wrongtypes(w, slot):
    """a function of another return type is refused"""
    ct = w.ctypes
    ty = [ct.c_uint64, ct.c_uint64, ct.c_uint32, ct.c_double]
    F = [ct.CFUNCTYPE(t, ct.c_void_p)(lambda p: 0) for t in ty]
    U = w.cls("wrapper", "UserBitGenerator")
    for t in (ct.c_uint64, ct.c_uint32, ct.c_double):
        if t is ty[slot]: continue
        G = list(F); G[slot] = ct.CFUNCTYPE(t, ct.c_void_p)(lambda p: 0)
        w.check("refused", w.raises(TypeError, lambda: U.from_ctypes(*G, None)))
    G = list(F); G[slot] = lambda p: 0
    w.check("a plain function is refused", w.raises(TypeError, lambda: U.from_ctypes(*G, None)))

def nostate(w):
    bg = w.cls("wrapper", "UserBitGenerator")(Source(w, "r", 64).fn())
    w.check("no getter", w.raises(NotImplementedError, lambda: bg.state))
    def put(): bg.state = 1
    w.check("no setter", w.raises(NotImplementedError, put))

def states(w, bits):
    raw = Source(w, "r", bits)
    first = w.sym("s", 64); second = w.sym("t", 64)
    box = {"v": first}
    bg = w.cls("wrapper", "UserBitGenerator")(raw.fn(), bits, state_getter=lambda: box["v"], state_setter=lambda v: box.update(v=v))
    w.eq("getter", bg.state, first)
    bg.state = second
    w.eq("setter", box["v"], second)
    w.check("reading or writing the state draws nothing", raw.n == 0)

def bulk(w, bits, shape, output):
    raw = Source(w, "r", bits)
    bg = w.cls("wrapper", "UserBitGenerator")(raw.fn(), bits)
    n = 1
    for x in shape: n *= x
    r = bg.random_raw(shape, output)
    w.check("one value each", raw.n == n)
    if output: w.eq("values", w.items(r), [raw.word(i) for i in range(n)])
    else: w.check("nothing returned", r is None)

def egen(w, bits, what, n):
    """through ExtendedGenerator"""
    raw = Source(w, "r", bits)
    bg = w.cls("wrapper", "UserBitGenerator")(raw.fn(), bits)
    E = w.cls("generator", "ExtendedGenerator")(bg)
    if what == "uint64":
        r = E.uintegers(n, 64); k = 64 // bits
        w.eq("values", w.items(r), [raw.word(i) if bits == 64 else (raw.word(2 * i) << 32) | raw.word(2 * i + 1) for i in range(n)])
    elif what == "uint32":
        r = E.uintegers(n, 32); k = 1
        w.eq("values", w.items(r), [raw.word(i) if bits == 32 else raw.word(i) >> 32 for i in range(n)])
    else:
        r = E.random(n); k = 64 // bits
        w.eq("values", [w.dbits(x) for x in w.fitems(r)], [dbl(w, raw.word(i) >> 11 if bits == 64 else ((raw.word(2 * i) >> 5) << 26) | (raw.word(2 * i + 1) >> 6)) for i in range(n)])
    w.check("each value used once", raw.n == k * n)

def tasks(tier):
    T = []
    def add(name, fn, mods=("common", "wrapper"), **p): T.append(Task(name, fn, list(mods), p, deadline=60, ms=20000, bound="every return value of the user's functions (up to %d draws)" % len(p.get("kinds", "12345")), quick=True))
    mixes = [("raw", "u64", "u32", "dbl"), ("u32", "u32", "u64", "dbl", "raw", "u32"), ("dbl", "u32", "dbl", "u64")]
    for b in (32, 64):
        for i, k in enumerate(mixes):
            add("default%d.%d" % (b, i), defaulted, bits=b, kinds=k)
            add("default%d.%d.ptr" % (b, i), defaulted, bits=b, kinds=k, state=4096 + 8 * i)
        for g in (("u64",), ("u32",), ("dbl",), ("u64", "u32"), ("u64", "dbl"), ("u32", "dbl"), ("u64", "u32", "dbl")):
            for i, k in enumerate(mixes):
                add("given%d.%s.%d" % (b, "+".join(g), i), defaulted, bits=b, kinds=k, given=g)
            add("given%d.%s.ptr" % (b, "+".join(g)), defaulted, bits=b, kinds=mixes[0], given=g, state=4096)
        add("states%d" % b, states, bits=b)
        for sh in ((1,), (3,), (2, 2), (0,), (2, 0)):
            for o in (True, False): add("bulk%d.%s.%d" % (b, "x".join(map(str, sh)), o), bulk, bits=b, shape=sh, output=o)
        for what in ("uint64", "uint32", "double"): add("egen%d.%s" % (b, what), egen, ("common", "wrapper", "generator", "broadcasting", "distributions"), bits=b, what=what, n=3)
    for i, k in enumerate(mixes):
        for st in (None, 4096): add("ctypes.%d.%s" % (i, st), ctyped, kinds=k, state=st)
    for s in range(4): add("types.%d" % s, wrongtypes, slot=s)
    add("nostate", nostate)
    return T
