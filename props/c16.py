"""C16: SFC64 Weyl increments."""
from math import comb
from vp.task import Task

EXPLANATION = "weyl_increments runs on an SFC64 whose state is chosen so that one of its next output words is an arbitrary symbolic word (the others are fixed); the values numpy's Generator.integers returns are symbolic too (any value of the range asked for). Every returned increment is odd, has a number of set bits between min_bits and max_bits, and differs from the others; impossible requests are refused; the constructor uses w and k as documented."
ASSUMPTIONS = ["numpy.random.Generator.integers(lo, hi) returns a value with lo <= value < hi", "each output word of the generator beyond the symbolic one is fixed"]
DEEP = False
M64 = 2**64 - 1

def f(x): return x ^ (x >> 11)
def rotl(x, k): return ((x << k) | (x >> (64 - k))) & M64

def outputs(w, bg, T, pos, b0, fixed_k=None):
    """put bg into a state whose next output words are T[0], T[1], ... except that word `pos` is f(b0) plus a constant (0 wherever possible)"""
    C0 = 0x1B873593CC9E2D51
    if pos == 0:                                  # a is free
        b, c, wy, k = 0x2545F4914F6CDD1D, C0, 0x9E3779B97F4A7C15, 0x6A09E667F3BCC909
        st = dict(a=(b0 - b - wy) & M64, b=b, c=c, w=wy, k=k)
    elif pos == 1:                                # k and b compensate: T0, T2 fixed
        c = C0; wy = (-9 * c) & M64               # T1 = f(b0) + 9c + w + k
        st = dict(a=(T[0] - b0 - wy) & M64, b=b0, c=c, w=wy, k=0x6A09E667F3BCC909)
        D = st["k"]
        st["w"] = (wy - D) & M64; st["a"] = (T[0] - b0 - st["w"]) & M64
    else:                                         # T0, T1, T2 fixed, T3 = f(b0)
        # k = f(b0) - C, w = C2 - 2k with every constant computed from c
        c = C0
        b1 = 9 * c & M64; c1 = (rotl(c, 24) + T[0]) & M64; b2 = 9 * c1 & M64; c2 = (rotl(c1, 24) + T[1]) & M64
        C2 = (T[2] - f(b1) - 9 * c1) & M64    # w + 2k
        C3 = (f(b2) + 9 * c2 + C2) & M64      # T3 = C3 + k
        C = C3
        # T1 = f(b0) + 9c + w + k = f(b0) + 9c + C2 - k
        # with k = f(b0) - C: T1 = 9c + C2 + C: an extra constant is absorbed by moving C
        C = (T[1] - 9 * c - C2) & M64
        k = (f(b0) - C) & M64
        wy = (C2 - 2 * k) & M64
        st = dict(a=(T[0] - b0 - wy) & M64, b=b0, c=c, w=wy, k=k)
        D = (C3 - C) & M64
    s = dict(bg.state); s["state"] = st; s["has_uint32"] = 0; s["uinteger"] = 0
    bg.state = s
    return 0 if pos != 3 else D

def popcount(w, x):
    x = w.int(x)
    n = 0
    for i in range(64): n = n + ((x >> i) & 1)
    return n

def bytesw(v): return sum((x & 255) << (8 * i) for i, x in enumerate(v))

def good(w, bg, n, lo, hi, limit=0):
    """call weyl_increments and check what it returns"""
    if w.symbolic:
        S = w.cls("sfc", "SFC64"); gb = S.generate_bits
        st = [0]
        def generate_bits(self, b):
            st[0] += 1
            if st[0] > n + limit: raise RuntimeError("weyl_increments does not terminate")
            return gb(self, b)
        S.generate_bits = generate_bits
    else: w.scriptints()
    v = w.items(w.alarm(60, bg.weyl_increments, n, hi, lo))
    w.check("number of values", len(v) == n)
    for i in range(n):
        w.eq("value %d is odd" % i, v[i] & 1, 1)
        p = popcount(w, v[i])
        if lo == hi: w.eq("set bits of value %d" % i, p, lo)
        else: w.check("set bits of value %d" % i, w.and_(p >= lo, p <= hi))
        for j in range(i): w.check("values %d and %d differ" % (j, i), v[i] != v[j])
    return v

def count(w, b, free):
    """one increment of b bits: the last `free` draws are symbolic, those before are fixed"""
    bg = w.cls("sfc", "SFC64")(w.ss("#a"))
    F = (b if b <= 32 else 65 - b) - 1
    lead = max(F - free, 0)
    pre = [1 + (5 * i) % 63 for i in range(lead)]          # distinct, none is 0
    x = w.sym("x", 64)
    if F <= 8 - 1:
        pos, T, start = 0, [0], lead
        fixed = pre
    else:
        pos, T, start = 3, [bytesw(pre[8 * i:8 * i + 8] + [0] * 8) & M64 for i in range(3)], max(lead - 24, 0)
        fixed = pre[24:]
    D = outputs(w, bg, T, pos, x)
    word = x if pos == 0 else (f(x) + D) & M64
    for i, v in enumerate(fixed): w.assume(((word >> (8 * i)) & 63) == v)
    # the bytes after the free ones are fixed to numbers that are not drawn so far, so the word is enough
    rest = [v for v in range(63, 0, -1) if v not in pre]
    end = start + min(free, F)
    for i in range(end, 8): w.assume(((word >> (8 * i)) & 63) == rest[i])
    # enough different numbers within the word
    if end == 8 or free > 1:
        fr = [((word >> (8 * i)) & 63) for i in range(start, end)]
        left = 8 - end
        if left < len(fr):
            bad = fr[:len(fr) - left]
            for i, v in enumerate(bad): w.assume(w.and_(v != 0, *[v != q for q in pre + rest[end:8]] + [v != u for u in bad[:i]]))
    good(w, bg, 1, b, b)

def bins(w, lo, hi, n, limit):
    """the bit counts come from symbolic integers; every word of the generator is fixed"""
    bg = w.cls("sfc", "SFC64")(w.ss("#a"))
    good(w, bg, n, lo, hi, limit)

def repeat(w, b):
    """the second value may repeat the first"""
    bg = w.cls("sfc", "SFC64")(w.ss("#a"))
    T0 = bytesw([1 + (5 * i) % 63 for i in range(8)])
    x = w.sym("x", 64)
    outputs(w, bg, [T0], 1, x)
    word = f(x)
    F = (b if b <= 32 else 65 - b) - 1
    for i in range(2, 8): w.assume(((word >> (8 * i)) & 63) == 1 + (5 * i) % 63)
    good(w, bg, 2, b, b, 2)

def refused(w, lo, hi):
    bg = w.cls("sfc", "SFC64")(w.ss("#a"))
    total = sum(comb(63, k - 1) for k in range(lo, hi + 1))
    n = w.sym("n", 64)
    w.assume(w.and_(n > total, n < 2**63))
    if w.symbolic:
        def generate_bits(self, b): raise RuntimeError("values are drawn although there are not enough")
        w.cls("sfc", "SFC64").generate_bits = generate_bits
    w.check("more values than there are refused", w.alarm(60, w.raises, ValueError, bg.weyl_increments, n, hi, lo))

def small(w):
    bg = w.cls("sfc", "SFC64")(w.ss("#a"))
    n = w.ssym("n", 64)
    w.assume(n < 1)
    w.check("n < 1 refused", w.raises(ValueError, bg.weyl_increments, n, 8, 8))

def ranges(w):
    bg = w.cls("sfc", "SFC64")(w.ss("#a"))
    lo = w.ssym("lo", 32); hi = w.ssym("hi", 32)
    w.assume(w.not_(w.and_(lo >= 1, lo <= hi, hi <= 64)))
    w.check("bit range refused", w.raises(ValueError, bg.weyl_increments, 1, hi, lo))

def ctor(w, usew, usek):
    kw = {}
    wv, kv = w.sym("w", 64), w.sym("k", 64)
    kw["w"] = wv if usew else None
    kw["k"] = kv if usek else None
    a = w.cls("sfc", "SFC64")(w.ss("r"), **kw)
    i = 3
    if not usew: wv = w.ssword("r", 3, 64); i = 4
    if not usek: kv = w.ssword("r", i, 64)
    s = a.state["state"]
    w.eq("increment", s["k"], kv | 1)
    w.eq("counter after the 12 rounds of seeding", s["w"], (wv + 12 * (kv | 1)) & M64)
    for t in range(2):
        w.draw(a, "u64")
        w.eq("counter after %d draws" % (t + 1), a.state["state"]["w"], (wv + (13 + t) * (kv | 1)) & M64)
        w.eq("increment after %d draws" % (t + 1), a.state["state"]["k"], kv | 1)

def tasks(tier):
    T = []
    M = ["common", "sfc"]
    def add(name, fn, p, b, d=100, quick=True): T.append(Task(name, fn, M, p, deadline=d, ms=60000, bound=b, quick=quick, max_paths=3000))
    for b in range(1, 65):
        F = (b if b <= 32 else 65 - b) - 1
        add("count.%d" % b, count, dict(b=b, free=1), "one increment; every value of the last draw, the draws before fixed", quick=b in (1, 2, 3, 4, 8, 9, 10, 16, 31, 32, 33, 34, 48, 57, 62, 63, 64))
        if 2 <= F: add("count2.%d" % b, count, dict(b=b, free=2), "one increment; every value of the last two draws, the draws before fixed", quick=b in (3, 16, 32, 33, 62))
    for lo, hi, n, l in ((1, 2, 2, 1), (1, 3, 2, 1), (2, 3, 2, 1), (1, 64, 1, 0), (31, 33, 1, 0), (63, 64, 2, 1), (64, 64, 1, 0), (1, 1, 1, 0), (16, 48, 1, 0), (1, 2, 3, 2)):
        add("bins.%d-%d.%d" % (lo, hi, n), bins, dict(lo=lo, hi=hi, n=n, limit=l), "%d values; every choice of the bit counts; the draws of the bits fixed" % n)
    for b in (2, 3, 4, 62, 63): add("repeat.%d" % b, repeat, dict(b=b), "two values; every value of the first two bits of the second")
    for lo, hi in ((1, 1), (2, 2), (1, 3), (4, 4), (10, 12), (30, 34), (32, 32), (40, 60), (62, 64), (64, 64), (1, 64)):
        if sum(comb(63, k - 1) for k in range(lo, hi + 1)) < 2**63 - 1: add("refused.%d-%d" % (lo, hi), refused, dict(lo=lo, hi=hi), "every n above the number of values there are")
    add("refused.n", small, {}, "every n below 1")
    add("refused.range", ranges, {}, "every pair of 32-bit integers that is no range within 1..64")
    for u in (0, 1):
        for k in (0, 1): add("ctor.%d%d" % (u, k), ctor, dict(usew=bool(u), usek=bool(k)), "every w and k (or seed words); 2 draws")
    return T
