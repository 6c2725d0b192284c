"""C03: jump and jumped."""
import functools
from vp.task import Task
from .gens import *
from .c02 import lcg_coeff, words, LCGMULT, PCG64_MULT, BLOCK, addw, constw, place

EXPLANATION = "jumped and jump from an arbitrary state. Xor-shift generators: compared with the F2-linear map T^(k*2^e), computed independently from the published recurrence (characteristic polynomial, x^(2^e) modulo it). LCGs: closed form of k*phi steps. Counter generators: a generator placed at the counter k jumps ahead."
ASSUMPTIONS = ["LCG increments odd", "block generators: states reached from any key and counter by up to one buffer of draws",
               "'documented distance' of a buffered generator counts from the counter of its current block (SFMT, DSFMT, Philox, ThreeFry drop what is buffered, as documented)"]
M64 = (1 << 64) - 1

# ---- F2
def rotl(x, k): return ((x << k) | (x >> (64 - k))) & M64
def t_xoro(a, b, c):
    def f(s):
        s0, s1 = s; s1 ^= s0
        return [rotl(s0, a) ^ s1 ^ ((s1 << b) & M64), rotl(s1, c)]
    return f
def t_xoshiro256(s):
    s = list(s); t = (s[1] << 17) & M64
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45)
    return s
def t_xoshiro512(s):
    s = list(s); t = (s[1] << 11) & M64
    s[2] ^= s[0]; s[5] ^= s[1]; s[1] ^= s[2]; s[7] ^= s[3]; s[3] ^= s[4]; s[4] ^= s[5]; s[0] ^= s[6]; s[6] ^= s[7]
    s[6] ^= t; s[7] = rotl(s[7], 21)
    return s
def t_xorshift1024(s):
    """the sixteen words from the current position on"""
    s0, s1 = s[0], s[1]
    s1 ^= (s1 << 31) & M64
    return [s1 ^ s0 ^ (s1 >> 11) ^ (s0 >> 30)] + list(s[2:]) + [s0]

def bm(bits):
    """minimal polynomial of a bit sequence (bit i of the integer: coefficient of x^i), Berlekamp-Massey"""
    n = len(bits); C, B = 1, 1; L, m = 0, 1
    S = 0                      # the last bits, most recent lowest
    for i in range(n):
        S = (S << 1) | bits[i]
        d = bin(C & S & ((1 << (L + 1)) - 1)).count("1") & 1
        if d:
            T = C; C ^= B << m
            if 2 * L <= i: L, B, m = i + 1 - L, T, 1
            else: m += 1
        else: m += 1
    # connection polynomial -> characteristic polynomial
    return int(bin(C | (1 << (L + 1)))[3:].zfill(L + 1)[::-1], 2) if L else 1

_SQ = [int(bin(i)[2:], 4) for i in range(256)]
def psq(p):
    return int.from_bytes(b"".join(_SQ[b].to_bytes(2, "little") for b in p.to_bytes((p.bit_length() + 7) // 8 or 1, "little")), "little")
def pmod(p, m):
    d = m.bit_length()
    while p.bit_length() >= d: p ^= m << (p.bit_length() - d)
    return p
def pmul(a, b, m):
    r = 0
    while b:
        if b & 1: r ^= a
        b >>= 1; a <<= 1
        if a.bit_length() == m.bit_length(): a ^= m
    return r
def ppow2(e, m):
    p = 2
    for _ in range(e): p = pmod(psq(p), m)
    return p

@functools.lru_cache(None)
def f2poly(T, n, e, k):
    s = [(0x9e3779b97f4a7c15 * (i + 1) ^ 0x5851f42d4c957f2d) & M64 for i in range(n)]
    bits = []
    for _ in range(2 * n * 64 + 16):
        bits.append(bin((s[0] & 0x123456789abcdef1) ^ (s[-1] & 0xf0f1e2d3c4b5a697)).count("1") & 1); s = T(s)
    m = bm(bits)
    assert m.bit_length() == n * 64 + 1
    p = ppow2(e, m); r = 1
    for _ in range(k): r = pmul(r, p, m)
    return r

@functools.lru_cache(None)
def f2cols(T, n, e, k):
    """columns of T^(k * 2^e)"""
    p = f2poly(T, n, e, k); cols = []
    for j in range(64 * n):
        s = [0] * n; s[j // 64] = 1 << (j % 64)
        acc = [0] * n; q = p
        while q:
            if q & 1: acc = [a ^ b for a, b in zip(acc, s)]
            q >>= 1
            if q: s = T(s)
        cols.append(sum(a << (64 * i) for i, a in enumerate(acc)))
    return cols

F2 = {"Xoroshiro128": (t_xoro(24, 16, 37), 2, 64), "Xoroshiro128pp": (t_xoro(49, 21, 28), 2, 64), "Xoshiro256": (t_xoshiro256, 4, 128),
      "Xoshiro512": (t_xoshiro512, 8, 256), "Xorshift1024": (t_xorshift1024, 16, 512), "LXM": (t_xoshiro256, 4, 128)}

def f2state(st):
    """(the words, setter)"""
    v = st.get("state", None)
    return v

def cleared(st, **over):
    st = dict(st)
    if "has_uint32" in st: st["has_uint32"] = 0; st["uinteger"] = 0
    st.update(over)
    return st

def jump(w, a, how, k):
    """the jumped generator"""
    if how == "jump":
        r = a.jump(k)
        w.check("jump returns the generator", r is a)
        return a
    b = a.jumped(k) if k != 1 else a.jumped()
    w.check("jumped returns a new generator", b is not a)
    w.check("jumped returns the same class", type(b).__name__ == type(a).__name__)
    return b

def f2(w, g, how, k, p=None):
    T, n, e = F2[g.name]
    a = g.make(w, "#a")
    a.state = g.symstate(w, a, "s", {"p": p} if p is not None else None)
    st = a.state
    s = w.items(getwords(st))
    r = p or 0
    L = s[r:] + s[:r]
    b = jump(w, a, how, k)
    got = b.state
    E = w.f2map(L, 64, f2cols(T, n, e, k))
    E = E[n - r:] + E[:n - r] if r else E
    w.eq("state words after %s(%d)" % (how, k), w.items(getwords(got)), E)
    w.eq("everything else kept", strip(got), strip(cleared(st)))
    if how == "jumped": w.eq("the original is unchanged", a.state, st)

def getwords(st):
    s = st["state"] if "state" in st else st["s"]
    if isinstance(s, dict): s = s["x"] if "x" in s else s["s"]
    return s
def strip(st):
    out = {}
    for k, v in st.items():
        if isinstance(v, dict): out[k] = strip(v)
        elif k in ("x", "s", "state") and hasattr(v, "shape"): continue
        else: out[k] = v
    return out

# ---- LCGs
PHI = {64: 0x9e3779b97f4a7c16, 128: 0x9e3779b97f4a7c15f39cc0605cedc834}
def lcg(w, g, mult, bits, how, k):
    a = g.make(w, "#a")
    a.state = g.symstate(w, a, "s")
    st = a.state
    s, inc = words(w, st)
    b = jump(w, a, how, k)
    got = b.state
    A, C = lcg_coeff(mult, k * PHI[bits], bits)
    s2, inc2 = words(w, got)
    w.eq("state after %s(%s)" % (how, k), s2, (s * A + inc * C) % (1 << bits))
    w.eq("increment", inc2, inc)
    def rest(q): return dict((x, y) for x, y in q.items() if x != "state")
    w.eq("everything else kept", rest(got), rest(cleared(st)))
    if how == "jumped": w.eq("the original is unchanged", a.state, st)
    c = g.make(w, "#c"); c.state = got
    w.eq("the jumped generator draws from that state", [w.draw(b, "raw"), w.draw(b, "dbl") is None], [w.draw(c, "raw"), w.draw(c, "dbl") is None])

def squares(w, g, k):
    a = g.make(w, "#a")
    a.state = g.symstate(w, a, "s")
    st = a.state
    b = jump(w, a, "jumped", k)
    got = b.state
    w.eq("counter", got["state"]["counter"], (st["state"]["counter"] + k * 11400714819323198485) % (1 << 64))
    w.eq("key", got["state"]["key"], st["state"]["key"])
    w.eq("variant", got["variant"], st["variant"])
    w.eq("nothing buffered", (got["has_uint32"]), 0)
    w.eq("the original is unchanged", a.state, st)
    c = g.make(w, "#c"); c.state = got
    w.eq("draws", [w.draw(b, "raw"), w.draw(b, "raw")], [w.draw(c, "raw"), w.draw(c, "raw")])

# ---- counters
def block(w, g, how, j, k, kb):
    """after j draws jump k times (k the symbolic kb-bit count, or a constant)"""
    Bw, cbits, buf = BLOCK[g.name]; wd = g.kw.get("width", 64); n = cbits // wd
    F = [w.sym("final%d" % i, wd) for i in range(n)]
    w.split()
    if kb: k = w.sym("k", kb); w.assume(k != 0)
    legacy = g.cls in ("Philox", "ThreeFry")
    step = cbits // 2 if legacy else 63          # counter distance of one jump, as a power of two
    big = k << step
    Q = [(big >> (wd * i)) & ((1 << wd) - 1) for i in range(n)]
    if kb:                                       # words of the symbolic distance, without the zero ones
        lo = step // wd
        Q = [0 if i < lo or wd * i >= step + kb else q for i, q in enumerate(Q)]
    tot = 0 if legacy else j
    cur = addw(w, F, Q, wd, -1)
    c = addw(w, cur, constw((j + Bw - 1) // Bw if legacy else j // Bw, n, wd), wd, -1)
    a = place(w, g, "#k", c)
    for _ in range(j): w.draw(a, "raw")
    st = a.state
    b = jump(w, a, how, k)
    if how == "jumped": w.eq("the original is unchanged", a.state, st)
    if legacy: r = place(w, g, "#k", F)
    else:
        r = place(w, g, "#k", addw(w, F, constw(j // Bw, n, wd), wd, -1))
        for _ in range(j): w.draw(r, "raw")
    w.eq("no half word is left buffered", b.state["has_uint32"], 0)
    if legacy: w.eq("counter", w.items(b.state["state"]["counter"]), F)
    if kb:
        if not legacy and not j: w.eq("draw", w.draw(b, "raw"), w.draw(r, "raw"))
        x, y = b.state, r.state
        if g.cls == "AESCounter": w.eq("counters", w.items(x["s"]["counter"]), w.items(y["s"]["counter"])); w.eq("offset", x["s"]["offset"], y["s"]["offset"])
        elif g.cls == "SPECK128": w.eq("counters", w.items(x["state"]["ctr"]), w.items(y["state"]["ctr"])); w.eq("offset", x["state"]["offset"], y["state"]["offset"])
        else: w.eq("nothing buffered", x["buffer_pos"], y["buffer_pos"])
        return
    for i in range(4): w.eq("draw %d" % i, w.draw(b, "raw"), w.draw(r, "raw"))

def tasks(tier):
    T = []
    for name, (tr, n, e) in F2.items():
        g = GENS[name]
        ps = range(16) if name == "Xorshift1024" else (None,)
        for how, k in (("jumped", 1), ("jumped", 2), ("jump", 1), ("jump", 2), ("jumped", 5)):
            for p in ps:
                T.append(Task("f2.%s.%s%d%s" % (name, how, k, "" if p is None else ".p%d" % p), f2, g.mods, dict(g=g, how=how, k=k, p=p), deadline=200,
                              quick=(k == 1 or (k == 2 and how == "jumped" and n < 8)) and (p is None or (p, how) in ((0, "jumped"), (7, "jumped"), (15, "jumped"))),
                              bound="any state words%s, %s(%d)" % ("" if p is None else " with position %d" % p, how, k)))
    L = [(GENS[nm], m, b) for nm, (m, b) in LCGMULT.items()] + [(g, PCG64_MULT, 128) for g in GENS.values() if g.cls == "LCG128Mix"]
    g = Gen("LCG128Mix-mult", "pcg64", "LCG128Mix", {"multiplier": 0x9f3d1ab27c5e80647d29a11b3ce40195, "output": "dxsm"}, GENS["LCG128Mix-dxsm"].spec, half="lohi", tags=["lcg"])
    L.append((g, 0x9f3d1ab27c5e80647d29a11b3ce40195, 128))
    for g, m, b in L:
        hows = ["jumped"] if g.cls in ("PCG64DXSM", "LCG128Mix") else ["jumped", "jump"]
        for how in hows:
            for k in (1, 2, 3, 7, 16, 1000003, (1 << 31) + 1, (1 << 63) - 1) + ((1 << 64, 10 ** 30 + 1, (1 << 128) - 1) if how == "jumped" else ()):
                T.append(Task("lcg.%s.%s%d" % (g.name, how, k), lcg, g.mods, dict(g=g, mult=m, bits=b, how=how, k=k), quick=k in (1, 2, 7, (1 << 63) - 1, 10 ** 30 + 1) and (k < 3 or g.cls != "LCG128Mix"),
                              bound="any state and odd increment, %s(%d)" % (how, k)))
    for v in (64, 32):
        g = GENS["Squares%d" % v]
        for k in (1, 2, 3, 7, 100):
            T.append(Task("squares.%d.%d" % (v, k), squares, g.mods, dict(g=g, k=k), bound="any key and counter, jumped(%d)" % k, quick=k < 7))
    for name, (Bw, cbits, buf) in BLOCK.items():
        g = GENS[name]
        for j in range(0, buf + 1):
            for how in ("jumped", "jump"):
                for k, kb in ((1, 0), (2, 0), (3, 0), (0, 62), ((1 << 63) - 1, 0), (1 << 40, 0)):
                    if kb and g.cls in ("Philox", "ThreeFry"): kb = 31 if g.kw["width"] == 32 else 62
                    q = (k == 1 and how == "jump" and j == 1) or (k in (0, 2) and how == "jumped" and j in ((1 if name == "SPECK128" and not k else 0), buf - 1))
                    T.append(Task("block.%s.%s%s.after%d" % (name, how, k or "K", j), block, g.mods, dict(g=g, how=how, j=j, k=k, kb=kb), deadline=60, quick=q,
                                  bound="any counter, %d draws, %s(%s)" % (j, how, k or "every k of %d bits" % kb)))
    from .c03mt import FAM, full, summary_step, summary_add
    for name, f in FAM.items():
        g = GENS[name]; mt = name == "MT19937"
        fl = dict(deadline=250, flags=f.flags)
        for how, k in (("jumped", 1), ("jump", 1), ("jumped", 2), ("jumped", 17), ("jumped", 0x11121), ("jumped", 0x1f), ("jump", 3)):
            for pos in ((0, 624, 10, 311) if mt else (0, 5)):
                T.append(Task("twister.%s.%s%d.at%d" % (name, how, k, pos), full, g.mods, dict(g=g, f=f, how=how, k=k, pos=pos), quick=(how, k) in (("jumped", 1), ("jump", 1), ("jumped", 17)) and (pos in (10, 0) if mt else pos == 5), **fl,
                              bound="any state words, position %d, %s(%d)" % (pos, how, k)))
        allpos = [i * f.scale for i in range(f.N)]
        ch = 26
        for i in range(0, f.N, ch):
            T.append(Task("step.%s.%d" % (name, i), summary_step, g.mods, dict(g=g, f=f, idxs=allpos[i:i + ch]), **fl, bound="any state words, positions %d..%d" % (i, min(i + ch, f.N) - 1)))
        if mt: pr = [(a, b) for a in (0, 1, 100, 227, 311, 588, 623) for b in (0, 1, 99, 100, 101, 311, 396, 397, 623)]
        else: pr = [(0, b) for b in allpos]
        for i in range(0, len(pr), 13):
            T.append(Task("add.%s.%d" % (name, i), summary_add, g.mods, dict(g=g, f=f, pairs=pr[i:i + 13]), quick=i % 3 == 0, **fl, bound="any two states, positions %s" % ", ".join("%d/%d" % q for q in pr[i:i + 13])))
    return T
