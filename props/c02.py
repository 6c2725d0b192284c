"""C02: advance(n) equals n draws."""
DEEP = True
from vp.task import Task
from .gens import *

EXPLANATION = "advance from an arbitrary state, compared with the closed form of n steps (LCGs, Squares) or with a fresh generator placed at the right counter (block generators), and with real draws for small n."
ASSUMPTIONS = ["LCG increments odd", "block generators: states reached from any key and counter by up to one buffer of draws (their raw counters and buffers are functions of these)"]

M64, M128 = (1 << 64) - 1, (1 << 128) - 1
PCG32_MULT = 6364136223846793005
PCG64_MULT = 47026247687942121848144207491837523525
CHEAP = 0xda942042e4dd58b5
LCGMULT = {"PCG32": (PCG32_MULT, 64), "PCG64": (PCG64_MULT, 128), "PCG64-cm-dxsm": (CHEAP, 128), "PCG64-dxsm-128": (PCG64_MULT, 128), "PCG64DXSM": (CHEAP, 128)}

def lcg_coeff(mult, n, bits):
    """(M^n, 1 + M + ... + M^(n-1)) modulo 2^bits"""
    mod = 1 << bits
    a, c = 1, 0; A, C = mult, 1
    n %= mod
    while n:
        if n & 1: a, c = a * A % mod, (c * A + C) % mod
        A, C = A * A % mod, (A + 1) * C % mod
        n >>= 1
    return a, c

def words(w, st):
    """the state integers, whatever container the dictionary uses"""
    s = st["state"]
    return s["state"], s["inc"]

def lcg(w, g, mult, bits, delta):
    a = g.make(w, "#a")
    a.state = g.symstate(w, a, "s")
    s, inc = words(w, a.state)
    a.advance(delta)
    s2, inc2 = words(w, a.state)
    A, C = lcg_coeff(mult, delta, bits)
    w.eq("state after advance(%s)" % hex(delta), s2, (s * A + inc * C) % (1 << bits))
    w.eq("increment after advance", inc2, inc)

def lcg_window(w, g, mult, bits, lo, n, base):
    """delta = base with the n bits from lo on arbitrary"""
    x = w.sym("x", n)
    k = 0
    while k < (1 << n) - 1 and not w.cond(x == k): k += 1
    lcg(w, g, mult, bits, (base & ~(((1 << n) - 1) << lo)) | (k << lo))

def lcg_draws(w, g, n):
    """advance(n) against n real draws"""
    a, b = g.make(w, "#a"), g.make(w, "#b")
    st = g.symstate(w, a, "s", {"has_uint32": 0, "uinteger": 0})
    a.state = st; b.state = st
    a.advance(n)
    for _ in range(n): w.draw(b, "raw")
    w.eq("state after advance(%d)" % n, a.state, b.state)
    w.eq("next draw", w.draw(a, "raw"), w.draw(b, "raw"))

def lcg_add(w, g, d, e):
    """advance(d), advance(e) equals advance(d+e); advance(d), advance(-d) is the identity"""
    a, b = g.make(w, "#a"), g.make(w, "#b")
    st = g.symstate(w, a, "s", {"has_uint32": 0, "uinteger": 0})
    a.state = st; b.state = st
    a.advance(d); a.advance(e); b.advance(d + e)
    w.eq("advance(d), advance(e)", a.state, b.state)

def squares(w, g, lo, bits):
    a = g.make(w, "#a")
    a.state = g.symstate(w, a, "s", {"has_uint32": 0, "uinteger": 0})
    c = a.state["state"]["counter"]
    d = w.sym("d", bits) + lo
    b = g.make(w, "#b"); b.state = a.state
    a.advance(d)
    w.eq("counter", a.state["state"]["counter"], (c + d) % (1 << 64))
    w.eq("key", a.state["state"]["key"], b.state["state"]["key"])
    s = b.state; s["state"]["counter"] = (c + d) % (1 << 64); b.state = s
    w.eq("next draws", [w.draw(a, "raw"), w.draw(a, "raw")], [w.draw(b, "raw"), w.draw(b, "raw")])

# ---- block generators
BLOCK = {  # words per counter value, counter bits, words in the buffer
 "AESCounter": (2, 128, 8), "SPECK128": (2, 128, 12),
 "Philox-2x32": (2, 64, 2), "Philox-4x32": (4, 128, 4), "Philox-2x64": (2, 128, 2), "Philox-4x64": (4, 256, 4),
 "ThreeFry-2x32": (2, 64, 2), "ThreeFry-4x32": (4, 128, 4), "ThreeFry-2x64": (2, 128, 2), "ThreeFry-4x64": (4, 256, 4)}
def adv(g, a, n):
    if g.cls in ("Philox", "ThreeFry"): a.advance(n, counter=False)
    else: a.advance(n)

def addw(w, a, b, wd, sign=1):
    """word arrays (lowest first): a + b or a - b modulo 2^(wd*len); the carries are decided case by case"""
    out = []; c = 0; m = (1 << wd) - 1
    for i, (x, y) in enumerate(zip(a, b)):
        last = i == len(a) - 1
        if sign > 0:
            t = x + y + c; out.append(t & m); c = 0 if last else 1 if w.cond(t > m) else 0
        else:
            out.append((x - y - c) & m); c = 0 if last else 1 if w.cond(x < y + c) else 0
    return out

def constw(k, n, wd): return [((k % (1 << (n * wd))) >> (wd * i)) & ((1 << wd) - 1) for i in range(n)]

def place(w, g, tag, ctr, over=None):
    """a generator (seeded, nothing buffered) whose next block is the one of counter ctr (Philox, ThreeFry: of ctr + 1)"""
    bg = g.make(w, tag)
    st = bg.state; wd = g.kw.get("width", 64)
    if g.cls in ("Philox", "ThreeFry"):
        st["state"]["counter"] = w.arr(ctr, "uint%d" % wd)
    else:
        u = []
        for i in range(BLOCK[g.name][2] // 2): u += addw(w, ctr, constw(i, 2, 64), 64)
        if g.cls == "AESCounter": st["s"]["counter"] = w.arr(u, "uint64")
        else: st["state"]["ctr"] = w.arr(u, "uint64")
    bg.state = st
    return bg

def symq(w, wd, n, k, lb):
    """every q such that 2^lb*q has exactly k words: its n words, the integer"""
    bits = min(wd * k - lb, wd * n)
    Q = [w.sym("q%d" % i, min(wd, bits - wd * i)) if bits > wd * i else 0 for i in range(n)]
    q = 0
    for i, x in enumerate(Q): q = q + (x << (wd * i))
    w.assume(q >> (wd * (k - 1) - lb if k > 1 else 0) != 0)
    return Q, q

def block(w, g, j, r, neg, k, ndraw=3):
    """after j draws advance by n = B*q + r (or the negative number congruent to it modulo the range), q arbitrary"""
    Bw, cbits, buf = BLOCK[g.name]; wd = g.kw.get("width", 64); n = cbits // wd
    F = [w.sym("final%d" % i, wd) for i in range(n)]
    w.split()
    Q, q = symq(w, wd, n, k, Bw.bit_length() - 1)
    tot = j + r
    c = addw(w, addw(w, F, constw(tot // Bw, n, wd), wd, -1), Q, wd, -1)
    a = place(w, g, "#k", c)
    for _ in range(j): w.draw(a, "raw")
    adv(g, a, Bw * q + r - (Bw << cbits if neg else 0))
    b = place(w, g, "#k", F)
    for _ in range(tot % Bw): w.draw(b, "raw")
    for i in range(ndraw): w.eq("draw %d after advance" % i, w.draw(a, "raw"), w.draw(b, "raw"))
    w.eq("no half word is left buffered", a.state["has_uint32"], 0)

def block_draws(w, g, j, n, ndraw=3):
    """advance(n) against n real draws, from an arbitrary counter"""
    Bw, cbits, buf = BLOCK[g.name]; wd = g.kw.get("width", 64)
    c = [w.sym("counter%d" % i, wd) for i in range(cbits // wd)]
    w.split()
    a = place(w, g, "#k", c); b = place(w, g, "#k", c)
    for _ in range(j): w.draw(a, "raw"); w.draw(b, "raw")
    adv(g, a, n)
    for _ in range(n): w.draw(b, "raw")
    for i in range(ndraw): w.eq("draw %d after advance(%d)" % (i, n), w.draw(a, "raw"), w.draw(b, "raw"))

def legacy(w, g, j, neg, k):
    """counter=True moves the stored counter by exactly delta and keeps the key"""
    Bw, cbits, buf = BLOCK[g.name]; wd = g.kw["width"]; n = cbits // wd
    a = g.make(w, "#a")
    st = g.symstate(w, a, "s", {"buffer_pos": j})
    F = w.items(st["state"]["counter"])
    w.split()
    Q, q = symq(w, wd, n, k, Bw.bit_length() - 1)
    st["state"]["counter"] = w.arr(addw(w, F, Q, wd, -1), "uint%d" % wd)
    a.state = st
    a.advance(q - ((1 << cbits) if neg else 0), counter=True)
    w.eq("counter", w.items(a.state["state"]["counter"]), F)
    w.eq("key", w.items(a.state["state"]["key"]), w.items(st["state"]["key"]))

def tasks(tier):
    T = []
    for name, (mult, bits) in LCGMULT.items():
        g = GENS[name]
        T += lcgtasks(g, mult, bits, tier)
    for g in GENS.values():
        if g.cls == "LCG128Mix": T += lcgtasks(g, PCG64_MULT, 128, tier, few=g.name != "LCG128Mix-xsl-rr")
    g = Gen("LCG128Mix-mult", "pcg64", "LCG128Mix", {"multiplier": 0x9f3d1ab27c5e80647d29a11b3ce40195, "output": "dxsm"}, GENS["LCG128Mix-dxsm"].spec, half="lohi", tags=["lcg"])
    T += lcgtasks(g, 0x9f3d1ab27c5e80647d29a11b3ce40195, 128, tier, few=True)
    for v in (64, 32):
        g = GENS["Squares%d" % v]
        T.append(Task("squares.%d" % v, squares, g.mods, dict(g=g, lo=0, bits=64), bound="any key and counter, any delta in [0, 2^64)"))
    for name, (Bw, cbits, buf) in BLOCK.items():
        g = GENS[name]
        nw = cbits // g.kw.get("width", 64)
        for j in range(0, buf + 2):
            for r in range(Bw):
                for k in range(1, nw + 2):
                    for neg in (0, 1):
                        near = (j, r) in ((0, 0), (0, Bw - 1), (1, Bw - 1), (buf - 1, Bw - 1))
                        if nw == 4: near = (j, r, k) in ([(0, 0, nw + 1), (0, Bw - 1, 1), (1, Bw - 1, 2), (1, 1, nw)] if name[-2:] == "32" else [(0, 1, nw + 1), (1, Bw - 1, 1), (0, 0, 3), (1, 2, nw)])
                        elif buf > 4: near = (j, r, k) in ((0, 0, 3), (0, 1, 1), (1, 1, 2), (buf - 1, 1, 1))
                        near = near and (not neg or (nw < 4 and buf < 4 and j == 1 and r and k == nw + 1))
                        T.append(Task("block.%s.after%d.%s%dw+%d" % (name, j, "-" if neg else "", k, r), block, g.mods, dict(g=g, j=j, r=r, neg=neg, k=k),
                                  deadline=60, quick=near,
                                  bound="any counter, %d draws, then advance(%d*q%+d%s) for every q for which %d*q takes %d words; 3 draws" % (j, Bw, r, " - %d*2^%d" % (Bw, cbits) if neg else "", Bw, k)))
        for j, n in dict.fromkeys(((0, 1), (0, 2), (0, Bw), (0, buf), (1, 2), (1, buf), (buf, 1), (buf, buf), (2, 2 * buf + 1))):
            T.append(Task("draws.%s.after%d.%d" % (name, j, n), block_draws, g.mods, dict(g=g, j=j, n=n), deadline=60, quick=n < 2 * buf and j < 2,
                          bound="any key and counter, %d draws, advance(%d) against %d draws" % (j, n, n)))
        if g.cls in ("Philox", "ThreeFry"):
            for j in (0, 1, buf):
                for neg in (0, 1):
                    for k in range(1, nw + 2):
                        T.append(Task("counter.%s.after%d.%s%dw" % (name, j, "-" if neg else "", k), legacy, g.mods, dict(g=g, j=j, neg=neg, k=k), quick=j == 1 and (not neg or k == nw),
                                  bound="any state with buffer position %d, advance(q%s, counter=True) for every q for which %d*q takes %d words" % (j, " - 2^%d" % cbits if neg else "", Bw, k)))
    return T

def lcgtasks(g, mult, bits, tier, few=False):
    T = []
    top = 1 << bits
    vals = [0, 1, 2, 3, 5, 7, 16, 31, (1 << 32) - 1, 1 << 32, (1 << 63) + 1, (1 << 64) - 1, -1, -2, -7, -(1 << 63), top - 1, top + 5, 0x9e3779b97f4a7c15f39cc0605cedc834]
    if bits == 128: vals += [1 << 64, (1 << 64) + 1, (1 << 96) + (1 << 65), (1 << 127) + 1, -(1 << 64), -(1 << 127) - 3]
    if few: vals = [0, 1, 7, (1 << 64) - 1, 1 << (bits - 1), -1, top + 5]
    for v in dict.fromkeys(vals):
        T.append(Task("lcg.%s.%s" % (g.name, ("-" if v < 0 else "") + hex(abs(v))), lcg, g.mods, dict(g=g, mult=mult, bits=bits, delta=v), bound="any state and odd increment, delta %d" % v))
    if not few:
        step = 4
        for base in (0, 0x5bf0a8b1457695355fb8ac404e7a79e3):
            for lo in range(0, bits, step):
                T.append(Task("window.%s.%d.%x" % (g.name, lo, base & 15), lcg_window, g.mods, dict(g=g, mult=mult, bits=bits, lo=lo, n=step, base=base & (top - 1)), quick=False,
                              bound="any state and odd increment, every delta agreeing with %s outside bits %d..%d" % (hex(base), lo, lo + step - 1)))
    for n in (0, 1, 2, 3, 8) if not few else (1, 3):
        T.append(Task("draws.%s.%d" % (g.name, n), lcg_draws, g.mods, dict(g=g, n=n), bound="any state and odd increment; advance(%d) against %d draws" % (n, n)))
    if not few:
        for d, e in ((3, 5), (1 << 40, (1 << 63) - 1), (-5, 5), ((1 << bits) - 3, 8)):
            T.append(Task("sum.%s.%d.%d" % (g.name, d, e), lcg_add, g.mods, dict(g=g, d=d, e=e), bound="any state and odd increment, deltas %d and %d" % (d, e)))
    return T
