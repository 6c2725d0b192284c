"""Reference algorithms, written from the publications over unbounded integers with explicit masks.
They work on Python integers and on symbolic integers alike."""
M32 = (1 << 32) - 1; M64 = (1 << 64) - 1; M128 = (1 << 128) - 1
FW = None       # the fixed-width arithmetic of the symbolic runs (vp/fw.py); None: plain integers
def _c(*a): return FW is None or all(isinstance(x, int) for x in a)
def rotl(x, k, w=64):
    m = (1 << w) - 1; k %= w
    if not _c(x): return FW.rotl(x, k, w)
    return ((x << k) & m) | (x >> (w - k)) if k else x
def rotr(x, k, w=64): return rotl(x, (w - k) % w, w)
def add(w, *a):
    if not _c(*a): return FW.add(w, *a)
    r = 0
    for x in a: r = r + x
    return r & ((1 << w) - 1)
def sub(w, a, b): return (a - b) & ((1 << w) - 1) if _c(a, b) else FW.sub(w, a, b)
def mul(w, a, b): return (a * b) & ((1 << w) - 1) if _c(a, b) else FW.mul(w, a, b)
def mulhilo(w, a, b):
    if not _c(a, b): return FW.mulhilo(w, a, b)
    p = a * b
    return p >> w, p & ((1 << w) - 1)
def fix(w, x):
    """bring a value of the harness into the arithmetic of the references"""
    global FW
    if not w.symbolic: return x
    if FW is None:
        from vp import fw; FW = fw
    if isinstance(x, (list, tuple)): return type(x)(fix(w, v) for v in x)
    return FW.fx(x)
class Fixed:
    """a world whose integers are in the arithmetic of the references"""
    def __init__(self, w): self._w = w; self.__dict__.update(symbolic=w.symbolic)
    def __getattr__(self, n): return getattr(self._w, n)
    def items(self, a): return fix(self._w, list(self._w.items(a)))
    def sym(self, *a): return fix(self._w, self._w.sym(*a))
    def ssword(self, *a): return fix(self._w, self._w.ssword(*a))
    def tbl(self, *a): return fix(self._w, self._w.tbl(*a))
    def sel(self, *a): return fix(self._w, self._w.sel(*a))
    def ite(self, *a): return fix(self._w, self._w.ite(*a))
    def upd(self, *a): return fix(self._w, self._w.upd(*a))
    def ss(self, *a): return self._w.ss(*a)
def fixed(f):
    import functools
    @functools.wraps(f)
    def g(w, *a, **k): return f(Fixed(w) if w.symbolic else w, *a, **k)
    return g

# ------------------------------------------------------------------ small generators: f(state tuple) -> (output, state tuple)
def jsf(w, p, q, r):
    def f(s):
        a, b, c, d = s
        rot = lambda x, k: rotl(x, k, w) if k else x
        e = sub(w, a, rot(b, p))
        a = b ^ rot(c, q)
        b = add(w, c, rot(d, r))
        c = add(w, d, e)
        d = add(w, e, a)
        return d, (a, b, c, d)
    return f
def lxm(s):
    x0, x1, x2, x3, l, b = s
    z = add(64, x0, l)
    z = mul(64, z ^ (z >> 30), 0xbf58476d1ce4e5b9)
    z = mul(64, z ^ (z >> 27), 0x94d049bb133111eb)
    z = z ^ (z >> 31)
    l = add(64, mul(64, l, 2862933555777941757), b)
    _, (x0, x1, x2, x3) = xoshiro256((x0, x1, x2, x3))
    return z, (x0, x1, x2, x3, l, b)
def xoshiro256(s):
    s0, s1, s2, s3 = s
    out = mul(64, rotl(mul(64, s1, 5), 7), 9)
    t = (s1 << 17) & M64
    s2 = s2 ^ s0; s3 = s3 ^ s1; s1 = s1 ^ s2; s0 = s0 ^ s3
    s2 = s2 ^ t
    return out, (s0, s1, s2, rotl(s3, 45))
def xoshiro512(s):
    s = list(s)
    out = mul(64, rotl(mul(64, s[1], 5), 7), 9)
    t = (s[1] << 11) & M64
    for i, j in ((2, 0), (5, 1), (1, 2), (7, 3), (3, 4), (4, 5), (0, 6), (6, 7)): s[i] = s[i] ^ s[j]
    s[6] = s[6] ^ t
    s[7] = rotl(s[7], 21)
    return out, tuple(s)
def xoroshiro(a, b, c, pp):
    def f(s):
        s0, s1 = s
        r = add(64, s0, s1)
        if pp: r = add(64, rotl(r, 17), s0)
        s1 = s1 ^ s0
        return r, (rotl(s0, a) ^ s1 ^ ((s1 << b) & M64), rotl(s1, c))
    return f
def romu_quad(s):
    w, x, y, z = s
    return x, (mul(64, 15241094284759029579, z), add(64, z, rotl(w, 52)), sub(64, y, x), rotl(add(64, y, w), 19))
def romu_trio(s):
    x, y, z = s
    return x, (mul(64, 15241094284759029579, z), rotl(sub(64, y, x), 12), rotl(sub(64, z, y), 44))
def sfc64(s):
    a, b, c, w, k = s
    out = add(64, a, b, w)
    return out, (b ^ (b >> 11), add(64, c, (c << 3) & M64), add(64, rotl(c, 24), out), add(64, w, k), k)
def squares64(s):
    ctr, key = s
    y = x = mul(64, ctr, key); z = add(64, y, key)
    sw = lambda v: rotl(v, 32)
    x = sw(add(64, mul(64, x, x), y))
    x = sw(add(64, mul(64, x, x), z))
    x = sw(add(64, mul(64, x, x), y))
    t = x = add(64, mul(64, x, x), z)
    x = sw(x)
    return t ^ (add(64, mul(64, x, x), y) >> 32), (add(64, ctr, 1), key)
def squares32(s):
    ctr, key = s
    y = x = mul(64, ctr, key); z = add(64, y, key)
    sw = lambda v: rotl(v, 32)
    x = sw(add(64, mul(64, x, x), y))
    x = sw(add(64, mul(64, x, x), z))
    x = sw(add(64, mul(64, x, x), y))
    return add(64, mul(64, x, x), z) >> 32, (add(64, ctr, 1), key)
def tyche(s):
    a, b, c, d = s
    a = add(32, a, b); d = rotl(d ^ a, 16, 32)
    c = add(32, c, d); b = rotl(b ^ c, 12, 32)
    a = add(32, a, b); d = rotl(d ^ a, 8, 32)
    c = add(32, c, d); b = rotl(b ^ c, 7, 32)
    return b, (a, b, c, d)
def tyche_i(s):
    """openrand's variant: the inverse quarter round with its rotations replaced by left ones"""
    a, b, c, d = s
    b = rotl(b, 7, 32) ^ c; c = sub(32, c, d)
    d = rotl(d, 8, 32) ^ a; a = sub(32, a, b)
    b = rotl(b, 12, 32) ^ c; c = sub(32, c, d)
    d = rotl(d, 16, 32) ^ a; a = sub(32, a, b)
    return a, (a, b, c, d)
def pcg32(s):
    st, inc = s
    xs = (((st >> 18) ^ st) >> 27) & M32
    return ("rr", xs, st >> 59), (add(64, mul(64, st, 6364136223846793005), inc), inc)
PCGM = 47026247687942121848144207491837523525
CHEAP = 0xda942042e4dd58b5
def lcgout(name, w, st, dxsm=CHEAP):
    hi, lo = st >> 64, st & M64
    if name == "xsl-rr": return rrot(w, hi ^ lo, hi >> 58, 64)
    if name == "dxsm":
        lo = lo | 1
        hi = mul(64, hi ^ (hi >> 32), dxsm)
        return mul(64, hi ^ (hi >> 48), lo)
    if name == "murmur3":
        z = mul(64, hi ^ (hi >> 30), 0xbf58476d1ce4e5b9)
        z = mul(64, z ^ (z >> 27), 0x94d049bb133111eb)
        return z ^ (z >> 31)
    return {"upper": hi, "lower": lo}[name]
def rrot(w, x, r, width):
    """rotate right by a variable amount, one power of two at a time"""
    if not _c(x, r): return FW.rrot(x, r, width)
    i = 0
    while (1 << i) < width:
        x = w.ite((r >> i) & 1 == 1, rotr(x, 1 << i, width), x)
        i += 1
    return x
def efiix(w, s):
    """s: dict with ind (16), itr (32), i, a, b, c; indices may be symbolic"""
    ind, itr = list(s["ind"]), list(s["itr"])
    i, a, b, c = s["i"], s["a"], s["b"], s["c"]
    ii, ci = i & 31, c & 15
    iterated = sel(w, itr, ii); indirect = sel(w, ind, ci)
    ind = upd(w, ind, ci, add(64, iterated, a)); itr = upd(w, itr, ii, indirect)
    old = a ^ b
    a = add(64, b, i); i = add(64, i, 1)
    b = add(64, c, indirect)
    c = add(64, old, rotl(c, 25))
    return b ^ iterated, {"ind": ind, "itr": itr, "i": i, "a": a, "b": b, "c": c}
def sel(w, arr, i): return w.sel(arr, i, 64)
def upd(w, arr, i, v): return w.upd(arr, i, v, 64)
def arbee(s):
    a, b, c, d, i = s
    e = add(64, a, rotl(b, 45))
    a = b ^ rotl(c, 13)
    b = add(64, c, rotl(d, 37))
    c = add(64, e, d, i); i = add(64, i, 1)
    d = add(64, e, a)
    return d, (a, b, c, d, i)
def arbee_seed(k):
    s = tuple(k) + (1,)
    for _ in range(12): _, s = arbee(s)
    return s
def efiix_seed(w, k):
    k = list(k)
    s = arbee_seed(k)
    def nxt():
        nonlocal s
        v, s = arbee(s); return v
    e = {"ind": [nxt() for _ in range(16)]}
    e["i"] = nxt()
    itr = [0] * 32
    for j in range(32): itr[(j + e["i"]) % 32] = nxt()
    e["itr"] = itr
    e["a"] = nxt(); e["b"] = nxt(); e["c"] = nxt()
    for _ in range(64): _, e = efiix(w, e)
    nxt()
    for j in range(3): k[j] = add(64, k[j], nxt())
    s = arbee_seed([k[0] ^ e["a"], k[1] ^ e["b"], k[2] ^ e["c"], k[3] ^ M64])
    e["ind"] = [x ^ nxt() for x in e["ind"]]
    for _ in range(48): _, e = efiix(w, e)
    return e

# ------------------------------------------------------------------ AES-128
def _sbox():
    def gm(a, b):
        r = 0
        while b:
            if b & 1: r ^= a
            a = (a << 1) ^ (0x11b if a & 0x80 else 0); b >>= 1
        return r
    inv = [0] * 256
    for a in range(1, 256):
        for b in range(1, 256):
            if gm(a, b) == 1: inv[a] = b; break
    out = []
    for a in range(256):
        x = inv[a]; y = 0
        for i in range(8):
            y |= (((x >> i) ^ (x >> ((i + 4) % 8)) ^ (x >> ((i + 5) % 8)) ^ (x >> ((i + 6) % 8)) ^ (x >> ((i + 7) % 8)) ^ (0x63 >> i)) & 1) << i
        out.append(y)
    return tuple(out)
SBOX = _sbox()
SB2 = tuple(((v << 1) ^ (0x1b if v & 0x80 else 0)) & 255 for v in SBOX)
SB3 = tuple(a ^ b for a, b in zip(SB2, SBOX))
def bytesof(x, n): return [(x >> (8 * i)) & 255 for i in range(n)]
def frombytes(b):
    r = 0
    for i, x in enumerate(b): r = r | (x << (8 * i))
    return r
def aes_expand(w, key16):
    W = [key16[4 * i:4 * i + 4] for i in range(4)]
    rc = 1
    for i in range(4, 44):
        t = W[i - 1]
        if i % 4 == 0:
            t = [w.tbl(x, SBOX) for x in t[1:] + t[:1]]
            t = [t[0] ^ rc] + t[1:]
            rc = ((rc << 1) ^ (0x11b if rc & 0x80 else 0)) & 255
        W.append([a ^ b for a, b in zip(W[i - 4], t)])
    return [sum((W[4 * r + j] for j in range(4)), []) for r in range(11)]
def aes_block(w, rk, pt):
    s = [a ^ b for a, b in zip(pt, rk[0])]
    for r in range(1, 11):
        sh = [s[4 * ((j + i) % 4) + i] for j in range(4) for i in range(4)]
        if r == 10: s = [w.tbl(x, SBOX) for x in sh]
        else:
            s = []
            for j in range(4):
                c = sh[4 * j:4 * j + 4]
                S = [w.tbl(x, SBOX) for x in c]; D = [w.tbl(x, SB2) for x in c]; T = [w.tbl(x, SB3) for x in c]
                s += [D[0] ^ T[1] ^ S[2] ^ S[3], S[0] ^ D[1] ^ T[2] ^ S[3], S[0] ^ S[1] ^ D[2] ^ T[3], T[0] ^ S[1] ^ S[2] ^ D[3]]
        s = [a ^ b for a, b in zip(s, rk[r])]
    return s

# ------------------------------------------------------------------ ChaCha, SPECK, Philox, ThreeFry, HC-128
def chacha_block(key8, ctr128, rounds):
    x = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574] + list(key8) + [(ctr128 >> (32 * i)) & M32 for i in range(4)]
    inp = list(x)
    def qr(a, b, c, d):
        x[a] = add(32, x[a], x[b]); x[d] = rotl(x[d] ^ x[a], 16, 32)
        x[c] = add(32, x[c], x[d]); x[b] = rotl(x[b] ^ x[c], 12, 32)
        x[a] = add(32, x[a], x[b]); x[d] = rotl(x[d] ^ x[a], 8, 32)
        x[c] = add(32, x[c], x[d]); x[b] = rotl(x[b] ^ x[c], 7, 32)
    for i in range(0, rounds, 2):
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15)
        qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14)
    return [add(32, a, b) for a, b in zip(x, inp)]
def speck_expand(k):
    a = k[0]; l = list(k[1:]); rk = []
    for i in range(34):
        rk.append(a)
        n = add(64, rotr(l[i % 3], 8), a) ^ i
        l[i % 3] = n
        a = rotl(a, 3) ^ n
    return rk
def speck_block(rk, x, y):
    for k in rk:
        x = add(64, rotr(x, 8), y) ^ k
        y = rotl(y, 3) ^ x
    return x, y
PHILOX = {(2, 32): ([0xD256D193], [0x9E3779B9]), (4, 32): ([0xD2511F53, 0xCD9E8D57], [0x9E3779B9, 0xBB67AE85]),
          (2, 64): ([0xD2B74407B1CE6E93], [0x9E3779B97F4A7C15]), (4, 64): ([0xD2E7470EE14C6C93, 0xCA5A826395121157], [0x9E3779B97F4A7C15, 0xBB67AE8584CAA73B])}
def philox(n, w, ctr, key, rounds=10):
    mults, weyl = PHILOX[(n, w)]
    c, k = list(ctr), list(key)
    for r in range(rounds):
        if r: k = [add(w, a, b) for a, b in zip(k, weyl)]
        if n == 2:
            hi, lo = mulhilo(w, c[0], mults[0])
            c = [hi ^ k[0] ^ c[1], lo]
        else:
            h0, l0 = mulhilo(w, c[0], mults[0]); h1, l1 = mulhilo(w, c[2], mults[1])
            c = [h1 ^ c[1] ^ k[0], l1, h0 ^ c[3] ^ k[1], l0]
    return c
TFR = {(4, 64): [(14, 16), (52, 57), (23, 40), (5, 37), (25, 33), (46, 12), (58, 22), (32, 32)],
       (2, 64): [(16,), (42,), (12,), (31,), (16,), (32,), (24,), (21,)],
       (4, 32): [(10, 26), (11, 21), (13, 27), (23, 5), (6, 20), (17, 11), (25, 10), (18, 20)],
       (2, 32): [(13,), (15,), (26,), (6,), (17,), (29,), (16,), (24,)]}
def threefry(n, w, ctr, key, rounds=20):
    par = 0x1BD11BDAA9FC1A22 if w == 64 else 0x1BD11BDA
    ks = list(key)
    for k in key: par = par ^ k
    ks.append(par)
    x = [add(w, a, b) for a, b in zip(ctr, ks)]
    for r in range(rounds):
        R = TFR[(n, w)][r % 8]
        if n == 2:
            x[0] = add(w, x[0], x[1]); x[1] = rotl(x[1], R[0], w) ^ x[0]
        else:
            p, q = (1, 3) if r % 2 == 0 else (3, 1)
            x[0] = add(w, x[0], x[p]); x[p] = rotl(x[p], R[0], w) ^ x[0]
            x[2] = add(w, x[2], x[q]); x[q] = rotl(x[q], R[1], w) ^ x[2]
        if r % 4 == 3:
            s = r // 4 + 1
            x = [add(w, v, ks[(s + i) % (n + 1)]) for i, v in enumerate(x)]
            x[n - 1] = add(w, x[n - 1], s)
    return x
def hc128_step(w, p, q, i):
    """one keystream word at step i of 1024; p and q lists are updated"""
    j = i % 512
    if i < 512:
        p[j] = add(32, p[j], add(32, rotr(p[(j - 3) % 512], 10, 32) ^ rotr(p[(j - 511) % 512], 23, 32), rotr(p[(j - 10) % 512], 8, 32)))
        x = p[(j - 12) % 512]
        return hc_h(w, q, x) ^ p[j]
    q[j] = add(32, q[j], add(32, rotl(q[(j - 3) % 512], 10, 32) ^ rotl(q[(j - 511) % 512], 23, 32), rotl(q[(j - 10) % 512], 8, 32)))
    x = q[(j - 12) % 512]
    return hc_h(w, p, x) ^ q[j]
def hc_h(w, t, x): return add(32, w.sel(t[:256], x & 255, 32), w.sel(t[256:], (x >> 16) & 255, 32))
def hc128_expand(key4, iv4):
    f1 = lambda x: rotr(x, 7, 32) ^ rotr(x, 18, 32) ^ (x >> 3)
    f2 = lambda x: rotr(x, 17, 32) ^ rotr(x, 19, 32) ^ (x >> 10)
    W = list(key4) * 2 + list(iv4) * 2
    for i in range(16, 1280): W.append(add(32, f2(W[i - 2]), W[i - 7], f1(W[i - 15]), W[i - 16], i))
    return W[256:768], W[768:1280]

# ------------------------------------------------------------------ Mersenne twisters
def mt19937_twist(k):
    k = list(k)
    for i in range(624):
        y = (k[i] & 0x80000000) | (k[(i + 1) % 624] & 0x7fffffff)
        k[i] = k[(i + 397) % 624] ^ (y >> 1) ^ ((y & 1) * 0x9908b0df)
    return k
def mt19937_temper(y):
    y = y ^ (y >> 11); y = y ^ ((y << 7) & 0x9d2c5680); y = y ^ ((y << 15) & 0xefc60000)
    return y ^ (y >> 18)
def mt64_twist(k):
    k = list(k)
    for i in range(312):
        y = (k[i] & 0xFFFFFFFF80000000) | (k[(i + 1) % 312] & 0x7FFFFFFF)
        k[i] = k[(i + 156) % 312] ^ (y >> 1) ^ ((y & 1) * 0xB5026F5AA96619E9)
    return k
def mt64_temper(x):
    x = x ^ ((x >> 29) & 0x5555555555555555)
    x = x ^ ((x << 17) & 0x71D67FFFEDA60000)
    x = x ^ ((x << 37) & 0xFFF7EEE000000000)
    return x ^ (x >> 43)
def mt_init_by_array(key, n, w):
    c0, c1, c2, sh, top = ((1812433253, 1664525, 1566083941, 30, 1 << 31) if w == 32 else (6364136223846793005, 3935559000370003845, 2862933555777941757, 62, 1 << 63))
    mt = [19650218]
    for i in range(1, n): mt.append(add(w, mul(w, c0, mt[-1] ^ (mt[-1] >> sh)), i))
    i, j = 1, 0
    for _ in range(max(n, len(key))):
        mt[i] = add(w, mt[i] ^ mul(w, mt[i - 1] ^ (mt[i - 1] >> sh), c1), key[j], j)
        i += 1; j += 1
        if i >= n: mt[0] = mt[n - 1]; i = 1
        if j >= len(key): j = 0
    for _ in range(n - 1):
        mt[i] = sub(w, mt[i] ^ mul(w, mt[i - 1] ^ (mt[i - 1] >> sh), c2), i)
        i += 1
        if i >= n: mt[0] = mt[n - 1]; i = 1
    mt[0] = top
    return mt
def sfmt_next(k):
    """k: 624 32-bit words; returns the next 624"""
    N, POS = 156, 122
    MSK = (0xdfffffef, 0xddfecb7f, 0xbffaffff, 0xbffffff6)
    s = [frombytes32(k[4 * i:4 * i + 4]) for i in range(N)]
    r1, r2 = s[N - 2], s[N - 1]
    for i in range(N):
        a, b = s[i], s[(i + POS) % N]
        x = a ^ ((a << 8) & M128) ^ (r1 >> 8)
        v = []
        for j in range(4):
            v.append(((x >> (32 * j)) & M32) ^ ((((b >> (32 * j)) & M32) >> 11) & MSK[j]) ^ ((((r2 >> (32 * j)) & M32) << 18) & M32))
        s[i] = frombytes32(v)
        r1, r2 = r2, s[i]
    return [(x >> (32 * j)) & M32 for x in s for j in range(4)]
def frombytes32(v):
    r = 0
    for i, x in enumerate(v): r = r | (x << (32 * i))
    return r
def dsfmt_next(k):
    """k: 384 64-bit words (191 pairs and the lung)"""
    N, POS, SL1 = 191, 117, 19
    MSK = (0x000ffafffffffb3f, 0x000ffdfffc90fffd)
    s = list(k); l0, l1 = s[382], s[383]
    for i in range(N):
        t0, t1 = s[2 * i], s[2 * i + 1]
        j = (i + POS) % N
        n0 = ((t0 << SL1) & M64) ^ rotl(l1, 32) ^ s[2 * j]
        n1 = ((t1 << SL1) & M64) ^ rotl(l0, 32) ^ s[2 * j + 1]
        l0, l1 = n0, n1
        s[2 * i] = (l0 >> 12) ^ (l0 & MSK[0]) ^ t0
        s[2 * i + 1] = (l1 >> 12) ^ (l1 & MSK[1]) ^ t1
    s[382], s[383] = l0, l1
    return s
def sfmt_init_by_array(key, size=624):
    """init_by_array of the SFMT/dSFMT reference sources, before masking and certification (size in 32-bit words, >= 623)"""
    lag = 11; mid = (size - lag) // 2
    f1 = lambda x: mul(32, x ^ (x >> 27), 1664525)
    f2 = lambda x: mul(32, x ^ (x >> 27), 1566083941)
    p = [0x8b8b8b8b] * size
    n = len(key); count = max(n + 1, size)
    r = f1(p[0] ^ p[mid] ^ p[size - 1])
    p[mid] = add(32, p[mid], r); r = add(32, r, n); p[mid + lag] = add(32, p[mid + lag], r); p[0] = r
    i = 1
    for j in range(count - 1):
        r = f1(p[i] ^ p[(i + mid) % size] ^ p[(i + size - 1) % size])
        p[(i + mid) % size] = add(32, p[(i + mid) % size], r)
        r = add(32, r, key[j] if j < n else 0, i)
        p[(i + mid + lag) % size] = add(32, p[(i + mid + lag) % size], r)
        p[i] = r; i = (i + 1) % size
    for j in range(size):
        r = f2(add(32, p[i], p[(i + mid) % size], p[(i + size - 1) % size]))
        p[(i + mid) % size] = p[(i + mid) % size] ^ r
        r = sub(32, r, i)
        p[(i + mid + lag) % size] = p[(i + mid + lag) % size] ^ r
        p[i] = r; i = (i + 1) % size
    return p
def parity(w, x, width):
    b = 1
    while b < width: x = x ^ (x >> b); b *= 2
    return x & 1
def sfmt_certify(w, p):
    PAR = (0x00000001, 0x00000000, 0x00000000, 0x13c9e684)
    x = 0
    for i in range(4): x = x ^ (p[i] & PAR[i])
    ok = parity(w, x, 32)
    return [w.ite(ok == 1, p[0], p[0] ^ 1)] + list(p[1:])

def dsfmt_init(w, key):
    p32 = sfmt_init_by_array(key, 768)
    p = [p32[2 * i] | (p32[2 * i + 1] << 32) for i in range(384)]
    p = [(x & 0x000FFFFFFFFFFFFF) | 0x3FF0000000000000 for x in p[:382]] + p[382:]
    return dsfmt_certify(w, p)
def dsfmt_certify(w, p):
    t = ((p[382] ^ 0x90014964b32f4329) & 0x3d84e1ac0dc82880) ^ ((p[383] ^ 0x3b8d12ac548a7c7a) & 1)
    return p[:383] + [w.ite(parity(w, t, 64) == 1, p[383], p[383] ^ 1)]
