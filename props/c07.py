"""C07: each generator implements its published algorithm."""
from vp.task import Task
from .gens import *
from . import ref as R

DEEP = True
EXPLANATION = "From an arbitrary valid state (all words symbolic) the native outputs and the successor state, as the user sees them, equal those of a reference written from the publications (props/ref.py); key schedules and initialisation procedures likewise for symbolic keys and seed words."
ASSUMPTIONS = ["states are valid ones: flags 0/1, positions inside their buffers, increments odd",
               "EFIIX64, SFMT and DSFMT initialisation is compared for fixed seed words (their index or carry structure puts a fully symbolic seed out of reach)"]

def get(st, keys): return [st[k] for k in keys]
def words(w, a): return w.items(a)
def deep(st):
    return {k: deep(v) if isinstance(v, dict) else v for k, v in st.items()}

class Alg:
    """state dictionary <-> reference state"""
    def __init__(self, ref, load, store): self.ref = ref; self.load = load; self.store = store

def scal(keys, f, top="state"):
    def load(w, st): return R.fix(w, tuple(st[top][k] for k in keys))
    def store(w, st, s):
        for k, v in zip(keys, s): st[top][k] = v
    return Alg(lambda w: f, load, store)
def arr(f, key="s", dtype="uint64"):
    def load(w, st): return tuple(w.items(st[key]))
    def store(w, st, s): st[key] = w.arr(s, dtype)
    return Alg(lambda w: f, load, store)
def withw(f): return lambda w: (lambda s: f(w, s))

def lxm_load(w, st): return tuple(w.items(st["state"]["x"])) + R.fix(w, (st["state"]["lcg_state"], st["state"]["b"]))
def lxm_store(w, st, s): st["state"]["x"] = w.arr(s[:4], "uint64"); st["state"]["lcg_state"] = s[4]; st["state"]["b"] = s[5]
def efiix_load(w, st):
    s = st["state"]
    return {"ind": w.items(s["indirection_table"]), "itr": w.items(s["iteration_table"]), **{k: R.fix(w, s[k]) for k in "iabc"}}
def efiix_store(w, st, e):
    s = st["state"]
    s["indirection_table"] = w.arr(e["ind"], "uint64"); s["iteration_table"] = w.arr(e["itr"], "uint64")
    for k in "iabc": s[k] = e[k]
def xs1024(w, s):
    a, p = list(s[0]), s[1]
    s0 = w.sel(a, p, 64); p = (p + 1) & 15
    s1 = w.sel(a, p, 64)
    s1 = s1 ^ ((s1 << 31) & R.M64)
    n = s1 ^ s0 ^ (s1 >> 11) ^ (s0 >> 30)
    return R.mul(64, n, 0x9e3779b97f4a7c13), (w.upd(a, p, n, 64), p)
def xs_load(w, st): return (w.items(st["state"]["s"]), R.fix(w, st["state"]["p"]))
def xs_store(w, st, s): st["state"]["s"] = w.arr(s[0], "uint64"); st["state"]["p"] = s[1]
def lcg(mult, out, post):
    def f(w, s):
        st, inc = s
        m = mult if mult is not None else w.lcgmult
        n = R.add(128, R.mul(128, st, m), inc)
        return out(w, n if post else st), (n, inc)
    return f
def pcg32(w, s):
    st, inc = s
    (_, xs, r), n = R.pcg32(s)
    return R.rrot(w, xs, r, 32), n

ALG = {}
for n, pqr in (("JSF64", (64, 7, 13, 37)), ("JSF32", (32, 27, 17, 0))): ALG[n] = scal("abcd", R.jsf(*pqr))
ALG["LXM"] = Alg(lambda w: R.lxm, lxm_load, lxm_store)
ALG["EFIIX64"] = Alg(withw(R.efiix), efiix_load, efiix_store)
ALG["PCG32"] = Alg(withw(pcg32), lambda w, st: R.fix(w, (st["state"]["state"], st["state"]["inc"])), lambda w, st, s: st["state"].update(state=s[0]))
L = lambda f: Alg(withw(f), lambda w, st: R.fix(w, (st["state"]["state"], st["state"]["inc"])), lambda w, st, s: st["state"].update(state=s[0]))
xsl = lambda w, s: R.lcgout("xsl-rr", w, s)
dxsm = lambda w, s: R.lcgout("dxsm", w, s)
ALG["PCG64"] = L(lcg(R.PCGM, xsl, True))
ALG["PCG64-dxsm-128"] = L(lcg(R.PCGM, dxsm, True))
ALG["PCG64-cm-dxsm"] = ALG["PCG64DXSM"] = L(lcg(R.CHEAP, dxsm, False))
for o in ("xsl-rr", "dxsm", "murmur3", "upper", "lower"):
    for post in (True, False):
        ALG["LCG128Mix-%s%s" % (o, "" if post else "-pre")] = L(lcg(R.PCGM, lambda w, s, o=o: R.lcgout(o, w, s), post))
ALG["Romu-quad"] = scal("wxyz", R.romu_quad)
ALG["Romu-trio"] = scal("xyz", R.romu_trio)
ALG["SFC64"] = scal("abcwk", R.sfc64)
ALG["Squares64"] = scal(("counter", "key"), R.squares64)
ALG["Squares32"] = scal(("counter", "key"), R.squares32)
ALG["Tyche"] = scal("abcd", R.tyche)
ALG["Tyche-openrand"] = scal("abcd", R.tyche_i)
ALG["Xoroshiro128"] = arr(R.xoroshiro(24, 16, 37, False))
ALG["Xoroshiro128pp"] = arr(R.xoroshiro(49, 21, 28, True))
ALG["Xorshift1024"] = Alg(withw(xs1024), xs_load, xs_store)
ALG["Xoshiro256"] = arr(R.xoshiro256)
ALG["Xoshiro512"] = arr(R.xoshiro512)

@R.fixed
def step(w, g, n):
    a = g.make(w, "#a")
    st = g.symstate(w, a, "s")
    a.state = st
    alg = ALG[g.name]; f = alg.ref(w); s = alg.load(w, st)
    k = "u32" if g.half == "pair" else "u64"
    for i in range(n):
        o, s = f(s)
        w.eq("output %d" % i, w.draw(a, k), o)
    e = deep(a.state); want = deep(a.state)
    alg.store(w, want, s)
    w.eq("state", e, want)

@R.fixed
def jsfparam(w, size, pqr):
    J = w.cls("jsf", "JSF")
    a = J(w.ss("#a"), size=size, p=pqr[0], q=pqr[1], r=pqr[2])
    st = sym_like(w, a.state, {k: W(size) for k in "abcd"}, "s")
    a.state = st
    s = R.fix(w, tuple(st["state"][k] for k in "abcd"))
    f = R.jsf(size, *pqr)
    for i in range(2):
        o, s = f(s)
        w.eq("output %d" % i, w.draw(a, "u64" if size == 64 else "u32"), o)
    w.eq("state", [a.state["state"][k] for k in "abcd"], list(s))

@R.fixed
def lcgparam(w, out, post):
    """every multiplier and dxsm multiplier selects exactly that variant"""
    m = w.sym("m", 128); d = w.sym("d", 64)
    w.assume(m % 2 == 1); w.assume(d % 2 == 1)
    a = w.cls("pcg64", "LCG128Mix")(w.ss("#a"), multiplier=m, dxsm_multiplier=d, output=out, post=post)
    st = GENS["LCG128Mix-xsl-rr"].symstate(w, a, "s")
    a.state = st
    s, inc = R.fix(w, (st["state"]["state"], st["state"]["inc"]))
    for i in range(1 if out != "upper" else 2):
        n = R.add(128, R.mul(128, s, m), inc)
        w.eq("output %d" % i, w.draw(a, "u64"), R.lcgout(out, w, n if post else s, d))
        s = n
    w.eq("state", a.state["state"]["state"], s)
    w.eq("multiplier", a.state["state"]["multiplier"], m)
    w.eq("dxsm multiplier", a.state["state"]["dxsm_multiplier"], d)

# ------------------------------------------------------------------ buffered generators
@R.fixed
def aes(w, off, hwaes):
    g = GENS["AESCounter"]
    a = g.make(w, "#a")
    st = g.symstate(w, a, "s", {"offset": off})
    a.state = st
    if hwaes is not None: a.use_aesni = hwaes
    by = w.items(st["s"]["state"])
    if off >= 64:
        rk = w.items(st["s"]["seed"]); ct = w.items(st["s"]["counter"])
        RK = [R.bytesof(rk[2 * r], 8) + R.bytesof(rk[2 * r + 1], 8) for r in range(11)]
        by = []
        nc = []
        for i in range(4):
            by += R.aes_block(w, RK, R.bytesof(ct[2 * i], 8) + R.bytesof(ct[2 * i + 1], 8))
            nc += add128(w, ct[2 * i], ct[2 * i + 1], 4)
        off = 0
        want = nc
    else: want = w.items(st["s"]["counter"])
    n = 8 if off == 0 else 1
    for i in range(n):
        w.eq("output %d" % i, w.draw(a, "u64"), R.frombytes(by[off:off + 8]))
        off += 8
    e = a.state["s"]
    w.eq("counters", w.items(e["counter"]), want)
    w.eq("round keys", w.items(e["seed"]), w.items(st["s"]["seed"]))
    w.eq("offset", e["offset"], off)

def add128(w, lo, hi, k):
    l = R.add(64, lo, k)
    return [l, w.ite(l < k, R.add(64, hi, 1), hi)]

@R.fixed
def aeskey(w, hwaes):
    k = [w.sym("k%d" % i, 64) for i in range(2)]
    A = w.cls("aes", "AESCounter")
    a = A(key=w.arr(k, "uint64"))
    rk = R.aes_expand(w, R.bytesof(k[0], 8) + R.bytesof(k[1], 8))
    s = a.state["s"]
    w.eq("round keys", w.items(s["seed"]), [R.frombytes(r[8 * j:8 * j + 8]) for r in rk for j in range(2)])
    w.eq("counters", w.items(s["counter"]), [0, 0, 1, 0, 2, 0, 3, 0])
    w.eq("offset", s["offset"], 64)

@R.fixed
def chacha(w, rounds, pos, simd):
    """one whole 512-bit block from a block boundary, or the buffered words from a position inside it"""
    C = w.cls("chacha", "ChaCha")
    a = C(w.ss("#a"), rounds=rounds)
    st = sym_like(w, a.state, {"keysetup": None}, "s")
    cw = [w.sym("c%d" % i, 28 if i == 3 else 32) for i in range(4)]         # the words of the block number
    ctr = R.frombytes32(cw)
    st["state"]["ctr"] = w.arr([((ctr << 4) | pos) & R.M64, ctr >> 60], "uint64")
    a.state = st
    if simd is not None: a.use_simd = simd
    key = w.items(st["state"]["keysetup"])
    blk = R.chacha_block(key, ctr, rounds) if pos == 0 else w.items(st["state"]["block"])
    for i in range(pos, 16): w.eq("output %d" % i, w.draw(a, "u32"), blk[i])
    c = R.add(124, ctr, 1) << 4
    e = a.state["state"]
    w.eq("counter", w.items(e["ctr"]), [c & R.M64, c >> 64])
    w.eq("key", w.items(e["keysetup"]), key)

@R.fixed
def speck(w, off, sse):
    g = GENS["SPECK128"]
    a = g.make(w, "#a")
    st = g.symstate(w, a, "s", {"offset": off})
    rk = [w.sym("rk%d" % i, 64) for i in range(34)]
    st["state"]["round_key"] = w.arr([x for x in rk for _ in range(2)], "uint64")
    a.state = st
    if sse is not None: a.use_sse41 = sse
    ct = w.items(st["state"]["ctr"]); buf = w.items(st["state"]["buffer"])
    if off >= 96:
        buf = []; nc = []
        for i in range(6):
            x, y = R.speck_block(rk, ct[2 * i + 1], ct[2 * i])
            buf += [y, x]
            nc += add128(w, ct[2 * i], ct[2 * i + 1], 6)
        ct = nc; off = 0
    for i in range(off // 8, 12 if off == 0 else off // 8 + 1):
        w.eq("output %d" % i, w.draw(a, "u64"), buf[i]); off += 8
    e = a.state["state"]
    w.eq("counters", w.items(e["ctr"]), ct)
    w.eq("round keys", w.items(e["round_key"]), w.items(st["state"]["round_key"]))
    w.eq("offset", e["offset"], off)

@R.fixed
def speckkey(w):
    k = [w.sym("k%d" % i, 64) for i in range(4)]
    a = w.cls("speck128", "SPECK128")(key=w.arr(k, "uint64"))
    s = a.state["state"]
    w.eq("round keys", w.items(s["round_key"]), [x for x in R.speck_expand(k) for _ in range(2)])
    w.eq("counters", w.items(s["ctr"]), [v for i in range(6) for v in (i, 0)])

@R.fixed
def philox(w, g, pos):
    n, wd = g.N, g.raw
    a = g.make(w, "#a")
    st = g.symstate(w, a, "s", {"buffer_pos": pos})
    a.state = st
    c = w.items(st["state"]["counter"]); k = w.items(st["state"]["key"]); buf = w.items(st["buffer"])
    if pos >= n:
        for i in range(n):          # add one with carry
            c[i] = R.add(wd, c[i], 1)
            if w.cond(c[i] != 0): break
        buf = (R.philox if g.mod == "philox" else R.threefry)(n, wd, c, k)
        pos = 0
    for i in range(pos, n):
        w.eq("output %d" % i, w.draw(a, "u32" if wd == 32 else "u64"), buf[i])
    e = a.state
    w.eq("counter", w.items(e["state"]["counter"]), c)
    w.eq("key", w.items(e["state"]["key"]), k)
    w.eq("buffer position", e["buffer_pos"], n)

@R.fixed
def hc128(w, idx):
    g = GENS["HC128"]
    a = g.make(w, "#a")
    st = g.symstate(w, a, "s", {"hc_idx": idx, "buffer_idx": 16})
    a.state = st
    p, q = w.items(st["state"]["p"]), w.items(st["state"]["q"])
    out = [R.hc128_step(w, p, q, (idx + i) % 1024) for i in range(16)]
    for i in range(16): w.eq("output %d" % i, w.draw(a, "u32"), out[i])
    e = a.state["state"]
    w.eq("P", w.items(e["p"]), p); w.eq("Q", w.items(e["q"]), q)
    w.eq("index", e["hc_idx"], (idx + 16) % 1024); w.eq("buffer index", e["buffer_idx"], 16)

@R.fixed
def hc128buf(w, pos):
    g = GENS["HC128"]
    a = g.make(w, "#a")
    st = g.symstate(w, a, "s", {"hc_idx": 32, "buffer_idx": pos})
    a.state = st
    w.eq("output", w.draw(a, "u32"), w.items(st["state"]["buffer"])[pos])
    st2 = deep(st); st2["state"]["buffer_idx"] = pos + 1
    w.eq("state", a.state, st2)

@R.fixed
def hc128key(w, free):
    """initialisation; key words outside `free` are fixed"""
    k = [w.sym("k%d" % i, 64) if i in free else [0x0123456789abcdef, 0x0f1e2d3c4b5a6978, 0x55aa00ff1234fedc, 0x9e3779b97f4a7c15][i] for i in range(4)]
    h = w.cls("hc128", "HC128")(key=w.arr(k, "uint64"))
    kw = [x for v in k for x in (v & R.M32, v >> 32)]
    p, q = R.hc128_expand(kw[:4], kw[4:])
    p, q = list(p), list(q)
    s = h.state["state"]
    for i in range(512): p[i] = R.hc128_step(w, p, q, i)
    for i in range(512): q[i] = R.hc128_step(w, p, q, 512 + i)
    w.eq("P", w.items(s["p"]), p); w.eq("Q", w.items(s["q"]), q)
    w.eq("index", s["hc_idx"], 0); w.eq("buffer index", s["buffer_idx"], 0)

@R.fixed
def mt(w, g, pos):
    n = 624 if g.mod == "mt19937" else 312
    a = g.make(w, "#a")
    st = g.symstate(w, a, "s", {"pos": pos})
    a.state = st
    k = w.items(st["state"]["key"])
    twist, temper = (R.mt19937_twist, R.mt19937_temper) if n == 624 else (R.mt64_twist, R.mt64_temper)
    if pos == n: k = twist(k); pos = 0
    m = n if pos == 0 else 1
    for i in range(m):
        w.eq("output %d" % i, w.draw(a, "u32" if n == 624 else "u64"), temper(k[pos])); pos += 1
    e = a.state["state"]
    w.eq("key", w.items(e["key"]), k); w.eq("position", e["pos"], pos)

@R.fixed
def mtsym(w, g):
    """a symbolic position inside the block"""
    n = 624 if g.mod == "mt19937" else 312
    a = g.make(w, "#a")
    pos = w.sym("pos", 10); w.assume(pos < n)
    st = g.symstate(w, a, "s", {"pos": None}); st["state"]["pos"] = pos
    a.state = st
    k = w.items(st["state"]["key"])
    wd = 32 if n == 624 else 64
    w.eq("output", w.draw(a, "u32" if n == 624 else "u64"), (R.mt19937_temper if n == 624 else R.mt64_temper)(w.sel(k, pos, wd)))
    w.eq("position", a.state["state"]["pos"], pos + 1)
    w.eq("key", w.items(a.state["state"]["key"]), k)

@R.fixed
def mtseed(w, g, free):
    n, wd = (624, 32) if g.mod == "mt19937" else (312, 64)
    tag = "r" if free == "all" else "#r"
    a = g.make(w, tag)
    key = [w.ssword(tag, i, wd) for i in range(n)]
    s = a.state["state"]
    w.eq("key", w.items(s["key"]), R.mt_init_by_array(key, n, wd))
    w.eq("position", s["pos"], n)

@R.fixed
def sfmt(w, pos, free=None):
    g = GENS["SFMT"]
    a = g.make(w, "#a")
    st = g.symstate(w, a, "s", {"buffer_loc": pos})
    if free:        # only some of the state words arbitrary; the step is linear over GF(2)
        st["state"]["state"] = w.arr([x if i in free else (0x9E3779B9 * (i + 1)) & R.M32 for i, x in enumerate(w.items(st["state"]["state"]))], "uint32")
    a.state = st
    k = w.items(st["state"]["state"]); buf = w.items(st["buffered_uint64"])
    if pos == 312:
        k = R.sfmt_next(k)
        buf = [k[2 * i] | (k[2 * i + 1] << 32) for i in range(312)]; pos = 0
    for i in range(pos, 312): w.eq("output %d" % i, w.draw(a, "u64"), buf[i])
    e = a.state
    w.eq("state", w.items(e["state"]["state"]), k); w.eq("position", e["buffer_loc"], 312); w.eq("index", e["state"]["idx"], 624)

@R.fixed
def dsfmt(w, pos):
    g = GENS["DSFMT"]
    a = g.make(w, "#a")
    st = g.symstate(w, a, "s", {"buffer_loc": pos})
    k0 = w.items(st["state"]["state"])
    # the mantissas are arbitrary, the constant part is the one every reachable state has
    k0 = [(x & 0x000FFFFFFFFFFFFF) | 0x3FF0000000000000 if i < 382 else x for i, x in enumerate(k0)]
    st["state"]["state"] = w.arr(k0, "uint64")
    a.state = st
    k = R.dsfmt_next(k0)
    w.eq("form", [x >> 52 for x in k[:382]], [0x3FF] * 382)
    for i in range(382): w.eq("output %d" % i, w.dbits(w.draw(a, "dbl")), w.dbits(w.dyadic(k[i] & 0x000FFFFFFFFFFFFF, -52)))
    e = a.state
    w.eq("state", w.items(e["state"]["state"]), k); w.eq("position", e["buffer_loc"], 382)

@R.fixed
def sfmtseed(w, g, tag):
    a = g.make(w, tag)
    if g.mod == "sfmt":
        key = [w.ssword(tag, i) for i in range(624)]
        want = R.sfmt_certify(w, R.sfmt_init_by_array(key))
    else:
        key = [w.ssword(tag, i) for i in range(764)]
        want = R.dsfmt_init(w, key)
    w.eq("state", w.items(a.state["state"]["state"]), want)

# ------------------------------------------------------------------ initialisation of the small generators
@R.fixed
def seeded(w, g, kw=None, tag="r"):
    a = g.make(w, tag, **(kw or {}))
    W64 = lambda i: w.ssword(tag, i, 64)
    W32 = lambda i: w.ssword(tag, i, 32)
    st = a.state
    def run(f, s, n):
        for _ in range(n): _, s = f(s)
        return s
    kw = kw or {}
    if g.cls == "Romu":
        z = W64(3)
        allz = w.and_(*[W64(i) == 0 for i in range(4)])
        z = w.ite(allz, 1, z)
        if kw.get("variant", g.kw["variant"]) == "quad": s = run(R.romu_quad, (W64(0), W64(1), W64(2), z), 10)
        else: s = (W64(0),) + run(R.romu_trio, (W64(1), W64(2), z), 10)
        w.eq("state", [st["state"][k] for k in "wxyz"], list(s))
    elif g.cls == "SFC64":
        s = run(R.sfc64, (W64(0), W64(1), W64(2), 1, 1), 12)
        w.eq("state", [st["state"][k] for k in "abcwk"], list(s))
    elif g.cls == "JSF":
        sz = g.kw["size"]; n = kw.get("seed_size", 1)
        Wd = W64 if sz == 64 else W32
        pqr = [st["state"][k] for k in "pqr"]
        s = run(R.jsf(sz, *pqr), (0xf1ea5eed, Wd(0), Wd(1) if n > 1 else Wd(0), Wd(2) if n > 2 else Wd(0)), 20)
        w.eq("state", [st["state"][k] for k in "abcd"], list(s))
    elif g.cls == "Tyche":
        f = R.tyche if g.kw["original"] else R.tyche_i
        s = run(f, (W32(1), W32(0), 2654435769, 1367130551 ^ W32(2)), 20)
        w.eq("state", [st["state"][k] for k in "abcd"], list(s))
    elif g.cls == "PCG32":
        inc = ((W64(1) << 1) | 1) & R.M64
        s = R.add(64, R.mul(64, R.add(64, inc, W64(0)), 6364136223846793005), inc)
        w.eq("state", [st["state"]["state"], st["state"]["inc"]], [s, inc])
    elif g.cls in ("PCG64", "PCG64DXSM", "LCG128Mix"):
        m = R.CHEAP if g.name in ("PCG64-cm-dxsm", "PCG64DXSM") else R.PCGM
        inc = ((((W64(2) << 64) | W64(3)) << 1) | 1) & R.M128
        s = R.add(128, R.mul(128, R.add(128, inc, (W64(0) << 64) | W64(1)), m), inc)
        w.eq("state", [st["state"]["state"], st["state"]["inc"]], [s, inc])
    elif g.cls == "LXM":
        last = w.ite(w.and_(*[W64(i) == 0 for i in range(4)]), 1, W64(3))
        w.eq("state", w.items(st["state"]["x"]) + [st["state"]["lcg_state"], st["state"]["b"]], [W64(i) for i in range(3)] + [last, W64(4), 3037000493])
    elif g.name.startswith("Xo") and g.cls != "Xorshift1024":
        n = {"Xoroshiro128": 2, "Xoshiro256": 4, "Xoshiro512": 8}[g.cls]
        w.eq("state", w.items(st["s"]), [W64(i) for i in range(n)])
    elif g.cls == "Xorshift1024":
        w.eq("state", w.items(st["state"]["s"]) + [st["state"]["p"]], [W64(i) for i in range(16)] + [0])
    elif g.cls == "EFIIX64":
        e = R.efiix_seed(w, [W64(i) for i in range(4)])
        want = deep(st); efiix_store(w, want, e)
        w.eq("state", st, want)
    elif g.cls == "ChaCha":
        key = [x for i in range(4) for x in (W64(i) & R.M32, W64(i) >> 32)]
        w.eq("key", w.items(st["state"]["keysetup"]), key)
        w.eq("counter", w.items(st["state"]["ctr"]), [0, 0])
    elif g.cls in ("Philox", "ThreeFry"):
        nk = g.N // 2 if g.cls == "Philox" else g.N
        if g.raw == 64: key = [W64(i) for i in range(nk)]
        else: key = [W32(i) for i in range(nk)]
        w.eq("key", w.items(st["state"]["key"]), key)
        w.eq("counter", w.items(st["state"]["counter"]), [0] * g.N)

def tasks(tier):
    T = []
    b = "any valid state"
    for n, alg in ALG.items():
        g = GENS[n]
        k = 1 if n in ("PCG64", "PCG64-dxsm-128") or "murmur3" in n or "dxsm" in n else 2
        T.append(Task("step.%s" % n, step, g.mods, dict(g=g, n=k), deadline=90, ms=60000, bound=b + "; %d draws" % k))
    from_jsf = {64: [(7, 13, 37), (39, 11, 0)], 32: [(27, 17, 0), (9, 16, 0), (9, 24, 0), (10, 16, 0), (10, 24, 0), (11, 16, 0), (11, 24, 0), (25, 8, 0), (25, 16, 0), (26, 8, 0), (26, 16, 0), (26, 17, 0), (27, 16, 0), (3, 14, 24), (3, 25, 15), (4, 15, 24), (6, 16, 28), (7, 16, 27), (8, 14, 3), (11, 16, 23), (12, 16, 22), (12, 17, 23), (13, 16, 22), (15, 25, 3), (16, 9, 3), (17, 9, 3), (17, 27, 7), (19, 7, 3), (23, 15, 11), (23, 16, 11), (23, 17, 11), (24, 3, 16), (24, 4, 16), (25, 14, 3), (27, 16, 6), (27, 16, 7)]}
    for size, l in from_jsf.items():
        for i, pqr in enumerate(l):
            T.append(Task("jsf.%d.%d-%d-%d" % ((size,) + pqr), jsfparam, ["common", "jsf"], dict(size=size, pqr=pqr), deadline=60, quick=i < 3 or i % 6 == 0, bound=b))
    for o in ("xsl-rr", "dxsm", "murmur3", "upper", "lower"):
        for post in (True, False):
            T.append(Task("lcgparam.%s.%s" % (o, "post" if post else "pre"), lcgparam, ["common", "pcg64"], dict(out=o, post=post), deadline=90, ms=60000,
                          bound="any valid state, any odd multiplier and dxsm multiplier", quick=o in ("dxsm", "upper", "xsl-rr")))
    m = ["common", "aes"]
    for hw in (True, False):
        for off in range(0, 72, 8):
            T.append(Task("aes.%s.%d" % ("ni" if hw else "soft", off), aes, m, dict(off=off, hwaes=hw), deadline=120, bound=b + " at offset %d; any round keys" % off, world={} if hw else {"xorpush": True}, quick=off in (0, 40, 64)))
        T.append(Task("aeskey.%s" % ("ni" if hw else "soft"), aeskey, m, dict(hwaes=hw), deadline=120, bound="any 128-bit key", world={"xorpush": True} if hw else {"cpu_ecx": 0}, conc_ok=hw))
    m = ["common", "chacha"]
    for r in (20, 8, 12, 2, 4, 16):
        for simd in (True, False):
            if simd and r > 2: continue         # one double round of the vector code; its equality with the scalar code is C08
            T.append(Task("chacha.%d.%s" % (r, "simd" if simd else "scalar"), chacha, m, dict(rounds=r, pos=0, simd=simd), deadline=120, bound="any key, any counter at a block boundary", quick=r in (20, 8, 2)))
    for pos in range(1, 16):
        T.append(Task("chacha.pos%d" % pos, chacha, m, dict(rounds=20, pos=pos, simd=None), deadline=120, bound="any block contents, any counter", quick=pos in (1, 8, 15)))
    m = ["common", "speck128"]
    for sse in (True, False):
        for off in range(0, 104, 8):
            T.append(Task("speck.%s.%d" % ("sse" if sse else "scalar", off), speck, m, dict(off=off, sse=sse), deadline=120, bound=b + "; any round keys", quick=off in (0, 48, 96)))
    T.append(Task("speckkey", speckkey, m, {}, deadline=120, bound="any 256-bit key"))
    for g in pick("block"):
        if not hasattr(g, "N"): continue
        for pos in list(range(0, g.N)) + [4]:
            T.append(Task("%s.%d" % (g.name, pos), philox, g.mods, dict(g=g, pos=pos), deadline=150, bound="any key, counter and buffer", quick=pos in (0, 4)))
    m = ["common", "hc128"]
    for i in range(64):
        T.append(Task("hc128.%d" % (16 * i), hc128, m, dict(idx=16 * i), deadline=150, bound="any tables; 16 words", quick=i in (0, 1, 5, 31, 32, 33, 50, 63)))
    for p in range(1, 16): T.append(Task("hc128buf.%d" % p, hc128buf, m, dict(pos=p), deadline=60, bound="any tables and buffer", quick=p in (1, 15)))
    T.append(Task("hc128key.fixed", hc128key, m, dict(free=()), deadline=150, bound="one fixed key"))
    for n in ("MT19937", "MT64"):
        g = GENS[n]; N = 624 if n == "MT19937" else 312
        T.append(Task("twist.%s" % n, mt, g.mods, dict(g=g, pos=N), deadline=200, bound="any key array; %d outputs across the regeneration" % N))
        T.append(Task("position.%s" % n, mtsym, g.mods, dict(g=g), deadline=100, bound="any key array and position"))
        T.append(Task("seed.%s.fixed" % n, mtseed, g.mods, dict(g=g, free=()), deadline=100, bound="fixed seed words"))
        T.append(Task("seed.%s" % n, mtseed, g.mods, dict(g=g, free="all"), deadline=300, bound="any seed words", quick=True))
    T.append(Task("sfmt.refill", sfmt, ["common", "sfmt"], dict(pos=312), deadline=300, quick=False, bound="any state; 312 outputs"))
    T.append(Task("sfmt.refill.some", sfmt, ["common", "sfmt"], dict(pos=312, free=(1, 258, 491, 623)), deadline=100, bound="4 of the 624 state words arbitrary; 312 outputs"))
    for p in (0, 100, 311): T.append(Task("sfmt.buffer%d" % p, sfmt, ["common", "sfmt"], dict(pos=p), deadline=100, bound="any buffer"))
    T.append(Task("dsfmt.refill", dsfmt, ["common", "dsfmt"], dict(pos=382), deadline=200, bound="any mantissas and lung; 382 outputs"))
    for n in ("SFMT", "DSFMT"):
        T.append(Task("seed.%s.fixed" % n, sfmtseed, GENS[n].mods, dict(g=GENS[n], tag="#r"), deadline=200, bound="fixed seed words"))
        T.append(Task("seed.%s" % n, sfmtseed, GENS[n].mods, dict(g=GENS[n], tag="r"), deadline=300, bound="any seed words", quick=False))
    for g in GENS.values():
        if g.cls in ("Romu", "SFC64", "Tyche", "PCG32", "PCG64", "PCG64DXSM", "LXM", "Xoroshiro128", "Xoshiro256", "Xoshiro512", "Xorshift1024", "ChaCha", "Philox", "ThreeFry") or g.name.startswith("LCG128Mix-upper"):
            T.append(Task("seed.%s" % g.name, seeded, g.mods, dict(g=g), deadline=100, bound="any seed words"))
        if g.cls == "JSF":
            for n in (1, 2, 3): T.append(Task("seed.%s.%d" % (g.name, n), seeded, g.mods, dict(g=g, kw={"seed_size": n}), deadline=100, bound="any seed words"))
    T.append(Task("seed.EFIIX64.fixed", seeded, ["common", "efiix64"], dict(g=GENS["EFIIX64"], tag="#r"), deadline=100, bound="fixed seed words"))
    return T
