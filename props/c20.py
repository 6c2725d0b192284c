"""C20: no two states share a successor."""
from vp.task import Task
from .gens import *
from .c07 import ALG, deep
from . import ref as R

DEEP = True
EXPLANATION = "For an arbitrary state the native step is executed symbolically. The step is injective when a left inverse exists: the inverse computed from the successor is proved equal to the original state, for every state. Should that fail, the solver is asked for the violation itself: two different states with the same successor."
ASSUMPTIONS = ["states are valid ones: increments odd, positions inside their buffers", "MT19937, SFMT, DSFMT are compared on the 19937-bit part their algorithms keep only through C07; they are not covered here"]
M64 = R.M64
def inv(m, w): return pow(m, -1, 1 << w)
def unshr(x, k, w=64):
    """x such that x ^ (x >> k) is the argument"""
    r = x; n = k
    while n < w: r = r ^ (r >> n); n *= 2
    return r
def unshl(x, k, w=64):
    m = (1 << w) - 1
    r = x; n = k
    while n < w: r = r ^ ((r << n) & m); n *= 2
    return r

def i_jsf(w, p, q, r):
    rot = lambda x, k: R.rotl(x, k, w) if k else x
    def f(s):
        a, b, c, d = s
        e = R.sub(w, d, a); d0 = R.sub(w, c, e); c0 = R.sub(w, b, rot(d0, r)); b0 = a ^ rot(c0, q)
        return (R.add(w, e, rot(b0, p)), b0, c0, d0)
    return f
def i_sfc(s):
    a, b, c, w, k = s
    b0 = unshr(a, 11); c0 = R.mul(64, b, inv(9, 64)); out = R.sub(64, c, R.rotl(c0, 24)); w0 = R.sub(64, w, k)
    return (R.sub(64, R.sub(64, out, b0), w0), b0, c0, w0, k)
def i_xoroshiro(a, b, c):
    def f(s):
        x = R.rotr(s[1], c)
        s0 = R.rotr(s[0] ^ x ^ ((x << b) & M64), a)
        return (s0, x ^ s0)
    return f
def i_x256(s):
    s0, s1, s2, s3 = s
    s3 = R.rotr(s3, 45); s0 = s0 ^ s3
    o1 = unshl(s1 ^ s2, 17)
    return (s0, o1, s1 ^ o1 ^ s0, s3 ^ o1)
def i_x512(s):
    t = list(s)
    y7 = R.rotr(t[7], 21)
    s1 = t[1] ^ t[2]
    s6 = t[6] ^ y7 ^ ((s1 << 11) & M64)
    s0 = t[0] ^ s6; s2 = t[2] ^ s0; s5 = t[5] ^ s1; s4 = t[4] ^ t[5]; s3 = t[3] ^ s4
    return (s0, s1, s2, s3, s4, s5, s6, y7 ^ s3)
def i_quad(s):
    w, x, y, z = s
    z0 = R.mul(64, w, inv(15241094284759029579, 64)); w0 = R.rotr(R.sub(64, x, z0), 52); y0 = R.sub(64, R.rotr(z, 19), w0)
    return (w0, R.sub(64, y0, y), y0, z0)
def i_trio(s):
    x, y, z = s
    z0 = R.mul(64, x, inv(15241094284759029579, 64)); y0 = R.sub(64, z0, R.rotr(z, 44))
    return (R.sub(64, y0, R.rotr(y, 12)), y0, z0)
def i_lcg(m, w): return lambda s: (R.mul(w, R.sub(w, s[0], s[1]), inv(m, w)), s[1])
def i_lxm(s): return i_x256(s[:4]) + (R.mul(64, R.sub(64, s[4], s[5]), inv(2862933555777941757, 64)), s[5])
def i_sq(s): return (R.sub(64, s[0], 1), s[1])
def i_tyche(s):
    a, b, c, d = s
    for x, y in ((7, 8), (12, 16)):
        b = R.rotr(b, x, 32) ^ c; c = R.sub(32, c, d); d = R.rotr(d, y, 32) ^ a; a = R.sub(32, a, b)
    return (a, b, c, d)
def i_tyche_i(s):
    a, b, c, d = s
    for x, y in ((12, 16), (7, 8)):
        a = R.add(32, a, b); d = R.rotr(d ^ a, y, 32); c = R.add(32, c, d); b = R.rotr(b ^ c, x, 32)
    return (a, b, c, d)
def i_efiix(w, e):
    ind, itr = list(e["ind"]), list(e["itr"])
    i = R.sub(64, e["i"], 1); b = R.sub(64, e["a"], i); ii = i & 31
    indirect = w.sel(itr, ii, 64); c = R.sub(64, e["b"], indirect); ci = c & 15
    a = R.sub(64, e["c"], R.rotl(c, 25)) ^ b
    iterated = R.sub(64, w.sel(ind, ci, 64), a)
    return {"ind": w.upd(ind, ci, indirect, 64), "itr": w.upd(itr, ii, iterated, 64), "i": i, "a": a, "b": b, "c": c}

INV = {"JSF64": i_jsf(64, 7, 13, 37), "JSF32": i_jsf(32, 27, 17, 0), "LXM": i_lxm, "PCG32": i_lcg(6364136223846793005, 64), "Romu-quad": i_quad, "Romu-trio": i_trio, "SFC64": i_sfc,
       "Squares64": i_sq, "Squares32": i_sq, "Tyche": i_tyche, "Tyche-openrand": i_tyche_i, "Xoroshiro128": i_xoroshiro(24, 16, 37), "Xoroshiro128pp": i_xoroshiro(49, 21, 28),
       "Xoshiro256": i_x256, "Xoshiro512": i_x512}
for n in GENS:
    if n in ("PCG64", "PCG64-dxsm-128") or n.startswith("LCG128Mix"): INV[n] = i_lcg(R.PCGM, 128)
    elif n in ("PCG64-cm-dxsm", "PCG64DXSM"): INV[n] = i_lcg(R.CHEAP, 128)

def flat(s):
    if isinstance(s, dict): return [x for k in sorted(s) for x in flat(s[k])]
    if isinstance(s, (list, tuple)): return [x for v in s for x in flat(v)]
    return [s]

def alleq(w, xs, ys): return w.and_(*[x == y for x, y in zip(xs, ys)])

def injective(w, start, step, undo):
    """step(start(tag)) never merges two states"""
    x = start("x"); s = step(x)
    fx, back = flat(x), flat(undo(s))
    if w.symbolic:
        from vp import solve, fw, terms as tm
        from vp.ctx import Ctx
        pairs = []
        for a, b in zip(fx, back):
            n = max(a.w if type(a) is fw.U else 1 if not isinstance(a, int) else a.bit_length(), b.w if type(b) is fw.U else b.bit_length() if isinstance(b, int) else 1, 1)
            pairs.append((n, fw.at(a, n), fw.at(b, n)))
        if all(p[1] is p[2] or p[1] == p[2] if isinstance(p[1], int) and isinstance(p[2], int) else p[1] is p[2] for p in pairs) or solve.prove_equal(pairs, Ctx.cur.pc, 20000)[0] == "proved":
            w.eq("the previous state is recovered", back, fx)
            return
    y = start("y"); t = step(y)
    w.check("two different states never have the same successor", w.or_(w.not_(alleq(w, flat(s), flat(t))), alleq(w, fx, flat(y))))

@R.fixed
def small(w, g, over=None):
    alg = ALG[g.name]
    def start(tag):
        a = g.make(w, "#a")
        st = g.symstate(w, a, tag, dict({"has_uint32": 0}, **(over or {})) if "has_uint32" in g.spec else over)
        return alg.load(w, st)
    def step(x):
        a = g.make(w, "#a"); st = deep(a.state); alg.store(w, st, x)
        if "inc" in g.spec: st["state"]["inc"] = x[1]
        a.state = st
        w.draw(a, "u32" if g.half == "pair" else "u64")
        return alg.load(w, a.state)
    f = INV[g.name] if g.name in INV else None
    if g.name == "EFIIX64": f = lambda s: i_efiix(w, s)
    if g.name == "Xorshift1024":
        def f(s):
            arr, p = list(s[0]), s[1]
            p0 = (p - 1) % 16 if isinstance(p, int) else R.sub(4, p, 1)
            s0 = w.sel(arr, p0, 64)
            v = unshl(unshr(w.sel(arr, p, 64) ^ s0 ^ (s0 >> 30), 11), 31)
            return (w.upd(arr, p, v, 64), p0)
    injective(w, start, step, f)

@R.fixed
def efiix(w, ii, cis):
    g = GENS["EFIIX64"]; alg = ALG["EFIIX64"]
    for ci in cis:
        def start(tag):
            a = g.make(w, "#a"); st = g.symstate(w, a, "%s%d" % (tag, ci), {"has_uint32": 0})
            x = alg.load(w, st)
            x["i"] = (w.sym("%s%d.hi" % (tag, ci), 59) << 5) | ii; x["c"] = ((x["c"] >> 4) << 4) | ci
            return x
        def step(x):
            a = g.make(w, "#a"); st = deep(a.state); alg.store(w, st, x)
            a.state = st
            w.draw(a, "u64")
            return alg.load(w, a.state)
        injective(w, start, step, lambda s: i_efiix(w, s))

@R.fixed
def jsfany(w, size, pqr):
    J = w.cls("jsf", "JSF")
    def start(tag):
        return tuple(w.sym(tag + k, size) for k in "abcd")
    def step(x):
        a = J(w.ss("#a"), size=size, p=pqr[0], q=pqr[1], r=pqr[2]); st = deep(a.state)
        for k, v in zip("abcd", x): st["state"][k] = v
        a.state = st
        w.draw(a, "u64" if size == 64 else "u32")
        return tuple(R.fix(w, a.state["state"][k]) for k in "abcd")
    injective(w, start, step, i_jsf(size, *pqr))

CTR = {  # counter words, their width, step, key arrays, the state in which the next draw makes a new block
    "AESCounter": ("counter", 64, "seed", {"offset": 64}), "SPECK128": ("ctr", 64, "round_key", {"offset": 96}),
}
def unstep(w, words, width, n):
    """the counter before n was added (little-endian words)"""
    c = words[0]
    for i, x in enumerate(words[1:], 1): c = c | (x << (width * i))
    c = R.sub(width * len(words), c, n)
    return [(c >> (width * i)) & ((1 << width) - 1) for i in range(len(words))]

@R.fixed
def blockgen(w, g):
    top = None
    def counters(st):
        s = st["s"] if g.cls == "AESCounter" else st["state"]
        return list(w.items(s["counter" if g.cls != "SPECK128" and g.cls != "ChaCha" else "ctr"])), list(w.items(s[{"AESCounter": "seed", "SPECK128": "round_key", "ChaCha": "keysetup"}.get(g.cls, "key")]))
    over = {"AESCounter": {"offset": 64, "has_uint32": 0}, "SPECK128": {"offset": 96, "has_uint32": 0}}.get(g.cls, {"buffer_pos": getattr(g, "N", 4), "has_uint32": 0} if g.cls != "ChaCha" else {})
    def start(tag):
        a = g.make(w, "#a"); st = g.symstate(w, a, tag, over)
        ctr, key = counters(st)
        if g.cls == "ChaCha": ctr[0] = ((ctr[0] >> 4) << 4) | 15
        if g.cls in ("AESCounter", "SPECK128"):     # consecutive counters, as every seeding leaves them
            n = len(ctr) // 2
            lo, hi = ctr[0], ctr[1]
            base = lo | (hi << 64)
            for i in range(1, n):
                v = R.add(128, base, i)
                ctr[2 * i], ctr[2 * i + 1] = v & M64, v >> 64
        x = (ctr, key)
        return x
    def step(x):
        a = g.make(w, "#a"); st = deep(a.state)
        s = st["s"] if g.cls == "AESCounter" else st["state"]
        ck = "counter" if g.cls not in ("SPECK128", "ChaCha") else "ctr"
        kk = {"AESCounter": "seed", "SPECK128": "round_key", "ChaCha": "keysetup"}.get(g.cls, "key")
        dt = str(s[ck].dtype)
        s[ck] = w.arr(x[0], dt); s[kk] = w.arr(x[1], str(s[kk].dtype))
        if g.cls == "AESCounter": s["offset"] = 64
        elif g.cls == "SPECK128": s["offset"] = 96
        elif g.cls != "ChaCha": st["buffer_pos"] = 4
        a.state = st
        w.draw(a, "u32" if g.half == "pair" else "u64")
        return counters(a.state)
    def undo(s):
        c, k = s
        if g.cls == "AESCounter": n, wd = 4, 128
        elif g.cls == "SPECK128": n, wd = 6, 128
        else: n, wd = 1, None
        if wd:
            out = []
            for i in range(0, len(c), 2): out += unstep(w, c[i:i + 2], 64, n)
            return (out, k)
        return (unstep(w, c, g.kw.get("width", 64), n), k)
    injective(w, start, step, undo)

@R.fixed
def hc128(w, idx):
    g = GENS["HC128"]
    def start(tag): 
        a = g.make(w, "#a"); st = g.symstate(w, a, tag, {"hc_idx": idx, "buffer_idx": 16})
        return (list(w.items(st["state"]["p"])), list(w.items(st["state"]["q"])))
    def step(x):
        a = g.make(w, "#a"); st = deep(a.state)
        s = st["state"]; s["p"] = w.arr(x[0], "uint32"); s["q"] = w.arr(x[1], "uint32"); s["hc_idx"] = idx; s["buffer_idx"] = 16
        a.state = st
        w.draw(a, "u32")
        e = a.state["state"]
        return (list(w.items(e["p"])), list(w.items(e["q"])))
    def undo(s):
        p, q = list(s[0]), list(s[1])
        t, rot = (p, lambda x, k: R.rotr(x, k, 32)) if idx < 512 else (q, lambda x, k: R.rotl(x, k, 32))
        for j in reversed(range(idx % 512, idx % 512 + 16)):
            t[j] = R.sub(32, t[j], R.add(32, rot(t[(j - 10) % 512], 8), rot(t[(j - 3) % 512], 10) ^ rot(t[(j - 511) % 512], 23)))
        return (p, q)
    injective(w, start, step, undo)

def tasks(tier):
    T = []
    for g in GENS.values():
        if g.name in INV: T.append(Task("step." + g.name, small, g.mods, dict(g=g), deadline=100, bound="every state; one step"))
    for p in range(16): T.append(Task("step.Xorshift1024.%d" % p, small, GENS["Xorshift1024"].mods, dict(g=GENS["Xorshift1024"], over={"p": p}), deadline=100, bound="every state at position %d; one step" % p, quick=p in (0, 7, 14, 15)))
    for i in range(32): T.append(Task("step.EFIIX64.%d" % i, efiix, GENS["EFIIX64"].mods, dict(ii=i, cis=range(16)), deadline=100, bound="every state whose iteration index is %d; one step" % i, quick=i in (0, 1, 15, 16, 31)))
    for size in (64, 32):
        for pqr in ((1, 2, 3), (size - 1, 1, 0), (7, 13, 37) if size == 64 else (9, 16, 31)):
            T.append(Task("jsf.%d.%d.%d.%d" % ((size,) + pqr), jsfany, ["common", "jsf"], dict(size=size, pqr=pqr), deadline=100, bound="every state, rotations %d, %d, %d" % pqr))
    for n, g in GENS.items():
        if g.cls in ("AESCounter", "SPECK128", "ChaCha", "Philox", "ThreeFry"):
            T.append(Task("block." + n, blockgen, g.mods, dict(g=g), deadline=100, bound="every key and counter; the draw that produces the next block"))
    for i in (0, 16, 496, 512, 640, 1008): T.append(Task("block.HC128.%d" % i, hc128, ["common", "hc128"], dict(idx=i), deadline=100, bound="every P and Q; steps %d..%d" % (i, i + 15), quick=i in (0, 496, 512, 1008)))
    return T
