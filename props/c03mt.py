"""Jumps of the twisters: the native jump routines run with their two inner functions replaced by
proved summaries (one step of the recurrence, exclusive or of two aligned states); states are then
polynomials in the step operator."""
import functools
from .c03 import bm, psq, pmod, pmul, ppow2
M32, M64, M128 = (1 << 32) - 1, (1 << 64) - 1, (1 << 128) - 1
NBITS = [0]

class MT:
    name = "MT19937"; N = 624; ebytes = 4; word = 32; lung = False; scale = 1
    step = "gen_next"; add = "add_state"; posoff = 2496; flags = {"mt19937": ["-fno-inline"]}
    def rec(self, L, n, lung):
        y = (L[n] & 0x80000000) | (L[n + 1] & 0x7fffffff)
        return L[n + 397] ^ (y >> 1) ^ (0x9908b0df * (y & 1)), None
    def start(self, idx): return idx % 624
class SF:
    name = "SFMT"; N = 156; ebytes = 16; word = 32; lung = False; scale = 4
    step = "next_state"; add = "add"; posoff = 2496; flags = {"sfmt": ["-fno-inline"]}
    MSK = 0xbffffff6bffaffffddfecb7fdfffffef
    def rec(self, L, n, lung):
        a, b, c, d = L[n], L[n + 122], L[n + 154], L[n + 155]
        x = (a << 8) & M128
        y = c >> 8
        bb = 0; dd = 0
        for i in range(4):
            bb |= (((b >> (32 * i)) & M32) >> 11) << (32 * i)
            dd |= ((((d >> (32 * i)) & M32) << 18) & M32) << (32 * i)
        return a ^ x ^ (bb & self.MSK) ^ y ^ dd, None
    def start(self, idx): return (idx // 4) % 156
class DS:
    name = "DSFMT"; N = 191; ebytes = 16; word = 64; lung = True; scale = 2
    step = "next_state"; add = "add"; posoff = 3072; flags = {"dsfmt": ["-fno-inline"]}
    def rec(self, L, n, u):
        a, b = L[n], L[n + 117]
        a0, a1, b0, b1, u0, u1 = a & M64, a >> 64, b & M64, b >> 64, u & M64, u >> 64
        v0 = ((a0 << 19) & M64) ^ (u1 >> 32) ^ ((u1 << 32) & M64) ^ b0
        v1 = ((a1 << 19) & M64) ^ (u0 >> 32) ^ ((u0 << 32) & M64) ^ b1
        r0 = (v0 >> 12) ^ (v0 & 0x000ffafffffffb3f) ^ a0
        r1 = (v1 >> 12) ^ (v1 & 0x000ffdfffc90fffd) ^ a1
        return r0 | (r1 << 64), v0 | (v1 << 64)
    def start(self, idx): return (idx // 2) % 191
FAM = {f.name: f for f in (MT(), SF(), DS())}

def seq(f, L, lung, n):
    """the state words, then n more; every lung on the way"""
    L = list(L); lungs = [lung]
    for i in range(n):
        e, lung = f.rec(L, i, lung); L.append(e); lungs.append(lung)
    return L, lungs

def apply(f, P, L, lung):
    S, lungs = seq(f, L, lung, P.bit_length())
    out = [0] * f.N; u = 0; i = 0
    acc = out
    while P:
        if P & 1:
            acc = [a ^ b for a, b in zip(acc, S[i:i + f.N])]
            if f.lung: u ^= lungs[i]
        P >>= 1; i += 1
    return acc, u

@functools.lru_cache(None)
def minpoly(name):
    """of the step operator (Berlekamp-Massey on a linear functional of a generic state)"""
    import random
    f = FAM[name]; rnd = random.Random(7)
    L = [rnd.getrandbits(8 * f.ebytes) for _ in range(f.N)]; lung = rnd.getrandbits(128)
    mk, ml = rnd.getrandbits(8 * f.ebytes), rnd.getrandbits(128)
    if f.name == "DSFMT": L = [(x & ~(0xfff << 52 | 0xfff << 116)) | 0x3ff << 52 | 0x3ff << 116 for x in L]
    n = 2 * (f.N * f.ebytes * 8 + (128 if f.lung else 0)) + 64 + 1300
    S, lungs = seq(f, L, lung, n)
    off = 624 if name == "MT19937" else 0       # (the 31 unused bits of a Mersenne twister state are not part of it)
    bits = [((S[i + off] & mk).bit_count() ^ ((lungs[i] & ml).bit_count() if f.lung else 0)) & 1 for i in range(n - off)]
    return bm(bits)

@functools.lru_cache(None)
def target(name, k):
    m = minpoly(name)
    p = ppow2(128, m); r = 1
    while k:
        if k & 1: r = pmul(r, p, m)
        k >>= 1
        if k: p = pmod(psq(p), m)
    return r

def elems(f, words):
    if f.ebytes * 8 == f.word: return list(words)
    per = f.ebytes * 8 // f.word
    return [sum(int(words[i + j]) << (f.word * j) for j in range(per)) for i in range(0, len(words), per)]

def nwords(f): return (f.N + (1 if f.lung else 0)) * f.ebytes * 8 // f.word

def statewords(f, st): return st["state"]["key"] if f.name == "MT19937" else st["state"]["state"]
def setstate(w, f, g, a, pos):
    st = a.state
    ws = [w.sym("T0.%d" % i, f.word) for i in range(nwords(f))]
    if f.name == "DSFMT" and not hasattr(w, "m"): ws = [(x & ((1 << 52) - 1)) | (0x3ff << 52) for x in ws[:382]] + ws[382:]   # valid doubles
    ws = w.arr(ws, "uint%d" % f.word)
    if f.name == "MT19937": st["state"]["key"] = ws; st["state"]["pos"] = pos
    else: st["state"]["state"] = ws; st["buffer_loc"] = pos
    a.state = st
    return a.state

class Summaries:
    """the overrides: memory holds tokens, the table says which polynomial of the initial state they stand for"""
    def __init__(self, w, f):
        from vp import terms as tm, llsym
        self.f = f; self.m = minpoly(f.name); self.deg = self.m.bit_length(); self.tab = {}; self.n = 0; self.bad = None
        self.tm, self.ll = tm, llsym
        w.m.fn_override[f.step] = self.step
        w.m.fn_override[f.add] = self.add
        self.used = {"step": 0, "add": 0}
    def first(self): return 0, (self.f.posoff - self.f.word // 8)
    def read(self, p):
        """(polynomial, start) of the state at p"""
        f = self.f; b = f.word // 8
        x, y = [self.ll.load_bits(p.obj, p.off + o, b) for o in self.first()]
        idx = self.ll.load_bits(p.obj, p.off + f.posoff, 4)
        if type(idx) is not int: raise self.ll.Unsupported("symbolic position")
        st = f.start(idx)
        if type(x) is int and type(y) is int and x == 0 and y == 0: return 0, st, idx
        if type(x) is self.tm.T and type(y) is self.tm.T and x.op == "var" and y.op == "var":
            i, k = x.data.split("."); j, l = y.data.split(".")
            if i == j and k == "0" and int(l) == nwords(f) - 1:
                if i == "T0": return 1, (st if f.name == "MT19937" else 0), idx
                P, s0 = self.tab[i]
                if s0 == st: return P, st, idx
        raise self.ll.Unsupported("a state of unknown contents")
    def write(self, p, P, idx):
        f = self.f
        if P.bit_length() >= self.deg: P = pmod(P, self.m)
        self.n += 1; t = "T%d" % self.n
        self.tab[t] = (P, f.start(idx))
        b = f.word // 8
        for o, k in zip(self.first(), (0, nwords(f) - 1)):
            self.ll.store_bits(p.obj, p.off + o, b, self.tm.var("%s.%d" % (t, k), f.word))
        self.ll.store_bits(p.obj, p.off + f.posoff, 4, idx)
    def step(self, m, args):
        p = args[0]; f = self.f; self.used["step"] += 1
        P, st, idx = self.read(p)
        idx = (idx + f.scale) if f.name == "SFMT" else (idx + f.scale) % (f.N * f.scale)
        self.write(p, P << 1, idx)
    def add(self, m, args):
        d, s = args; self.used["add"] += 1
        P, st, idx = self.read(d); Q, st2, _ = self.read(s)
        self.write(d, P ^ Q, idx)
    def poly(self, words):
        """of final state words"""
        names = []
        for x in (words[0], words[-1]):
            fv = list(self.tm.free_vars([self._t(x)])) if not isinstance(x, int) else []
            names.append(fv[0].data if len(fv) == 1 else "?.?")
        (i, k), (j, l) = [n.split(".") for n in names]
        if i != j or k != "0": return None
        return (1, 0) if i == "T0" else self.tab.get(i)
    def _t(self, x):
        from vp import world
        return world.isx(world.aspyint(x), self.f.word)

def full(w, g, f, how, k, pos):
    """the whole jump: the state array (and the stream) against T^(k 2^128)"""
    a = g.make(w, "#a")
    st = setstate(w, f, g, a, pos)
    sym = hasattr(w, "m")
    S = Summaries(w, f) if sym else None
    w0 = [int(x) for x in w.items(statewords(f, st))] if not sym else None
    b = a.jumped(k) if how == "jumped" else a.jump(k)
    got = b.state
    ws = w.items(statewords(f, got))
    J = target(f.name, k)
    mt = f.name == "MT19937"
    if sym:
        r = S.poly(ws)
        w.check("state words are those %d jumps ahead" % k, r is not None and pmod(r[0] ^ J, S.m) == 0)
        if mt:
            p2 = got["state"]["pos"]
            w.check("the words start at the position", r is not None and r[1] == p2 % 624)
            ok = r is not None and pos in (0, 624) and p2 == 0 and pmod(r[0] ^ J << pos, S.m) == 0
            w.check("stream", ok)
    else:
        s0 = pos % 624 if mt else 0
        E = elems(f, w0); lung = E[f.N] if f.lung else 0
        L = E[s0:f.N] + E[:s0]
        X, u = apply(f, J, L, lung)
        H = elems(f, [int(x) for x in ws])
        if mt:
            # the 31 low bits of the oldest word are no part of the state
            p2 = got["state"]["pos"] % 624
            Y = H[p2:] + H[:p2]
            Y[0] &= 0x80000000; X[0] &= 0x80000000
            w.check("state words are those %d jumps ahead" % k, X == Y)
            w.check("the words start at the position", X == Y)
            Z, _ = seq(f, E, None, 1300)
            P1 = pmul(J, 2, minpoly(f.name))         # shifted by one: only whole words compared
            X1, _ = apply(f, P1, Z[pos:pos + 624], None)
            want = [temper(v) for v in X1[1:600]]
            b.random_raw(); b.random_raw()
            w.check("stream", want == [int(v) for v in b.random_raw(599)])
        else:
            w.check("state words are those %d jumps ahead" % k, X + ([u] if f.lung else []) == H)
    if not mt:
        w.eq("nothing buffered", got["buffer_loc"], {"SFMT": 312, "DSFMT": 382}[f.name])
        w.eq("index", got["state"]["idx"], st["state"]["idx"])
        if f.name == "SFMT": w.eq("no half", [got["has_uint32"], got["uinteger"]], [0, 0])
    if how == "jumped": w.eq("the original is unchanged", a.state, st)

def temper(y):
    y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680; y ^= (y << 15) & 0xefc60000
    return y ^ (y >> 18)

def _obj(w, f, idx, tag):
    """a state of arbitrary words"""
    from vp import llsym, terms as tm
    m = w.m
    p = m.alloc(f.posoff + 32, "state" + tag)
    if not isinstance(p, llsym.Ptr): p = llsym.Ptr(p, 0)
    b = f.word // 8
    cache = w.__dict__.setdefault("_objwords", {})
    V = cache.get(tag)
    if V is None: V = cache[tag] = [w.sym("%s.%d" % (tag, i), f.word) for i in range(nwords(f))]
    for i in range(nwords(f)): llsym.store_bits(p.obj, b * i, b, tm.var("%s.%d" % (tag, i), f.word))
    llsym.store_bits(p.obj, f.posoff, 4, idx)
    return p, V
def _words(w, f, p):
    from vp import llsym
    from vp.cyrt import uint
    b = f.word // 8
    return [uint(llsym.load_bits(p.obj, b * i, b), f.word) for i in range(nwords(f))], llsym.load_bits(p.obj, f.posoff, 4)
def els(f, V):
    per = f.ebytes * 8 // f.word
    out = []
    for i in range(0, len(V), per):
        x = 0
        for j in range(per): x = x | (V[i + j] << (f.word * j))
        out.append(x)
    return out

def summary_step(w, g, f, idxs):
    if not hasattr(w, "m"): return full(w, g, f, "jumped", 1, 0 if f.name == "MT19937" else 4)
    a = g.make(w, "#a")
    for idx in idxs:
        p, V = _obj(w, f, idx, "T0")
        E = els(f, V); s = f.start(idx)
        fn = w.m.find(f.step)
        if fn is None: raise RuntimeError("no function " + f.step)
        w.m.run(fn, [p])
        got, idx2 = _words(w, f, p)
        L = E[s:f.N] + E[:s]
        e, u = f.rec(L, 0, E[f.N] if f.lung else None)
        want = list(E); want[s] = e
        if f.lung: want[f.N] = u
        w.eq("words after one step at %d" % idx, els(f, got), want)
        w.check("position after one step at %d" % idx, f.start(idx2) == (s + 1) % f.N)

def summary_add(w, g, f, pairs):
    if not hasattr(w, "m"): return full(w, g, f, "jumped", 1, 0 if f.name == "MT19937" else 4)
    a = g.make(w, "#a")
    for d, s in pairs:
        pd, D = _obj(w, f, d, "T1"); ps, X = _obj(w, f, s, "T0")
        fn = w.m.find(f.add)
        if fn is None: raise RuntimeError("no function " + f.add)
        w.m.run(fn, [pd, ps])
        got, d2 = _words(w, f, pd); same, s2 = _words(w, f, ps)
        D, X, got, same = els(f, D), els(f, X), els(f, got), els(f, same)
        a0, b0 = f.start(d), f.start(s)
        want = list(D)
        for i in range(f.N): want[(a0 + i) % f.N] = D[(a0 + i) % f.N] ^ X[(b0 + i) % f.N]
        if f.lung: want[f.N] = D[f.N] ^ X[f.N]
        w.eq("sum of states at %d and %d" % (d, s), got, want)
        w.eq("the added state is unchanged", same, X)
        w.check("positions kept", f.start(d2) == a0 and f.start(s2) == b0)
