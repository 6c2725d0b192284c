"""C12: SeedSequence is a faithful, complete function of its entropy."""
from vp.task import Task
from .gens import *
from . import ref as R

EXPLANATION = "randomgen._seed_sequence.SeedSequence is executed with symbolic entropy, spawn keys and spawn counters and compared word for word with the documented hash (O'Neill's seed_seq_fe as adopted by NumPy), which is written out independently in this file."
ASSUMPTIONS = ["strings given as entropy are outside the check", "bounds: entropy up to 10 words, spawn keys up to 3 words, pools of 4, 5 and 8 words, up to 17 output words"]

M32 = 0xffffffff
def hashmix(v, c):
    v = (v ^ c[0]) & M32; c[0] = c[0] * 0x931e8875 & M32
    v = v * c[0] & M32
    return v ^ (v >> 16)
def mix(x, y):
    r = (0xca01f9dd * x - 0x4973f715 * y) & M32
    return r ^ (r >> 16)
def pool_of(words, n):
    c = [0x43b0d7e5]
    p = [hashmix(words[i] if i < len(words) else 0, c) for i in range(n)]
    for s in range(n):
        for d in range(n):
            if s != d: p[d] = mix(p[d], hashmix(p[s], c))
    for s in range(n, len(words)):
        for d in range(n): p[d] = mix(p[d], hashmix(words[s], c))
    return p
def output(p, n):
    c = 0x8b51f9dd; out = []
    for i in range(n):
        v = p[i % len(p)] ^ c
        c = c * 0x58f38ded & M32
        v = v * c & M32
        out.append(v ^ (v >> 16))
    return out
def assembled(words, key, n):
    if key and len(words) < n: words = list(words) + [0] * (n - len(words))
    return list(words) + list(key)
def expect(w, words, key, pool, n): return output(pool_of(R.fix(w, assembled(words, key, pool)), pool), n)
def split(w, x, bits):
    """the 32-bit words of x, least significant first, without leading zeros; forks on the length"""
    n = bits // 32
    while n > 1 and w.cond(x >> (32 * (n - 1)) == 0): n -= 1
    return [x >> (32 * i) & M32 for i in range(n)]

def words(w, ne, nk, pool, n, dt, key="tuple"):
    e = [w.sym("e%d" % i, 32) for i in range(ne)]; k = [w.sym("k%d" % i, 32) for i in range(nk)]
    S = w.cls("_seed_sequence", "SeedSequence")
    ks = [0 + x for x in k]
    if key == "tuple":
        for x in ks: w.assume(x != 0)
    s = S(w.arr(e, "uint32"), spawn_key=tuple(ks), pool_size=pool)
    o = expect(w, e, k, pool, n * (2 if dt == "uint64" else 1))
    got = s.generate_state(n, getattr(w.np, dt))
    w.check("shape", w.shape(got) == (n,))
    g = w.items(got)
    if dt == "uint64": g = [x >> s & M32 for x in g for s in (0, 32)]
    w.eq("words", g, o)

def integer(w, bits):
    x = w.sym("x", bits)
    S = w.cls("_seed_sequence", "SeedSequence")
    e = split(w, x, bits)
    got = S(x).generate_state(4)
    w.eq("words", w.items(got), expect(w, e, [], 4, 4))

def sequence(w, bits, how):
    xs = [w.sym("x%d" % i, b) for i, b in enumerate(bits)]
    e = []
    for x, b in zip(xs, bits): e += split(w, x, b)
    arg = tuple(xs) if how == "tuple" else list(xs) if how == "list" else w.arr(xs, how)
    got = w.cls("_seed_sequence", "SeedSequence")(arg).generate_state(5)
    w.eq("words", w.items(got), expect(w, e, [], 4, 5))

def negative(w, where):
    x = w.ssym("x", 64); w.assume(x < 0)
    S = w.cls("_seed_sequence", "SeedSequence")
    arg = {"int": lambda: S(x), "list": lambda: S([1, x]), "key": lambda: S(1, spawn_key=(x,)), "int64": lambda: S(w.arr([x], "int64"))}[where]
    w.check("refused", w.raises(ValueError, arg))

def floats(w, where):
    S = w.cls("_seed_sequence", "SeedSequence"); x = w.symf("x")
    w.check("refused", w.raises(TypeError, (lambda: S(x)) if where == "scalar" else (lambda: S([x]))))

def pools(w):
    S = w.cls("_seed_sequence", "SeedSequence")
    for p in (-1, 0, 1, 2, 3): w.check("small pool refused", w.raises(ValueError, lambda: S(1, pool_size=p)))

def spawning(w, calls, nk, levels=1):
    """children carry the parent's key and successive numbers, whatever was spawned before"""
    S = w.cls("_seed_sequence", "SeedSequence")
    x = w.sym("x", 32); w.assume(x != 0)
    start = w.sym("start", 30)
    k = [w.sym("k%d" % i, 32) for i in range(nk)]
    for y in k: w.assume(y != 0)
    s = S(x, spawn_key=tuple(k), n_children_spawned=start)
    w.assume(start != 0)
    seen = []
    for n in calls:
        cs = s.spawn(n)
        w.check("number of children", len(cs) == n)
        for c in cs:
            want = start + len(seen); seen.append(want)
            w.check("key length", len(c.spawn_key) == nk + 1)
            w.eq("key", [0 + y for y in c.spawn_key], k + [want])
            w.eq("entropy", c.entropy, x)
            w.eq("nothing spawned yet", c.n_children_spawned, 0)
            w.check("pool size", c.pool_size == 4)
            if len(seen) == 1: w.eq("words", w.items(c.generate_state(4)), expect(w, [x], k + [want], 4, 4))
        w.eq("children counted", s.n_children_spawned, start + len(seen))
    w.check("parent unchanged", len(s.spawn_key) == nk)
    if levels == 2:
        g = cs[0].spawn(2)
        for i in range(2): w.eq("grandchild key", [0 + y for y in g[i].spawn_key], k + [seen[-len(cs)], i])

def repeat(w, n):
    """repeatable, and a longer request starts with the shorter one"""
    S = w.cls("_seed_sequence", "SeedSequence"); e = [w.sym("e%d" % i, 32) for i in range(3)]
    s = S(w.arr(e, "uint32"))
    a = w.items(s.generate_state(n)); b = w.items(s.generate_state(n)); c = w.items(s.generate_state(n + 3))
    d = w.items(S(w.arr(e, "uint32")).generate_state(n))
    w.eq("again", a, b); w.eq("prefix", a, c[:n]); w.eq("second instance", a, d)

def restored(w):
    S = w.cls("_seed_sequence", "SeedSequence"); x = w.sym("x", 64); k = w.sym("k", 32); n = w.sym("n", 20)
    e = split(w, x, 64)
    w.assume(k != 0)
    st = S(x, spawn_key=(k,), pool_size=5, n_children_spawned=n).state
    w.check("keys", sorted(st) == ["entropy", "n_children_spawned", "pool_size", "spawn_key"])
    w.eq("entropy", st["entropy"], x); w.eq("key", [0 + y for y in st["spawn_key"]], [k]); w.eq("spawned", st["n_children_spawned"], n); w.check("pool", st["pool_size"] == 5)
    w.eq("words", w.items(S(**st).generate_state(6)), expect(w, e, [k], 5, 6))

def system(w, pool):
    """without entropy the operating system's random bits are used, all of them"""
    S = w.cls("_seed_sequence", "SeedSequence")
    s = S(pool_size=pool)
    e = split(w, s.entropy, 32 * pool)
    if w.symbolic:
        w.check("one draw of the pool's size", len(w.drawnbits) == 1 and w.drawnbits[0][0] == 32 * pool)
        w.eq("all the bits drawn", s.entropy, w.drawnbits[0][1])
    w.eq("words", w.items(s.generate_state(4)), expect(w, e, [], pool, 4))

def unhash(v, m, c):
    """x with hashmix(x) == v where the multiplier was m and the constant c"""
    v = v ^ (v >> 16)
    v = v * pow(m, -1, 1 << 32) & M32
    return v ^ c
@R.fixed
def complete(w, pool, ne):
    """the entropy words can be recomputed from the pool: no bit of them is lost"""
    e = [w.sym("e%d" % i, 32) for i in range(ne)]
    s = w.cls("_seed_sequence", "SeedSequence")(w.arr(e, "uint32"), pool_size=pool)
    out = w.items(s.generate_state(pool))
    c = 0x8b51f9dd; p = []
    for v in out:
        m = c * 0x58f38ded & M32
        p.append(unhash(v, m, c)); c = m
    # constants used by the mixing steps, in order
    cs = [0x43b0d7e5]
    for _ in range(pool * pool): cs.append(cs[-1] * 0x931e8875 & M32)
    inv = pow(0xca01f9dd, -1, 1 << 32)
    t = pool * pool
    for sr in reversed(range(pool)):
        for d in reversed(range(pool)):
            if sr == d: continue
            t -= 1
            y = ((p[sr] ^ cs[t]) * cs[t + 1]) & M32; y = y ^ (y >> 16)
            r = p[d] ^ (p[d] >> 16)
            p[d] = (r + 0x4973f715 * y) * inv & M32
    got = []
    for i in reversed(range(pool)):
        t -= 1
        got.append(unhash(p[i], cs[t + 1], cs[t]))
    got.reverse()
    w.eq("entropy recovered", got, (e + [0] * pool)[:pool])

def tasks(tier):
    T = []
    def add(name, fn, quick=True, ms=40000, dl=100, **p): T.append(Task(name, fn, ["common", "_seed_sequence"], p, deadline=dl, ms=ms, bound="every value of the words", quick=quick))
    for ne, nk, pool, n in ((0, 0, 4, 4), (1, 0, 4, 5), (2, 0, 4, 4), (3, 0, 4, 4), (4, 0, 4, 9), (5, 0, 4, 4), (6, 0, 4, 4), (10, 0, 4, 4), (1, 1, 4, 4), (3, 1, 4, 4), (4, 1, 4, 4), (5, 1, 4, 4),
                            (2, 2, 4, 4), (6, 2, 4, 4), (1, 3, 4, 4), (1, 0, 5, 6), (6, 0, 5, 5), (2, 1, 5, 5), (1, 0, 8, 17), (8, 0, 8, 8), (9, 0, 8, 8), (3, 2, 8, 8)):
        for dt in ("uint32", "uint64"):
            add("words.%d.%d.%d.%s" % (ne, nk, pool, dt), words, ne=ne, nk=nk, pool=pool, n=n, dt=dt)
    for b in (32, 64, 96, 128, 192): add("int.%d" % b, integer, bits=b)
    for how in ("tuple", "list"):
        for bits in ((32,), (64,), (32, 64), (64, 64), (96, 32), (32, 32, 32)): add("seq.%s.%s" % (how, "-".join(map(str, bits))), sequence, bits=bits, how=how)
    for how, b in (("uint64", 64), ("int64", 63)):
        for n in (1, 2): add("array.%s.%d" % (how, n), sequence, bits=(64,) * n if b == 64 else (32,) * n, how=how)
    for x in ("int", "list", "key", "int64"): add("negative." + x, negative, where=x)
    for x in ("scalar", "list"): add("float." + x, floats, where=x)
    add("pools", pools)
    for i, c in enumerate(((1,), (3,), (0, 2), (1, 2, 1), (2, 0, 3))):
        for nk in (0, 1, 2): add("spawn.%d.%d" % (i, nk), spawning, calls=c, nk=nk, levels=2 if c[-1] else 1)
    for n in (1, 4, 9): add("repeat.%d" % n, repeat, n=n)
    add("restored", restored)
    for p in (4, 5): add("system.%d" % p, system, pool=p)
    for p, n in ((4, 1), (4, 2), (4, 3), (4, 4), (5, 5), (8, 8)): add("complete.%d.%d" % (p, n), complete, pool=p, ne=n)
    return T
