"""C18: system entropy is complete or an error, no descriptor or block leaks; seed_by_array."""
from vp.task import Task
from . import ref as R

EXPLANATION = "random_entropy and the C source under it run over a modelled operating system: each open, read, close and allocation has a symbolic outcome (descriptors including 0, every read count from -1 to the request, failing close and malloc) and read delivers symbolic bytes. Success must mean that exactly the delivered bytes are returned, failure that some call failed, and every descriptor opened is closed once. seed_by_array runs over symbolic seed words against SplitMix64."
ASSUMPTIONS = ["/dev/urandom, gettimeofday, getpid and clock are replaced by symbolic results; the Windows source is not compiled here", "at most 24 calls of each system function per operation"]
M32 = (1 << 32) - 1

def hash32(x):
    """Thomas Wang's integer hash"""
    x = x & M32
    x = (x + ((x << 15) & M32 ^ M32)) & M32
    x = x ^ (x >> 10)
    x = (x + (x << 3)) & M32
    x = x ^ (x >> 6)
    x = (x + ((x << 11) & M32 ^ M32)) & M32
    return x ^ (x >> 16)

def fallback_word(w, i):
    e = lambda k, b: R.fix(w, w.ent("%s:%d" % (k, i), b)) & M32
    return hash32(e("pid", 32)) ^ hash32(e("sec", 64)) ^ hash32(e("usec", 64)) ^ hash32(e("clock", 64))

def system_words(w, ev, n):
    """the 32-bit words at the destination according to the deliveries of read, or None when some byte was never delivered"""
    at = {}
    k = 0
    for i, (what, a, b) in enumerate(ev):
        if what != "read": continue
        off = ev[i + 1][1]
        for j in range(max(b, 0)): at[off + j] = w.ent("byte:%d:%d" % (k, j), 8)
        k += 1
    if any(j not in at for j in range(4 * n)): return None
    return [at[4 * i] | (at[4 * i + 1] << 8) | (at[4 * i + 2] << 16) | (at[4 * i + 3] << 24) for i in range(n)]

def entropy(w, size, source):
    f = w.cls("entropy", "random_entropy")
    w.entsetup()
    n = 1
    if size is not None:
        for s in (size if isinstance(size, tuple) else (size,)): n *= s
    got = None
    try:
        got = f(size, source) if source != "default" else f(size)
    except RuntimeError: pass
    except MemoryError: pass
    ev = w.entlog()
    opened = [a for k, a, b in ev if k == "open" and a >= 0]
    closed = [a for k, a, b in ev if k == "close"]
    w.check("every descriptor opened is closed exactly once and no other", sorted(opened) == sorted(closed))
    failed = any(k == "open" and a < 0 or k == "read" and b < a or k == "close" and not b or k == "malloc" and not b for k, a, b in ev)
    if got is None:
        w.check("an error is raised only after something failed", failed)
        return
    if size is None: vals = [got]
    else:
        w.check("shape", w.shape(got) == (size if isinstance(size, tuple) else (size,)))
        vals = w.items(got)
    w.check("number of values", len(vals) == n)
    words = system_words(w, ev, n) if any(k == "read" for k, a, b in ev) else None
    reads = [b for k, a, b in ev if k == "read"]
    nm = [b for k, a, b in ev if k == "malloc"]
    fell = source == "fallback" or (source == "auto" and (words is None or bool(nm)))
    if n == 0: return
    if not fell:
        w.check("success means every byte was delivered", words is not None)
        if words is not None:
            for i in range(n): w.eq("word %d is the one delivered" % i, vals[i], words[i])
    else:
        w.check("the fallback had its memory", all(nm))
        if source == "auto": w.check("falls back only after something failed", failed)
        for i in range(n): w.eq("fallback word %d" % i, vals[i], fallback_word(w, i))

def ent_bad(w, size, source):
    f = w.cls("entropy", "random_entropy")
    w.entsetup()
    w.check("refused", w.raises(ValueError, f, size, source))
    w.check("nothing read", not w.entlog())

def empty(w, size):
    f = w.cls("entropy", "random_entropy")
    for s in ("system", "fallback", "auto"):
        w.check("%s: shape of an empty request" % s, tuple(f(size, s).shape) == (size if isinstance(size, tuple) else (size,)))

def splitmix(w, s):
    """(next state, value)"""
    M = (1 << 64) - 1
    s = (s + 0x9E3779B97F4A7C15) & M
    z = ((s ^ (s >> 30)) * 0xBF58476D1CE4E5B9) & M
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M
    return s, z ^ (z >> 31)

def by_array(w, k, n, form):
    f = w.cls("entropy", "seed_by_array")
    words = [w.sym("seed%d" % i, 64) for i in range(k)]
    if form == "scalar": seed = w.int(words[0])
    elif form == "array": seed = w.arr(words, "uint64")
    elif form == "npscalar": seed = w.arr(words, "uint64").reshape(())
    elif form == "squeeze": seed = w.arr(words, "uint64").reshape((1, k))
    else: seed = [w.int(x) for x in words]
    got = f(seed, n)
    w.eq("shape", w.shape(got), (n,))
    out = [None] * n
    st = R.fixed(w, 0, 64) if hasattr(R, "fixed") and False else 0
    loc = 0
    for i in range(max(k, n)):
        if i < k: st = st ^ R.fix(w, words[i])
        st, out[loc] = splitmix(w, st)
        loc = (loc + 1) % n
    g = w.items(got)
    for i in range(n): w.eq("word %d" % i, g[i], out[i])

def by_array_bad(w, which):
    f = w.cls("entropy", "seed_by_array")
    np = w.np
    vals = {"negative": lambda: -1, "big": lambda: 1 << 64, "float": lambda: 1.5, "list-negative": lambda: [1, -1], "list-big": lambda: [0, 1 << 64], "list-float": lambda: [1.5, 2],
            "2d": lambda: w.arr([1, 2, 3, 4], "uint64").reshape((2, 2)), "2d-list": lambda: [[1, 2], [3, 4]], "list-text": lambda: ["a", 1]}
    w.check("refused", w.raises((ValueError, TypeError), f, vals[which](), 2))

def by_array_range(w, form):
    """a symbolic integer of 66 bits: taken exactly when it fits 64 bits"""
    f = w.cls("entropy", "seed_by_array")
    hi = w.ssym("hi", 3); lo = w.sym("lo", 64)
    v = (hi << 64) + w.int(lo)
    fits = w.cond(hi == 0)
    try: got = f(v if form == "scalar" else [5, v], 1)
    except ValueError: w.check("only values outside 64 bits are refused", not fits); return
    w.check("values outside 64 bits are refused", fits)
    st, z = splitmix(w, R.fix(w, lo) if form == "scalar" else 5)
    if form != "scalar": st, z = splitmix(w, st ^ R.fix(w, lo))
    w.eq("word", w.items(got)[0], z)

def tasks(tier):
    T = []
    E = ["entropy"]
    sizes = [None, 1, 2, (2,), (1, 2), (2, 2)] if tier == "quick" else [None, 1, 2, 3, 5, (2,), (1, 2), (2, 2), (3, 2), (2, 1, 2)]
    for s in sizes:
        for src in ("system", "fallback", "auto", "default"):
            T.append(Task("entropy.%s.%s" % (s, src), entropy, E, dict(size=s, source=src), deadline=100, ms=20000, replay="entshim", max_paths=6000,
                          bound="every outcome of every system call for this size; all delivered bytes"))
    for src in ("urandom", "", None, "SYSTEM"): T.append(Task("entropy.source.%s" % src, ent_bad, E, dict(size=2, source=src), deadline=30, replay="entshim", bound="this call"))
    for s in (0, (0,), (2, 0)): T.append(Task("entropy.empty.%s" % (s,), empty, E, dict(size=s), deadline=30, bound="this shape"))
    ks = range(1, 5) if tier == "quick" else range(1, 9)
    for k in ks:
        for n in (ks if tier == "quick" else (1, 2, 3, 4, 5, 8, 16)):
            for form in ("list", "array"): T.append(Task("by_array.%s.%d.%d" % (form, k, n), by_array, E, dict(k=k, n=n, form=form), deadline=60, ms=30000, bound="all %d seed words, %d words out" % (k, n), quick=form == "array" or k == n))
    for form in ("scalar", "npscalar", "squeeze"):
        for n in (1, 3): T.append(Task("by_array.%s.%d" % (form, n), by_array, E, dict(k=1 if form != "squeeze" else 2, n=n, form=form), deadline=60, ms=30000, bound="all seed values"))
    for k in ("negative", "big", "float", "list-negative", "list-big", "list-float", "2d", "2d-list", "list-text"):
        T.append(Task("by_array.refused." + k, by_array_bad, E, dict(which=k), deadline=30, bound="this value"))
    for f in ("scalar", "list"): T.append(Task("by_array.range." + f, by_array_range, E, dict(form=f), deadline=60, bound="all integers in [-2^66, 2^66)"))
    return T
