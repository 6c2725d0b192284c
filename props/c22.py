"""C22: aligned storage is aligned, inside its block and released exactly once."""
from vp.task import Task
from .gens import *

EXPLANATION = "The storage functions and the constructors and destructors of every generator that uses them run over an allocator whose every answer is symbolic: the address of each block modulo 64 (multiples of 16, what the C library guarantees) and whether the request is refused. Every access is bounds- and alignment-checked by the engine; blocks must be released once each through the address the allocator gave."
ASSUMPTIONS = ["the allocator returns 16-byte aligned addresses", "required alignment is 16 bytes, that of the widest access (SSE2) in the package", "at most 8 blocks per history"]
AL = 16

def balanced(w, extra=0):
    ev = w.allog()
    got = [i for k, i, ok in ev if k == "alloc" and ok]
    freed = [i for k, i, ok in ev if k == "free"]
    w.check("no block is released wrongly or overrun", not any(k == "bad" for k, i, ok in ev))
    w.check("every block is released exactly once", sorted(got) == sorted(freed))
    return ev

def storage(w, op, n):
    """malloc/calloc: aligned, writable to the last byte, calloc cleared; free gives the block back"""
    w.alignsetup()
    A = w.aligned()
    p = A.malloc(n) if op == "malloc" else A.calloc(n // 8, 8) if op == "calloc" else A.calloc(1, n) if op == "calloc1" else A.realloc(0 if w.symbolic else None, n)
    if A.null(p):
        w.check("only a refused request fails", any(k == "alloc" and not ok for k, i, ok in w.allog()))
        balanced(w); return
    w.check("a refused request is reported", not any(k == "alloc" and not ok for k, i, ok in w.allog()))
    w.eq("alignment", A.addr(p) % AL, 0)
    if op.startswith("calloc"):
        for i in range(n): w.eq("byte %d is cleared" % i, A.get(p, i), 0)
    for i in range(n): A.put(p, i, w.sym("v%d" % i, 8) if i < 4 else (i * 37 + 11) & 255)
    A.free(p)
    balanced(w)

def resize(w, n, m):
    """realloc keeps the contents"""
    w.alignsetup()
    A = w.aligned()
    p = A.malloc(n)
    if A.null(p): w.check("reported", True); return
    vals = [w.sym("v%d" % i, 8) for i in range(n)]
    for i in range(n): A.put(p, i, vals[i])
    q = A.realloc(p, m)
    if A.null(q):
        for i in range(n): w.eq("the old block stays usable: byte %d" % i, A.get(p, i), vals[i])
        A.free(p); balanced(w); return
    w.eq("alignment", A.addr(q) % AL, 0)
    for i in range(min(n, m)): w.eq("byte %d kept" % i, A.get(q, i), vals[i])
    for i in range(m): A.put(q, i, 255 - (i & 255))
    A.free(q)
    balanced(w)

def life(w, mod, name, kw, deref, use):
    w.alignsetup()
    cls = w.cls(mod, name)
    def body(bg):
        w.eq("state alignment", w.stateaddr(bg, deref) % AL, 0)
        for i in range(2):
            w.draw(bg, "raw"); w.draw(bg, "u32"); w.draw(bg, "dbl")
        if use == "state": bg.state = bg.state
        elif use == "jump": bg.jumped()
        elif use == "seed": bg.seed(w.ss("#b"))
    kw = dict(kw, seed=w.ss("#a"))
    e = w.lifetime(cls, kw, body)
    ev = w.allog()
    refused = any(k == "alloc" and not ok for k, i, ok in ev)
    w.check("storage is requested from the allocator", len(ev) > 0)
    w.check("a refused block is reported as MemoryError", isinstance(e, MemoryError) if refused else e is None)
    if use != "jump": balanced(w)
    else: w.check("no block is released wrongly or overrun", not any(k == "bad" for k, i, ok in ev))

def broken(w, mod, name, kw):
    """a constructor that raises gives its block back"""
    w.alignsetup()
    e = w.lifetime(w.cls(mod, name), dict(kw, seed=w.ss("#a")), lambda bg: None)
    w.check("an error is raised", isinstance(e, (ValueError, TypeError, MemoryError)))
    balanced(w)

def tasks(tier):
    T = []
    W = dict(replay="alignshim")
    sizes = [0, 1, 8, 15, 16, 17, 63, 64, 65, 128] if tier == "quick" else list(range(0, 20)) + [31, 32, 33, 47, 48, 49, 55, 56, 57, 63, 64, 65, 71, 72, 100, 127, 128, 129, 200, 256, 400]
    for op in ("malloc", "calloc", "calloc1", "realloc"):
        for n in sizes:
            if op == "calloc" and n % 8: continue
            T.append(Task("storage.%s.%d" % (op, n), storage, ["common"], dict(op=op, n=n), deadline=60, bound="%d bytes; every address residue and refusal" % n, **W))
    for n, m in ((8, 16), (16, 8), (1, 65), (64, 64), (65, 1)) if tier == "quick" else [(a, b) for a in (1, 8, 16, 33, 64, 65) for b in (1, 8, 16, 33, 64, 65, 200)]:
        T.append(Task("resize.%d.%d" % (n, m), resize, ["common"], dict(n=n, m=m), deadline=60, bound="%d to %d bytes, all contents" % (n, m), **W))
    for mod, name, kw, deref in (("aes", "AESCounter", {}, False), ("chacha", "ChaCha", {}, False), ("speck128", "SPECK128", {}, False), ("sfmt", "SFMT", {}, True), ("dsfmt", "DSFMT", {}, True),
                                 ("pcg64", "PCG64", {}, True), ("pcg64", "PCG64DXSM", {}, True), ("pcg64", "LCG128Mix", {}, True)):
        for use in ("none", "state", "seed") + (("jump",) if name not in ("PCG64DXSM", "ChaCha") and (tier != "quick" or name not in ("SFMT", "DSFMT")) else ()):
            T.append(Task("life.%s.%s" % (name, use), life, ["common", mod], dict(mod=mod, name=name, kw=kw, deref=deref, use=use), deadline=150, bound="every address residue and refusal; two rounds of draws", max_paths=400, **W))
    for mod, name, kw in (("chacha", "ChaCha", dict(rounds=7)), ("speck128", "SPECK128", dict(rounds=0)), ("pcg64", "PCG64", dict(variant="none")), ("pcg64", "LCG128Mix", dict(output="none")), ("aes", "AESCounter", dict(key=-1)), ("aes", "AESCounter", dict(counter=-1))):
        T.append(Task("broken.%s.%s" % (name, "".join(map(str, kw))), broken, ["common", mod], dict(mod=mod, name=name, kw=kw), deadline=60, bound="this refusal, every allocator answer", **W))
    return T
