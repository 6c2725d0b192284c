"""C19: draws through a shared generator happen under its lock."""
from vp.task import Task
from .gens import *
from .c17 import Source

EXPLANATION = "Each public operation is executed over a generator whose native functions report whether the generator's lock is held at the moment of the draw; every branch of the operation (parameters symbolic) is explored. The lock must be held at each draw and be free again after the operation, also when it raises."
ASSUMPTIONS = ["numpy's own samplers (Generator.standard_normal, SeedSequence) take the lock themselves", "the concrete replay observes the lock from inside the generator's draw functions"]
GEN = ("common", "wrapper", "generator", "broadcasting", "distributions")

def watched(w, bits=64):
    seen = []
    box = []
    raw = Source(w, "r", bits)
    inner = raw.fn()
    def fn(p):
        seen.append(w.lockheld(box[0]))
        return inner(p)
    bg = w.cls("wrapper", "UserBitGenerator")(fn, bits)
    box.append(bg)
    w.watch(bg, seen)
    return bg, seen

def op(w, f, bits=64, draws=True):
    bg, seen = watched(w, bits)
    f(w, bg)
    if draws: w.check("the operation draws", len(seen) > 0)
    for x in seen: w.check("lock held during the draw", x)
    w.check("lock released", not w.lockheld(bg))

def E(w, bg): return w.cls("generator", "ExtendedGenerator")(bg)


def raw(size, output): return lambda w, bg: bg.random_raw(size, output)
def bench(m): return lambda w, bg: bg._benchmark(3, m)
def uints(size, bits): return lambda w, bg: E(w, bg).uintegers(size, bits)
def rand(size, dt): return lambda w, bg: E(w, bg).random(size, dtype=dt)
def rout(dt): return lambda w, bg: E(w, bg).random(out=w.np.empty(3, getattr(w.np, dt)), dtype=dt)
def cn_scalar(size, gamma, rel):
    def f(w, bg):
        try: E(w, bg).complex_normal(0.5, gamma, rel, size=size)
        except ValueError: w.check("lock released by the refusal", not w.lockheld(bg))
    return f
def cn_array(size):
    def f(w, bg): E(w, bg).complex_normal(w.farr([0.0, 1.0]), w.farr([1.0, 2.0]), 0.5, size=size)
    return f
def swishart(df, dim, size): return lambda w, bg: E(w, bg).standard_wishart(df, dim, size)
def wish(df, size):
    def f(w, bg): E(w, bg).wishart(df, w.farr([1.0, 0.0, 0.0, 2.0], (2, 2)), size=size, method="factor")
    return f

def refused(w, which):
    """errors leave the lock free and draw nothing"""
    bg, seen = watched(w)
    g = E(w, bg)
    calls = {"raw-size": lambda: bg.random_raw(-1), "uint-size": lambda: g.uintegers(-1), "uint-bits": lambda: g.uintegers(3, 16), "rand-size": lambda: g.random(-1),
             "rand-dtype": lambda: g.random(3, dtype="int32"), "rand-out": lambda: g.random(out=w.np.empty(3, w.np.float32)), "rand-shape": lambda: g.random((2, 2), out=w.np.empty(3, w.np.float64)),
             "bench": lambda: bg._benchmark(3, "float"), "cn": lambda: g.complex_normal(0.0, 1.0, 3.0), "df": lambda: g.wishart(-1, w.farr([1.0, 0.0, 0.0, 1.0], (2, 2)))}
    w.check("refused", w.raises((ValueError, TypeError), calls[which]))
    w.check("lock released", not w.lockheld(bg))
    w.check("nothing drawn", len(seen) == 0)

def hardware(w, kind, n, window):
    """RDRAND gives its lock back when a hardware failure raises"""
    w.rdsetup(window)
    bg = w.cls("rdrand", "RDRAND")(retries=0)
    g = w.cls("generator", "ExtendedGenerator")(bg)
    try:
        if kind == "raw": bg.random_raw(n)
        elif kind == "skip": bg.random_raw(n, False)
        elif kind == "u64": g.uintegers(n, 64)
        else: g.random(n)
    except RuntimeError: w.note("raised", 1)
    w.check("lock released", not w.lockheld(bg))

def tasks(tier):
    T = []
    def add(name, f, bits=64, mods=GEN): T.append(Task(name, op, list(mods), dict(f=f, bits=bits), deadline=60, ms=20000, bound="every branch; symbolic scalar parameters where given", quick=True))
    for s in (None, 3, (2, 2)):
        for o in (True, False): add("raw.%s.%d" % (s, o), raw(s, o), mods=("common", "wrapper"))
        for b in (64, 32):
            for u in (64, 32): add("uintegers.%s.%d.%d" % (s, b, u), uints(s, u), b)
            for dt in ("float64", "float32", "longdouble"): add("random.%s.%d.%s" % (s, b, dt), rand(s, dt), b)
    for m in ("uint64", "double"): add("benchmark." + m, bench(m), mods=("common", "wrapper"))
    for dt in ("float64", "float32", "longdouble"): add("random.out." + dt, rout(dt))
    for s in (None, 2):
        for g, r in ((1.0, 0.0), (2.0, 1.0), (1.0, 1.0), (1.0, 0.5j), (0.0, 0.0), (1.0, 3.0)): add("complex_normal.%s.%s.%s" % (s, g, r), cn_scalar(s, g, r)); T[-1].params["draws"] = r != 3.0
    for s in (None, (3, 2)): add("complex_normal.array.%s" % (s,), cn_array(s))
    for df, dim in ((1, 2), (2, 2), (3, 2)):
        for s in (None, 2): add("standard_wishart.%d.%d.%s" % (df, dim, s), swishart(df, dim, s))
    for df in (1, 3, [1, 3], [2, 1]):
        for s in (None, (2,) if not isinstance(df, list) else (3, 2)): add("wishart.%s.%s" % (df, s), wish(df, s))
    for k in ("raw-size", "uint-size", "uint-bits", "rand-size", "rand-dtype", "rand-out", "rand-shape", "bench", "cn", "df"):
        T.append(Task("refused." + k, refused, list(GEN), dict(which=k), deadline=30, ms=20000, bound="this call", quick=True))
    for k in ("raw", "skip", "u64", "dbl"):
        T.append(Task("rdrand." + k, hardware, ["common", "rdrand", "generator", "broadcasting", "distributions"], dict(kind=k, n=3, window=range(0, 2) if k in ("raw", "skip") else [0, 200]), deadline=60, ms=20000, bound="every outcome of two hardware reads", quick=True, replay="rdshim"))
    return T
