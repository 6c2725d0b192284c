"""The concrete world: the harness API over the really built package (used to replay counterexamples
and to test the harnesses themselves).  Runs under the package's own interpreter; must not import the solver."""
import hashlib, sys, copy, struct, ctypes, importlib
import numpy as np
from .conc_words import concword
from numpy.random.bit_generator import ISpawnableSeedSequence

SALT = ""       # varies the values in unconstrained runs

class PathEnd(BaseException):
    pass

class FakeSeedSequence(ISpawnableSeedSequence):
    """seed sequence returning prescribed words"""
    WORDS = {}
    def __init__(self, ident):
        self.ident = ident; self.n = 0; self.entropy = 0
    def generate_state(self, n_words, dtype=np.uint32):
        dt = np.dtype(dtype)
        k = n_words if dt == np.uint32 else 2 * n_words
        a = np.array([concword(self.ident, i) if self.ident.startswith("T#") or not self.WORDS else self.WORDS.get("ss:%s:%d" % (self.ident, i), 0) & 0xffffffff for i in range(k)], dtype=np.uint32)
        return a.view(dt)
    def spawn(self, n):
        r = [FakeSeedSequence("%s:%d" % (self.ident, self.n + i)) for i in range(n)]
        self.n += n
        return r

def f2b(x): return struct.unpack("<Q", struct.pack("<d", float(x)))[0]
def b2f(x): return struct.unpack("<d", struct.pack("<Q", x))[0]

class ConcWorld:
    symbolic = False
    def __init__(self, env):
        self.env = env; self.names = {}; self.fails = []; self.nchecks = 0; self.log = []
        FakeSeedSequence.WORDS = env
        self.np = np
    def _get(self, name):
        k = self.names.get(name, 0); self.names[name] = k + 1
        n = name if k == 0 else "%s~%d" % (name, k)
        if not self.env: return int.from_bytes(hashlib.sha256((SALT + n).encode()).digest(), "little")     # nothing constrained: any values
        return self.env.get(n, 0)
    def cls(self, mod, name): return getattr(importlib.import_module("randomgen." + mod), name)
    def sym(self, name, w): return self._get(name) & ((1 << w) - 1)
    def ssym(self, name, w):
        v = self._get(name) & ((1 << w) - 1)
        return v - (1 << w) if v >> (w - 1) else v
    def symf(self, name): return b2f(self._get(name) & ((1 << 64) - 1))
    def ss(self, tag): return FakeSeedSequence("T" + tag)
    def ssword(self, tag, i, w=32):
        n = "ss:T%s:%d"
        if tag.startswith("#") or not self.env:
            return concword("T" + tag, i) if w == 32 else concword("T" + tag, 2 * i) | (concword("T" + tag, 2 * i + 1) << 32)
        if w == 32: return self.env.get(n % (tag, i), 0)
        return self.env.get(n % (tag, 2 * i), 0) | (self.env.get(n % (tag, 2 * i + 1), 0) << 32)
    def wordseq(self, vals):
        class Words(FakeSeedSequence):
            def generate_state(self, n_words, dtype=np.uint32):
                dt = np.dtype(dtype)
                k = n_words if dt == np.uint64 else (n_words + 1) // 2
                a = np.array([int(vals[min(i, len(vals) - 1)]) for i in range(k)], dtype=np.uint64)
                return a if dt == np.uint64 else a.view(np.uint32)[:n_words].copy()
        return Words("Twords")
    def arr(self, vals, dtype): return np.array([int(v) for v in vals], dtype=dtype)
    def farr(self, vals, shape=None):
        a = np.array([float(v) for v in vals], dtype=np.float64)
        return a if shape is None else a.reshape(shape)
    ctypes = ctypes
    def lockheld(self, bg):
        l = bg.lock
        l = getattr(l, "lock", l)
        return l._is_owned() if hasattr(l, "_is_owned") else l.locked()
    def watch(self, bg, seen): pass
    def drawsof(self, bg):
        o = type(bg)(1); o.state = bg.state
        w = self
        class Draws:
            def __init__(self): self.g = np.random.Generator(o)
            def normal(self): return float(self.g.standard_normal())
            def chisq(self, df): return float(self.g.chisquare(df)), (0, df)
            def finish(self):
                a, b = np.random.Generator(o).bit_generator.state, bg.state
                w.check("number of normals drawn", repr(a) == repr(b)); w.check("number of chi-squares drawn", repr(a) == repr(b))
            def df(self, tag): pass
        return Draws()
    def eqreal(self, label, a, b): self.check(label, abs(float(a) - float(b)) <= 1e-8 * (1 + abs(float(b))))
    def sqrt(self, x): return float(x) ** 0.5
    def citems(self, a): return [float(p) for x in np.asarray(a).ravel() for p in (x.real, x.imag)]
    def scriptints(self):
        """numpy.random.Generator.integers returns the values of the counterexample"""
        if not self.env: return
        import numpy.random as nr
        w = self
        class Generator:
            def __init__(self, bg): pass
            def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
                if high is None: low, high = 0, low
                if size is not None: raise NotImplementedError
                w.nint = getattr(w, "nint", 0) + 1
                v = w.sym("integers%d" % w.nint, 64)
                w.assume(int(low) <= v < int(high))
                return np.dtype(dtype or np.int64).type(v)
        nr.Generator = Generator
    def alarm(self, sec, f, *a, **k):
        """f(*a), which must return in `sec` seconds (the process is ended by a signal otherwise)"""
        import signal
        signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(sec)
        try: return f(*a, **k)
        finally: signal.alarm(0)
    def draw(self, bg, kind):
        if kind == "raw": return int(bg.random_raw())
        c = bg.ctypes
        f = {"u64": c.next_uint64, "u32": c.next_uint32, "dbl": c.next_double}[kind]
        r = f(c.state)
        return r if kind != "dbl" else float(r)
    def dbits(self, x): return f2b(x)
    def f32bits(self, x): return struct.unpack("<I", struct.pack("<f", float(x)))[0]
    def dyadic(self, x, k, w=64):
        if w == 64: return float(int(x)) * 2.0 ** k
        c = np.float32 if w == 32 else np.longdouble
        return c(int(x)) * c(2) ** k
    def f64(self, bits): return b2f(int(bits))
    def fitems(self, a): return list(np.asarray(a).ravel())
    def lt1(self, x): return bool(0 <= x < 1)
    def items(self, a): return [int(x) for x in np.asarray(a).ravel()]
    def shape(self, a): return tuple(np.asarray(a).shape)
    def assume(self, c):
        if not c: raise PathEnd()
    def check(self, label, c):
        self.nchecks += 1
        if not c: self.fails.append((label, "condition false"))
    def eq(self, label, a, b):
        self.nchecks += 1
        for path, x, y in diffs(a, b, ""):
            self.fails.append((label + path, "%r != %r" % (x, y)))
    def raises(self, exc, f, *a, **k):
        try: f(*a, **k)
        except exc: return True
        return False
    def cond(self, c): return bool(c)
    def ite(self, c, a, b): return a if c else b
    def and_(self, *cs): return all(bool(c) for c in cs)
    def or_(self, *cs): return any(bool(c) for c in cs)
    def not_(self, c): return not c
    def int(self, x): return int(x)
    def tbl(self, x, table): return table[x]
    def sel(self, vals, i, width=64): return vals[i]
    def upd(self, vals, i, v, width=64): return list(vals[:i]) + [v] + list(vals[i + 1:])
    def split(self, on=True): pass
    def f2map(self, words, w, cols):
        r = 0; m = (1 << w) - 1; j = 0
        for x in words:
            for i in range(w):
                if (int(x) >> i) & 1: r ^= cols[j]
                j += 1
        return [(r >> (w * k)) & m for k in range(len(words))]
    def rdsetup(self, window):
        import tempfile, os, atexit
        self.rdwin = set(window)
        f = tempfile.NamedTemporaryFile("w", suffix=".rd", delete=False)
        for i in range(8192): f.write("%d %d\n" % (self.rdok(i), self.rdval(i)))
        f.close(); os.environ["VP_RD_FILE"] = f.name; atexit.register(os.unlink, f.name)
    def rdok(self, i): return True if i not in self.rdwin else bool(self.env.get("rd.ok:%d" % i, 0) & 1)
    def rdval(self, i): return self.env.get("rd.val:%d" % i, 0)
    def alignsetup(self):
        import tempfile, os, atexit
        f = tempfile.NamedTemporaryFile("w", suffix=".al", delete=False)
        for k, v in self.env.items():
            if k.startswith("al."): f.write("%s %d\n" % (k, v))
        f.close(); g = tempfile.NamedTemporaryFile("w", suffix=".allog", delete=False); g.close()
        self.alfile = g.name
        os.environ["VP_AL_FILE"] = f.name; os.environ["VP_AL_LOG"] = g.name
        atexit.register(os.unlink, f.name); atexit.register(os.unlink, g.name)
    def allog(self): return [(l.split()[0], int(l.split()[1]), int(l.split()[2])) for l in open(self.alfile)]
    def aligned(self):
        import randomgen, os, tempfile, subprocess, sysconfig, shutil
        root = os.path.dirname(randomgen.__file__)
        d = tempfile.mkdtemp(prefix="vpal.")
        shim = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "shim")
        subprocess.run(["gcc", "-O2", "-w", "-shared", "-fPIC", "-I" + shim, "-I" + os.path.join(root, "src", "aligned_malloc"), "-I" + sysconfig.get_paths()["include"], "-I" + np.get_include(),
                        os.path.join(shim, "aligned_lib.c"), "-o", d + "/al.so"], check=True)
        L = ctypes.CDLL(d + "/al.so"); shutil.rmtree(d)
        vp, sz = ctypes.c_void_p, ctypes.c_size_t
        L.x_malloc.restype = L.x_calloc.restype = L.x_realloc.restype = vp
        L.x_malloc.argtypes = [sz]; L.x_calloc.argtypes = [sz, sz]; L.x_realloc.argtypes = [vp, sz]; L.x_free.argtypes = [vp]; L.x_free.restype = None
        class A:
            malloc = staticmethod(L.x_malloc); calloc = staticmethod(L.x_calloc); realloc = staticmethod(L.x_realloc); free = staticmethod(L.x_free)
            @staticmethod
            def null(p): return not p
            @staticmethod
            def addr(p): return p
            @staticmethod
            def put(p, i, v): ctypes.c_uint8.from_address(p + i).value = int(v) & 255
            @staticmethod
            def get(p, i): return ctypes.c_uint8.from_address(p + i).value
        return A
    def lifetime(self, cls, kw, body):
        import gc
        exc = None; o = None
        try:
            o = cls(**kw)
            body(o)
        except Exception as e: exc = e.with_traceback(None)
        del o; gc.collect()
        if exc is not None: exc.__context__ = None
        return exc
    def stateaddr(self, bg, deref):
        a = bg.ctypes.state_address
        return ctypes.c_uint64.from_address(a).value if deref else a
    def entsetup(self):
        import tempfile, os, atexit
        f = tempfile.NamedTemporaryFile("w", suffix=".ent", delete=False)
        for k, v in self.env.items():
            if k.startswith("ent."): f.write("%s %d\n" % (k, v))
        f.close(); g = tempfile.NamedTemporaryFile("w", suffix=".entlog", delete=False); g.close()
        self.entfile = g.name
        os.environ["VP_ENT_FILE"] = f.name; os.environ["VP_ENT_LOG"] = g.name
        atexit.register(os.unlink, f.name); atexit.register(os.unlink, g.name)
    def entlog(self): return [(l.split()[0], int(l.split()[1]), int(l.split()[2])) for l in open(self.entfile)]
    def ent(self, k, w): return self.env.get("ent." + k, 0) & ((1 << w) - 1)
    def note(self, label, v): self.log.append((label, repr(v)))

def diffs(a, b, path):
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(a) != sorted(b):
            yield path + ":keys", sorted(a), sorted(b); return
        for k in a: yield from diffs(a[k], b[k], path + "." + str(k))
        return
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            yield path + ":shape", (a.shape, a.dtype), (b.shape, b.dtype); return
        for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
            yield from diffs(x, y, "%s[%d]" % (path, i))
        return
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            yield path + ":len", len(a), len(b); return
        for i, (x, y) in enumerate(zip(a, b)): yield from diffs(x, y, "%s[%d]" % (path, i))
        return
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        if f2b(a) != f2b(b): yield path, a, b
        return
    if isinstance(a, np.longdouble) and isinstance(b, np.longdouble):
        if a != b: yield path, a, b
        return
    if isinstance(a, (complex, np.complexfloating)):
        if f2b(a.real) != f2b(b.real) or f2b(a.imag) != f2b(b.imag): yield path, a, b
        return
    if not (a == b): yield path, a, b
