"""Regenerates the encoding from the repository's current sources: Cython modules are
parsed, C sources are compiled to LLVM IR together with a driver that exposes every
declared function, struct layout and constant."""
import os, re, subprocess, sys, shutil, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor
from .cytypes import *
from . import transpile
from .irparse import Module
from .ctx import Unsupported

CLANG = "/usr/lib/llvm-18/bin/clang"
NUMPY_INC = None
SOURCES = {
    "aes": ["src/aesctr/aesctr.c", "src/common/cpu_features.c", "src/aligned_malloc/aligned_malloc.c"],
    "chacha": ["src/chacha/chacha.c", "src/common/cpu_features.c", "src/aligned_malloc/aligned_malloc.c"],
    "dsfmt": ["src/dsfmt/dsfmt.c", "src/dsfmt/dSFMT-jump.c", "src/aligned_malloc/aligned_malloc.c"],
    "sfmt": ["src/sfmt/sfmt.c", "src/sfmt/sfmt-jump.c", "src/aligned_malloc/aligned_malloc.c"],
    "mt19937": ["src/mt19937/mt19937.c", "src/mt19937/mt19937-jump.c"],
    "pcg64": ["src/pcg64/pcg64-common.c", "src/pcg64/pcg64-v2.c", "src/pcg64/lcg128mix.c"],
    "hc128": ["src/hc-128/hc-128.c"],
    "speck128": ["src/speck-128/speck-128.c", "src/common/cpu_features.c", "src/aligned_malloc/aligned_malloc.c"],
    "rdrand": ["src/rdrand/rdrand.c", "src/common/cpu_features.c"],
    "entropy": ["src/entropy/entropy.c"],
    "distributions": ["src/distributions/rg-distributions.c"],
}
for _n in ("xoroshiro128", "xorshift1024", "xoshiro256", "xoshiro512", "lxm", "sfc", "efiix64", "romu", "tyche",
           "threefry", "philox", "jsf", "mt64", "pcg32"):
    SOURCES[_n] = ["src/%s/%s.c" % (_n, _n)]
for _n in ("squares", "wrapper", "common", "_seed_sequence", "broadcasting", "generator"):
    SOURCES[_n] = []
FLAGS = {"aes": ["-maes"], "chacha": ["-mssse3"], "speck128": ["-mssse3"], "rdrand": ["-mrdrnd"]}
BASE = ["-S", "-emit-llvm", "-O1", "-g0", "-msse2", "-std=c99", "-U__GNUC_GNU_INLINE__", "-DDSFMT_MEXP=19937", "-DSFMT_MEXP=19937",
        "-DHAVE_SSE2=1", "-DR123_USE_PHILOX_64BIT=1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-w"]
UBSAN = ["-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,bounds,null,unreachable,return,vla-bound,bool,enum,float-cast-overflow,builtin",
         "-fsanitize-trap=all"]

def includes():
    global NUMPY_INC
    if NUMPY_INC is None:
        base = "/opt/randomgen-env/venv/lib/python3.12/site-packages/numpy/_core/include"
        NUMPY_INC = ["-I" + base, "-I/usr/include/python3.12"]
    return NUMPY_INC

class ExtIR:
    def __init__(self, name):
        self.name = name; self.mods = []; self.consts = {}; self.dropped = []

class Build:
    def __init__(self, repo="/repo", ubsan=False, extra_flags=None, tag=""):
        self.repo = repo; self.ubsan = ubsan; self.extra = extra_flags or {}; self.tag = tag
        self.tmp = tempfile.mkdtemp(prefix="vpbuild.")
        self.exts = {}; self.code = {}
        self.pkg = os.path.join(self.tmp, "randomgen")
        src = os.path.join(repo, "randomgen")
        os.mkdir(self.pkg)
        for f in os.listdir(src):
            p = os.path.join(src, f)
            if f.endswith((".pyx", ".pxd", ".py")) and os.path.isfile(p) and not os.path.exists(p + ".in"):
                shutil.copy(p, self.pkg)
        from Cython import Tempita
        for f in os.listdir(src):
            if f.endswith(".pxd.in") and "bounded" not in f:
                txt = open(os.path.join(src, f), encoding="utf8").read()
                open(os.path.join(self.pkg, f[:-3]), "w").write(Tempita.sub(txt))
        self.project = transpile.Project(self.pkg)
        self.srcdir = src

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ---- python side
    def module_code(self, mod):
        c = self.code.get(mod)
        if c is None:
            src, types, scope = transpile.transpile(self.project, mod)
            open(os.path.join(self.tmp, mod + ".sym.py"), "w").write(src)
            c = self.code[mod] = (compile(src, os.path.join(self.tmp, mod + ".sym.py"), "exec"), types, scope)
        return c

    def is_cython(self, mod):
        return os.path.exists(os.path.join(self.pkg, mod + ".pyx"))

    def is_pxd(self, mod):
        """declarations only"""
        return mod == "distributions"

    # ---- C side
    def structs_of(self, mod, seen=None):
        """extern declarations visible in an extension: (externs, enums, structs, headers)"""
        seen = set() if seen is None else seen
        if mod in seen: return [], [], [], []
        seen.add(mod)
        s = self.project.scope(mod)
        ex = dict(s.externs); en = dict(s.enums); st = list(s.structs)
        return ex, en, st

    def ir(self, mod):
        """IR of one extension"""
        e = self.exts.get(mod)
        if e is None:
            e = self.exts[mod] = self._build(mod)
        return e

    def prebuild(self, mods):
        for m in mods:
            self.project.scope(m)
        todo = [m for m in mods if m not in self.exts]
        with ThreadPoolExecutor(8) as ex:
            for m, t in zip(todo, ex.map(self._compile, todo)):
                self.exts[m] = self._load(m, t)

    def _build(self, mod):
        return self._load(mod, self._compile(mod))

    def _flags(self, mod):
        return BASE + FLAGS.get(mod, []) + includes() + ["-I" + self.srcdir, "-I" + os.path.join(self.srcdir, "src")] + self.extra.get(mod, []) + (UBSAN if self.ubsan else [])

    def _driver_lines(self, mod, alt):
        ex, en, st = self.structs_of(mod)
        hs = []
        for h in [h for _, h in ex.values()] + list(en.values()) + [t.header for t in st]:
            if h and h not in hs and not h.startswith(("numpy/", "Python")):
                hs.append(h)
        head = ["#include <stddef.h>", "#include <stdint.h>", "#include <Python.h>", "#include <numpy/random/bitgen.h>"]
        head += ['#include "%s"' % h for h in hs]
        out = []
        GEN = "_Generic((%s), signed char:1, char:1, short:1, int:1, long:1, long long:1, double:2, float:2, long double:2, default:0)"
        for n, (t, h) in ex.items():
            if h is None or h.startswith("numpy/"): continue
            if t.k == "func":
                out.append("const void *vp_fn_%s = (const void *)%s;" % (n, n))
            else:
                out.append("const void *vp_va_%s = (const void *)&%s; const unsigned long vp_vs_%s = sizeof(%s);" % (n, n, n, n))
        for n, h in en.items():
            if h is None or h.startswith("numpy/"): continue
            out.append("const long long vp_en_%s = (long long)(%s);" % (n, n))
        for n, (t, h) in self.project.scope(mod).typedefs.items():
            if h is None or h.startswith("numpy/"): continue
            out.append("const unsigned long vp_ts_%s = sizeof(%s);" % (n, n))
        for t in st:
            if t.header.startswith("numpy/"): continue
            cn = t.cnames[min(alt.get(t.name, 0), len(t.cnames) - 1)]
            out.append("const unsigned long vp_sz_%s = sizeof(%s);" % (t.name, cn))
            for f, ft in t.fields.items():
                base = "((%s *)0)->%s" % (cn, f)
                el = base + "[0]" if ft.k == "arr" else base
                out.append("const unsigned long vp_of_%s__%s = offsetof(%s, %s);" % (t.name, f, cn, f))
                out.append("const unsigned long vp_fs_%s__%s = sizeof(%s);" % (t.name, f, base))
                out.append("const unsigned long vp_es_%s__%s = sizeof(%s);" % (t.name, f, el))
                if ft.k in ("int", "float") or (ft.k == "arr" and ft.el.k in ("int", "float")):
                    out.append("const int vp_sg_%s__%s = %s;" % (t.name, f, GEN % el))
        return head, out

    def _compile(self, mod):
        d = os.path.join(self.tmp, "ir_" + mod); os.makedirs(d, exist_ok=True)
        texts = []; dropped = []
        alt = {}
        head, lines = self._driver_lines(mod, alt)
        if mod == "common":
            src = SOURCES["common"] + ["src/aligned_malloc/aligned_malloc.c"]
        else:
            src = SOURCES.get(mod, [])
        procs = []
        for c in src:
            out = os.path.join(d, os.path.basename(c) + ".ll")
            path = os.path.join(self.srcdir, c)
            if not os.path.exists(path):
                raise Unsupported("missing source " + c)
            procs.append((subprocess.Popen([CLANG] + self._flags(mod) + [path, "-o", out], stderr=subprocess.PIPE, text=True), out, c))
        for pr, out, c in procs:
            err = pr.communicate()[1]
            if pr.returncode: raise Unsupported("clang failed on %s: %s" % (c, err[-800:]))
            texts.append((os.path.basename(c), open(out).read()))
        if lines:
            n0 = len(head)
            for _ in range(8):
                drv = os.path.join(d, "driver.c")
                open(drv, "w").write("\n".join(head + lines) + "\n")
                out = os.path.join(d, "driver.ll")
                r = subprocess.run([CLANG] + self._flags(mod) + ["-ferror-limit=0", drv, "-o", out], capture_output=True, text=True)
                if r.returncode == 0:
                    texts.append(("driver", open(out).read())); break
                bad = {int(m.group(1)) for m in re.finditer(r"driver\.c:(\d+):\d+: error", r.stderr)}
                bad = {b - 1 - n0 for b in bad if b - 1 >= n0}
                if not bad: raise Unsupported("driver of %s: %s" % (mod, r.stderr[-800:]))
                again = False
                for t in self.structs_of(mod)[2]:
                    if t.header.startswith("numpy/"): continue
                    if any((" vp_sz_%s =" % t.name) in lines[b] for b in bad) and alt.get(t.name, 0) + 1 < len(t.cnames):
                        alt[t.name] = alt.get(t.name, 0) + 1; again = True
                if again:
                    head, lines = self._driver_lines(mod, alt); continue
                for b in bad: dropped.append(lines[b])
                lines = [l for i, l in enumerate(lines) if i not in bad]
        return texts, dropped

    def _load(self, mod, texts):
        texts, dropped = texts
        e = ExtIR(mod); e.dropped = dropped
        for name, t in texts:
            m = Module(t); m.ext = mod; m.srcname = name
            e.mods.append(m)
            for g, (ty, init, const) in m.globals.items():
                if g.startswith(("vp_en_", "vp_sz_", "vp_of_", "vp_fs_", "vp_es_", "vp_sg_", "vp_vs_", "vp_ts_")):
                    e.consts[g[3:]] = init if type(init) is int else 0
        return e
