"""Symbolic execution of LLVM IR (textual, as produced by clang -O1)."""
import sys, math
from . import terms as tm
from .irparse import Module, Ty
from .ctx import Ctx, Unsupported, PathEnd

class Violation(BaseException):
    """a memory-safety or undefined-behaviour violation on the current path"""
    def __init__(self, kind, msg, cond=None):
        BaseException.__init__(self, "%s: %s" % (kind, msg))
        self.kind = kind; self.msg = msg; self.cond = cond

class Obj:
    __slots__ = ("name", "size", "cells", "const", "alive", "addr", "heap", "align")
    def __init__(self, name, size, fill=None, const=False, heap=False):
        self.name = name; self.size = size; self.cells = [fill] * size
        self.const = const; self.alive = True; self.addr = None; self.heap = heap; self.align = 16
    def __repr__(self):
        return "<%s:%d>" % (self.name, self.size)

class Ptr:
    __slots__ = ("obj", "off")
    def __init__(self, obj, off=0):
        self.obj = obj; self.off = off
    def __repr__(self):
        return "&%s+%s" % (self.obj, tm.show(self.off) if type(self.off) is not int else self.off)
    def __eq__(self, o):
        return isinstance(o, Ptr) and o.obj is self.obj and (o.off is self.off or (type(o.off) is int and o.off == self.off))
    def __hash__(self):
        return hash((id(self.obj), self.off))
    def add(self, n):
        return Ptr(self.obj, tm.add(64, self.off, n))

class FnPtr:
    __slots__ = ("name", "mod")
    def __init__(self, name, mod=None):
        self.name = name; self.mod = mod
    def __repr__(self):
        return "&%s()" % self.name

class MergeFail(BaseException):
    """a region cannot be executed without branching"""

JOURNAL = None

def _allnone(o, off, n):
    c = o.cells
    return all(c[off + i] is None for i in range(n))

def _raw_store(o, off, n, v):
    c = o.cells
    if type(v) is int:
        for i in range(n): c[off + i] = (v >> (8 * i)) & 255
    else:
        for i in range(n): c[off + i] = (v, i)

class Undef:
    def __repr__(self):
        return "undef"
UNDEF = Undef()

M64 = (1 << 64) - 1

# ---------------------------------------------------------------- memory
def load_bits(obj, off, n):
    """n bytes at concrete offset -> value (int, T, Ptr) of 8n bits"""
    if off < 0 or off + n > obj.size:
        raise Violation("out-of-bounds read", "%d bytes at offset %d of %s (size %d)" % (n, off if off < (1 << 63) else off - (1 << 64), obj.name, obj.size))
    if not obj.alive:
        raise Violation("use after free", obj.name)
    c = obj.cells
    c0 = c[off]
    if type(c0) is tuple and c0[1] == 0:
        t = c0[0]
        if type(t) is not tm.T:
            if n == 8:
                for i in range(1, 8):
                    ci = c[off + i]
                    if type(ci) is not tuple or ci[0] is not t or ci[1] != i:
                        break
                else:
                    return t
        elif t.w == 8 * n:
            for i in range(1, n):
                ci = c[off + i]
                if type(ci) is not tuple or ci[0] is not t or ci[1] != i:
                    break
            else:
                return t
    elif type(c0) is int:
        r = 0
        for i in range(n):
            ci = c[off + i]
            if type(ci) is not int:
                break
            r |= ci << (8 * i)
        else:
            return r
    parts = []
    for i in range(n):
        ci = c[off + i]
        if ci is None:
            ci = _undef_byte(obj, off + i)
        if type(ci) is int:
            parts.append((ci, 8))
        else:
            t, k = ci
            if type(t) is not tm.T:
                raise Unsupported("partial pointer load")
            parts.append((tm.ext(t, 8 * k, 8), 8))
    return tm.cat(parts)

def _undef_byte(obj, off):
    ctx = Ctx.cur
    v = ctx.undefined(8, "%s+%d" % (obj.name, off))
    obj.cells[off] = (v, 0)
    return (v, 0)

def store_bits(obj, off, n, v):
    if off < 0 or off + n > obj.size:
        raise Violation("out-of-bounds write", "%d bytes at offset %d of %s (size %d)" % (n, off if off < (1 << 63) else off - (1 << 64), obj.name, obj.size))
    if not obj.alive:
        raise Violation("use after free", obj.name)
    if obj.const:
        raise Violation("write to constant", obj.name)
    c = obj.cells
    if JOURNAL is not None:
        JOURNAL.append((obj, off, c[off:off + n]))
    if type(v) is int:
        for i in range(n):
            c[off + i] = (v >> (8 * i)) & 255
    elif v is UNDEF:
        for i in range(n):
            c[off + i] = None
    else:
        if type(v) is tm.T and v.w != 8 * n:
            v = tm.zext(v, v.w, 8 * n)
        for i in range(n):
            c[off + i] = (v, i)

def _offsets(ptr, n, ctx):
    """feasible concrete offsets for a symbolic pointer, after proving it in bounds"""
    off = ptr.off; obj = ptr.obj
    # stride from linear form
    step = 1; base = 0
    if off.op == "lin":
        c, co = off.data
        g = 0
        for k, a in zip(co, off.args):
            z = 0
            if a.op == "cat" and type(a.args[0]) is int and a.args[0] == 0:
                z = a.data[0]
            if k >= 1 << 63:
                k = (1 << 64) - k
            g = math.gcd(g, k << z)
        step = g & -g if g else 1
        base = c
    elif off.op == "cat" and type(off.args[0]) is int:
        step = 1 << off.data[0]; base = off.args[0]
    elif off.op in ("tbl", "ite"):
        step = n
    lim = obj.size - n
    if lim < 0:
        raise Violation("out-of-bounds access", "%d bytes of %s" % (n, obj.name))
    bad = tm.ult(64, lim, off)
    if bad != 0:
        if type(bad) is int or not ctx.must(tm.bnot(1, bad)):
            if ctx.branch(bad):
                raise Violation("out-of-bounds access", "symbolic index into %s (size %d)" % (obj.name, obj.size))
    lo, hi = tm.rng(off)
    start = base % step if step else 0
    # smallest candidate >= lo
    first = start if start >= lo else start + -(-(lo - start) // step) * step
    offs = range(first, min(hi, lim) + 1, step)
    if len(offs) > 2:
        f = _feasible(off, ctx)
        if f is not None:
            # the feasible ones may be sparser than the stride assumed
            offs = [o for o in offs if o in f]
            g = math.gcd(*[o - offs[0] for o in offs[1:]]) if len(offs) > 1 else step
            return (list(range(offs[0], offs[-1] + 1, g)) if len(offs) > 1 else offs), g, start
    return list(offs), step, start

_feas = {}
def _feasible(off, ctx):
    """values of an offset that depends on one small variable, under the path conditions on that variable alone"""
    vs = tm.free_vars([off])
    if len(vs) != 1 or vs[0].w > 12: return None
    v = vs[0]
    if _feas.get("at") is not tm.generation(): _feas.clear(); _feas["at"] = tm.generation()
    cs = [c for c in ctx.pc if type(c) is not int and _one(c) is v]
    k = (off, tuple(cs))
    r = _feas.get(k)
    if r is None:
        r = set()
        for x in range(1 << v.w):
            e = tm.evaluate(cs + [off], {v.data: x})
            if all(e[:-1]): r.add(e[-1])
        _feas[k] = r
    return r
def _one(c):
    """the only variable of c, if it has just one"""
    k = ("one", c)
    if k not in _feas:
        vs = tm.free_vars([c]) if len(tm.topo([c])) < 60 else []
        _feas[k] = vs[0] if len(vs) == 1 else None
    return _feas[k]

def load_value(ptr, nbytes, ctx):
    if type(ptr) is int:
        raise Violation("null pointer read", hex(ptr))
    if type(ptr) is not Ptr:
        raise Unsupported("load through %r" % (ptr,))
    off = ptr.off
    if type(off) is int:
        if off > 1 << 63:
            off -= 1 << 64
        return load_bits(ptr.obj, off, nbytes)
    offs, step, start = _offsets(ptr, nbytes, ctx)
    if len(offs) == 1:
        return load_bits(ptr.obj, offs[0], nbytes)
    if not offs:
        raise PathEnd()
    vals = [load_bits(ptr.obj, o, nbytes) for o in offs]
    if any(type(v) is not int and type(v) is not tm.T for v in vals):
        o = ctx.choose(off, 64)
        return load_bits(ptr.obj, o, nbytes)
    # index = (off - offs[0]) / step
    d = tm.sub(64, off, offs[0])
    k = step.bit_length() - 1
    iw = max((len(offs) - 1).bit_length(), 1)
    if step == 1 << k:
        idx = tm.ext(tm.lshr(64, d, k), 0, iw)
    else:
        idx = tm.ext(tm.udiv(64, d, step), 0, iw)
    while len(vals) < (1 << iw) and all(type(v) is int for v in vals):
        vals.append(vals[-1])
    return tm.sel(nbytes * 8, idx, iw, vals)

def store_value(ptr, nbytes, v, ctx):
    if type(ptr) is int:
        raise Violation("null pointer write", hex(ptr))
    if type(ptr) is not Ptr:
        raise Unsupported("store through %r" % (ptr,))
    off = ptr.off
    if type(off) is int:
        if off > 1 << 63:
            off -= 1 << 64
        store_bits(ptr.obj, off, nbytes, v)
        return
    offs, step, start = _offsets(ptr, nbytes, ctx)
    if not (type(v) is int or type(v) is tm.T) or step < nbytes:
        o = ctx.choose(off, 64, 4096)
        store_bits(ptr.obj, o, nbytes, v)
        return
    for o in offs:
        old = load_bits(ptr.obj, o, nbytes)
        store_bits(ptr.obj, o, nbytes, tm.ite(tm.eq(64, off, o), v, old, nbytes * 8))

# ---------------------------------------------------------------- machine
class Machine:
    """one address space; several modules may be linked into it"""
    def __init__(self, modules, hooks=None):
        self.mods = modules
        self.globals = {}
        self.hooks = dict(HOOKS)
        if hooks:
            self.hooks.update(hooks)
        self.steps = 0
        self.max_steps = 60000000
        self.trace_calls = None
        self.allocs = []
        self.depth = 0
        self.called = {}
        self.fn_override = {}
        self.split = False      # decide every comparison by branching (carries become concrete on each path)
        self._scopes = {}
        self._regions = {}; self._merging = 0; self._depth_arm = 0

    def scope(self, mod):
        """modules visible from mod: itself, then those of the same extension"""
        if mod is None:
            return self.mods
        k = self._scopes.get(id(mod))
        if k is None:
            e = getattr(mod, "ext", None)
            k = self._scopes[id(mod)] = [mod] + [m for m in self.mods if m is not mod and getattr(m, "ext", None) == e]
        return k

    def find(self, name, mod=None):
        for m in self.scope(mod):
            f = m.funcs.get(name)
            if f is not None:
                return f
            a = m.aliases.get(name)
            if a is not None:
                return self.find(a.split()[-1].lstrip("@"), mod)
        return None

    # -- globals
    def global_ptr(self, name, mod):
        if name[0] == "@":
            name = name[1:]
        sc = self.scope(mod)
        for m in sc:
            if name in m.globals:
                ty, init, const = m.globals[name]
                if init is None:
                    # external declaration: look for the definition elsewhere
                    for m2 in sc:
                        if name in m2.globals and m2.globals[name][1] is not None:
                            m = m2; ty, init, const = m2.globals[name]
                            break
                k = (name, id(m))
                p = self.globals.get(k)
                if p is None:
                    o = Obj("@" + name, ty.size, 0)
                    p = self.globals[k] = Ptr(o, 0)
                    if init is not None:
                        self._init(o, 0, ty, init, m)
                    o.const = const
                return p
            if name in m.funcs or name in m.aliases:
                return FnPtr(name, m)
        return FnPtr(name, mod)

    def _init(self, o, off, ty, c, mod):
        if type(c) is tuple:
            k = c[0]
            if k == "zero" or k == "undef":
                return
            if k == "bytes":
                for i, b in enumerate(c[1]):
                    o.cells[off + i] = b
                return
            if k == "agg":
                if ty.k in ("a", "V"):
                    es = ty.el.size if ty.k == "a" else ty.el.n // 8
                    for i, (t, v) in enumerate(c[1]):
                        self._init(o, off + i * es, ty.el, v, mod)
                else:
                    for (t, v), eo, et in zip(c[1], ty.offs, ty.el):
                        self._init(o, off + eo, t, v, mod)
                return
            v = self.constval(c, ty, mod)
        else:
            v = c
        store_bits(o, off, (ty.n + 7) // 8 if ty.k in ("i", "f") else 8, v)

    def constval(self, c, ty, mod):
        if type(c) is int:
            return c
        k = c[0]
        if k == "g":
            return self.global_ptr(c[1], mod)
        if k == "zero":
            return self._zero(ty)
        if k == "undef":
            if ty.k == "V":
                return [UNDEF] * ty.n
            if ty.k == "a":
                return [self.constval(c, ty.el, mod)] * ty.n
            if ty.k == "s":
                return [self.constval(c, e, mod) for e in ty.el]
            return UNDEF
        if k == "agg":
            return [self.constval(v, t, mod) for t, v in c[1]]
        if k == "bytes":
            return list(c[1])
        if k == "gep":
            base = self.constval(c[2], None, mod)
            return self._gep(c[1], base, [(t, v[1]) for t, v in c[3]])
        if k == "cast":
            v = self.constval(c[3], c[2], mod)
            return self._cast(c[1], c[2], v, c[4])
        if k == "bin":
            a = self.constval(c[3], c[2], mod); b = self.constval(c[4], c[2], mod)
            return self._bin(c[1], c[2].n, a, b)
        raise Unsupported("constant %r" % (c,))

    def _zero(self, ty):
        if ty.k in ("i", "f", "p"):
            return 0
        if ty.k in ("a", "V"):
            return [self._zero(ty.el) for _ in range(ty.n)]
        if ty.k == "s":
            return [self._zero(e) for e in ty.el]
        raise Unsupported("zero " + ty.k)

    # -- memory helpers for harnesses
    def alloc(self, size, name="obj", fill=None, heap=False):
        o = Obj(name, size, fill, heap=heap)
        return Ptr(o, 0)

    def load(self, ty, ptr):
        ctx = Ctx.cur
        k = ty.k
        if k == "i":
            v = load_value(ptr, ty.size if ty.n > 8 and ty.n & (ty.n - 1) == 0 else (ty.n + 7) // 8, ctx)
            if type(v) is Ptr or type(v) is FnPtr:
                return self._ptrtoint(v, ty.n)
            n = (ty.n + 7) // 8 * 8
            if n != ty.n:
                v = tm.ext(v, 0, ty.n)
            return v
        if k == "f":
            v = load_value(ptr, (ty.n + 7) // 8, ctx)
            return v
        if k == "p":
            return load_value(ptr, 8, ctx)
        if k == "V":
            el = ty.el; b = el.n // 8 if el.k != "p" else 8
            if el.k == "i" and el.n < 8:
                v = load_value(ptr, ty.size, ctx)
                return [tm.ext(v, i * el.n, el.n) for i in range(ty.n)]
            return [load_value(_padd(ptr, i * b), b, ctx) for i in range(ty.n)]
        if k == "a":
            return [self.load(ty.el, _padd(ptr, i * ty.el.size)) for i in range(ty.n)]
        if k == "s":
            return [self.load(e, _padd(ptr, o)) for e, o in zip(ty.el, ty.offs)]
        raise Unsupported("load of %r" % ty)

    def store(self, ty, ptr, v):
        ctx = Ctx.cur
        k = ty.k
        if k in ("i", "f"):
            n = (ty.n + 7) // 8
            store_value(ptr, n, v, ctx)
        elif k == "p":
            store_value(ptr, 8, v, ctx)
        elif k == "V":
            el = ty.el
            if el.k == "i" and el.n < 8:
                store_value(ptr, ty.size, tm.cat([(x, el.n) for x in v]), ctx)
                return
            b = el.n // 8 if el.k != "p" else 8
            for i, x in enumerate(v):
                store_value(_padd(ptr, i * b), b, x, ctx)
        elif k == "a":
            for i, x in enumerate(v):
                self.store(ty.el, _padd(ptr, i * ty.el.size), x)
        elif k == "s":
            for e, o, x in zip(ty.el, ty.offs, v):
                self.store(e, _padd(ptr, o), x)
        else:
            raise Unsupported("store of %r" % ty)

    # -- execution
    def call(self, name, args, mod=None):
        f = self.fn_override.get(name)
        if f is not None:
            return f(self, args)
        f = self.find(name, mod)
        if f is None:
            h = self.hooks.get(name)
            if h is None:
                raise Unsupported("external function " + name)
            return h(self, args)
        return self.run(f, args)

    def run(self, f, args):
        self.depth += 1
        if self.depth > 200:
            raise Unsupported("call depth")
        self.called[f.name] = self.called.get(f.name, 0) + 1
        try:
            return self._run(f, args)
        finally:
            self.depth -= 1

    def _run(self, f, args):
        blocks, order = f.decode()
        env = {}
        for (t, nm), a in zip(f.params, args):
            env[nm] = a
        for k, t in getattr(f, "byval", None) and f.byval.items() or ():
            p = self.alloc(t.size, "byval")
            _memcpy(self, p, args[k], t.size)
            env[f.params[k][1]] = p
        mod = f.mod
        ctx = Ctx.cur
        cur = order[0]; prev = None
        allocas = []
        D = DISPATCH
        merged = None
        while True:
            blk = blocks[cur]
            i = 0; n = len(blk)
            # phis read in parallel
            if merged is not None:
                for r, v in merged[1]:
                    env[r] = v
                while i < n and blk[i].op == "phi":
                    i += 1
                merged = None
            elif n and blk[0].op == "phi":
                vals = []
                while i < n and blk[i].op == "phi":
                    ins = blk[i]
                    for v, l in ins.a[1]:
                        if l == prev:
                            vals.append((ins.res, env[v[1]] if v[0] == "l" else self.constval(v[1], ins.a[0], mod)))
                            break
                    else:
                        raise Unsupported("phi without %s in %s" % (prev, f.name))
                    i += 1
                for r, v in vals:
                    env[r] = v
            nxt = None
            self.steps += n
            if self.steps > self.max_steps:
                raise Unsupported("step limit in " + f.name)
            while i < n:
                ins = blk[i]; i += 1
                op = ins.op
                h = D.get(op)
                if h is not None:
                    env[ins.res] = h(self, ins, env, mod)
                    continue
                if op == "store":
                    t, v, p = ins.a
                    val = env[v[1]] if v[0] == "l" else self.constval(v[1], t, mod)
                    ptr = env[p[1]] if p[0] == "l" else self.constval(p[1], None, mod)
                    if t.k in ("i", "f") and type(ptr) is Ptr and type(ptr.off) is int and ptr.off < (1 << 63):
                        store_bits(ptr.obj, ptr.off, (t.n + 7) // 8, val)
                    else:
                        if t.k == "V" and type(ptr) is Ptr and ptr.obj.addr is not None: _aligned(ptr, ins.al)
                    self.store(t, ptr, val)
                    continue
                if op == "br":
                    nxt = ins.a[0]; break
                if op == "condbr":
                    c, a, b = ins.a
                    v = env[c[1]] if c[0] == "l" else c[1]
                    if v is UNDEF:
                        v = ctx.undefined(1, "branch on undef")
                    if type(v) is not int and self.merge:
                        mb = self._merge_at(f, blocks, cur, v, a, b, env, mod, ctx)
                        if mb is not None:
                            merged = mb; nxt = mb[0]
                            break
                    nxt = a if ctx.branch(v) else b
                    break
                if op == "ret":
                    t, v = ins.a
                    for o in allocas:
                        o.alive = False
                    if v is None:
                        return None
                    return env[v[1]] if v[0] == "l" else self.constval(v[1], t, mod)
                if op == "switch":
                    t, v, d, cases = ins.a
                    x = env[v[1]] if v[0] == "l" else v[1]
                    nxt = d
                    if type(x) is int:
                        for c, l in cases:
                            if c == x:
                                nxt = l; break
                    else:
                        for c, l in cases:
                            if ctx.branch(tm.eq(t.n, x, c)):
                                nxt = l; break
                    break
                if op == "call":
                    r = self._call(ins, env, mod)
                    if ins.res is not None:
                        env[ins.res] = r
                    continue
                if op == "alloca":
                    t, cnt = ins.a
                    k = 1 if cnt is None else (env[cnt[1]] if cnt[0] == "l" else cnt[1])
                    if type(k) is not int:
                        k = ctx.choose(k, 64)
                    o = Obj("%s:%s" % (f.name, ins.res), t.size * k)
                    allocas.append(o)
                    env[ins.res] = Ptr(o, 0)
                    continue
                if op == "unreachable":
                    raise Violation("unreachable", f.name)
                if op == "asm":
                    h = self.hooks.get("asm")
                    if h is None:
                        raise Unsupported("inline asm in " + f.name)
                    env[ins.res] = h(self, ins, env)
                    continue
                raise Unsupported("instruction " + op)
            prev = cur; cur = nxt

    # ---- if-conversion of small single-exit regions
    merge = True
    def _region(self, f, blocks, cur, a, b):
        k = (f.name, id(f), cur)
        r = self._regions.get(k, 0)
        if r != 0:
            return r
        r = None
        # candidates in breadth-first order
        order = []; todo = [a, b]; seen = set()
        while todo and len(order) < 14:
            x = todo.pop(0)
            if x in seen: continue
            seen.add(x); order.append(x)
            t = blocks[x][-1]
            if t.op == "br": todo.append(t.a[0])
            elif t.op == "condbr": todo += [t.a[1], t.a[2]]
        for m in order:
            reg = self._try_region(blocks, cur, (a, b), m)
            if reg:
                r = m
                break
        self._regions[k] = r
        return r

    def _try_region(self, blocks, cur, starts, m):
        state = {}; size = [0]
        def visit(x):
            if x == m: return True
            if x == cur: return False
            st = state.get(x)
            if st == 1: return False
            if st == 2: return True
            if len(state) > 10: return False
            state[x] = 1
            for ins in blocks[x]:
                op = ins.op
                size[0] += 1
                if op in ("ret", "switch", "unreachable", "alloca", "asm"): return False
                if op == "call":
                    c = ins.a[1]
                    if c[0] != "c" or not c[1][1][1:].strip('"').startswith("llvm."): return False
                    nm = c[1][1][1:].strip('"')
                    if "mem" in nm or "trap" in nm: return False
            if size[0] > 160: return False
            t = blocks[x][-1]
            for y in (t.a[:1] if t.op == "br" else t.a[1:3]):
                if not visit(y): return False
            state[x] = 2
            return True
        for x in starts:
            if not visit(x): return None
        return state or None

    def _merge_at(self, f, blocks, cur, v, a, b, env, mod, ctx):
        if self.split: return None
        if ctx.known(v) is not None or a == b:
            return None
        m = self._region(f, blocks, cur, a, b)
        if m is None:
            return None
        if self._merging == 0:
            # a decided branch is simply followed
            if ctx._feasible(v) == "unsat" or ctx._feasible(tm.bnot(1, v)) == "unsat":
                return None
        global JOURNAL
        save_nb = ctx.nobranch; save_j = JOURNAL
        JOURNAL = []; ctx.nobranch = True
        self._merging += 1
        try:
            phis = self._run_region(blocks, cur, v, a, b, m, env, mod, ctx)
        except (MergeFail, Violation):
            phis = None
        finally:
            self._merging -= 1
            ctx.nobranch = save_nb
            j = JOURNAL; JOURNAL = save_j
        if phis is None:
            for obj, off, old in reversed(j):
                obj.cells[off:off + len(old)] = old
            if save_nb: raise MergeFail()
            return None
        if save_j is not None: save_j.extend(j)
        return m, phis

    def _run_region(self, blocks, cur, v, a, b, m, env, mod, ctx):
        """both arms from the current memory, memory and phis merged; returns phi values of m"""
        base = len(JOURNAL)
        pa = self._run_arm(blocks, a, cur, m, env, mod, ctx)
        wa = JOURNAL[base:]
        # memory after arm a
        ra = {}
        for obj, off, old in wa: ra[(id(obj), off, len(old))] = obj
        va = {k: load_bits(o, k[1], k[2]) for k, o in ra.items() if not _allnone(o, k[1], k[2])}
        na = [k for k in ra if k not in va]
        for obj, off, old in reversed(wa):
            obj.cells[off:off + len(old)] = old
        pb = self._run_arm(blocks, b, cur, m, env, mod, ctx)
        wb = JOURNAL[base + len(wa):]
        rb = dict(ra)
        for obj, off, old in wb: rb[(id(obj), off, len(old))] = obj
        vb = {}
        for k, o in rb.items():
            vb[k] = None if _allnone(o, k[1], k[2]) else load_bits(o, k[1], k[2])
        # values of arm a on ranges only b wrote: restore b's writes, read, redo
        after_b = [(o, k[1], o.cells[k[1]:k[1] + k[2]]) for k, o in rb.items()]
        for obj, off, old in reversed(wb):
            obj.cells[off:off + len(old)] = old
        # now memory is the original; replay a's values on top
        orig = [(o, k[1], o.cells[k[1]:k[1] + k[2]]) for k, o in rb.items()]
        for k in na:
            for i in range(k[2]): ra[k].cells[k[1] + i] = None
        for k, x in va.items(): _raw_store(ra[k], k[1], k[2], x)
        out = {}
        for k, o in rb.items():
            xa = None if _allnone(o, k[1], k[2]) else load_bits(o, k[1], k[2])
            xb = vb[k]
            if xa is xb or (type(xa) is int and type(xb) is int and xa == xb): out[k] = xa
            elif type(xa) in (int, tm.T) and type(xb) in (int, tm.T): out[k] = tm.ite(v, xa, xb, 8 * k[2])
            elif xa == xb and xa is not None: out[k] = xa
            else: raise MergeFail()
        for k, x in out.items():
            o = rb[k]
            if x is None:
                for i in range(k[2]): o.cells[k[1] + i] = None
            else: _raw_store(o, k[1], k[2], x)
        phis = []
        for (r, t, x), (_, _, y) in zip(pa, pb):
            phis.append((r, t, self._mergeval(v, x, y, t)))
        return [(r, x) for r, t, x in phis] if self._merging_top(m) else phis

    def _merging_top(self, m): return self._depth_arm == 0

    def _mergeval(self, v, x, y, t):
        if x is y: return x
        if type(x) is int and type(y) is int and x == y: return x
        if x is UNDEF: return y
        if y is UNDEF: return x
        if t.k in ("i", "f") and type(x) in (int, tm.T) and type(y) in (int, tm.T):
            return tm.ite(v, x, y, t.n)
        if t.k == "v" and isinstance(x, list) and isinstance(y, list):
            return [self._mergeval(v, p, q, t.el) for p, q in zip(x, y)]
        if type(x) is Ptr and type(y) is Ptr and x.obj is y.obj:
            return Ptr(x.obj, tm.ite(v, x.off, y.off, 64))
        raise MergeFail()

    def _run_arm(self, blocks, cur, prev, m, env, mod, ctx):
        self._depth_arm += 1
        try:
            return self._run_arm1(blocks, cur, prev, m, env, mod, ctx)
        finally:
            self._depth_arm -= 1

    def _run_arm1(self, blocks, cur, prev, m, env, mod, ctx):
        D = DISPATCH
        merged = None
        while True:
            blk = blocks[cur]
            i = 0; n = len(blk)
            if merged is not None:
                for r, t, v in merged: env[r] = v
                if cur == m:
                    return merged
                while i < n and blk[i].op == "phi": i += 1
                merged = None
            elif n and blk[0].op == "phi" or cur == m:
                vals = []
                while i < n and blk[i].op == "phi":
                    ins = blk[i]
                    for v, l in ins.a[1]:
                        if l == prev:
                            vals.append((ins.res, ins.a[0], env[v[1]] if v[0] == "l" else self.constval(v[1], ins.a[0], mod)))
                            break
                    else:
                        raise MergeFail()
                    i += 1
                if cur == m: return vals
                for r, t, v in vals: env[r] = v
            self.steps += n
            nxt = None
            while i < n:
                ins = blk[i]; i += 1
                op = ins.op
                h = D.get(op)
                if h is not None:
                    env[ins.res] = h(self, ins, env, mod)
                    continue
                if op == "store":
                    t, v, p = ins.a
                    val = env[v[1]] if v[0] == "l" else self.constval(v[1], t, mod)
                    ptr = env[p[1]] if p[0] == "l" else self.constval(p[1], None, mod)
                    if t.k == "V" and type(ptr) is Ptr and ptr.obj.addr is not None: _aligned(ptr, ins.al)
                    self.store(t, ptr, val)
                    continue
                if op == "br":
                    nxt = ins.a[0]; break
                if op == "condbr":
                    c, a, b = ins.a
                    v = env[c[1]] if c[0] == "l" else c[1]
                    if v is UNDEF: raise MergeFail()
                    if type(v) is not int:
                        kv = ctx.known(v)
                        if kv is not None: v = kv
                    if type(v) is int:
                        nxt = a if v else b
                        break
                    # both sides up to the region's exit
                    return self._run_region(blocks, cur, v, a, b, m, env, mod, ctx)
                if op == "call":
                    r = self._call(ins, env, mod)
                    if ins.res is not None: env[ins.res] = r
                    continue
                raise MergeFail()
            prev = cur; cur = nxt

    def val(self, o, t, env, mod):
        return env[o[1]] if o[0] == "l" else self.constval(o[1], t, mod)

    def _call(self, ins, env, mod):
        t, callee, args = ins.a
        cmod = mod
        if callee[0] == "c":
            name = callee[1][1][1:]
            if name[0] == '"':
                name = name[1:-1]
        else:
            fp = env[callee[1]]
            if not isinstance(fp, FnPtr):
                if callable(fp):
                    return fp(self, [self.val(o, at, env, mod) for at, o in args if o is not None])
                raise Violation("call through bad pointer", repr(fp))
            name = fp.name
            if fp.mod is not None:
                cmod = fp.mod
        if name.startswith("llvm."):
            return self._intrin(name, t, args, env, mod, ins)
        vals = [self.val(o, at, env, mod) for at, o in args if o is not None]
        if self.trace_calls is not None and name in self.trace_calls:
            self.trace_calls[name](self, vals)
        return self.call(name, vals, cmod)

    def _intrin(self, name, t, args, env, mod, ins):
        if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.prefetch")):
            if name.startswith("llvm.lifetime.start"):
                pass
            return None
        vs = [self.val(o, at, env, mod) for at, o in args if o is not None]
        if name.startswith("llvm.assume"):
            return None
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            return _memcpy(self, vs[0], vs[1], vs[2])
        if name.startswith("llvm.memset"):
            return _memset(self, vs[0], vs[1], vs[2])
        base = name[5:].split(".")[0]
        if t.k == "V" and base in _INTR:
            f = _INTR[base]; w = t.el.n
            n = t.n
            return [f(w, *[(v[i] if type(v) is list else v) for v in vs]) for i in range(n)]
        if base in _INTR:
            return _INTR[base](t.n, *vs)
        if name.startswith("llvm.x86.aesni.") :
            return _aes(name[len("llvm.x86.aesni."):], vs)
        if name.startswith("llvm.x86.ssse3.pshuf.b"):
            a, m = vs
            out = []
            for x in m:
                if type(x) is not int:
                    raise Unsupported("pshufb symbolic mask")
                out.append(0 if x & 0x80 else a[x & 15])
            return out
        if name.startswith("llvm.expect"):
            return vs[0]
        if name.startswith(("llvm.uadd.with.overflow", "llvm.usub.with.overflow", "llvm.umul.with.overflow",
                            "llvm.sadd.with.overflow", "llvm.ssub.with.overflow", "llvm.smul.with.overflow")):
            op = name[5:9]; w = t.el[0].n
            a, b = vs
            signed = op[0] == "s"
            f = {"add": tm.add, "sub": tm.sub, "mul": tm.mul}[op[1:]]
            e = tm.sext if signed else tm.zext
            W = 2 * w + 2
            wide = f(W, e(a, w, W), e(b, w, W))
            r = f(w, a, b)
            o = tm.ne(W, wide, e(r, w, W))
            if self.split and type(o) is not int and not Ctx.cur.nobranch: o = int(Ctx.cur.branch(o))
            return [r, o]
        if name.startswith(("llvm.ubsantrap", "llvm.trap")):
            raise Violation("undefined behaviour", "sanitizer trap %s" % (vs[0] if vs else ""))
        if name.startswith("llvm.fmuladd") or name.startswith("llvm.fma"):
            return tm.fbin("fadd", t.n, tm.fbin("fmul", t.n, vs[0], vs[1]), vs[2])
        if name == "llvm.x86.sse2.pause": return 0
        if name.startswith("llvm.x86.rdrand."):
            h = self.hooks.get(name)
            if h: return h(self, vs)
        if name.startswith("llvm.sqrt"):
            return tm.uf("sqrt%d" % t.n, t.n, vs[0])
        raise Unsupported("intrinsic " + name)

    def _gep(self, bt, base, idx):
        if base is UNDEF:
            raise Unsupported("gep on undef")
        ty = bt
        off = 0
        first = True
        for it, v in idx:
            if type(v) is tuple:
                v = v if type(v) is int else self.constval(v, it, None)
            if first:
                es = ty.size; first = False
                nt = ty
            elif ty.k == "s":
                off = tm.add(64, off, ty.offs[v])
                ty = ty.el[v]
                continue
            else:
                nt = ty.el
                es = nt.size if ty.k == "a" else (nt.n // 8 if nt.n else 8)
            if type(v) is int:
                off = tm.add(64, off, (tm.sx(v, it.n) * es) & M64)
            else:
                off = tm.add(64, off, tm.mul(64, tm.sext(v, it.n, 64), es))
            ty = nt
        if type(base) is int:
            if base == 0 and off == 0:
                return 0
            return Ptr(Obj("null", 0), tm.add(64, off, base)) if type(off) is int else Ptr(Obj("null", 0), off)
        if isinstance(base, Ptr):
            return Ptr(base.obj, tm.add(64, base.off, off))
        if isinstance(base, FnPtr) and off == 0:
            return base
        raise Unsupported("gep on %r" % (base,))

    addr_residue = 16
    def addr_of(self, obj):
        """concrete address of an object (16-byte aligned; residue mod 64 selectable)"""
        if obj.addr is None:
            self.next_addr = -(-getattr(self, "next_addr", 0x7f0000000000) // 4096) * 4096 + self.addr_residue
            obj.addr = self.next_addr
            self.next_addr += obj.size + 4096
            if not hasattr(self, "addrs"): self.addrs = []
            self.addrs.append(obj)
        return obj.addr

    def _ptrtoint(self, v, w):
        if type(v) is int:
            return v & tm.mask(w)
        if type(v) is tm.T:
            return tm.ext(v, 0, w) if w < v.w else v
        if isinstance(v, Ptr):
            a = tm.add(64, self.addr_of(v.obj), v.off)
            return tm.ext(a, 0, w) if w < 64 else a
        raise Unsupported("ptrtoint %r" % (v,))

    def _inttoptr(self, v):
        if type(v) is int:
            for o in getattr(self, "addrs", ()):
                if o.addr <= v <= o.addr + o.size + 256:
                    return Ptr(o, v - o.addr)
            return v
        if isinstance(v, Ptr) or isinstance(v, FnPtr): return v
        for o in getattr(self, "addrs", ()):
            d = tm.sub(64, v, o.addr)
            lo, hi = tm.rng(d)
            if hi <= o.size + 256: return Ptr(o, d)
        return v

    def _cast(self, op, st, v, dt):
        if v is UNDEF:
            return [UNDEF] * dt.n if dt.k == "V" else UNDEF
        if op == "bitcast":
            return self._bitcast(st, v, dt)
        if st.k == "V":
            return [self._cast(op, st.el, x, dt.el) for x in v]
        if op == "zext": return tm.zext(v, st.n, dt.n)
        if op == "sext": return tm.sext(v, st.n, dt.n)
        if op == "trunc": return tm.ext(v, 0, dt.n)
        if op == "ptrtoint": return self._ptrtoint(v, dt.n)
        if op == "inttoptr": return self._inttoptr(v)
        if op == "uitofp": return tm.uitofp(dt.n, v, st.n)
        if op == "sitofp": return tm.sitofp(dt.n, v, st.n)
        if op == "fptoui": return tm.fptoui(dt.n, v, st.n)
        if op == "fptosi": return tm.fptoui(dt.n, v, st.n, True)
        if op in ("fpext", "fptrunc"): return tm.fpconv(st.n, dt.n, v)
        raise Unsupported("cast " + op)

    def _bitcast(self, st, v, dt):
        if st.k == "V":
            if any(x is UNDEF for x in v):
                ctx = Ctx.cur
                v = [ctx.undefined(st.el.n, "vector lane") if x is UNDEF else x for x in v]
            if dt.k == "V" and dt.n == st.n:
                return v
            whole = tm.cat([(x, st.el.n) for x in v])
        else:
            whole = v
        if dt.k == "V":
            w = dt.el.n
            return [tm.ext(whole, i * w, w) for i in range(dt.n)]
        return whole

    def _bin(self, op, w, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        return _BIN[op](w, a, b)

def _padd(p, n):
    if n == 0:
        return p
    if type(p) is int:
        return p + n
    if type(p.off) is int:
        return Ptr(p.obj, p.off + n)
    return Ptr(p.obj, tm.add(64, p.off, n))

def _smax(w, a, b): return tm.ite(tm.slt(w, a, b), b, a, w)
def _smin(w, a, b): return tm.ite(tm.slt(w, a, b), a, b, w)
def _umax(w, a, b): return tm.ite(tm.ult(w, a, b), b, a, w)
def _umin(w, a, b): return tm.ite(tm.ult(w, a, b), a, b, w)
def _abs(w, a, p=0): return tm.ite(tm.slt(w, a, 0), tm.neg(w, a), a, w)
def _bswap(w, a): return tm.cat([(tm.ext(a, w - 8 - i, 8), 8) for i in range(0, w, 8)])
def _usubsat(w, a, b): return tm.ite(tm.ult(w, a, b), 0, tm.sub(w, a, b), w)
def _ctpop(w, a): return tm.ctpop(w, a)
def _ctlz(w, a, p=0):
    r = w
    for i in range(w):
        r = tm.ite(tm.ext(a, i, 1), w - 1 - i, r, w)
    return r
def _cttz(w, a, p=0):
    r = w
    for i in reversed(range(w)):
        r = tm.ite(tm.ext(a, i, 1), i, r, w)
    return r
def _bitrev(w, a): return tm.cat([(tm.ext(a, w - 1 - i, 1), 1) for i in range(w)])
def _uaddsat(w, a, b):
    s = tm.add(w, a, b)
    return tm.ite(tm.ult(w, s, a), tm.mask(w), s, w)

_INTR = {"fshl": tm.fshl, "fshr": tm.fshr, "smax": _smax, "smin": _smin, "umax": _umax, "umin": _umin, "abs": _abs,
         "bswap": _bswap, "ctpop": _ctpop, "ctlz": _ctlz, "cttz": _cttz, "bitreverse": _bitrev, "usub": _usubsat,
         "uadd": _uaddsat}

_BIN = {"add": tm.add, "sub": tm.sub, "mul": tm.mul, "udiv": tm.udiv, "urem": tm.urem, "sdiv": tm.sdiv, "srem": tm.srem,
        "and": tm.band, "or": tm.bor, "xor": tm.bxor, "shl": tm.shl, "lshr": tm.lshr, "ashr": tm.ashr}

def _divcheck(op, w, b, ctx):
    if op in ("udiv", "urem", "sdiv", "srem"):
        if type(b) is int:
            if b == 0:
                raise Violation("undefined behaviour", "division by zero")
        else:
            z = tm.eq(w, b, 0)
            if z != 0 and ctx.branch(z):
                raise Violation("undefined behaviour", "division by zero")

def x_bin(self, ins, env, mod):
    t, a, b = ins.a
    a = env[a[1]] if a[0] == "l" else self.constval(a[1], t, mod)
    b = env[b[1]] if b[0] == "l" else self.constval(b[1], t, mod)
    if t.k == "V":
        f = _BIN[ins.op]; w = t.el.n
        return [UNDEF if (x is UNDEF or y is UNDEF) else f(w, x, y) for x, y in zip(a, b)]
    if a is UNDEF or b is UNDEF:
        return UNDEF
    op = ins.op
    w = t.n
    if type(a) is int and type(b) is int:
        m = (1 << w) - 1
        if op == "add": return (a + b) & m
        if op == "xor": return a ^ b
        if op == "mul": return (a * b) & m
    if op in ("udiv", "urem", "sdiv", "srem"):
        _divcheck(op, w, b, Ctx.cur)
    elif op in ("shl", "lshr", "ashr"):
        if type(b) is int:
            if b >= w:
                return UNDEF          # poison; the sanitised build reports it where the source really shifts
    return _BIN[op](w, a, b)

def x_fbin(self, ins, env, mod):
    t, a, b = ins.a
    a = self.val(a, t, env, mod); b = self.val(b, t, env, mod)
    if t.k == "V":
        return [tm.fbin(ins.op, t.el.n, x, y) for x, y in zip(a, b)]
    return tm.fbin(ins.op, t.n, a, b)

def x_fneg(self, ins, env, mod):
    t, a = ins.a
    a = self.val(a, t, env, mod)
    return tm.bxor(t.n, a, 1 << (t.n - 1))

_IC = {"eq": tm.eq, "ne": tm.ne, "ult": tm.ult, "ule": tm.ule, "slt": tm.slt, "sle": tm.sle,
       "ugt": lambda w, a, b: tm.ult(w, b, a), "uge": lambda w, a, b: tm.ule(w, b, a),
       "sgt": lambda w, a, b: tm.slt(w, b, a), "sge": lambda w, a, b: tm.sle(w, b, a)}

def x_icmp(self, ins, env, mod):
    pred, t, a, b = ins.a
    a = env[a[1]] if a[0] == "l" else self.constval(a[1], t, mod)
    b = env[b[1]] if b[0] == "l" else self.constval(b[1], t, mod)
    if a is UNDEF or b is UNDEF:
        return Ctx.cur.undefined(1, "comparison with undef")
    if t.k == "V":
        return [_IC[pred](t.el.n, x, y) for x, y in zip(a, b)]
    if t.k == "p":
        return _pcmp(self, pred, a, b)
    r = _IC[pred](t.n, a, b)
    if self.split and type(r) is not int and not Ctx.cur.nobranch:
        return int(Ctx.cur.branch(r))
    return r

def _pcmp(self, pred, a, b):
    if type(a) is int and type(b) is int:
        return _IC[pred](64, a, b)
    if isinstance(a, FnPtr) or isinstance(b, FnPtr):
        same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
        return int(same) if pred == "eq" else int(not same)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
        return _IC[pred](64, a.off, b.off)
    if pred in ("eq", "ne") and (isinstance(a, Ptr) or isinstance(b, Ptr)):
        # distinct objects / null: in-bounds pointers differ
        pa = a if isinstance(a, Ptr) else b
        other = b if pa is a else a
        if type(other) is int and other == 0:
            return int(pred == "ne")
        if isinstance(other, Ptr):
            return int(pred == "ne")
    return _IC[pred](64, self._ptrtoint(a, 64), self._ptrtoint(b, 64))

def x_fcmp(self, ins, env, mod):
    pred, t, a, b = ins.a
    a = self.val(a, t, env, mod); b = self.val(b, t, env, mod)
    if pred == "true": return 1
    if pred == "false": return 0
    return tm.fcmp(pred, t.n, a, b)

def x_cast(self, ins, env, mod):
    st, a, dt = ins.a
    return self._cast(ins.op, st, env[a[1]] if a[0] == "l" else self.constval(a[1], st, mod), dt)

def x_load(self, ins, env, mod):
    t, a = ins.a
    p = env[a[1]] if a[0] == "l" else self.constval(a[1], None, mod)
    if t.k == "i" and type(p) is Ptr and type(p.off) is int and p.off < (1 << 63) and t.n & 7 == 0:
        v = load_bits(p.obj, p.off, t.n >> 3)
        if type(v) is Ptr:
            return self._ptrtoint(v, t.n)
        return v
    if t.k == "V" and type(p) is Ptr and p.obj.addr is not None: _aligned(p, ins.al)
    return self.load(t, p)

def _aligned(p, al):
    if al >= 16 and type(p.obj.addr) is int and type(p.off) is int and (p.obj.addr + p.off) % al: raise Violation("misaligned access", "%s+%d needs alignment %d" % (p.obj.name, p.off, al))

def x_gep(self, ins, env, mod):
    bt, base, idx = ins.a
    b = env[base[1]] if base[0] == "l" else self.constval(base[1], None, mod)
    return self._gep(bt, b, [(it, env[v[1]] if v[0] == "l" else v[1]) for it, v in idx])

def x_select(self, ins, env, mod):
    ct, c, t, a, b = ins.a
    c = self.val(c, ct, env, mod)
    a = self.val(a, t, env, mod); b = self.val(b, t, env, mod)
    if type(c) is list:
        return [tm.ite(x, y, z, t.el.n) for x, y, z in zip(c, a, b)]
    if type(c) is int:
        return a if c else b
    if c is UNDEF:
        c = Ctx.cur.undefined(1, "select on undef")
    if t.k == "p":
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
            return Ptr(a.obj, tm.ite(c, a.off, b.off, 64))
        return a if Ctx.cur.branch(c) else b
    if t.k == "V":
        return [tm.ite(c, y, z, t.el.n) for y, z in zip(a, b)]
    if a is UNDEF: return b
    if b is UNDEF: return a
    return tm.ite(c, a, b, t.n)

def x_extractvalue(self, ins, env, mod):
    t, a, idx = ins.a
    v = self.val(a, t, env, mod)
    for i in idx:
        v = v[i]
    return v

def x_insertvalue(self, ins, env, mod):
    t, a, vt, v, idx = ins.a
    agg = self.val(a, t, env, mod); v = self.val(v, vt, env, mod)
    if agg is UNDEF:
        agg = self.constval(("undef",), t, mod)
    agg = list(agg)
    if len(idx) == 1:
        agg[idx[0]] = v
    else:
        cur = agg
        for i in idx[:-1]:
            cur[i] = list(cur[i]); cur = cur[i]
        cur[idx[-1]] = v
    return agg

def x_extractelement(self, ins, env, mod):
    t, a, it, i = ins.a
    v = self.val(a, t, env, mod); i = self.val(i, it, env, mod)
    if type(i) is not int:
        return tm.sel(t.el.n, i, it.n, v)
    return v[i]

def x_insertelement(self, ins, env, mod):
    t, a, v, it, i = ins.a
    vec = list(self.val(a, t, env, mod)); v = self.val(v, t.el, env, mod); i = self.val(i, it, env, mod)
    vec[i] = v
    return vec

def x_shuffle(self, ins, env, mod):
    t, a, b, mt, m = ins.a
    a = self.val(a, t, env, mod); b = self.val(b, t, env, mod)
    mask = self.constval(m, mt, mod)
    both = list(a) + list(b)
    return [UNDEF if x is UNDEF else both[x] for x in mask]

def x_freeze(self, ins, env, mod):
    t, a = ins.a
    v = self.val(a, t, env, mod)
    if v is UNDEF:
        return Ctx.cur.undefined(t.n, "freeze")
    return v

DISPATCH = {"icmp": x_icmp, "fcmp": x_fcmp, "load": x_load, "getelementptr": x_gep, "select": x_select,
            "extractvalue": x_extractvalue, "insertvalue": x_insertvalue, "extractelement": x_extractelement,
            "insertelement": x_insertelement, "shufflevector": x_shuffle, "freeze": x_freeze, "fneg": x_fneg}
for _o in _BIN: DISPATCH[_o] = x_bin
for _o in ("fadd", "fsub", "fmul", "fdiv"): DISPATCH[_o] = x_fbin
for _o in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc"):
    DISPATCH[_o] = x_cast

# ---------------------------------------------------------------- libc models
def _conc(p):
    if isinstance(p, Ptr) and type(p.off) is not int:
        p = Ptr(p.obj, Ctx.cur.choose(p.off, 64, 4096))
    return p

def _memcpy(m, d, s, n, *a):
    if type(n) is not int:
        n = Ctx.cur.choose(n, 64, 300)
    if n == 0:
        return d
    d = _conc(d); s = _conc(s)
    for p, k in ((s, "read"), (d, "write")):
        if not isinstance(p, Ptr):
            raise Violation("null pointer " + k, "memcpy")
        off = p.off
        if off < 0 or off + n > p.obj.size:
            raise Violation("out-of-bounds " + k, "memcpy of %d bytes at offset %d of %s (size %d)" % (n, off, p.obj.name, p.obj.size))
        if not p.obj.alive:
            raise Violation("use after free", p.obj.name)
    d.obj.cells[d.off:d.off + n] = s.obj.cells[s.off:s.off + n]
    return d

def _memset(m, d, v, n, *a):
    if type(n) is not int:
        n = Ctx.cur.choose(n, 64, 300)
    if n == 0:
        return d
    d = _conc(d)
    if not isinstance(d, Ptr):
        raise Violation("null pointer write", "memset")
    if d.off < 0 or d.off + n > d.obj.size:
        raise Violation("out-of-bounds write", "memset of %d bytes at %d of %s" % (n, d.off, d.obj.name))
    v = tm.ext(v, 0, 8) if type(v) is not int else v & 255
    for i in range(n):
        d.obj.cells[d.off + i] = v if type(v) is int else (v, 0)
    return d

def _malloc(m, a):
    n = a[0]
    if type(n) is not int:
        n = Ctx.cur.choose(n, 64)
    p = m.alloc(n, "malloc#%d" % len(m.allocs), heap=True)
    m.allocs.append(p.obj)
    return p

def _calloc(m, a):
    n, s = a
    if type(n) is not int: n = Ctx.cur.choose(n, 64)
    if type(s) is not int: s = Ctx.cur.choose(s, 64)
    p = m.alloc(n * s, "calloc#%d" % len(m.allocs), 0, heap=True)
    m.allocs.append(p.obj)
    return p

def _free(m, a):
    p = a[0]
    if type(p) is int and p == 0:
        return None
    if not isinstance(p, Ptr) or p.off != 0 or not p.obj.heap:
        raise Violation("bad free", repr(p))
    if not p.obj.alive:
        raise Violation("double free", p.obj.name)
    p.obj.alive = False
    return None

def _realloc(m, a):
    p, n = a
    if type(p) is int and p == 0:
        return _malloc(m, [n])
    if type(n) is not int: n = Ctx.cur.choose(n, 64)
    if not isinstance(p, Ptr) or p.off != 0 or not p.obj.heap:
        raise Violation("bad realloc", repr(p))
    if not p.obj.alive:
        raise Violation("use after free", p.obj.name)
    q = m.alloc(n, "realloc#%d" % len(m.allocs), heap=True)
    m.allocs.append(q.obj)
    k = min(n, p.obj.size)
    q.obj.cells[:k] = p.obj.cells[:k]
    p.obj.alive = False
    return q

def _assert_fail(m, a):
    raise Violation("assertion failure", "assert() in the code")

def _getbyte(p, i):
    v = load_value(_padd(p, i), 1, Ctx.cur)
    return v

def _ctype_b(m, a):
    """__ctype_b_loc: table of unsigned short flags for -128..255"""
    o = Obj("ctype_b", 384 * 2, 0)
    for c in range(128):
        f = 0; ch = chr(c)
        if ch.isupper(): f |= 256
        if ch.islower(): f |= 512
        if ch.isalpha(): f |= 1024
        if ch.isdigit(): f |= 2048
        if ch in "0123456789abcdefABCDEF": f |= 4096
        if ch.isspace(): f |= 8192
        if 32 <= c < 127: f |= 16384
        store_bits(o, (c + 128) * 2, 2, f)
    p = m.alloc(8, "ctype_b_loc")
    store_bits(p.obj, 0, 8, Ptr(o, 256))
    return p

def _ctype_l(m, a):
    o = Obj("ctype_l", 384 * 4, 0)
    for c in range(-128, 256):
        v = c + 32 if 65 <= c <= 90 else c
        store_bits(o, (c + 128) * 4, 4, v & 0xffffffff)
    p = m.alloc(8, "ctype_l_loc")
    store_bits(p.obj, 0, 8, Ptr(o, 512))
    return p

def _case(c, lo, hi, d):
    if type(c) is not int: raise Unsupported("case of a symbolic character")
    return (c + d) & 0xffffffff if lo <= c <= hi else c

def _sqrt(m, a):
    v = a[0]
    if type(v) is int:
        f = tm.b2f(v)
        return tm.f2b(math.sqrt(f) if f >= 0 else math.nan)
    return tm.uf("sqrt64", 64, v)

def _asm(m, ins, env):
    s = ins.a[0]
    if "cpuid" in s:
        if "sym_features" in m.__dict__ and m.sym_features: raise Unsupported("symbolic cpu features")
        ecx = (1 << 25) | (1 << 19) | (1 << 9) | (1 << 30) | 1
        return [0x16, 0, getattr(m, "cpu_ecx", ecx), 1 << 26]
    h = m.hooks.get("asm_other")
    if h: return h(m, ins, env)
    raise Unsupported("inline asm")

HOOKS = {"asm": _asm, "sqrt": _sqrt, "malloc": _malloc, "calloc": _calloc, "free": _free, "memcpy": lambda m, a: _memcpy(m, *a),
         "memset": lambda m, a: _memset(m, *a), "__assert_fail": _assert_fail, "__ctype_b_loc": _ctype_b,
         "__ctype_tolower_loc": _ctype_l, "abort": _assert_fail,
         "PyMem_Malloc": _malloc, "PyMem_RawMalloc": _malloc, "PyMem_Free": _free, "PyMem_RawFree": _free,
         "PyMem_Calloc": _calloc, "PyMem_RawCalloc": _calloc, "PyMem_Realloc": lambda m, a: _realloc(m, a), "PyMem_RawRealloc": lambda m, a: _realloc(m, a),
         "realloc": lambda m, a: _realloc(m, a),
         "tolower": lambda m, a: _case(a[0], 65, 90, 32), "toupper": lambda m, a: _case(a[0], 97, 122, -32),
         "printf": lambda m, a: 0, "puts": lambda m, a: 0, "fprintf": lambda m, a: 0}

# ---------------------------------------------------------------- AES-NI semantics
def _mk_sbox():
    p = q = 1
    s = [0] * 256
    while True:
        p = p ^ ((p << 1) & 255) ^ (0x1b if p & 0x80 else 0)
        q ^= (q << 1) & 255; q ^= (q << 2) & 255; q ^= (q << 4) & 255
        if q & 0x80: q ^= 9
        r = lambda x, k: ((x << k) | (x >> (8 - k))) & 255
        s[p] = (q ^ r(q, 1) ^ r(q, 2) ^ r(q, 3) ^ r(q, 4)) ^ 0x63
        if p == 1: break
    s[0] = 0x63
    return tuple(s)
SBOX = _mk_sbox()
def _xt(x): return ((x << 1) & 255) ^ (0x1b if x & 0x80 else 0)
SB2 = tuple(_xt(v) for v in SBOX)
SB3 = tuple(_xt(v) ^ v for v in SBOX)

def aes_bytes(v):
    """<2 x i64> -> 16 bytes"""
    return [tm.ext(v[i // 8], 8 * (i % 8), 8) for i in range(16)]

def aes_join(b):
    return [tm.cat([(x, 8) for x in b[:8]]), tm.cat([(x, 8) for x in b[8:]])]

def _aes(op, vs):
    if op in ("aesenc", "aesenclast"):
        s = aes_bytes(vs[0])
        # ShiftRows
        sr = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if op == "aesenclast":
            out = [tm.tbl(8, x, SBOX) for x in sr]
        else:
            out = []
            for c in range(4):
                a = sr[4 * c:4 * c + 4]
                S = [tm.tbl(8, x, SBOX) for x in a]
                D = [tm.tbl(8, x, SB2) for x in a]
                Tr = [tm.tbl(8, x, SB3) for x in a]
                x3 = lambda p, q, r, t: tm.bxor(8, tm.bxor(8, p, q), tm.bxor(8, r, t))
                out += [x3(D[0], Tr[1], S[2], S[3]), x3(S[0], D[1], Tr[2], S[3]),
                        x3(S[0], S[1], D[2], Tr[3]), x3(Tr[0], S[1], S[2], D[3])]
        r = aes_join(out)
        return [tm.bxor(64, x, y) for x, y in zip(r, vs[1])]
    if op == "aeskeygenassist":
        v, rc = vs
        b = aes_bytes(v)
        sub = [tm.tbl(8, x, SBOX) for x in b]
        x1 = sub[4:8]; x3 = sub[12:16]
        rot = lambda x: x[1:] + x[:1]
        r1 = rot(x1); r3 = rot(x3)
        r1 = [tm.bxor(8, r1[0], rc & 255)] + r1[1:]
        r3 = [tm.bxor(8, r3[0], rc & 255)] + r3[1:]
        return aes_join(x1 + r1 + x3 + r3)
    raise Unsupported("aes " + op)
