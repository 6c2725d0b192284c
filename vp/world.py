"""The symbolic world: the package's own Cython and C code, executed over symbolic values."""
import os, sys, types, builtins, collections, copy, itertools, operator, math, abc, re
import numpy
from . import terms as tm, cyrt, fakenp
from .cytypes import *
from .cyrt import *
from .cyrt import L, CInt, CFloat, SymInt, SymBool, SymFloat, CPtr, CStruct, CFn
from .fakenp import NDArray, View, NPInt, cyrt_int, cyrt_float, cyrt_bool, DType, SymComplex, NPFloat
from .llsym import Machine, Ptr, Obj, FnPtr, Violation, load_value, store_value, store_bits
from .irparse import Ty
from .ctx import Ctx, Unsupported, PathEnd, Limit

# ------------------------------------------------------------------ layouts
def natural_layout(t):
    off = 0; al = 1; lay = {}; size = 0
    for f, ft in t.fields.items():
        prepare(ft)
        a = align(ft)
        al = max(al, a)
        if t.union:
            lay[f] = 0; size = max(size, ft.size)
        else:
            off = -(-off // a) * a
            lay[f] = off; off += ft.size
    if not t.union: size = off
    t.layout = lay; t.size = -(-size // al) * al if size else 0; t.al = al

def align(t):
    if t.k == "arr": return align(t.el)
    if t.k == "struct": prepare(t); return getattr(t, "al", 8)
    return min(t.size or 1, 16)

def prepare(t):
    if t.k == "struct" and t.layout is None: natural_layout(t)
    elif t.k == "arr": prepare(t.el)
    elif t.k == "ptr" and t.to.k == "struct" and t.to.layout is None and t.to.fields: prepare(t.to)

def apply_consts(build, mod):
    """struct layouts of an extension from the C compiler"""
    e = build.exts.get(mod)
    if e is None: return
    for n, (t, h) in build.project.scope(mod).typedefs.items():
        if "ts_" + n in e.consts: t.extsize = e.consts["ts_" + n]
    for t in build.project.scope(mod).structs:
        c = e.consts
        if "sz_" + t.name not in c or t.header.startswith("numpy/"): continue
        t.size = c["sz_" + t.name]; t.layout = {}; t.fsz = {}; t.esz = {}; t.sg = {}
        for f in t.fields:
            if "of_%s__%s" % (t.name, f) in c:
                t.layout[f] = c["of_%s__%s" % (t.name, f)]
                t.fsz[f] = c["fs_%s__%s" % (t.name, f)]; t.esz[f] = c["es_%s__%s" % (t.name, f)]
                t.sg[f] = c.get("sg_%s__%s" % (t.name, f))

class CB:
    """a Cython function used as a C function pointer"""
    def __init__(self, ty, fn, world):
        self.ty = ty; self.fn = fn; self.world = world; self.addr = None
    def __call__(self, machine, args):
        w = self.world
        a = [w.from_raw(t, v) for t, v in zip(self.ty.args, args)]
        r = self.fn(*a)
        return w.to_raw(self.ty.ret, r)
    def __repr__(self): return "&%s()" % self.fn.__name__

class Lock:
    """threading lock: records what happens while it is (not) held"""
    n = 0
    def __init__(self): self.held = 0; self.name = "lock"; self.acquired = 0; self.reentrant = False
    def acquire(self, *a):
        if self.held and not self.reentrant: raise Violation("deadlock", "lock acquired while held by the same thread")
        self.held += 1; self.acquired += 1; return True
    def release(self):
        if not self.held: raise RuntimeError("release unlocked lock")
        self.held -= 1
    def __enter__(self): self.acquire(); return True
    def __exit__(self, *a): self.release()
    def locked(self): return self.held > 0

class FakeWarnings:
    def __init__(self): self.log = []
    def warn(self, msg, cat=None, stacklevel=1): self.log.append((cat, str(msg)))
    def simplefilter(self, *a, **k): pass

class SSBase(metaclass=abc.ABCMeta):
    @abc.abstractmethod
    def generate_state(self, n_words, dtype=None): pass
class SpawnBase(SSBase):
    @abc.abstractmethod
    def spawn(self, n): pass

class _CAttr:
    def __init__(self, name, ty): self.name = name; self.ty = ty
    def mem(self, inst):
        d = inst.__dict__; k = "__c_" + self.name
        p = d.get(k)
        if p is None:
            prepare(self.ty)
            p = d[k] = Ptr(Obj("%s.%s" % (type(inst).__name__, self.name), self.ty.size, 0), 0)
        return p
    def __get__(self, inst, owner):
        if inst is None: return self
        if self.ty.k in ("obj", "view"): return inst.__dict__.get("__o_" + self.name)
        return cyrt.WORLD.ld(self.ty, self.mem(inst))
    def __set__(self, inst, v):
        w = cyrt.WORLD
        if self.ty.k in ("obj", "view"):
            inst.__dict__["__o_" + self.name] = w.co(self.ty, v); return
        w.st(self.ty, self.mem(inst), v)

def fbits_(v, w): return cbits(v, w) if type(v) is not int else v & ((1 << w) - 1)

def mkfloat_(b): return tm.b2f(b) if type(b) is int else SymFloat(b)

class Box:
    """a C local variable whose address may be taken"""
    def __init__(self, ty, name):
        self.ty = ty; self.v = None; self.p = None; self.name = name
        if ty.k in ("struct", "arr"):
            prepare(ty)
            self.p = Ptr(Obj("local " + name, ty.size), 0)
    def get(self):
        if self.p is not None: return cyrt.WORLD.ld(self.ty, self.p)
        if self.v is None:
            c = Ctx.cur
            if self.ty.k == "int": return CInt(self.ty, c.undefined(self.ty.w, "local " + self.name))
            if self.ty.k == "float": return CFloat(self.ty, c.undefined(self.ty.w, "local " + self.name))
            raise UnboundLocalError("local variable %r referenced before assignment" % self.name)
        return self.v
    def set(self, v):
        v = cyrt.WORLD.co(self.ty, v) if self.ty.k not in ("struct", "arr") else v
        if self.p is not None: cyrt.WORLD.st(self.ty, self.p, v)
        else: self.v = v
    def ptr(self):
        if self.p is None:
            prepare(self.ty)
            self.p = Ptr(Obj("local " + self.name, self.ty.size), 0)
            if self.v is not None: cyrt.WORLD.st(self.ty, self.p, self.v)
        return CPtr(self.ty if self.ty.k != "arr" else self.ty.el, self.p, cyrt.WORLD)

class _CBase: pass

class _strmeta(type):
    def __instancecheck__(cls, o): return isinstance(o, str)
class cyrt_str(metaclass=_strmeta):
    def __new__(cls, x="", *a):
        x = py(x)
        if isinstance(x, type) and getattr(x, "_np", None) is not None: return "<class 'numpy.%s'>" % x.__name__
        return str(x, *a)
    join = str.join
def _type(x, *a):
    if a: return type(x, *a)
    if isinstance(x, SymInt): return cyrt_int
    if isinstance(x, SymFloat): return cyrt_float
    return type(x)

def t_irsize(ty):
    return ty

PYBUILTINS = dict(int=cyrt_int, float=cyrt_float, bool=cyrt_bool)

class World:
    symbolic = True
    def __init__(self, build, mods, hooks=None):
        cyrt.WORLD = self
        self.build = build; self.extnames = list(mods)
        ms = []
        for m in self.extnames:
            e = build.ir(m)
            apply_consts(build, m)
            ms += e.mods
        self.m = Machine(ms, hooks)
        self.ns = {}            # module name -> namespace
        self.pymods = {}
        self.cbs = {}
        self.fnaddr = {}
        self.ext_cache = {}
        self.warnings = FakeWarnings()
        self.locks = []
        self.lock_log = None
        self.obligs = []
        self.ssids = {}
        self.extra_fn = {}
        self.np = fakenp._MOD
        self.gc = []
        self._mk_numpy_random()

    # ---------------------------------------------------------- raw <-> C values
    def from_raw(self, t, v):
        k = t.k
        if k == "int": return CInt(t, v)
        if k == "float": return CFloat(t, v)
        if k == "ptr": return self.mkptr(t, v)
        if k == "void": return None
        raise Unsupported("value of type %r from C" % (t,))
    def to_raw(self, t, v):
        k = t.k
        if k == "void": return None
        v = self.co(t, v)
        if k in ("int", "float"): return v.v
        if k == "ptr": return self.rawptr(v)
        raise Unsupported("value of type %r to C" % (t,))
    def mkptr(self, t, v):
        if t.to.k == "func":
            if type(v) is int and v == 0: return CPtr(t.to, 0, self)
            return CFn(t.to, v, self)
        return CPtr(t.to, v, self)
    def rawptr(self, v):
        if isinstance(v, CPtr): return v.p
        if isinstance(v, CFn): return v.fn
        if v is None: return 0
        raise Unsupported("pointer expected, got %r" % (v,))

    def ld(self, t, p):
        k = t.k
        if k == "int":
            v = load_value(p, t.size, Ctx.cur)
            if type(v) is not int and type(v) is not tm.T: v = self.ptr2int(v)
            return CInt(t, v)
        if k == "float":
            return CFloat(t, load_value(p, t.w // 8, Ctx.cur))
        if k == "ptr":
            v = load_value(p, 8, Ctx.cur)
            return self.mkptr(t, v)
        if k == "struct": prepare(t); return CStruct(t, p, self)
        if k == "arr": prepare(t); return CPtr(t.el, p, self)
        if k == "complex": return SymComplex(load_value(p, 8, Ctx.cur), load_value(p.add(8), 8, Ctx.cur))
        raise Unsupported("load of %r" % (t,))
    def st(self, t, p, v):
        k = t.k
        if k == "int": store_value(p, t.size, self.co(t, v).v, Ctx.cur)
        elif k == "float": store_value(p, t.w // 8, self.co(t, v).v, Ctx.cur)
        elif k == "ptr": store_value(p, 8, self.rawptr(self.co(t, v)), Ctx.cur)
        elif k == "struct":
            if not isinstance(v, CStruct): raise Unsupported("struct assignment from %r" % (v,))
            if type(v.p.off) is not int or type(p.off) is not int: raise Unsupported("symbolic struct copy")
            n = t.size
            if p.off + n > p.obj.size or v.p.off + n > v.p.obj.size: raise Violation("out-of-bounds write", "struct copy")
            p.obj.cells[p.off:p.off + n] = v.p.obj.cells[v.p.off:v.p.off + n]
        elif k == "complex":
            v = SymComplex.of(v)
            store_value(p, 8, v.re, Ctx.cur); store_value(p.add(8), 8, v.im, Ctx.cur)
        else: raise Unsupported("store of %r" % (t,))

    def _fld(self, t, p, name):
        prepare(t)
        if isinstance(p, int): raise Violation("null pointer", "field %s of NULL" % name)
        if name not in t.fields: raise AttributeError(name)
        if name not in t.layout: raise Unsupported("no layout for %s.%s" % (t.name, name))
        return t.fields[name], p.add(t.layout[name])
    def _actual(self, t, ft, name):
        """C type of the field when it differs from the declared one"""
        fsz = getattr(t, "fsz", None)
        if fsz and ft.k == "int":
            sg = t.sg.get(name)
            if sg == 2: raise Unsupported("field %s is floating in C" % name)
            if fsz[name] != ft.size or (sg is not None and bool(sg) != ft.signed):
                return TInt(8 * fsz[name], bool(sg))
        return ft
    def field(self, t, p, name):
        ft, q = self._fld(t, p, name)
        if ft.k == "int":
            at = self._actual(t, ft, name)
            v = self.ld(at, q)
            return v if at is ft else cast_int(ft, v)
        if ft.k == "arr":
            esz = getattr(t, "esz", {}).get(name)
            if esz is not None and ft.el.k == "int" and esz != ft.el.size:
                return CPtr(TInt(8 * esz, t.sg.get(name) == 1), q, self)
            prepare(ft)
        return self.ld(ft, q)
    def setfield(self, t, p, name, v):
        ft, q = self._fld(t, p, name)
        if ft.k == "int":
            at = self._actual(t, ft, name)
            v = self.co(ft, v)
            if at is not ft: v = cast_int(at, v)
            self.st(at, q, v); return
        if ft.k == "arr": raise Unsupported("array assignment")
        self.st(ft, q, v)

    # ---------------------------------------------------------- conversions
    def co(self, t, v):
        k = t.k
        if k == "obj":
            v = py(v)
            if isinstance(v, View): v = v.a
            c = t.cls
            if c is None or v is None: return v
            if isinstance(v, (CPtr, CFn, CStruct)): raise Unsupported("C pointer to Python object")
            bad = False
            if c == "ndarray": bad = not isinstance(v, NDArray)
            elif c == "dict": bad = not isinstance(v, dict)
            elif c == "list": bad = not isinstance(v, list)
            elif c == "tuple": bad = not isinstance(v, tuple)
            elif c == "str": bad = not isinstance(v, str)
            elif c == "dtype": bad = not isinstance(v, DType) and not isinstance(v, numpy.dtype)
            if bad: raise TypeError("Cannot convert %s to %s" % (type(v).__name__, c))
            return v
        if k == "int": return v if type(v) is CInt and v.ty is t else to_cint(t, v)
        if k == "float": return v if type(v) is CFloat and v.ty is t else to_float(t, v)
        if k == "ptr":
            if isinstance(v, CPtr):
                if t.to.k == "func" and v.p == 0: return v
                return v if v.to is t.to else self.mkptr(t, v.p) if t.to.k != "void" else CPtr(VOID, v.p, self)
            if isinstance(v, CFn): return v if t.to.k == "func" else CPtr(t.to, v.fn, self)
            if v is None: raise TypeError("Cannot convert None to pointer")
            if isinstance(v, str) and t.to.k == "int" and t.to.size == 1: return v       # a C string literal, only passed around
            if getattr(v, "_ctype", None) is not None: return CFn(v._ctype, self.cb(v), self)
            if isinstance(v, CStruct): raise Unsupported("struct to pointer")
            raise TypeError("Cannot convert %s to a C pointer" % type(v).__name__)
        if k == "struct":
            if isinstance(v, CStruct): return v
            raise TypeError("struct expected")
        if k == "complex": return SymComplex.of(py(v))
        if k == "view":
            if v is None: return None
            if isinstance(v, View): return v
            if not isinstance(v, NDArray): raise TypeError("a bytes-like object is required, not %r" % type(v).__name__)
            if v.ndim != t.ndim: raise ValueError("Buffer has wrong number of dimensions (expected %d, got %d)" % (t.ndim, v.ndim))
            want = t.el
            ok = (want.k == "int" and v.dt.kind == ("i" if want.signed else "u") and v.itemsize == want.size) or \
                 (want.k == "float" and v.dt.kind == "f" and v.itemsize == want.size) or (want.k == "complex" and v.dt.kind == "c")
            if not ok: raise ValueError("Buffer dtype mismatch, expected %r but got %s" % (want, v.dt))
            return View(t, v)
        if k == "void": return None
        if k == "func":
            return v
        if k == "arr":
            if isinstance(v, CPtr): return CPtr(t.el, v.p, self)
            raise TypeError("array expected")
        raise Unsupported("conversion to %r" % (t,))

    def cast(self, t, v):
        k = t.k
        if k == "int":
            if isinstance(v, (CPtr, CFn)):
                return cast_int(t, CInt(ULONG, self.ptr2int(self.rawptr(v))))
            if type(v) in (CInt, CFloat, L): return cast_int(t, v)
            return to_cint(t, v)
        if k == "float": return to_float(t, v)
        if k == "ptr":
            if isinstance(v, (CInt, L)):
                return self.mkptr(t, self.int2ptr(v.bits(64) if type(v) is CInt else int(v)))
            if isinstance(v, CPtr): return self.mkptr(t, v.p)
            if isinstance(v, CFn): return self.mkptr(t, v.fn)
            if isinstance(v, View): return self.mkptr(t, Ptr(v.a.obj, int(v.a.off.ravel()[0])))
            if v is None: return CPtr(t.to, 0, self)
            if t.to.k == "obj" or (t.to.k == "void"): return CPtr(t.to, Ptr(_objbox(v), 0), self)
            i = aspyint(v)
            if i is not None: return self.mkptr(t, self.int2ptr(cbits(i, 64)))
            return self.co(t, v)
        if k == "obj":
            if isinstance(v, CPtr) and isinstance(v.p, Ptr) and hasattr(v.p.obj, "pyobj"): return v.p.obj.pyobj
            # an unchecked cast; a NumPy scalar (a float here) is as good as a 0-d array for Python-level operations
            if t.cls == "ndarray" and isinstance(py(v), (float, SymFloat)): return fakenp.array(py(v))
            return self.co(t, v) if t.cls in ("ndarray", "dict") else py(v)
        if k == "struct": return v
        return self.co(t, v)

    def ptr2int(self, p):
        if isinstance(p, (FnPtr, CB)):
            key = (p.name, id(p.mod)) if isinstance(p, FnPtr) else id(p)
            o = self.fnaddr.get(key)
            if o is None:
                o = self.fnaddr[key] = FnObj(p)
            p = Ptr(o, 0)
        return self.m._ptrtoint(p, 64)
    def int2ptr(self, v):
        r = self.m._inttoptr(v)
        if isinstance(r, Ptr) and isinstance(r.obj, FnObj): return r.obj.fn
        return r

    # ---------------------------------------------------------- C functions
    def cb(self, f):
        f = getattr(f, "__func__", f)
        k = id(f)
        c = self.cbs.get(k)
        if c is None: c = self.cbs[k] = CB(f._ctype, f, self)
        return c

    def irmod(self, ext, name):
        for m in self.build.ir(ext).mods:
            if name in m.globals: return m
        return None

    def ext(self, mod, name):
        """extern function or variable of a module"""
        key = (mod, name)
        r = self.ext_cache.get(key)
        t, h = self.build.project.scope(mod).externs[name]
        if t.k == "func":
            if r is None:
                m = self.irmod(mod, "vp_fn_" + name)
                if m is not None:
                    f = self.m.constval(m.globals["vp_fn_" + name][1], None, m)
                    f = FnPtr(f.name, m)
                else:
                    f = FnPtr(name, self.build.ir(mod).mods[0] if self.build.ir(mod).mods else None)
                r = self.ext_cache[key] = CFn(t, f, self)
            return r
        return self.ld(t, self.extvar(mod, name))
    def extvar(self, mod, name):
        m = self.irmod(mod, "vp_va_" + name)
        if m is None: raise Unsupported("C variable " + name)
        return self.m.constval(m.globals["vp_va_" + name][1], None, m)
    def setext(self, mod, name, v):
        t, h = self.build.project.scope(mod).externs[name]
        self.st(t, self.extvar(mod, name), v)
    def enum(self, mod, name):
        h = self.build.project.scope(mod).enums.get(name)
        c = self.build.ir(mod).consts.get("en_" + name)
        if c is None:
            raise Unsupported("enum constant " + name)
        return L(c)

    def call_fn(self, cfn, args):
        t = cfn.ty; f = cfn.fn
        if isinstance(f, CB):
            return f.fn(*args)
        if not isinstance(f, FnPtr):
            if callable(f): return self.from_raw(t.ret, f(self.m, [self.to_raw(at, a) for at, a in zip(t.args, args)]))
            if type(f) is int and f == 0: raise Violation("null pointer", "call of a NULL function pointer")
            raise Violation("call through bad pointer", repr(f))
        fn = self.m.find(f.name, f.mod)
        raws = []
        for at, a in zip(t.args, args):
            if at.k == "struct": raise Unsupported("struct argument of " + f.name)
            a = self.co(at, a)
            if at.k == "int": raws.append((a.v, at))
            elif at.k == "float": raws.append((a.v, at))
            elif at.k in ("ptr", "arr"): raws.append((self.rawptr(a), at))
            elif at.k == "obj": raws.append((a, at))
            else: raise Unsupported("argument type %r" % (at,))
        if len(args) != len(t.args): raise Unsupported("variadic call of " + f.name)
        vals = []
        if fn is not None:
            if len(fn.params) != len(raws): raise Unsupported("parameters of " + f.name)
            for (pt, _), (v, at) in zip(fn.params, raws):
                if at.k == "int" and pt.k == "i" and pt.n != at.w:
                    v = tm.ext(v, 0, pt.n) if pt.n < at.w else (tm.sext(v, at.w, pt.n) if at.signed else tm.zext(v, at.w, pt.n))
                elif at.k == "float" and pt.k == "f" and pt.n != at.w:
                    v = tm.fpconv(at.w, pt.n, v)
                elif at.k == "int" and pt.k == "p": v = self.int2ptr(v)
                vals.append(v)
            r = self.m.run(fn, vals) if f.name not in self.m.fn_override else self.m.fn_override[f.name](self.m, vals)
            rt = fn.ret
        else:
            r = self.m.call(f.name, [v for v, _ in raws], f.mod)
            rt = None
        ret = t.ret
        if ret.k == "void": return None
        if ret.k == "int":
            if type(r) not in (int, tm.T): r = self.ptr2int(r)
            if rt is not None and rt.k == "i" and rt.n != ret.w:
                if rt.n > ret.w: r = tm.ext(r, 0, ret.w)
                else: r = tm.sext(r, rt.n, ret.w) if ret.signed else tm.zext(r, rt.n, ret.w)
            return CInt(ret, r)
        if ret.k == "float":
            if rt is not None and rt.k == "f" and rt.n != ret.w: r = tm.fpconv(rt.n, ret.w, r)
            return CFloat(ret, r)
        if ret.k == "ptr": return self.mkptr(ret, r)
        raise Unsupported("return type of " + f.name)

    # ---------------------------------------------------------- modules
    def module(self, mod):
        ns = self.ns.get(mod)
        if ns is not None: return ns
        b = self.build
        if b.is_pxd(mod):
            if mod not in self.extnames:
                b.ir(mod); self.extnames.append(mod); apply_consts(b, mod)
                self.m.mods = self.m.mods + b.exts[mod].mods; self.m._scopes = {}
            ns = self.ns[mod] = {}
            return ns
        if not b.is_cython(mod): return self.pymodule(mod)
        if mod not in b.exts: b.ir(mod)
        if mod not in self.extnames:
            self.extnames.append(mod); apply_consts(b, mod)
            self.m.mods = self.m.mods + b.exts[mod].mods; self.m._scopes = {}
        code, tys, scope = b.module_code(mod)
        ns = self.ns[mod] = {}
        # modules whose declarations are cimported need layouts as well
        for m, _ in scope.cimports.values():
            if m.startswith("randomgen."):
                mm = m.split(".")[1]
                if mm != mod and (b.is_cython(mm) or b.is_pxd(mm)) and mm not in self.extnames:
                    b.ir(mm); self.extnames.append(mm); apply_consts(b, mm)
                    self.m.mods = self.m.mods + b.exts[mm].mods; self.m._scopes = {}
        ns.update(self.runtime(mod, tys))
        for n, (m, orig) in scope.cimports.items():
            if m.startswith("randomgen."):
                ns[n] = self.cimp(m, orig)
            elif orig is not None and ((m, orig) in self.CLIB or m.startswith("numpy.random")):
                ns[n] = self.cimp(m, orig)
            elif m == "numpy" and orig is None: ns.setdefault(n, self.np)
        exec(code, ns)
        return ns

    def pymodule(self, mod):
        ns = self.ns.get(mod)
        if ns is not None: return ns
        path = os.path.join(self.build.pkg, mod + ".py")
        if not os.path.exists(path): raise ImportError("No module named 'randomgen.%s'" % mod)
        ns = self.ns[mod] = {"__name__": "randomgen." + mod}
        bi = dict(vars(builtins))
        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if name == "__future__" or name == "typing" or name.startswith("collections"):
                return builtins.__import__(name, globals, locals, fromlist, level)
            o = types.SimpleNamespace()
            for f in fromlist or ():
                setattr(o, f, self.imp(name, f))
            if not fromlist: return self.imp(name, None)
            return o
        bi["__import__"] = imp; bi["isinstance"] = isinst
        bi.update(PYBUILTINS)
        ns["__builtins__"] = bi
        exec(compile(open(path).read(), path, "exec"), ns)
        return ns

    def imp(self, mod, name=None, level=0, is_as=False):
        if level: mod = "randomgen." + mod if mod else "randomgen"
        if mod == "randomgen":
            if name is None: return NS(self, None)
            return NS(self, name) if self.build.is_cython(name) else NS(self, name)
        if mod.startswith("randomgen."):
            ns = self.module(mod.split(".")[1])
            if name is None: return NS(self, mod.split(".")[1])
            if name not in ns: raise ImportError("cannot import name %r from %r" % (name, mod))
            return ns[name]
        if mod == "warnings": return self.warnings if name is None else getattr(self.warnings, name)
        if mod in ("sys", "collections", "copy", "abc", "operator", "math", "itertools", "re", "collections.abc", "types"):
            m = __import__(mod)
            return m if name is None else getattr(m, name)
        if mod == "threading":
            m = types.SimpleNamespace(Lock=self.newlock, RLock=self.newrlock)
            return m if name is None else getattr(m, name)
        if mod == "ctypes":
            m = self.ctypes_module()
            return m if name is None else getattr(m, name)
        if mod == "cffi":
            m = self.cffi_module()
            return m if name is None else getattr(m, name)
        if mod == "secrets": m = types.SimpleNamespace(randbits=self.randbits); return getattr(m, name)
        if mod.startswith("numpy"):
            m = self.np
            for p in mod.split(".")[1:]: m = getattr(m, p)
            if name is None: return self.np if not is_as else m
            if not hasattr(m, name): raise ImportError("cannot import %s from %s" % (name, mod))
            return getattr(m, name)
        raise ImportError("No module named %r" % mod)

    drawnbits = ()
    def randbits(self, n):
        n = ix_(n)
        v = uint(Ctx.cur.var("randbits", n), n); self.drawnbits = self.drawnbits + ((n, v),)
        return v

    def cimp(self, mod, name=None):
        if mod == "randomgen" and name == "api":
            return types.SimpleNamespace(NPY_ARRAY_ALIGNED=0x100, NPY_ARRAY_FORCECAST=0x10, NPY_ARRAY_C_CONTIGUOUS=1)
        if mod.startswith("randomgen."):
            m = mod.split(".")[1]
            if name is None: return NS(self, m)
            sc = self.build.project.scope(m)
            if name in sc.externs:
                self.module(m)
                return self.ext(m, name)
            ns = self.module(m)
            if name in ns: return ns[name]
            if name in sc.types: return sc.types[name]
            if name in sc.enums: return self.enum(m, name)
            if name in sc.cimports: return self.cimp(*sc.cimports[name])
            raise Unsupported("cimport %s from %s" % (name, mod))
        if mod == "numpy": return self.np if name is None else getattr(self.np, name)
        if mod == "numpy.random.bit_generator": return self.np.random.bit_generator.BitGenerator if name == "BitGenerator" else None
        if mod == "numpy.random" and name == "bitgen_t": return BITGEN
        f = self.CLIB.get((mod, name))
        if f is not None: return f.__get__(self)
        if name is None: return types.SimpleNamespace()
        if name in BASIC or mod.startswith("cpython") and name == "PyObject": return None
        raise Unsupported("cimport %s.%s" % (mod, name))

    def c_sqrt(self, x):
        v = to_float(DOUBLE, x).v
        if type(v) is int: 
            f = tm.b2f(v)
            return CFloat(DOUBLE, tm.f2b(math.sqrt(f) if f >= 0 else math.nan))
        return CFloat(DOUBLE, tm.uf("sqrt64", 64, v))
    def pycapsule_valid(self, cap, name):
        return bool(getattr(cap, "_capname", None) == "BitGenerator")
    def pycapsule_ptr(self, cap, name):
        if getattr(cap, "_capname", None) is None: raise ValueError("PyCapsule_GetPointer called with invalid PyCapsule object")
        return CPtr(VOID, cap.p, self)
    def c_cplx(self, a, b): return SymComplex(fbits(a), fbits(b))
    def c_re(self, v): return CFloat(DOUBLE, SymComplex.of(v).re)
    def c_im(self, v): return CFloat(DOUBLE, SymComplex.of(v).im)
    def std_normal(self, bg): return CFloat(DOUBLE, self.draw_normal())
    normals = 0
    def drawvar(self, name):
        """one variable per draw, shared with the reference"""
        d = self.__dict__.setdefault("_drawvars", {})
        if name not in d: d[name] = Ctx.cur.var(name, 64)
        return d[name]
    def draw_normal(self):
        v = self.drawvar("normal%d" % self.normals); self.normals += 1
        if self.lock_log is not None: self.lock_log("normal")
        return v
    chis = 0
    @property
    def chidf(self): return self.__dict__.setdefault("_chidf", {})
    def draw_chisq(self, df):
        v = self.drawvar("chisq%d" % self.chis); self.chidf[self.chis] = df; self.chis += 1
        if self.lock_log is not None: self.lock_log("chisquare")
        return v
    def std_normal_fill(self, bg, n, out):
        n = ix_(n)
        for i in range(n): out.set(i, CFloat(DOUBLE, self.draw_normal()))
    # the interpreter's error indicator
    err = None
    def err_occurred(self): return CPtr(VOID, 0 if self.err is None else 8, self)
    def err_clear(self): self.err = None
    def err_set(self, exc, msg=None): self.err = (exc, msg)
    def py_print(self, *a):
        """any operation that lets the interpreter notice a pending error"""
        if self.err is not None:
            e = self.err; self.err = None
            raise e[0](str(py(e[1])) if isinstance(e[1], (str, bytes)) else "error set by native code")
    # the RDRAND instruction: execution i succeeds iff rdok(i), and then delivers rdval(i)
    rdn = 0; rdwin = ()
    def rdsetup(self, window):
        self.rdwin = set(window)
        def step(m, vs):
            i = self.rdn; self.rdn += 1
            ok = self.rdterm("ok", i, 1) if i in self.rdwin else 1
            v = self.rdterm("val", i, 64)
            return [(v if ok else 0), ok] if type(ok) is int else [tm.ite(ok, v, 0, 64), tm.zext(ok, 1, 32)]
        self.m.hooks["llvm.x86.rdrand.64"] = step
    # the package's aligned storage: every block the allocator hands out has a symbolic address residue and may be refused
    def alignsetup(self):
        self.alev = []; self.alblocks = {}
        def get(size, fill):
            i = len([e for e in self.alev if e[0] == "alloc"])
            if i >= 8: raise Unsupported("more than 8 blocks")
            if type(size) is not int: size = Ctx.cur.choose(size, 64)
            if Ctx.cur.branch(tm.var("al.fail:%d" % i, 1)):
                self.alev.append(("alloc", i, 0)); return 0
            r = Ctx.cur.choose(tm.var("al.res:%d" % i, 2), 2) * 16
            p = self.m.alloc(size, "block%d" % i, fill, heap=True)
            p.obj.addr = 0x600000000000 + i * 0x1000000 + r
            if not hasattr(self.m, "addrs"): self.m.addrs = []
            self.m.addrs.append(p.obj)
            self.alblocks[id(p.obj)] = (i, p.obj)
            self.alev.append(("alloc", i, 1))
            return p
        def c_free(m, vs):
            p = vs[0]
            if type(p) is int and p == 0: return None
            if not isinstance(p, Ptr) or p.off != 0 or id(p.obj) not in self.alblocks: raise Violation("bad free", repr(p))
            if not p.obj.alive: raise Violation("double free", p.obj.name)
            p.obj.alive = False
            self.alev.append(("free", self.alblocks[id(p.obj)][0], 1))
        def c_realloc(m, vs):
            p, n = vs
            if type(p) is int and p == 0: return get(n, None)
            q = get(n, None)
            if type(q) is int: return q
            k = min(q.obj.size, p.obj.size); q.obj.cells[:k] = p.obj.cells[:k]
            c_free(m, [p])
            return q
        h = self.m.hooks
        for pre in ("PyMem_", "PyMem_Raw", "PyObject_"):
            h[pre + "Malloc"] = lambda m, vs: get(vs[0], None)
            h[pre + "Calloc"] = lambda m, vs: get(vs[0] * vs[1], 0)
            h[pre + "Realloc"] = c_realloc
            h[pre + "Free"] = c_free
    def allog(self): return list(self.alev)
    def aligned(self):
        """the storage functions themselves: malloc, calloc, realloc, free over integers and addresses"""
        w = self
        def fn(n):
            f = w.ext("common", "PyArray_%s_aligned" % n).fn
            return lambda *a: w.m.run(w.m.find(f.name, f.mod), list(a))
        class A:
            malloc = staticmethod(fn("malloc")); calloc = staticmethod(fn("calloc")); realloc = staticmethod(fn("realloc")); free = staticmethod(fn("free"))
            @staticmethod
            def null(p): return type(p) is int and p == 0
            @staticmethod
            def addr(p): return uint(w.m._ptrtoint(p, 64), 64)
            @staticmethod
            def put(p, i, v): store_value(Ptr(p.obj, p.off + i), 1, fbits_(v, 8), Ctx.cur)
            @staticmethod
            def get(p, i): return uint(load_value(Ptr(p.obj, p.off + i), 1, Ctx.cur), 8)
        return A
    def lifetime(self, cls, kw, body):
        """construct, use, release; the exception raised or None"""
        o = cls.__new__(cls)
        exc = None
        try:
            o.__init__(**kw)
            body(o)
        except Exception as e: exc = e
        for c in cls.__mro__:
            d = c.__dict__.get("__dealloc__")
            if d is not None: d(o)
        return exc
    def stateaddr(self, bg, deref):
        p = load_value(type(bg)._bitgen.mem(bg), 8, Ctx.cur)
        if deref: p = load_value(p, 8, Ctx.cur)
        a = self.m._ptrtoint(p, 64)
        return uint(a, 64)
    def entsetup(self):
        self.entev = []; n = {}
        def nxt(k):
            i = n.get(k, 0); n[k] = i + 1
            if i >= 24: raise Unsupported("more than 24 %s calls" % k)
            return i
        def c_open(m, vs):
            v = Ctx.cur.choose(tm.var("ent.open:%d" % nxt("open"), 2), 2)
            fd = {0: -1, 1: 0}.get(v, 7 + n["open"])
            self.entev.append(("open", fd, 0))
            return fd & 0xffffffff
        def c_read(m, vs):
            cnt = vs[2]
            if type(cnt) is not int: raise Unsupported("read of a symbolic size")
            k = nxt("read"); t = tm.var("ent.read:%d" % k, 8)
            big = tm.ult(8, min(cnt, 254), t)
            v = cnt if Ctx.cur.branch(big) else Ctx.cur.choose(t, 8) - 1
            v = min(v, cnt)
            if not isinstance(vs[1], Ptr): raise Violation("bad pointer given to read", repr(vs[1]))
            if n.get("base") is None: n["base"] = vs[1]
            if n["base"].obj is not vs[1].obj: raise Unsupported("reads into different objects")
            for i in range(v): store_bits(vs[1].obj, vs[1].off + i, 1, tm.var("ent.byte:%d:%d" % (k, i), 8))
            self.entev.append(("read", cnt, v)); self.entev.append(("dest", vs[1].off - n["base"].off, 0))
            return v & ((1 << 64) - 1)
        def c_close(m, vs):
            bad = Ctx.cur.branch(tm.var("ent.close:%d" % nxt("close"), 1))
            fd = vs[0]
            self.entev.append(("close", fd - (1 << 32) if fd >> 31 else fd, int(not bad)))
            return 0xffffffff if bad else 0
        mal = self.m.hooks["malloc"]
        def c_malloc(m, vs):
            bad = Ctx.cur.branch(tm.var("ent.malloc:%d" % nxt("malloc"), 1))
            self.entev.append(("malloc", vs[0], int(not bad)))
            return 0 if bad else mal(m, vs)
        def c_gtod(m, vs):
            k = nxt("gtod"); p = vs[0]
            store_bits(p.obj, p.off, 8, tm.var("ent.sec:%d" % k, 64)); store_bits(p.obj, p.off + 8, 8, tm.var("ent.usec:%d" % k, 64))
            return 0
        self.m.hooks.update(open=c_open, read=c_read, close=c_close, malloc=c_malloc, gettimeofday=c_gtod,
                            getpid=lambda m, vs: tm.var("ent.pid:%d" % nxt("pid"), 32), clock=lambda m, vs: tm.var("ent.clock:%d" % nxt("clock"), 64))
    def entlog(self): return list(self.entev)
    def ent(self, k, w): return uint(tm.var("ent." + k, w), w)
    def rdterm(self, k, i, w): return tm.var("rd.%s:%d" % (k, i), w)
    def rdok(self, i): return True if i not in self.rdwin else SymBool(self.rdterm("ok", i, 1))
    def rdval(self, i): return uint(self.rdterm("val", i, 64), 64)
    CLIB = {("libc.math", "sqrt"): c_sqrt, ("cpython.pycapsule", "PyCapsule_IsValid"): pycapsule_valid,
            ("cpython.pycapsule", "PyCapsule_GetPointer"): pycapsule_ptr, ("cpython", "PyComplex_FromDoubles"): c_cplx,
            ("cpython", "PyComplex_RealAsDouble"): c_re, ("cpython", "PyComplex_ImagAsDouble"): c_im,
            ("numpy.random.c_distributions", "random_standard_normal"): std_normal,
            ("numpy.random.c_distributions", "random_standard_normal_fill"): std_normal_fill,
            ("cpython.exc", "PyErr_Occurred"): err_occurred, ("cpython.exc", "PyErr_Clear"): err_clear,
            ("cpython.exc", "PyErr_SetString"): err_set}

    # ---------------------------------------------------------- locks
    def newlock(self):
        l = Lock(); self.locks.append(l); return l
    def newrlock(self):
        l = self.newlock(); l.reentrant = True; return l

    # ---------------------------------------------------------- ctypes / cffi
    def ctypes_module(self):
        w = self
        class c_void_p:
            def __init__(self, v=None): self.value = None if v is None or type(v) is int and v == 0 else v
        class CFUNCTYPE:
            """a prototype; called with a Python function, it makes a native entry point for it"""
            def __init__(self, *a): self.sig = a
            def __call__(self, fn):
                if isinstance(fn, FuncPtr) or not callable(fn): raise TypeError("argument must be callable or integer function address")
                name = self.sig[0]
                ret = {"c_double": DOUBLE, "c_uint32": UINT, "c_uint64": ULONG}[name]
                def native(p):
                    a = w.ptr2int(w.rawptr(p))
                    r = fn(None if type(a) is int and a == 0 else uint(a, 64))
                    if name == "c_double": return CFloat(DOUBLE, r.v) if isinstance(r, DBits) else to_float(DOUBLE, r)
                    if not isinstance(r, (int, SymInt)): r = 0       # ctypes reports a failed conversion and returns 0
                    return CInt(ret, isx(r, ret.w))
                cb = CB(TFunc(ret, [TPtr(VOID)]), native, w)
                return FuncPtr(w.ptr2int(cb), self.sig)
        class FuncPtr:
            def __init__(self, addr, sig): self.addr = addr; self.sig = sig; self.value = addr; self.argtypes = tuple(sig[1:]); self.restype = sig[0]
            def __call__(self, *a):
                f = w.int2ptr(cbits(self.addr, 64))
                st = a[0].value if hasattr(a[0], "value") else a[0]
                st = CPtr(VOID, w.int2ptr(cbits(st, 64)) if st is not None else 0, w)
                ty = f.ty if isinstance(f, CB) else TFunc({"c_double": DOUBLE, "c_uint32": UINT}.get(self.sig[0], ULONG), [TPtr(VOID)])
                return w.call_fn(CFn(ty, f, w), [st]).py()
        def cast(v, ty):
            if isinstance(ty, CFUNCTYPE): return FuncPtr(v.value if hasattr(v, "value") else v, ty.sig)
            if ty is c_void_p: return c_void_p(v.addr if isinstance(v, FuncPtr) else v.value if hasattr(v, "value") else v)
            raise Unsupported("ctypes.cast")
        class _CFuncPtr: pass
        c_ulonglong = lambda v=0: types.SimpleNamespace(value=aspyint(v) & M64)
        return types.SimpleNamespace(c_void_p=c_void_p, CFUNCTYPE=CFUNCTYPE, cast=cast, c_uint64="c_uint64", c_uint32="c_uint32",
                                     c_double="c_double", c_ulonglong=c_ulonglong, _CFuncPtr=FuncPtr)
    def cffi_module(self):
        class FFI:
            def cast(self, t, v): return types.SimpleNamespace(ctype=t, addr=v)
        return types.SimpleNamespace(FFI=FFI)

    # ---------------------------------------------------------- numpy.random model
    def _mk_numpy_random(self):
        w = self
        if not hasattr(fakenp._MOD, "linalg"): fakenp._MOD.linalg = types.SimpleNamespace()
        def lapack(name):
            def f(a, *r, **k):
                """factorisations are computed by the real routine, for constant matrices only"""
                a = fakenp.asarray(a)
                vals = [fbits(v) for v in a.items()]
                if any(type(v) is not int for v in vals): raise Unsupported(name + " of a symbolic matrix")
                r = getattr(numpy.linalg, name)(numpy.array([tm.b2f(v) for v in vals]).reshape(a.shape), *r, **k)
                def back(x): return fakenp.array([float(y) for y in x.ravel()]).reshape(x.shape)
                return tuple(back(x) for x in r) if isinstance(r, tuple) else back(r)
            return f
        for n_ in ("svd", "eigh", "cholesky"): setattr(fakenp._MOD.linalg, n_, staticmethod(lapack(n_)) if isinstance(fakenp._MOD.linalg, type) else lapack(n_))
        class SeedSequence(SpawnBase):
            """numpy's SeedSequence: an uninterpreted deterministic word stream per entropy"""
            def __init__(self, entropy=None, *, spawn_key=(), pool_size=4, n_children_spawned=0):
                if isinstance(entropy, (str, bytes)) and not isinstance(entropy, Tag): raise TypeError("SeedSequence expects int or sequence of ints for entropy")
                if isinstance(entropy, (float, SymFloat)): raise TypeError("SeedSequence expects int or sequence of ints for entropy")
                if aspyint(entropy) is not None and aspyint(entropy) < 0: raise ValueError("expected non-negative integer")
                if entropy is None:
                    w.fresh_ss = getattr(w, "fresh_ss", 0) + 1
                    entropy = "os%d" % w.fresh_ss
                self.entropy = entropy; self.spawn_key = tuple(spawn_key); self.pool_size = pool_size
                self.n_children_spawned = n_children_spawned
                self.ident = "%s%s" % (_entname(entropy), "".join(":%s" % k for k in self.spawn_key))
            def __deepcopy__(self, memo):
                r = type(self)(self.entropy, spawn_key=self.spawn_key, pool_size=self.pool_size, n_children_spawned=self.n_children_spawned)
                return r
            @property
            def state(self):
                return {k: getattr(self, k) for k in ("entropy", "spawn_key", "pool_size", "n_children_spawned")}
            def generate_state(self, n_words, dtype=None):
                dt = DType(numpy.uint32 if dtype is None else dtype)
                n = ix_(n_words)
                if dt.np == numpy.uint32: k = n
                elif dt.np == numpy.uint64: k = 2 * n
                else: raise ValueError("only support uint32 or uint64")
                words = [concword(self.ident, i) if self.ident.startswith("T#") else tm.var("ss:%s:%d" % (self.ident, i), 32) for i in range(k)]
                w.ssids.setdefault(self.ident, 0); w.ssids[self.ident] = max(w.ssids[self.ident], k)
                a = fakenp.empty(n, dt)
                es = dt.itemsize
                for i in range(n):
                    v = words[i] if es == 4 else tm.cat([(words[2 * i], 32), (words[2 * i + 1], 32)])
                    store_value(Ptr(a.obj, i * es), es, v, Ctx.cur)
                return a
            def spawn(self, n):
                r = [type(self)(self.entropy, spawn_key=self.spawn_key + (self.n_children_spawned + i,), pool_size=self.pool_size) for i in range(ix_(n))]
                self.n_children_spawned += ix_(n)
                return r
        class BitGenerator:
            _bitgen = _CAttr("_bitgen", BITGEN)
            def __init__(self, seed=None):
                self.lock = w.newrlock()
                self._ctypes = None; self._cffi = None
                cap = types.SimpleNamespace(_capname="BitGenerator", p=type(self)._bitgen.mem(self))
                self.capsule = cap
                if type(self) is BitGenerator: raise NotImplementedError("BitGenerator is a base class and cannot be instantized")
                if not isinstance(seed, SSBase): seed = SeedSequence(seed)
                self._seed_seq = seed
            @property
            def seed_seq(self): return self._seed_seq
            @property
            def state(self): raise NotImplementedError("Not implemented in base BitGenerator")
            @state.setter
            def state(self, v): raise NotImplementedError("Not implemented in base BitGenerator")
            def __getstate__(self): return self.state, self._seed_seq
            def __setstate__(self, s):
                if isinstance(s, dict): self.state = s
                else:
                    self._seed_seq = s[1]; self.state = s[0]
            def __reduce__(self):
                return (w.bg_ctor, (type(self),), (self.state, self._seed_seq))
            def spawn(self, n_children):
                if not isinstance(self._seed_seq, SpawnBase): raise TypeError("The underlying SeedSequence does not implement spawning.")
                return [type(self)(seed=s) for s in self._seed_seq.spawn(n_children)]
        class Generator:
            def __init__(self, bg): self._bit_generator = bg; self.lock = bg.lock
            @property
            def bit_generator(self): return self._bit_generator
            def bytes(self, n): return _symbytes(w, n)
            def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
                return w.np_integers(low, high, size, dtype, endpoint)
            def permutation(self, x): return w.np_permutation(x)
            def standard_normal(self, size=None, dtype=None, out=None):
                if dtype is not None or out is not None: raise Unsupported("standard_normal")
                if size is None: return SymFloat(w.draw_normal())
                a = fakenp.empty(size, DType(numpy.float64))
                for o in a.off.ravel(): a.sto(o, CFloat(DOUBLE, w.draw_normal()))
                return a
        class Seedless(SpawnBase):
            def generate_state(self, n, dtype=None): raise NotImplementedError("seedless SeedSequences cannot generate state")
            def spawn(self, n): return [self] * n
        bgm = types.SimpleNamespace(BitGenerator=BitGenerator, ISeedSequence=SSBase, ISpawnableSeedSequence=SpawnBase, SeedlessSeedSequence=Seedless,
                                    SeedSequence=SeedSequence)
        self.NPBitGenerator = BitGenerator; self.SeedSequence = SeedSequence; self.ISeedSequence = SSBase
        self.np.random = types.SimpleNamespace(SeedSequence=SeedSequence, BitGenerator=BitGenerator, Generator=Generator, bit_generator=bgm, _bit_generator=bgm)
        self.intcalls = 0
    def bg_ctor(self, cls): return cls()
    def np_integers(self, low, high, size, dtype, endpoint):
        """numpy.random.Generator.integers: any value in the stated range"""
        if high is None: low, high = 0, low
        dt = DType(dtype if dtype is not None else numpy.int64)
        def one():
            self.intcalls += 1
            v = Ctx.cur.var("integers%d" % self.intcalls, dt.itemsize * 8)
            lo, hi = aspyint(low), aspyint(high)
            if not endpoint: hi = hi - 1
            x = CInt(dt.cls.ty, v).py()
            if bool(hi < lo): raise ValueError("low >= high")
            Ctx.cur.assume(tm.band(1, tobool(x >= lo), tobool(x <= hi)))
            return dt.cls.raw(v)
        if size is None: return one()
        a = fakenp.empty(size, dt)
        for o in a.off.ravel(): a.sto(o, one())
        return a
    def np_permutation(self, x): raise Unsupported("permutation")

    # ---------------------------------------------------------- runtime namespace
    def runtime(self, mod, tys):
        w = self
        for t in tys: prepare(t)
        def _cfunc(ty):
            def deco(f):
                f._ctype = ty; return f
            return deco
        def _c(f, *a, **k):
            t = type(f)
            if t is CFn:
                if k: raise Unsupported("keyword arguments to a C function")
                if mod and w.lock_log is not None: w.lock_log(f)
                return f(*a)
            ct = getattr(f, "_ctype", None)
            if ct is not None:
                ats = ct.args[len(ct.args) - len(a) if getattr(f, "__self__", None) is None and False else (1 if hasattr(f, "__self__") else 0):]
                a = [x if (i < len(ats) and ats[i].k != "obj") else py(x) for i, x in enumerate(a)]
                k = {n: py(x) for n, x in k.items()}
                return f(*a, **k)
            if t is types.MethodType and isinstance(f.__self__, World): return f(*a)
            if f is _min or f is _max or f is _abs: return f(*a, **k)
            return f(*[py(x) for x in a], **{n: py(x) for n, x in k.items()})
        def _getattr(o, n):
            t = type(o)
            if t is CPtr or t is CStruct:
                st = o.to if t is CPtr else o.ty
                if st.k != "struct": raise AttributeError(n)
                return w.field(st, o.p, n)
            if t is L or t is int: 
                if n in ("dtype", "shape"): raise AttributeError(n)
            return getattr(o, n)
        def _setattr(o, n, v):
            t = type(o)
            if t is CPtr or t is CStruct:
                st = o.to if t is CPtr else o.ty
                if st.k != "struct": raise AttributeError(n)
                w.setfield(st, o.p, n, v); return
            if isinstance(getattr(t, n, None), _CAttr): setattr(o, n, v); return
            setattr(o, n, py(v))
        def _getitem(o, i):
            t = type(o)
            if t is CPtr: return o.get(i if type(i) is not int else L(i)) if not isinstance(i, slice) else w.ptr_slice(o, i)
            if t is View: return o[i]
            if isinstance(o, (list, tuple, str, dict, range)):
                i = py(i)
                if isinstance(i, (SymInt, NPInt)) and not isinstance(o, dict): i = i.__index__()
                return o[i]
            if isinstance(i, tuple): i = tuple(py(x) for x in i)
            return o[py(i)]
        def _setitem(o, i, v):
            t = type(o)
            if t is CPtr: o.set(i, v); return
            if t is View: o[i] = v; return
            i = py(i)
            if isinstance(i, tuple): i = tuple(py(x) for x in i)
            if isinstance(o, list) and isinstance(i, (SymInt, NPInt)): i = i.__index__()
            o[i] = py(v)
        def _slice(a, b, c): return slice(py(a), py(b), py(c))
        ops = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "//": operator.ifloordiv, "%": operator.imod, "<<": operator.ilshift,
               ">>": operator.irshift, "&": operator.iand, "|": operator.ior, "^": operator.ixor, "/": operator.itruediv, "**": operator.ipow}
        def _iop(op, a, b):
            # Cython's in-place / on two C integers stays an integer division (unlike the binary /)
            if op == "/" and type(a) is CInt and isinstance(b, (CInt, L)): op = "//"
            return ops[op](a, b)
        def _crange(*a):
            if len(a) == 2:
                lo, hi = aspyint(py(a[0])), aspyint(py(a[1]))
                if isinstance(lo, SymInt):
                    n = hi - lo                          # a symbolic start with a definite length
                    try: n = n.__index__() if isconst(n) else None
                    except Unsupported: n = None
                    if n is not None: return [lo + i for i in builtins.range(max(0, n))]
            v = [ix_(x) for x in a]
            return range(*v)
        def _iter(o):
            if type(o) is CPtr: raise Unsupported("iteration over a pointer")
            return o
        loops = [0]
        def _loop(c):
            loops[0] += 1
            if loops[0] > 200000: raise Limit("loop bound")
            return bool(c)
        def _in(a, c):
            a = py(a)
            if isinstance(c, (list, tuple)) and not isinstance(a, str):
                for x in c:
                    if x is a: return True
                    r = x == a
                    if r is NotImplemented: continue
                    if bool(r): return True
                return False
            if isinstance(c, dict) and isinstance(a, (SymInt, NPInt)): a = a.__index__()
            return a in c
        class SymSet(list):
            """a set whose elements may be symbolic"""
            def __init__(self, it=()):
                list.__init__(self)
                for x in it: self.add(x)
            def add(self, x):
                x = py(x)
                if not _in(x, self): self.append(x)
            def discard(self, x):
                x = py(x)
                for i, y in enumerate(self):
                    if bool(y == x): del self[i]; return
            def update(self, it):
                for x in it: self.add(x)
        def _unpack(v, n):
            v = py(v)
            r = list(v)
            if len(r) != n: raise ValueError("too many values to unpack" if len(r) > n else "not enough values to unpack")
            return r
        def _addri(base, i):
            if type(base) is CPtr: return CPtr(base.to, base.at(i if type(i) is not int else L(i)), w)
            if type(base) is View: return CPtr(base.ty.el, base.ptr(i), w)
            raise Unsupported("address of an element of %r" % (base,))
        def _addra(o, f):
            if type(o) in (CPtr, CStruct):
                t = o.to if type(o) is CPtr else o.ty
                ft, q = w._fld(t, o.p, f)
                if ft.k == "arr": return CPtr(ft.el, q, w)
                return CPtr(ft, q, w)
            a = getattr(type(o), f, None)
            if isinstance(a, _CAttr): return CPtr(a.ty, a.mem(o), w)
            raise Unsupported("address of attribute " + f)
        def _addrn(x):
            if getattr(x, "_ctype", None) is not None: return CFn(x._ctype, w.cb(x), w)
            if isinstance(x, CFn): return x
            if isinstance(x, types.MethodType) and x.__self__ is w: return CFn(TFunc(VOID, []), CB(None, x, w), w)
            if isinstance(x, CStruct): return CPtr(x.ty, x.p, w)
            raise Unsupported("address of %r" % (x,))
        def _sizeof(t):
            prepare(t)
            xs = getattr(t, "extsize", None)
            return CInt(SIZE, t.size if xs is None else xs)
        def _min(*a, **k):
            if len(a) == 1: a = list(a[0])
            r = a[0]
            for x in a[1:]:
                if bool(x < r): r = x
            return py(r)
        def _max(*a, **k):
            if len(a) == 1: a = list(a[0])
            r = a[0]
            for x in a[1:]:
                if bool(x > r): r = x
            return py(r)
        def _sum(it, start=0):
            r = start
            for x in it: r = r + py(x)
            return py(r)
        def _abs(x): return abs(x)
        def _len(x):
            if type(x) is View: return len(x)
            if isinstance(x, SymInt): raise TypeError("object of type 'int' has no len()")
            return len(x)
        def _any(it):
            for x in it:
                if bool(x): return True
            return False
        def _all(it):
            for x in it:
                if not bool(x): return False
            return True
        def _with(m): return m
        ns = dict(_T=tys, _import=self.imp, _cimport=self.cimp, _py=py, _dec=dec, _co=self.co, _cast=self.cast, _L=L, _CI=CInt, _c=_c,
                  _getattr=_getattr, _setattr=_setattr, _getitem=_getitem, _setitem=_setitem, _slice=_slice, _iop=_iop, _crange=_crange,
                  _iter=_iter, _loop=_loop, _in=_in, _unpack=_unpack, _with=_with, _vpcfunc=_cfunc, _ext=lambda n: self.ext(mod, n),
                  _setext=lambda n, v: self.setext(mod, n, v),
                  _enum=lambda n: self.enum(mod, n), _addri=_addri, _addra=_addra, _addrn=_addrn, _Box=Box, _NULL=CPtr(VOID, 0, self), print=self.py_print, libc=types.SimpleNamespace(stdint=types.SimpleNamespace(UINT64_MAX=(1 << 64) - 1, UINT32_MAX=(1 << 32) - 1, INT64_MAX=(1 << 63) - 1)),
                  _sizeof=_sizeof, _CBase=_CBase, _CAttr=_CAttr, __name__="randomgen." + mod,
                  int=cyrt_int, float=cyrt_float, bool=cyrt_bool, isinstance=isinst, len=_len, range=_crange, sum=_sum, min=_min, max=_max,
                  abs=_abs, any=_any, all=_all, str=cyrt_str, type=_type, set=SymSet)
        return ns

    def ptr_slice(self, o, s): raise Unsupported("slice of a pointer")

    # ---------------------------------------------------------- harness API
    def cls(self, mod, name): return self.module(mod)[name]
    def sym(self, name, w): return uint(Ctx.cur.var(name, w), w)
    def ssym(self, name, w): return sint(Ctx.cur.var(name, w), w)
    def ss(self, tag):
        return self.SeedSequence(Tag("T" + tag))
    def arr(self, vals, dtype):
        vals = [v._asint() if type(v) is U else v for v in vals]
        return fakenp.array(list(vals), dtype=getattr(self.np, dtype))
    def wordseq(self, vals):
        """a seed sequence that delivers the given 64-bit words (the last one over and over)"""
        w = self
        class Words(self.SeedSequence):
            def generate_state(self, n_words, dtype=None):
                dt = DType(numpy.uint32 if dtype is None else dtype); n = ix_(n_words)
                a = fakenp.empty(n, dt); es = dt.itemsize
                for i in range(n):
                    v = vals[min(i * es // 8, len(vals) - 1)]
                    v = cbits(v, 64) if type(v) is not int else v
                    if es == 4: v = tm.ext(v, 32 * (i & 1), 32)
                    store_value(Ptr(a.obj, i * es), es, v, Ctx.cur)
                return a
        return Words(Tag("Twords"))
    def mem(self, bg): return type(bg)._bitgen.mem(bg)
    def lockheld(self, bg):
        l = bg.lock
        return getattr(l, "lock", l).held > 0
    def scriptints(self): pass
    def drawhooks(self):
        self.m.hooks["random_standard_normal"] = lambda m, vs: self.draw_normal()
        self.m.hooks["random_chisquare"] = lambda m, vs: self.draw_chisq(vs[1])
    def drawsof(self, bg):
        """the values the samplers will draw from bg, in order"""
        w = self
        w.drawhooks()
        class Draws:
            def __init__(self): self.n = w.normals; self.c = w.chis
            def normal(self):
                self.n += 1
                return SymFloat(w.drawvar("normal%d" % (self.n - 1)))
            def chisq(self, df):
                self.c += 1
                return SymFloat(w.drawvar("chisq%d" % (self.c - 1))), (self.c - 1, df)
            def finish(self):
                """everything drawn was asked for, with these degrees of freedom"""
                w.check("number of normals drawn", w.normals == self.n)
                w.check("number of chi-squares drawn", w.chis == self.c)
            def df(self, tag):
                d = w.chidf.get(tag[0])
                w.check("degrees of freedom of chi-square %d" % tag[0], d is not None and tobool(SymFloat(tm.f2b(float(tag[1]))) == SymFloat(d)) == 1)
        return Draws()
    def eqreal(self, label, a, b):
        """equal as real functions of the draws (rounding ignored)"""
        from . import realalg
        r = realalg.equal(fbits(a), fbits(b), 20000)
        if r == "unknown": raise Unsupported("real equality " + label)
        self.check(label, r == "equal")
    def sqrt(self, x):
        b = fbits(x)
        return SymFloat(tm.uf("sqrt64", 64, b)) if type(b) is not int else math.sqrt(tm.b2f(b))
    def citems(self, a):
        """real and imaginary parts, in C order"""
        if isinstance(a, (SymComplex, complex)): xs = [a]
        else: xs = (a.a if isinstance(a, View) else a).items()
        return [mkfloat_(p) for x in xs for p in (SymComplex.of(x).re, SymComplex.of(x).im)]
    def alarm(self, sec, f, *a, **k): return f(*a, **k)
    def watch(self, bg, seen):
        """record for every variate drawn by modelled numpy code whether the lock is held"""
        self.lock_log = lambda f: seen.append(self.lockheld(bg)) if isinstance(f, str) else None
        self.drawhooks()
    @property
    def ctypes(self): return self.imp("ctypes")
    def draw(self, bg, kind):
        b = type(bg)._bitgen.__get__(bg, type(bg))
        f = getattr(b, {"raw": "next_raw", "u64": "next_uint64", "u32": "next_uint32", "dbl": "next_double"}[kind])
        r = self.call_fn(f, [b.state])
        return r.py() if kind != "dbl" else DBits(r.v)
    def assume(self, c):
        Ctx.cur.assume(tobool(c) if isinstance(c, (bool, SymBool)) else 1 if c else 0)
    def check(self, label, c):
        t = tobool(c) if isinstance(c, (bool, SymBool)) else 1 if c else 0
        self.obligs.append((label, t, None))
    def eq(self, label, a, b):
        """structural bit equality"""
        for path, w, x, y in eqpairs(a, b, ""):
            self.obligs.append((label + path, tm.eq(w, x, y) if w else int(x == y), (w, x, y)))
    def raises(self, exc, f, *a, **k):
        try: f(*a, **k)
        except exc: return True
        return False
    def copy_state(self, st): return copy.deepcopy(st)
    def symf(self, name): return SymFloat(Ctx.cur.var(name, 64))
    def ssword(self, tag, i, w=32):
        n = "ss:T%s:%d"
        if tag.startswith("#"):
            return concword("T" + tag, i) if w == 32 else concword("T" + tag, 2 * i) | (concword("T" + tag, 2 * i + 1) << 32)
        if w == 32: return uint(tm.var(n % (tag, i), 32), 32)
        return uint(tm.cat([(tm.var(n % (tag, 2 * i), 32), 32), (tm.var(n % (tag, 2 * i + 1), 32), 32)]), 64)
    def farr(self, vals, shape=None):
        a = fakenp.array([v for v in vals], dtype=self.np.float64)
        return a if shape is None else a.reshape(shape)
    def dbits(self, x):
        if isinstance(x, DBits): return x.py()
        if isinstance(x, NPFloat): return uint(x.v, x.ty.w)
        return uint(fbits(py(x)), 64)
    def f32bits(self, x):
        if isinstance(x, NPFloat) and x.ty.w == 32: return uint(x.v, 32)
        return uint(fbits(py(x), 32), 32)
    def dyadic(self, x, k, w=64):
        """the float x * 2**k (exact: x a non-negative integer that fits the mantissa)"""
        x = aspyint(x)
        n = max(1, ibits(x))
        t = isx(x, n)
        if type(t) is not int: t = tm.ext(t, 0, n - 1) if n > 1 and tm.rng(t)[1] < 1 << (n - 1) else t
        v = tm.dy(w, t, k)
        if w == 64: return DBits(v)
        return _mkfloat(w, v)
    def f64(self, bits):
        b = aspyint(bits)
        if type(b) is int: return mkfloat(b)
        n = max(64, ibits(b))
        return mkfloat(tm.ext(isx(b, n), 0, 64))
    def fitems(self, a):
        """the floating-point elements in C order"""
        a = a.a if isinstance(a, View) else a
        return a.items()
    def lt1(self, x):
        """0 <= x < 1"""
        v, w = _fv(x)
        return mkbool(tm.band(1, tm.fcmp("olt", w, v, tm.dyconst(w, 1, 0)), tm.fcmp("oge", w, v, 0)))
    def items(self, a):
        a = a.a if isinstance(a, View) else a
        return [x._asint() if isinstance(x, NPInt) else x for x in a.items()]
    def shape(self, a): return tuple(a.shape)
    def cond(self, c): return bool(c)
    def ite(self, c, a, b):
        c = tobool(c) if isinstance(c, (bool, SymBool)) else (1 if c else 0)
        if type(c) is int: return a if c else b
        a, b = aspyint(a), aspyint(b)
        w = max(ibits(a), ibits(b))
        return mkint(tm.ite(c, isx(a, w), isx(b, w), w), w)
    def and_(self, *cs):
        r = 1
        for c in cs: r = tm.band(1, r, tobool(c) if isinstance(c, (bool, SymBool)) else (1 if c else 0))
        return mkbool(r)
    def or_(self, *cs):
        r = 0
        for c in cs: r = tm.bor(1, r, tobool(c) if isinstance(c, (bool, SymBool)) else (1 if c else 0))
        return mkbool(r)
    def not_(self, c): return mkbool(tm.bnot(1, tobool(c) if isinstance(c, (bool, SymBool)) else (1 if c else 0)))
    def int(self, x): return aspyint(py(x))
    def f2map(self, words, w, cols):
        """the F2-linear map: XOR of the columns whose input bit is one (words lowest first; columns are integers over all output words)"""
        n = len(words); outs = []
        bits = [tm.ext(isx(aspyint(py(x)), w), i, 1) if not isinstance(x, int) else (x >> i) & 1 for x in words for i in range(w)]
        for k in range(n):
            ts = [tm.ite(b, (c >> (w * k)) & tm.mask(w), 0, w) if type(b) is not int else ((c >> (w * k)) & tm.mask(w) if b else 0) for b, c in zip(bits, cols)]
            while len(ts) > 1:
                ts = [tm.bxor(w, ts[i], ts[i + 1]) if i + 1 < len(ts) else ts[i] for i in range(0, len(ts), 2)]
            outs.append(uint(ts[0], w))
        return outs
    def tbl(self, x, table):
        """table[x] for a byte x"""
        x = aspyint(py(x)) if not isinstance(x, int) else x
        return table[x] if isinstance(x, int) else uint(tm.tbl(8, isx(x, 8), tuple(table)), 8)
    def sel(self, vals, i, width=64):
        """vals[i]"""
        i = aspyint(py(i)) if not isinstance(i, int) else i
        if isinstance(i, int): return vals[i]
        iw = max((len(vals) - 1).bit_length(), 1)
        return uint(tm.sel(width, isx(i, iw), iw, [v if isinstance(v, int) else isx(aspyint(py(v)), width) for v in vals]), width)
    def upd(self, vals, i, v, width=64):
        """the list with vals[i] replaced"""
        i = aspyint(py(i)) if not isinstance(i, int) else i
        if isinstance(i, int): return list(vals[:i]) + [v] + list(vals[i + 1:])
        return [self.ite(i == k, v, x) for k, x in enumerate(vals)]
    def split(self, on=True):
        """decide every comparison of the native code by branching from here on"""
        self.m.split = on
    def note(self, label, v): pass

from .conc_words import concword
from .fw import U

class Tag(str): pass

def _mkfloat(w, v):
    c = fakenp.float32 if w == 32 else fakenp.longdouble
    return c.raw(v)

def _fv(x):
    if isinstance(x, DBits): return x.v, 64
    if isinstance(x, NPFloat): return x.v, x.ty.w
    return fbits(py(x)), 64

class DBits:
    """a double as its bit pattern"""
    def __init__(self, v): self.v = v
    def py(self): return uint(self.v, 64)

class FnObj(Obj):
    __slots__ = ("fn",)
    def __init__(self, fn):
        Obj.__init__(self, "function %r" % (fn,), 1, 0); self.fn = fn

class _ObjBox(Obj):
    __slots__ = ("pyobj",)
_boxes = {}
def _objbox(v):
    o = _ObjBox("PyObject", 16, 0); o.pyobj = v
    return o

def ix_(x):
    if type(x) is int: return x
    return x.__index__()

def isconst(n): return type(n) is int or isinstance(n, SymInt) and type(n.t) is int
def isinst(o, c):
    if isinstance(c, tuple): return any(isinst(o, x) for x in c)
    if c is int or c is cyrt_int: return isinstance(o, cyrt_int)
    if c is float or c is cyrt_float: return isinstance(o, cyrt_float)
    if c is bool or c is cyrt_bool: return isinstance(o, (bool, SymBool))
    if c is _type: return isinstance(o, type)
    if not isinstance(c, type) and getattr(c, "__name__", None) == "_crange": return isinstance(o, range)
    if c is complex: return isinstance(o, (complex, SymComplex))
    if isinstance(o, SymBool) and c in (): return False
    return isinstance(o, c)

_ENTS = {}
def _entname(e):
    if isinstance(e, NDArray): return "a" + "_".join(_entname(x) for x in e.items())
    if isinstance(e, NPInt): return _entname(e._asint())
    if isinstance(e, (list, tuple)): return "l" + "_".join(_entname(x) for x in e)
    if isinstance(e, SymInt): return "t%d" % _ENTS.setdefault((tm.sext(e.t, e.w, 256) if e.w < 256 else e.t), len(_ENTS))     # same entropy, same words
    return str(e)

def _symbytes(w, n): raise Unsupported("Generator.bytes")

class NS:
    """module object over a namespace"""
    def __init__(self, w, mod): self.__dict__["_w"] = w; self.__dict__["_m"] = mod
    def __getattr__(self, n):
        if self._m is None: return NS(self._w, n)
        ns = self._w.module(self._m)
        if n in ns: return ns[n]
        sc = self._w.build.project.scope(self._m)
        if n in sc.externs: return self._w.ext(self._m, n)
        raise AttributeError(n)

def nbits(v):
    """(width, term) of a scalar for bit comparison"""
    if isinstance(v, (bool, SymBool)): return 1, tobool(v)
    if isinstance(v, NPInt) or type(v) is U: v = v._asint()
    if isinstance(v, CInt): v = v.py()
    if isinstance(v, DBits): return ("f", v.v)
    if isinstance(v, (float, SymFloat)): return ("f", fbits(v))
    if isinstance(v, NPFloat): return ("f%d" % v.ty.w, v.v)
    if isinstance(v, (int, SymInt)): return ("i", v)
    return None

def eqpairs(a, b, path):
    """[(path, width, x, y)] with width 0 for structural mismatches (x != y)"""
    if isinstance(a, View): a = a.a
    if isinstance(b, View): b = b.a
    if isinstance(a, dict) and isinstance(b, dict):
        if list(sorted(a)) != list(sorted(b)):
            yield path + ":keys", 0, sorted(a), sorted(b); return
        for k in a:
            yield from eqpairs(a[k], b[k], path + "." + str(k))
        return
    if isinstance(a, NDArray) and isinstance(b, NDArray):
        if a.shape != b.shape or a.dt != b.dt:
            yield path + ":shape", 0, (a.shape, str(a.dt)), (b.shape, str(b.dt)); return
        for i, (x, y) in enumerate(zip(a.items(), b.items())):
            yield from eqpairs(x, y, "%s[%d]" % (path, i))
        return
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            yield path + ":len", 0, len(a), len(b); return
        for i, (x, y) in enumerate(zip(a, b)):
            yield from eqpairs(x, y, "%s[%d]" % (path, i))
        return
    if isinstance(a, SymComplex) and isinstance(b, SymComplex):
        yield path + ".re", 64, a.re, b.re; yield path + ".im", 64, a.im, b.im; return
    x, y = nbits(a), nbits(b)
    if x is not None and y is not None:
        if x[0] == 1 and y[0] == 1:
            yield path, 1, x[1], y[1]; return
        if x[0] == "i" and y[0] == "i":
            if type(x[1]) is int and type(y[1]) is int:
                yield path, 0, x[1], y[1]; return
            w = max(ibits(x[1]), ibits(y[1]))
            yield path, w, isx(x[1], w), isx(y[1], w); return
        if x[0] == y[0]:
            yield path, 64 if x[0] == "f" else int(x[0][1:]), x[1], y[1]; return
        yield path + ":kind", 0, x[0], y[0]; return
    if type(a) is type(b) or isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        yield path, 0, a, b; return
    yield path + ":type", 0, type(a).__name__, type(b).__name__
