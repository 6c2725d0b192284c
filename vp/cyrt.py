"""Runtime values for transpiled Cython: C integers, Python integers, floats,
pointers and structs over symbolic bit-vector terms."""
import math
from . import terms as tm
from .cytypes import *
from .ctx import Ctx, PathEnd, Unsupported, Limit
from . import llsym
from .llsym import Ptr, Obj, FnPtr, Violation, load_value, store_value

M64 = (1 << 64) - 1
WORLD = None

def br(t):
    return bool(t) if type(t) is int else Ctx.cur.branch(t)

def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v

# ------------------------------------------------------------------ booleans
class SymBool:
    __slots__ = ("t",)
    def __init__(self, t):
        self.t = t
    def __bool__(self):
        return br(self.t)
    def _i(self):
        return mkint(tm.zext(self.t, 1, 2), 2)
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __add__(self, o): return self._i() + o
    __radd__ = __add__
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    __rmul__ = __mul__
    def __and__(self, o):
        b = tobool(o) if isinstance(o, (bool, SymBool)) else None
        return self._i() & o if b is None else mkbool(tm.band(1, self.t, b))
    __rand__ = __and__
    def __or__(self, o):
        b = tobool(o) if isinstance(o, (bool, SymBool)) else None
        return self._i() | o if b is None else mkbool(tm.bor(1, self.t, b))
    __ror__ = __or__
    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(tm.bnot(1, tm.bxor(1, self.t, tobool(o))))
        return self._i() == o
    def __ne__(self, o): return lnot(self.__eq__(o))
    __hash__ = object.__hash__
    def __str__(self): return "<symbolic>"

def mkbool(t):
    if type(t) is int:
        return bool(t)
    return SymBool(t)

def tobool(b):
    if type(b) is SymBool: return b.t
    return 1 if b else 0

def lnot(b):
    return mkbool(tm.bnot(1, tobool(b)))

# ------------------------------------------------------------------ Python integers
class SymInt:
    """Python integer: two's-complement term of w bits (exact, never wraps)"""
    __slots__ = ("t", "w")
    def __init__(self, t, w):
        self.t = t; self.w = w
    def __bool__(self): return br(tm.ne(self.w, self.t, 0))
    def __repr__(self): return "<int%d %s>" % (self.w, tm.show(self.t, 3))
    def __str__(self): return "<symbolic>"
    def __format__(self, s): return "<symbolic>"
    def __index__(self):
        return sgn(Ctx.cur.choose(self.t, self.w), self.w)
    def __int__(self): raise Unsupported("int() of a symbolic integer outside the runtime")
    def __hash__(self): return hash(self.t)
    def __neg__(self): return 0 - self
    def __pos__(self): return self
    def __abs__(self):
        return mkint(tm.ite(tm.slt(self.w + 1, self.s(self.w + 1), 0), tm.neg(self.w + 1, self.s(self.w + 1)), self.s(self.w + 1), self.w + 1), self.w + 1)
    def __invert__(self): return -self - 1
    def s(self, w): return tm.sext(self.t, self.w, w)
    def bit_length(self):
        a = abs(self)
        if type(a) is int: return a.bit_length()
        r = 0; n = a.w.bit_length() + 1
        for k in range(a.w - 1): r = tm.ite(tm.slt(a.w, (1 << k) - 1, a.t), k + 1, r, n)
        return sint(r, n)
    def bit_count(self):
        a = abs(self)
        if type(a) is int: return bin(a).count("1")
        n = a.w.bit_length() + 1; r = 0
        for k in range(a.w): r = tm.add(n, r, tm.zext(tm.ext(a.t, k, 1), 1, n))
        return sint(r, n)
    def conjugate(self): return self
    def __divmod__(self, o): return self // o, self % o
    def __rdivmod__(self, o): return o // self, o % self
    def to_bytes(self, *a): raise Unsupported("to_bytes of symbolic int")

def ibits(v):
    """signed width needed by a Python integer / SymInt"""
    if type(v) is SymInt: return v.w
    return (v if v >= 0 else ~v).bit_length() + 1

def isx(v, w):
    if type(v) is SymInt: return v.s(w)
    return v & tm.mask(w)

def mkint(t, w):
    if type(t) is int:
        return sgn(t, w)
    lo, hi = tm.srng(t, w)
    n = max((lo if lo >= 0 else ~lo).bit_length(), (hi if hi >= 0 else ~hi).bit_length()) + 1
    if n < w:
        t = tm.ext(t, 0, n); w = n
        if type(t) is int: return sgn(t, w)
    return SymInt(t, w)

def uint(t, w):
    """Python integer from an unsigned w-bit value"""
    if type(t) is int: return t
    return mkint(tm.zext(t, w, w + 1), w + 1)

def sint(t, w):
    if type(t) is int: return sgn(t, w)
    return mkint(t, w)

def aspyint(o):
    if type(o) is SymInt: return o
    if type(o) is L: return int(o)
    if isinstance(o, int): return int(o)
    if type(o) is SymBool: return o._i()
    if type(o) is CInt: return o.py()
    h = getattr(o, "_asint", None)
    if h is not None: return h()
    return None

def _imax(a, b): return max(ibits(a), ibits(b))

def i_add(a, b):
    w = _imax(a, b) + 1; return mkint(tm.add(w, isx(a, w), isx(b, w)), w)
def i_sub(a, b):
    w = _imax(a, b) + 1; return mkint(tm.sub(w, isx(a, w), isx(b, w)), w)
def i_mul(a, b):
    for x, y in ((a, b), (b, a)):
        if type(x) is int and x > 0 and x & (x - 1) == 0:
            return i_shl(y, x.bit_length() - 1)
        if type(x) is int and x == 0: return 0
    w = ibits(a) + ibits(b); return mkint(tm.mul(w, isx(a, w), isx(b, w)), w)
def i_shl(a, b):
    if type(b) is SymInt: b = b.__index__()
    if b < 0: raise ValueError("negative shift count")
    if type(a) is int: return a << b
    return mkint(tm.cat([(0, b), (a.t, a.w)]) if b else a.t, a.w + b)
def i_shr(a, b):
    if type(b) is SymInt: b = b.__index__()
    if b < 0: raise ValueError("negative shift count")
    if type(a) is int: return a >> b
    if b == 0: return a
    if b >= a.w: b = a.w - 1
    return mkint(tm.ext(a.t, b, a.w - b), a.w - b)
def i_and(a, b):
    w = _imax(a, b)
    for x, y in ((a, b), (b, a)):
        if type(x) is int and x >= 0:
            n = x.bit_length()
            if n == 0: return 0
            return uint(tm.band(n, x, tm.ext(isx(y, max(n, ibits(y))), 0, n)), n)
    return mkint(tm.band(w, isx(a, w), isx(b, w)), w)
def i_or(a, b):
    w = _imax(a, b); return mkint(tm.bor(w, isx(a, w), isx(b, w)), w)
def i_xor(a, b):
    w = _imax(a, b); return mkint(tm.bxor(w, isx(a, w), isx(b, w)), w)
def i_floordiv(a, b):
    if type(b) is int:
        if b == 0: raise ZeroDivisionError("integer division or modulo by zero")
        if b > 0 and b & (b - 1) == 0: return i_shr(a, b.bit_length() - 1)
    w = _imax(a, b) + 1
    x, y = isx(a, w), isx(b, w)
    q = tm.sdiv(w, x, y); r = tm.srem(w, x, y)
    adj = tm.band(1, tm.ne(w, r, 0), tm.bxor(1, tm.slt(w, r, 0), tm.slt(w, y, 0)))
    return mkint(tm.ite(adj, tm.sub(w, q, 1), q, w), w)
def i_mod(a, b):
    if type(b) is int:
        if b == 0: raise ZeroDivisionError("integer division or modulo by zero")
        if b > 0 and b & (b - 1) == 0:
            n = b.bit_length() - 1
            if n == 0: return 0
            return uint(tm.ext(isx(a, max(n, ibits(a))), 0, n), n)
    return i_sub(a, i_mul(b, i_floordiv(a, b)))
def i_pow(a, b):
    if type(b) is SymInt: b = b.__index__()
    if type(a) is int: return a ** b
    r = 1
    for _ in range(b): r = i_mul(r, a)
    return r
def i_div(a, b):
    return i2f(a) / i2f(b)

_PYOPS = {"add": i_add, "sub": i_sub, "mul": i_mul, "lshift": i_shl, "rshift": i_shr, "and": i_and, "or": i_or,
          "xor": i_xor, "floordiv": i_floordiv, "mod": i_mod, "pow": i_pow}
_CONC = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "lshift": lambda a, b: a << b,
         "rshift": lambda a, b: a >> b, "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b,
         "floordiv": lambda a, b: a // b, "mod": lambda a, b: a % b, "pow": lambda a, b: a ** b, "truediv": lambda a, b: a / b}

def icmp(op, a, b):
    if type(a) is int and type(b) is int:
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]
    w = _imax(a, b)
    # compare a constant outside the range of the other side
    x, y = isx(a, w), isx(b, w)
    if op == "eq": t = tm.eq(w, x, y)
    elif op == "ne": t = tm.ne(w, x, y)
    elif op == "lt": t = tm.slt(w, x, y)
    elif op == "le": t = tm.sle(w, x, y)
    elif op == "gt": t = tm.slt(w, y, x)
    else: t = tm.sle(w, y, x)
    return mkbool(t)

def _sym_binop(name):
    f = _PYOPS.get(name)
    def op(self, o):
        if isinstance(o, (float, SymFloat, CFloat)):
            return getattr(i2f(self), "__%s__" % name)(o)
        if hasattr(o, "_isarray"): return NotImplemented
        b = aspyint(o)
        if b is None: return NotImplemented
        if f is None: return i_div(self, b)
        return f(self, b)
    def rop(self, o):
        if isinstance(o, (float, SymFloat, CFloat)):
            return getattr(i2f(self), "__r%s__" % name)(o)
        if hasattr(o, "_isarray"): return NotImplemented
        a = aspyint(o)
        if a is None: return NotImplemented
        if f is None: return i_div(a, self)
        return f(a, self)
    return op, rop
for _n in list(_PYOPS) + ["truediv"]:
    _a, _b = _sym_binop(_n)
    setattr(SymInt, "__%s__" % _n, _a); setattr(SymInt, "__r%s__" % _n, _b)
def _sym_cmp(op):
    def f(self, o):
        if isinstance(o, (float, SymFloat, CFloat)):
            return getattr(i2f(self), "__%s__" % op)(o)
        if hasattr(o, "_isarray"): return NotImplemented
        b = aspyint(o)
        if b is None:
            return NotImplemented if op not in ("eq", "ne") else op == "ne"
        return icmp(op, self, b)
    return f
for _n in ("eq", "ne", "lt", "le", "gt", "ge"):
    setattr(SymInt, "__%s__" % _n, _sym_cmp(_n))

# ------------------------------------------------------------------ C integers
class L(int):
    """an integer literal (or compile-time constant) in a C expression"""
    __slots__ = ()
for _n in _CONC:
    if _n == "truediv": continue
    def _mk(n):
        g = _CONC[n]
        def op(self, o):
            if type(o) is L:
                return L(g(int(self), int(o)))
            if type(o) is int or type(o) is bool:
                return g(int(self), o)
            return NotImplemented
        def rop(self, o):
            if type(o) is int or type(o) is bool:
                return g(o, int(self))
            return NotImplemented
        return op, rop
    _a, _b = _mk(_n)
    setattr(L, "__%s__" % _n, _a); setattr(L, "__r%s__" % _n, _b)
L.__neg__ = lambda s: L(-int(s))
L.__invert__ = lambda s: L(~int(s))

def littype(v):
    return LONG if -(1 << 63) <= v < (1 << 63) else ULONG

class CInt:
    __slots__ = ("ty", "v")
    def __init__(self, ty, v):
        self.ty = ty; self.v = v if type(v) is not int else v & tm.mask(ty.w)
    def py(self):
        ty = self.ty
        if ty.isbool:
            return mkbool(tm.ne(ty.w, self.v, 0))
        return sint(self.v, ty.w) if ty.signed else uint(self.v, ty.w)
    def bits(self, w):
        ty = self.ty
        if w == ty.w: return self.v
        if w < ty.w: return tm.ext(self.v, 0, w)
        return tm.sext(self.v, ty.w, w) if ty.signed else tm.zext(self.v, ty.w, w)
    def _asint(self): 
        r = self.py()
        return r._i() if type(r) is SymBool else int(r) if type(r) is bool else r
    def __bool__(self): return bool(mkbool(tm.ne(self.ty.w, self.v, 0)))
    def __index__(self):
        v = self.v
        if type(v) is not int: v = Ctx.cur.choose(v, self.ty.w)
        return sgn(v, self.ty.w) if self.ty.signed else v
    def __int__(self): return self.__index__()
    def __repr__(self): return "<%r %s>" % (self.ty, tm.show(self.v, 3) if type(self.v) is not int else self.v)
    def __str__(self): return str(self.py())
    def __format__(self, s): return format(self.py(), s)
    def __hash__(self): return hash(self.v)
    def __neg__(self):
        t = promote(self.ty); return CInt(t, tm.neg(t.w, self.bits(t.w)))
    def __pos__(self): return self
    def __invert__(self):
        t = promote(self.ty); return CInt(t, tm.bnot(t.w, self.bits(t.w)))
    def __getattr__(self, name):
        if name.startswith("__"): raise AttributeError(name)
        return getattr(npint_of(self), name)

def npint_of(c):
    return c.py()

def promote(t):
    if t.w < 32: return INT
    if t.isbool: return INT
    return t
def usual(a, b):
    a = promote(a); b = promote(b)
    if a.w == b.w: return a if not a.signed else b
    return a if a.w > b.w else b

def _cdiv(w, signed, a, b):
    c = Ctx.cur
    z = tm.eq(w, b, 0)
    if c.branch(z): raise Violation("undefined behaviour", "C division by zero")
    return tm.sdiv(w, a, b) if signed else tm.udiv(w, a, b)
def _crem(w, signed, a, b):
    c = Ctx.cur
    z = tm.eq(w, b, 0)
    if c.branch(z): raise Violation("undefined behaviour", "C division by zero")
    return tm.srem(w, a, b) if signed else tm.urem(w, a, b)

def _cshift(op, a, b):
    t = promote(a.ty)
    if type(b) is L:
        s = int(b)
    else:
        s = b.v
        if type(s) is not int:
            s = b.bits(64)
            bad = tm.ule(64, t.w, s)
            if br(bad): raise Violation("undefined behaviour", "shift count out of range")
            s = tm.ext(s, 0, t.w) if t.w < 64 else s
    if type(s) is int and not (0 <= s < t.w):
        raise Violation("undefined behaviour", "shift by %d of a %d-bit value" % (s, t.w))
    x = a.bits(t.w)
    if op == "lshift": return CInt(t, tm.shl(t.w, x, s))
    return CInt(t, tm.ashr(t.w, x, s) if t.signed else tm.lshr(t.w, x, s))

def _c_binop(name):
    def do(a, b):
        """both CInt"""
        if name in ("lshift", "rshift"):
            return _cshift(name, a, b)
        t = usual(a.ty, b.ty); w = t.w
        x, y = a.bits(w), b.bits(w)
        if name == "add": v = tm.add(w, x, y)
        elif name == "sub": v = tm.sub(w, x, y)
        elif name == "mul": v = tm.mul(w, x, y)
        elif name == "and": v = tm.band(w, x, y)
        elif name == "or": v = tm.bor(w, x, y)
        elif name == "xor": v = tm.bxor(w, x, y)
        elif name == "floordiv": v = _cdiv(w, t.signed, x, y)
        elif name == "mod": v = _crem(w, t.signed, x, y)
        elif name == "truediv":
            return CFloat(DOUBLE, i2d(a)) / CFloat(DOUBLE, i2d(b))
        elif name == "pow":
            n = b.v
            if type(n) is not int: raise Unsupported("symbolic exponent")
            v = 1
            for _ in range(n): v = tm.mul(w, v, x)
        return CInt(t, v)
    def conv(o):
        if type(o) is CInt: return o
        if type(o) is L: return CInt(littype(int(o)), int(o))
        return None
    def op(self, o):
        b = conv(o)
        if b is not None: return do(self, b)
        if isinstance(o, (float, CFloat, SymFloat)):
            return getattr(CFloat(DOUBLE, i2d(self)), "__%s__" % name)(o)
        if hasattr(o, "_isarray") or isinstance(o, CPtr): return NotImplemented
        if aspyint(o) is None: return NotImplemented
        p = self._asint()
        return py_binop(name, p, aspyint(o))
    def rop(self, o):
        a = conv(o)
        if a is not None: return do(a, self)
        if isinstance(o, (float, CFloat, SymFloat)):
            return getattr(CFloat(DOUBLE, i2d(self)), "__r%s__" % name)(o)
        if hasattr(o, "_isarray") or isinstance(o, CPtr): return NotImplemented
        if aspyint(o) is None: return NotImplemented
        return py_binop(name, aspyint(o), self._asint())
    return op, rop
def py_binop(name, a, b):
    if type(a) is SymInt or type(b) is SymInt:
        if name == "truediv": return i_div(a, b)
        return _PYOPS[name](a, b)
    return _CONC[name](a, b)
for _n in _CONC:
    _a, _b = _c_binop(_n)
    setattr(CInt, "__%s__" % _n, _a); setattr(CInt, "__r%s__" % _n, _b)
def _c_cmp(op):
    def f(self, o):
        if type(o) is L: 
            o2 = CInt(littype(int(o)), int(o))
        elif type(o) is CInt: o2 = o
        else:
            if isinstance(o, (float, CFloat, SymFloat)):
                return getattr(CFloat(DOUBLE, i2d(self)), "__%s__" % op)(o)
            if hasattr(o, "_isarray"): return NotImplemented
            b = aspyint(o)
            if b is None: return NotImplemented if op not in ("eq", "ne") else op == "ne"
            return icmp(op, self._asint(), b)
        t = usual(self.ty, o2.ty); w = t.w
        x, y = self.bits(w), o2.bits(w)
        lt, le = (tm.slt, tm.sle) if t.signed else (tm.ult, tm.ule)
        return mkbool({"eq": lambda: tm.eq(w, x, y), "ne": lambda: tm.ne(w, x, y), "lt": lambda: lt(w, x, y),
                       "le": lambda: le(w, x, y), "gt": lambda: lt(w, y, x), "ge": lambda: le(w, y, x)}[op]())
    return f
for _n in ("eq", "ne", "lt", "le", "gt", "ge"):
    setattr(CInt, "__%s__" % _n, _c_cmp(_n))

# ------------------------------------------------------------------ floats
def i2d(x, w=64):
    """integer (CInt, Python) -> float bit pattern"""
    if type(x) is CInt:
        if type(x.v) is int:
            return conc_float(sgn(x.v, x.ty.w) if x.ty.signed else x.v, w)
        return tm.sitofp(w, x.v, x.ty.w) if x.ty.signed else tm.uitofp(w, x.v, x.ty.w)
    x = aspyint(x)
    if type(x) is int: return conc_float(x, w)
    return tm.sitofp(w, x.t, x.w)
def conc_float(v, w):
    if w in (32, 64): return tm.f2b(float(v), w)
    if v < 0: return tm.uitofp(w, -v, 0) | (1 << (w - 1))
    return tm.uitofp(w, v, 0)
def i2f(x):
    b = i2d(x)
    return mkfloat(b)
def mkfloat(b):
    if type(b) is int: return tm.b2f(b)
    return SymFloat(b)

def fbits(o, w=64):
    """bit pattern of a number as a float of w bits, or None"""
    if type(o) is CFloat:
        return tm.fpconv(o.ty.w, w, o.v)
    if type(o) is SymFloat:
        return tm.fpconv(64, w, o.t)
    if isinstance(o, bool): return conc_float(int(o), w)
    if isinstance(o, float):
        b = tm.f2b(o)
        return b if w == 64 else tm.f2b(o, 32) if w == 32 else tm.fpconv(64, w, b)
    if isinstance(o, (L, int, CInt, SymInt)): return i2d(o, w)
    if type(o) is SymBool: return i2d(o._i(), w)
    h = getattr(o, "_fbits", None)
    if h is not None: return h(w)
    return None

class CFloat:
    __slots__ = ("ty", "v")
    def __init__(self, ty, v): self.ty = ty; self.v = v
    def py(self):
        return mkfloat(tm.fpconv(self.ty.w, 64, self.v))
    def __bool__(self): return bool(self != 0.0)
    def __neg__(self): return CFloat(self.ty, tm.bxor(self.ty.w, self.v, 1 << (self.ty.w - 1)))
    def __repr__(self): return "<%r %s>" % (self.ty, tm.show(self.v, 4) if type(self.v) is not int else tm.b2f(self.v, self.ty.w) if self.ty.w in (32, 64) else hex(self.v))
    __str__ = __repr__
    def __hash__(self): return hash(self.v)
    def __float__(self):
        if type(self.v) is int: return tm.b2f(tm.fpconv(self.ty.w, 64, self.v))
        raise Unsupported("float() of symbolic")
class SymFloat:
    """Python float"""
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __bool__(self): return bool(self != 0.0)
    def __neg__(self): return SymFloat(tm.bxor(64, self.t, 1 << 63))
    def __abs__(self): return SymFloat(tm.band(64, self.t, (1 << 63) - 1))
    def __repr__(self): return "<float %s>" % tm.show(self.t, 4)
    def __str__(self): return "<symbolic>"
    def __hash__(self): return hash(self.t)
    def __float__(self): raise Unsupported("float() of symbolic")
    def __int__(self): raise Unsupported("int() of symbolic float")

def _fty(a, b):
    ta = a.ty if type(a) is CFloat else DOUBLE
    tb = b.ty if type(b) is CFloat else (DOUBLE if isinstance(b, (float, SymFloat)) else ta)
    return ta if ta.w >= tb.w else tb
def _f_binop(name):
    fop = {"add": "fadd", "sub": "fsub", "mul": "fmul", "truediv": "fdiv"}[name]
    def mk(rev):
        def op(self, o):
            if hasattr(o, "_isarray") or isinstance(o, (complex, str, list, tuple)): return NotImplemented
            t = _fty(self, o)
            a = fbits(self, t.w); b = fbits(o, t.w)
            if b is None: return NotImplemented
            if rev: a, b = b, a
            if fop == "fdiv" and type(self) is SymFloat and b == 0: raise ZeroDivisionError("float division by zero")
            v = tm.fbin(fop, t.w, a, b)
            return CFloat(t, v) if type(self) is CFloat or type(o) is CFloat else mkfloat(v)
        return op
    return mk(False), mk(True)
for _n in ("add", "sub", "mul", "truediv"):
    _a, _b = _f_binop(_n)
    for _k in (CFloat, SymFloat):
        setattr(_k, "__%s__" % _n, _a); setattr(_k, "__r%s__" % _n, _b)
def _f_cmp(op):
    pred = {"eq": "oeq", "ne": "une", "lt": "olt", "le": "ole", "gt": "ogt", "ge": "oge"}[op]
    def f(self, o):
        if hasattr(o, "_isarray"): return NotImplemented
        t = _fty(self, o)
        b = fbits(o, t.w)
        if b is None: return NotImplemented if op not in ("eq", "ne") else op == "ne"
        return mkbool(tm.fcmp(pred, t.w, fbits(self, t.w), b))
    return f
for _n in ("eq", "ne", "lt", "le", "gt", "ge"):
    for _k in (CFloat, SymFloat):
        setattr(_k, "__%s__" % _n, _f_cmp(_n))

# ------------------------------------------------------------------ pointers and structs
class CFn:
    """a C function pointer with its declared type"""
    __slots__ = ("ty", "fn", "world")
    def __init__(self, ty, fn, world):
        self.ty = ty; self.fn = fn; self.world = world
    def __bool__(self): return True
    def __call__(self, *args):
        return self.world.call_fn(self, args)
    def __eq__(self, o): return isinstance(o, CFn) and (o.fn is self.fn or (isinstance(o.fn, FnPtr) and isinstance(self.fn, FnPtr) and o.fn.name == self.fn.name))
    def __hash__(self): return id(self.fn)

class CPtr:
    __slots__ = ("to", "p", "world")
    def __init__(self, to, p, world):
        object.__setattr__(self, "to", to); object.__setattr__(self, "p", p); object.__setattr__(self, "world", world)
    def __bool__(self): return not (type(self.p) is int and self.p == 0)
    def __repr__(self): return "<%r* %r>" % (self.to, self.p)
    def at(self, i):
        if type(i) is not int and type(i) is not tm.T: i = cbits(i, 64)
        if type(i) is int and i == 0: return self.p
        es = self.to.size
        if type(self.p) is int: raise Violation("null pointer", "index %r" % (i,))
        if isinstance(self.p, FnPtr): raise Unsupported("indexing a function pointer")
        if type(i) is int: d = (i * es) & M64
        else: d = tm.mul(64, i, es)
        return self.p.add(d)
    def get(self, i):
        return self.world.ld(self.to, self.at(i))
    def set(self, i, v):
        self.world.st(self.to, self.at(i), v)
    def __getattr__(self, name):
        if self.to.k == "struct":
            return self.world.field(self.to, self.p, name)
        raise AttributeError(name)
    def __setattr__(self, name, v):
        if self.to.k == "struct":
            self.world.setfield(self.to, self.p, name, v); return
        raise AttributeError(name)
    def __eq__(self, o):
        if isinstance(o, CPtr): return self.p == o.p
        if o is None: return False
        return NotImplemented
    def __ne__(self, o):
        r = self.__eq__(o); return r if r is NotImplemented else not r
    def __hash__(self): return hash(self.p)
    def __add__(self, o):
        i = cbits(o, 64)
        return CPtr(self.to, self.at(i), self.world)
    def __sub__(self, o):
        return CPtr(self.to, self.at(tm.neg(64, cbits(o, 64))), self.world)
    def __iadd__(self, o): return self + o

class CStruct:
    """an lvalue of struct type"""
    __slots__ = ("ty", "p", "world")
    def __init__(self, ty, p, world):
        object.__setattr__(self, "ty", ty); object.__setattr__(self, "p", p); object.__setattr__(self, "world", world)
    def __getattr__(self, name):
        return self.world.field(self.ty, self.p, name)
    def __setattr__(self, name, v):
        self.world.setfield(self.ty, self.p, name, v)

def cbits(o, w):
    """bits of an index/int operand"""
    if type(o) is CInt: return o.bits(w)
    if type(o) is SymInt: return isx(o, max(w, o.w)) if o.w <= w else tm.ext(o.t, 0, w)
    if isinstance(o, int): return int(o) & tm.mask(w)
    h = getattr(o, "_asint", None)
    if h is not None: return cbits(h(), w)
    if type(o) is SymBool: return tm.zext(o.t, 1, w)
    raise Unsupported("integer expected, got %r" % (o,))

def dec(v):
    """value stored into an untyped (Python) variable: literals and C numbers become Python objects"""
    t = type(v)
    if t is L: return int(v)
    if t is CInt or t is CFloat: return v.py()
    return v

def py(v):
    t = type(v)
    if t is L: return int(v)
    if t is CInt or t is CFloat: return v.py()
    return v

def to_cint(ty, v, what=""):
    """Python object -> C integer as Cython converts it (OverflowError when out of range)"""
    if ty.isbool:
        if type(v) is CInt: return CInt(ty, tm.zext(tm.ne(v.ty.w, v.v, 0), 1, 32))
        if type(v) is SymBool: return CInt(ty, tm.zext(v.t, 1, 32))
        if type(v) is SymInt: return CInt(ty, tm.zext(tm.ne(v.w, v.t, 0), 1, 32))
        return CInt(ty, 1 if v else 0)
    t = type(v)
    if t is CInt: return CInt(ty, v.bits(ty.w))
    if t is L: return CInt(ty, int(v))
    if t is SymBool: return CInt(ty, tm.zext(v.t, 1, ty.w))
    i = aspyint(v)
    if i is None:
        if isinstance(v, CPtr): raise Unsupported("pointer to integer")
        ix = getattr(type(v), "__index__", None)
        if ix is None: raise TypeError("an integer is required, got %s" % type(v).__name__)
        i = ix(v)
    lo, hi = (-(1 << (ty.w - 1)), (1 << (ty.w - 1)) - 1) if ty.signed else (0, (1 << ty.w) - 1)
    if type(i) is int:
        if i < lo or i > hi:
            raise OverflowError("value too large to convert to %r" % (ty,) if i > hi else "can't convert negative value to %r" % (ty,))
        return CInt(ty, i)
    if i < lo or i > hi:
        raise OverflowError("value out of range for %r" % (ty,))
    return CInt(ty, tm.ext(i.t, 0, ty.w) if i.w >= ty.w else i.s(ty.w))

def cast_int(ty, v):
    """C cast"""
    t = type(v)
    if t is CFloat:
        return CInt(ty, tm.fptoui(ty.w, v.v, v.ty.w, ty.signed))
    return to_cint(ty, v)

def to_float(ty, v):
    b = fbits(v, ty.w)
    if b is None: raise TypeError("must be real number, not %s" % type(v).__name__)
    return CFloat(ty, b)
