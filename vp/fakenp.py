"""A small symbolic numpy: arrays are byte memory (llsym.Obj) plus an array of offsets."""
import itertools
import numpy
from . import terms as tm
from .cytypes import *
from .cyrt import *
from . import cyrt
from .llsym import Obj, Ptr, load_bits, store_bits, load_value, store_value, Violation
from .ctx import Ctx, Unsupported

# ------------------------------------------------------------------ scalar types
class generic:
    _isarray = True
class number(generic): pass
class integer(number): pass
class unsignedinteger(integer): pass
class signedinteger(integer): pass
class inexact(number): pass
class floating(inexact): pass
class complexfloating(inexact): pass
class bool_(generic):
    _np = numpy.bool_
    ty = None
    def __new__(cls, v=False): return mkbool(tobool(truth(v)))

def truth(v):
    if isinstance(v, (bool, SymBool)): return v
    if isinstance(v, NPInt): return mkbool(tm.ne(v.ty.w, v.v, 0))
    i = aspyint(v)
    if i is not None: return i != 0
    b = fbits(v)
    if b is not None: return mkbool(tm.fcmp("une", 64, b, 0))
    return bool(v)

class NPInt:
    def __init__(self, v=0):
        self.v = conv_bits(type(self)._dt(), v)
    @classmethod
    def raw(cls, bits):
        o = object.__new__(cls); o.v = bits; return o
    @classmethod
    def _dt(cls): return DType(cls._np)
    @property
    def dtype(self): return DType(self._np)
    def _asint(self): return sint(self.v, self.ty.w) if self.ty.signed else uint(self.v, self.ty.w)
    def _fbits(self, w): return i2d(CInt(self.ty, self.v), w)
    def __bool__(self): return bool(truth(self))
    def __index__(self):
        r = self._asint()
        return r if type(r) is int else r.__index__()
    def __int__(self):
        r = self._asint()
        if type(r) is int: return r
        raise Unsupported("int() of symbolic numpy integer")
    def __hash__(self): return hash(self._asint())
    def __repr__(self): return "np.%s(%r)" % (type(self).__name__, self._asint())
    def __str__(self): return str(self._asint())
    shape = (); ndim = 0; size = 1
    def item(self): return self._asint()
    def astype(self, dt): return asarray(self).astype(dt)[()]
    def __neg__(self): return type(self).raw(tm.neg(self.ty.w, self.v))
    def __invert__(self): return type(self).raw(tm.bnot(self.ty.w, self.v))
    def __abs__(self): return self if not self.ty.signed else type(self).raw(tm.ite(tm.slt(self.ty.w, self.v, 0), tm.neg(self.ty.w, self.v), self.v, self.ty.w))
    def view(self, dt): return asarray(self).view(dt)[()]
    def reshape(self, *a): return asarray(self).reshape(*a)

def _mkint(name, w, signed):
    base = signedinteger if signed else unsignedinteger
    t = {(8, True): CHAR, (16, True): SHORT, (32, True): INT, (64, True): LONG, (8, False): UCHAR, (16, False): USHORT,
         (32, False): UINT, (64, False): ULONG}[(w, signed)]
    return type(name, (NPInt, base), {"_np": getattr(numpy, name), "ty": t})
int8 = _mkint("int8", 8, True); int16 = _mkint("int16", 16, True); int32 = _mkint("int32", 32, True); int64 = _mkint("int64", 64, True)
uint8 = _mkint("uint8", 8, False); uint16 = _mkint("uint16", 16, False); uint32 = _mkint("uint32", 32, False); uint64 = _mkint("uint64", 64, False)

class NPFloat(floating):
    """float32 / longdouble scalars (float64 scalars are Python floats)"""
    def __init__(self, v=0.0):
        self.v = fbits(v, self.ty.w)
    @classmethod
    def raw(cls, bits):
        o = object.__new__(cls); o.v = bits; return o
    @property
    def dtype(self): return DType(self._np)
    def _fbits(self, w): return tm.fpconv(self.ty.w, w, self.v)
    shape = (); ndim = 0; size = 1
    nbytes = property(lambda self: self._np(0).nbytes)
    itemsize = nbytes
    def __bool__(self): return bool(mkbool(tm.fcmp("une", self.ty.w, self.v, 0)))
    def __repr__(self): return "np.%s(%s)" % (type(self).__name__, tm.show(self.v, 3) if type(self.v) is not int else hex(self.v))
    def _op(self, name, o, rev=False):
        b = fbits(o, self.ty.w)
        if b is None: return NotImplemented
        x, y = (b, self.v) if rev else (self.v, b)
        return type(self).raw(tm.fbin(name, self.ty.w, x, y))
    def __add__(self, o): return self._op("fadd", o)
    def __mul__(self, o): return self._op("fmul", o)
    def __sub__(self, o): return self._op("fsub", o)
    def __truediv__(self, o): return self._op("fdiv", o)
    def __radd__(self, o): return self._op("fadd", o, True)
    def __rmul__(self, o): return self._op("fmul", o, True)
    def __lt__(self, o): return mkbool(tm.fcmp("olt", self.ty.w, self.v, fbits(o, self.ty.w)))
    def __ge__(self, o): return mkbool(tm.fcmp("oge", self.ty.w, self.v, fbits(o, self.ty.w)))
    def __eq__(self, o):
        b = fbits(o, self.ty.w)
        return mkbool(tm.fcmp("oeq", self.ty.w, self.v, b)) if b is not None else False
    __hash__ = object.__hash__
class float32(NPFloat): _np = numpy.float32; ty = FLOAT
class longdouble(NPFloat): _np = numpy.longdouble; ty = LDOUBLE
class float64(floating):
    _np = numpy.float64; ty = DOUBLE
    def __new__(cls, v=0.0): return mkfloat(fbits(v))
class complex128(complexfloating):
    _np = numpy.complex128; ty = None
    def __new__(cls, v=0.0): return SymComplex.of(v)
class object_(generic): _np = numpy.object_; ty = None
longdouble.restype = None

_BYNP = {numpy.dtype(c._np): c for c in (int8, int16, int32, int64, uint8, uint16, uint32, uint64, float32, float64, longdouble, bool_, complex128, object_)}

class SymComplex:
    _isarray = True
    """complex double: two bit patterns"""
    __slots__ = ("re", "im")
    def __init__(self, re, im): self.re = re; self.im = im
    @staticmethod
    def of(v):
        if isinstance(v, SymComplex): return v
        if isinstance(v, complex): return SymComplex(tm.f2b(v.real), tm.f2b(v.imag))
        return SymComplex(fbits(v), 0)
    @property
    def real(self): return mkfloat(self.re)
    @property
    def imag(self): return mkfloat(self.im)
    def conjugate(self): return SymComplex(self.re, tm.bxor(64, self.im, 1 << 63))
    def _b(self, o):
        if isinstance(o, (complex, SymComplex)) or fbits(o) is not None: return SymComplex.of(o)
        return None
    def __add__(self, o):
        o = self._b(o)
        return NotImplemented if o is None else SymComplex(tm.fbin("fadd", 64, self.re, o.re), tm.fbin("fadd", 64, self.im, o.im))
    __radd__ = __add__
    def __sub__(self, o):
        o = self._b(o)
        return NotImplemented if o is None else SymComplex(tm.fbin("fsub", 64, self.re, o.re), tm.fbin("fsub", 64, self.im, o.im))
    def __rsub__(self, o): return SymComplex.of(o) - self
    def __mul__(self, o):
        o = self._b(o)
        if o is None: return NotImplemented
        f = lambda op, a, b: tm.fbin(op, 64, a, b)
        return SymComplex(f("fsub", f("fmul", self.re, o.re), f("fmul", self.im, o.im)), f("fadd", f("fmul", self.re, o.im), f("fmul", self.im, o.re)))
    __rmul__ = __mul__
    def __repr__(self): return "<complex>"
    def __eq__(self, o):
        o = self._b(o)
        if o is None: return False
        return mkbool(tm.band(1, tm.fcmp("oeq", 64, self.re, o.re), tm.fcmp("oeq", 64, self.im, o.im)))
    __hash__ = object.__hash__

class DType:
    def __init__(self, d):
        if isinstance(d, DType): d = d.np
        elif isinstance(d, type) and issubclass(d, generic) and hasattr(d, "_np"): d = d._np
        elif d is cyrt_int: d = numpy.int64
        elif d is cyrt_float or d is float: d = numpy.float64
        elif d is cyrt_bool: d = numpy.bool_
        elif d is object: d = numpy.object_
        elif d is complex: d = numpy.complex128
        self.np = numpy.dtype(d)
    @property
    def cls(self):
        c = _BYNP.get(self.np)
        if c is None: raise Unsupported("dtype %s" % self.np)
        return c
    type = cls
    @property
    def itemsize(self): return self.np.itemsize
    @property
    def kind(self): return self.np.kind
    @property
    def name(self): return self.np.name
    @property
    def isobj(self): return self.np == numpy.object_
    def __eq__(self, o):
        try:
            return self.np == DType(o).np
        except (TypeError, Unsupported):
            return False
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.np)
    def __str__(self): return str(self.np)
    def __repr__(self): return repr(self.np)

class cyrt_bool_meta(type):
    def __instancecheck__(cls, o): return isinstance(o, (bool, SymBool))
class cyrt_bool(metaclass=cyrt_bool_meta):
    def __new__(cls, v=False): return mkbool(tobool(truth(v)))
class cyrt_int_meta(type):
    def __instancecheck__(cls, o):
        return (isinstance(o, int) or isinstance(o, (SymInt, SymBool))) and not isinstance(o, NPInt)
    def __subclasscheck__(cls, o): return o is int or o is cyrt_int or (isinstance(o, type) and int in o.__mro__)
class cyrt_int(metaclass=cyrt_int_meta):
    def __new__(cls, v=0, *a):
        if a: return int(v, *a)
        if isinstance(v, NDArray):
            if v.size != 1: raise TypeError("only length-1 arrays can be converted to Python scalars")
            v = v.item()
        if isinstance(v, (SymFloat, CFloat, NPFloat)):
            b = fbits(v)
            if type(b) is not int: raise Unsupported("int of symbolic float")
            return int(tm.b2f(b))
        i = aspyint(v)
        if i is not None: return i
        return int(v)
    from_bytes = int.from_bytes
class cyrt_float_meta(type):
    def __instancecheck__(cls, o): return isinstance(o, (float, SymFloat)) and not isinstance(o, NPFloat)
class cyrt_float(metaclass=cyrt_float_meta):
    def __new__(cls, v=0.0):
        if isinstance(v, NDArray): v = v.item()
        b = fbits(v)
        if b is not None: return mkfloat(b)
        return float(v)

def np_to_T(d):
    return DType(d).cls.ty

# ------------------------------------------------------------------ arrays
def is_weak(v):
    """Python scalar (weak promotion)"""
    return isinstance(v, (bool, int, float, complex, SymInt, SymFloat, SymBool, CInt, CFloat)) and not isinstance(v, (NPInt, NPFloat))

class NDArray:
    _isarray = True
    __array_priority__ = 1000
    def __init__(self, obj, dt, off):
        self.obj = obj; self.dt = dt; self.off = off
        self.writeable = True
    # -- basics
    @property
    def dtype(self): return self.dt
    @property
    def shape(self): return tuple(int(x) for x in self.off.shape)
    @shape.setter
    def shape(self, s): self.off = self.off.reshape(toshape(s))
    @property
    def ndim(self): return self.off.ndim
    @property
    def size(self): return int(self.off.size)
    @property
    def itemsize(self): return self.dt.itemsize
    @property
    def nbytes(self): return self.size * self.itemsize
    @property
    def strides(self):
        return tuple(int(self.off.take(1, axis=k).flat[0] - self.off.take(0, axis=k).flat[0]) if n > 1 else 0 for k, n in enumerate(self.off.shape))
    @property
    def flags(self): return Flags(self)
    @property
    def T(self): return NDArray(self.obj, self.dt, self.off.T)
    @property
    def flat(self): return Flat(self)
    @property
    def real(self):
        if self.dt.kind == "c":
            return NDArray(self.obj, DType(numpy.float64), self.off)
        return self
    @property
    def imag(self):
        if self.dt.kind == "c":
            return NDArray(self.obj, DType(numpy.float64), self.off + 8)
        return zeros(self.shape, self.dt)
    def contiguous(self):
        f = self.off.ravel()
        step = 1 if self.dt.isobj else self.itemsize
        return f.size == 0 or bool((numpy.diff(f) == step).all())
    def __len__(self):
        if self.off.ndim == 0: raise TypeError("len() of unsized object")
        return self.off.shape[0]
    def __bool__(self):
        if self.size != 1: raise ValueError("The truth value of an array with more than one element is ambiguous")
        return bool(truth(self.item()))
    def __index__(self):
        return cyrt_int(self.item()).__index__()
    def __iter__(self):
        if self.off.ndim == 0: raise TypeError("iteration over a 0-d array")
        for i in range(self.off.shape[0]):
            yield self[i]
    def _fbits(self, w):
        return fbits(self.item(), w) if self.size == 1 else None
    def __repr__(self): return "array(shape=%s, dtype=%s)" % (self.shape, self.dt)
    __hash__ = object.__hash__
    # -- elements
    def ldo(self, o):
        o = int(o)
        dt = self.dt
        if dt.isobj: return self.obj[o]
        c = dt.cls
        if c is complex128:
            return SymComplex(load_bits(self.obj, o, 8), load_bits(self.obj, o + 8, 8))
        if c is bool_:
            return mkbool(tm.ne(8, load_bits(self.obj, o, 1), 0))
        n = c.ty.size if c is not longdouble else 10
        v = load_bits(self.obj, o, n)
        if c is float64: return mkfloat(v)
        return c.raw(v)
    def sto(self, o, v):
        o = int(o)
        dt = self.dt
        if dt.isobj: self.obj[o] = py(v); return
        c = dt.cls
        if c is complex128:
            v = SymComplex.of(v if not isinstance(v, NDArray) else v.item())
            store_bits(self.obj, o, 8, v.re); store_bits(self.obj, o + 8, 8, v.im); return
        b = conv_bits(dt, v)
        store_bits(self.obj, o, 1 if c is bool_ else 10 if c is longdouble else c.ty.size, b)
    def items(self):
        return [self.ldo(o) for o in self.off.ravel()]
    def item(self, *a):
        if a: return self[a[0] if len(a) == 1 else a]
        if self.size != 1: raise ValueError("can only convert an array of size 1 to a Python scalar")
        v = self.ldo(self.off.ravel()[0])
        return v._asint() if isinstance(v, NPInt) else v
    def tolist(self):
        def go(o):
            if o.ndim == 0:
                v = self.ldo(o[()]); return v._asint() if isinstance(v, NPInt) else v
            return [go(x) for x in o]
        return go(self.off)
    # -- indexing
    def _norm(self, i):
        """-> (index for numpy, is_view) ; symbolic scalar index handled by caller"""
        if isinstance(i, tuple):
            r = [self._norm(x) for x in i]
            return tuple(x for x, _ in r), all(v for _, v in r)
        if isinstance(i, (slice, type(Ellipsis))) or i is None:
            if isinstance(i, slice):
                return slice(*[None if x is None else ix(x) for x in (i.start, i.stop, i.step)]), True
            return i, True
        if isinstance(i, NDArray):
            if i.dt.kind == "b":
                return numpy.array([bool(x) for x in i.items()], dtype=bool).reshape(i.shape), False
            return numpy.array([ix(x) for x in i.items()], dtype=numpy.intp).reshape(i.shape), False
        if isinstance(i, numpy.ndarray): return i, False
        if isinstance(i, list):
            return numpy.array([ix(x) for x in i], dtype=numpy.intp), False
        return ix(i), True
    def _symidx(self, i):
        """symbolic integer index into a 1-d array: term of the wrapped, in-range index"""
        if self.off.ndim != 1 or isinstance(i, (tuple, list, slice, NDArray, numpy.ndarray, type(Ellipsis))) or i is None:
            return None
        i = aspyint(i)
        if type(i) is not SymInt: return None
        n = self.off.shape[0]
        if i < 0: i = i + n
        if i < 0 or i >= n: raise IndexError("index out of bounds")
        i = aspyint(i)
        return cbits(i, 64)
    def __getitem__(self, i):
        s = self._symidx(i)
        if s is not None:
            if type(s) is int: return self.ldo(self.off[s])
            if self.dt.isobj or not self.contiguous(): return self.ldo(self.off[Ctx.cur.choose(s, 64)])
            p = Ptr(self.obj, tm.add(64, int(self.off[0]), tm.mul(64, s, self.itemsize)))
            c = self.dt.cls
            v = load_value(p, self.itemsize, Ctx.cur)
            return mkfloat(v) if c is float64 else mkbool(tm.ne(8, v, 0)) if c is bool_ else c.raw(v)
        i, view = self._norm(i)
        o = self.off[i]
        if not isinstance(o, numpy.ndarray):
            return self.ldo(o)
        r = NDArray(self.obj, self.dt, o)
        return r if view else r.copy()
    def __setitem__(self, i, v):
        s = self._symidx(i)
        if s is not None and type(s) is not int:
            if self.dt.isobj or not self.contiguous() or not self.dt.cls.ty: raise Unsupported("symbolic store")
            p = Ptr(self.obj, tm.add(64, int(self.off[0]), tm.mul(64, s, self.itemsize)))
            store_value(p, self.itemsize, conv_bits(self.dt, v), Ctx.cur)
            return
        i, _ = self._norm(i)
        o = self.off[i]
        if not isinstance(o, numpy.ndarray) or (o.ndim == 0 and not isinstance(v, NDArray)):
            if isinstance(v, NDArray): v = v.item() if not self.dt.isobj else v
            self.sto(o if not isinstance(o, numpy.ndarray) else o[()], v)
            return
        a = asarray(v) if not (is_weak(v)) else None
        if a is None:
            for x in o.ravel(): self.sto(x, v)
            return
        src = numpy.broadcast_to(a.off, o.shape) if a.off.ndim <= o.ndim else numpy.broadcast_to(a.off.reshape(a.off.shape[a.off.ndim - o.ndim:]), o.shape)
        vals = [a.ldo(x) for x in src.ravel()]
        for x, y in zip(o.ravel(), vals):
            self.sto(x, unsafe(self.dt, y))
    # -- views and copies
    def copy(self, order="C"):
        r = empty(self.shape, self.dt)
        if self.dt.isobj:
            for a, b in zip(r.off.ravel(), self.off.ravel()): r.obj[a] = self.obj[b]
        else:
            n = self.itemsize
            for a, b in zip(r.off.ravel(), self.off.ravel()):
                r.obj.cells[a:a + n] = self.obj.cells[b:b + n]
        return r
    __copy__ = copy
    def __deepcopy__(self, memo): return self.copy()
    def reshape(self, *s, order="C"):
        if len(s) == 1 and not isinstance(s[0], (int, CInt, SymInt)): s = s[0]
        s = toshape(s)
        o = self.off.reshape(s)
        if self.contiguous() or True:
            return NDArray(self.obj, self.dt, o)
    def ravel(self): return self.reshape(-1) if self.contiguous() else self.copy().reshape(-1)
    flatten = lambda self: self.copy().reshape(-1)
    def squeeze(self, axis=None): return NDArray(self.obj, self.dt, numpy.squeeze(self.off, axis))
    def transpose(self, *a): return NDArray(self.obj, self.dt, self.off.transpose(*a))
    def view(self, dt=None):
        if dt is None: return NDArray(self.obj, self.dt, self.off)
        dt = DType(dt)
        a, b = self.itemsize, dt.itemsize
        if a == b: return NDArray(self.obj, dt, self.off)
        if self.off.ndim == 0: raise ValueError("Changing the dtype of a 0d array is only supported if the itemsize is unchanged")
        o = self.off
        if o.shape[-1] > 1 and not bool((numpy.diff(o, axis=-1) == a).all()):
            raise ValueError("To change to a dtype of a different size, the last axis must be contiguous")
        if a > b:
            k = a // b
            n = (o[..., :, None] + numpy.arange(k) * b).reshape(o.shape[:-1] + (o.shape[-1] * k,))
        else:
            k = b // a
            if o.shape[-1] % k: raise ValueError("When changing to a larger dtype, its size must be a divisor of the total size in bytes of the last axis of the array.")
            n = o[..., ::k]
        return NDArray(self.obj, dt, n)
    def astype(self, dt, order="K", casting="unsafe", copy=True):
        dt = DType(dt)
        if dt == self.dt: return self.copy() if copy else self
        if casting != "unsafe" and not numpy.can_cast(self.dt.np, dt.np, casting):
            raise TypeError("Cannot cast array data from %s to %s according to the rule '%s'" % (self.dt, dt, casting))
        r = empty(self.shape, dt)
        for o, v in zip(r.off.ravel(), self.items()):
            r.sto(o, unsafe(dt, v))
        return r
    def byteswap(self):
        r = self.copy(); n = self.itemsize
        for o in r.off.ravel():
            r.obj.cells[o:o + n] = r.obj.cells[o:o + n][::-1]
        return r
    def fill(self, v):
        for o in self.off.ravel(): self.sto(o, v)
    def sort(self):
        v = msort(self.items())
        for o, x in zip(self.off.ravel(), v): self.sto(o, x)
    def sum(self, axis=None, **k): return np_sum(self, axis, **k)
    def prod(self, axis=None, **k): return np_prod(self, axis, **k)
    def any(self): return np_any(self)
    def all(self): return np_all(self)
    def max(self): return np_max(self)
    def min(self): return np_min(self)
    def tobytes(self): raise Unsupported("tobytes")
    def conj(self): return umap(self, lambda v: v.conjugate() if isinstance(v, SymComplex) else v, self.dt)
    conjugate = conj

class Flags:
    def __init__(self, a): self.c_contiguous = a.contiguous(); self.writeable = a.writeable; self.contiguous = self.c_contiguous; self.aligned = True
    @property
    def f_contiguous(self): return self.c_contiguous
    def __getitem__(self, k): return {"C_CONTIGUOUS": self.c_contiguous, "WRITEABLE": self.writeable, "ALIGNED": True}[k]

class Flat:
    def __init__(self, a): self.a = NDArray(a.obj, a.dt, a.off.reshape(-1))
    def __getitem__(self, i): return self.a[i]
    def __setitem__(self, i, v): self.a[i] = v
    def __iter__(self): return iter(self.a)
    def __gt__(self, o): return self.a > o
    def __lt__(self, o): return self.a < o
    def __ge__(self, o): return self.a >= o
    def __le__(self, o): return self.a <= o
    def __eq__(self, o): return self.a == o
    def __ne__(self, o): return self.a != o
    __hash__ = None

def ix(x):
    if isinstance(x, (int, numpy.integer)): return int(x)
    return x.__index__()
def toshape(s):
    if isinstance(s, (tuple, list)): return tuple(ix(x) for x in s)
    if isinstance(s, NDArray): return tuple(ix(x) for x in s.items())
    if isinstance(s, (float, str, SymFloat, CFloat, NPFloat)): raise TypeError("expected a sequence of integers or a single integer, got %r" % (s,))
    return (ix(s),)

def conv_bits(dt, v):
    """bits stored into an element of dtype dt (Python integers are range checked)"""
    c = dt.cls; ty = c.ty
    if c is bool_: return tm.zext(tobool(truth(v)), 1, 8)
    if isinstance(v, NDArray): v = v.item() if not isinstance(v.ldo(v.off.ravel()[0]), NPInt) else v.ldo(v.off.ravel()[0])
    if isinstance(ty, TFloat):
        b = fbits(v, ty.w)
        if b is None: raise TypeError("float() argument must be a string or a real number, not %r" % type(v).__name__)
        return b
    if isinstance(v, NPInt):
        # numpy scalar into array: unsafe cast
        return CInt(v.ty, v.v).bits(ty.w)
    if isinstance(v, (float, SymFloat, CFloat, NPFloat)):
        b = fbits(v)
        if type(b) is int and ty.w <= 64:
            return int(tm.b2f(b)) & tm.mask(ty.w)
        return tm.fptoui(ty.w, b, 64, ty.signed)
    try:
        if aspyint(v) is None and not hasattr(type(v), "__index__"):
            raise TypeError("int() argument must be a string, a bytes-like object or a real number, not %r" % type(v).__name__)
        return to_cint(ty, v).v
    except OverflowError:
        raise OverflowError("Python integer out of bounds for %s" % dt)

def unsafe(dt, v):
    """astype(casting='unsafe') of one element (C semantics for numbers)"""
    if dt.isobj: return v._asint() if isinstance(v, NPInt) else v
    c = dt.cls
    if c is bool_ or c is complex128: return v
    if isinstance(c.ty, TInt):
        if isinstance(v, SymComplex): v = v.real
        if isinstance(v, (bool, SymBool)): return v
        # object elements go through int() with a range check
    return v

# ------------------------------------------------------------------ creation
def empty(shape, dtype=numpy.float64, order="C"):
    shape = toshape(shape); dt = DType(dtype)
    if any(x < 0 for x in shape): raise ValueError("negative dimensions are not allowed")
    n = 1
    for x in shape: n *= x
    if n > 1 << 22: raise Limit("array too large")
    if dt.isobj:
        return NDArray([None] * n, dt, numpy.arange(n, dtype=numpy.intp).reshape(shape))
    o = Obj("array(%s,%s)" % (",".join(map(str, shape)), dt), n * dt.itemsize)
    return NDArray(o, dt, (numpy.arange(n, dtype=numpy.intp) * dt.itemsize).reshape(shape))
def zeros(shape, dtype=numpy.float64, order="C"):
    a = empty(shape, dtype)
    if a.dt.isobj: a.obj[:] = [0] * len(a.obj)
    else: a.obj.cells[:] = [0] * a.obj.size
    return a
def ones(shape, dtype=numpy.float64):
    a = empty(shape, dtype); a.fill(1); return a
def full(shape, v, dtype=None):
    if dtype is None: dtype = asarray(v).dt
    a = empty(shape, dtype); a.fill(v); return a
def empty_like(a, dtype=None): a = asarray(a); return empty(a.shape, dtype if dtype is not None else a.dt)
def zeros_like(a, dtype=None): a = asarray(a); return zeros(a.shape, dtype if dtype is not None else a.dt)
def ones_like(a, dtype=None): a = asarray(a); return ones(a.shape, dtype if dtype is not None else a.dt)

def _infer(vals):
    """dtype of a list of scalars"""
    dts = []
    for v in vals:
        if isinstance(v, (NPInt, NPFloat)): dts.append(v._np)
        elif isinstance(v, (bool, SymBool)): dts.append(numpy.bool_)
        elif isinstance(v, (float, SymFloat, CFloat)): dts.append(numpy.float64)
        elif isinstance(v, (complex, SymComplex)): dts.append(numpy.complex128)
        elif aspyint(v) is not None:
            i = aspyint(v)
            if -(1 << 63) <= i < (1 << 63): dts.append(numpy.int64)
            elif 0 <= i < (1 << 64): dts.append(numpy.uint64)
            else: return numpy.object_
        elif isinstance(v, str): return numpy.dtype("U%d" % max(len(v), 1))
        else: return numpy.object_
    if not dts: return numpy.float64
    return numpy.result_type(*dts) if len(dts) > 1 else dts[0]

def _walk(v):
    """nested sequence -> (shape, flat list)"""
    if isinstance(v, View): v = v.a
    if isinstance(v, NDArray): return v.shape, v.items()
    if isinstance(v, numpy.ndarray): return v.shape, [real_scalar(x) for x in v.ravel().tolist()]
    if isinstance(v, (list, tuple, range)):
        subs = [_walk(x) for x in v]
        if not subs: return (0,), []
        if any(s[0] != subs[0][0] for s in subs): raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return (len(subs),) + subs[0][0], [y for s in subs for y in s[1]]
    return (), [v]
def real_scalar(x): return x

class StrArray(NDArray):
    pass

def array(v, dtype=None, copy=True, ndmin=0, order=None):
    if isinstance(v, View): v = v.a
    if isinstance(v, NDArray):
        if dtype is None or DType(dtype) == v.dt: return v.copy() if copy else v
        return v.astype(dtype)
    if isinstance(v, numpy.generic): v = v.item() if not isinstance(v, numpy.integer) else getattr(_MOD, v.dtype.name)(int(v))
    if isinstance(v, numpy.ndarray):
        r = array(v.tolist(), dtype=dtype if dtype is not None else v.dtype); return r
    if dtype is not None and DType(dtype).isobj and not isinstance(v, (list, tuple)):
        a = empty((), object); a.obj[0] = py(v); return a
    shape, flat = _walk(v)
    flat = [py(x) for x in flat]
    dt = DType(dtype) if dtype is not None else DType(_infer(flat))
    if dt.kind == "U":
        a = empty(shape, object); a.obj[:] = flat; a.dt = dt
        return a
    a = empty(shape, dt)
    for o, x in zip(a.off.ravel(), flat):
        if isinstance(x, str): raise ValueError("could not convert string")
        if x is None and not dt.isobj:
            if dt.kind == "f": x = float("nan")
            else: raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'NoneType'")
        if isinstance(x, NPInt) and not dt.isobj and False: pass
        a.sto(o, x if not isinstance(x, NPInt) or not dt.isobj else x._asint())
    return a
def asarray(v, dtype=None, order=None):
    return array(v, dtype, copy=False)
def ascontiguousarray(v, dtype=None):
    a = asarray(v, dtype)
    if a.ndim == 0: a = a.reshape(1)
    return a if a.contiguous() else a.copy()
def arange(*a, dtype=None):
    r = range(*[ix(x) for x in a])
    return array(list(r), dtype=dtype if dtype is not None else numpy.int64)
def eye(n, dtype=numpy.float64):
    a = zeros((n, n), dtype)
    for i in range(ix(n)): a[i, i] = 1
    return a
def concatenate(seq, axis=0):
    arrs = [asarray(x) for x in seq]
    dt = arrs[0].dt if len(arrs) == 1 else DType(numpy.result_type(*[x.dt.np for x in arrs]))
    axis = ix(axis)
    total = numpy.concatenate([numpy.zeros(x.shape) for x in arrs], axis=axis).shape
    r = empty(total, dt); k = 0
    for x in arrs:
        sl = [slice(None)] * len(total); n = x.shape[axis]
        sl[axis] = slice(k, k + n); k += n
        if n: r[tuple(sl)] = x
    return r

# ------------------------------------------------------------------ ufuncs
def umap(a, f, dt):
    a = asarray(a)
    r = empty(a.shape, dt)
    for o, v in zip(r.off.ravel(), a.items()): r.sto(o, f(v))
    return r[()] if a.ndim == 0 else r

def _rt(a, b, A, B):
    def d(x, X):
        if is_weak(x):
            return 0 if not isinstance(x, (float, complex, SymFloat, CFloat)) and not isinstance(x, (bool, SymBool)) else (False if isinstance(x, (bool, SymBool)) else 0.0 if not isinstance(x, complex) else 0j)
        return X.dt.np
    da, db = d(a, A), d(b, B)
    if isinstance(da, bool): da = numpy.dtype(bool)
    if isinstance(db, bool): db = numpy.dtype(bool)
    if not isinstance(da, numpy.dtype) and not isinstance(db, numpy.dtype):
        return numpy.result_type(A.dt.np, B.dt.np)
    return numpy.result_type(da, db)

_CMP = ("eq", "ne", "lt", "le", "gt", "ge")
def cmp_scalar(name, x, y):
    ix_, iy = aspyint(x), aspyint(y)
    if ix_ is not None and iy is not None:
        return icmp(name, ix_, iy)
    fx, fy = fbits(x), fbits(y)
    if fx is not None and fy is not None:
        return mkbool(tm.fcmp({"eq": "oeq", "ne": "une", "lt": "olt", "le": "ole", "gt": "ogt", "ge": "oge"}[name], 64, fx, fy))
    if isinstance(x, SymComplex) or isinstance(y, SymComplex):
        r = SymComplex.of(x) == SymComplex.of(y)
        return r if name == "eq" else lnot(r)
    import operator
    return getattr(operator, name)(x, y)

def _ffloor(w, b):
    """x // 1.0"""
    if type(b) is int:
        if w != 64: raise Unsupported("floor of a float")
        import math
        f = tm.b2f(b)
        return tm.f2b(float("nan") if math.isinf(f) else f if math.isnan(f) or f == 0 else float(math.floor(f)))
    if b.op in ("uitofp", "sitofp") or b.op == "dy" and tm._asdy(w, b)[1] >= 0: return b
    raise Unsupported("floor of a symbolic float")

def bin_scalar(name, dt, x, y):
    """x op y in dtype dt"""
    if dt.isobj:
        import operator
        x = x._asint() if isinstance(x, NPInt) else x; y = y._asint() if isinstance(y, NPInt) else y
        return _OPS[name](x, y)
    c = dt.cls
    if c is complex128:
        x, y = SymComplex.of(x), SymComplex.of(y)
        return {"add": x.__add__, "sub": x.__sub__, "mul": x.__mul__}[name](y)
    if c is bool_:
        a, b = tobool(truth(x)), tobool(truth(y))
        return mkbool({"and": tm.band, "or": tm.bor, "xor": tm.bxor, "add": tm.bor, "mul": tm.band}[name](1, a, b))
    ty = c.ty; w = ty.w
    if isinstance(ty, TFloat) and name == "floordiv":
        if w != 64 or fbits(y) != tm.f2b(1.0): raise Unsupported("floor division of floats")
        v = _ffloor(w, fbits(x, w))
        return mkfloat(v) if c is float64 else c.raw(v)
    if isinstance(ty, TFloat):
        v = tm.fbin({"add": "fadd", "sub": "fsub", "mul": "fmul", "truediv": "fdiv"}[name], w, fbits(x, w), fbits(y, w))
        return mkfloat(v) if c is float64 else c.raw(v)
    a, b = conv_bits(dt, x), conv_bits(dt, y)
    if name == "add": v = tm.add(w, a, b)
    elif name == "sub": v = tm.sub(w, a, b)
    elif name == "mul": v = tm.mul(w, a, b)
    elif name == "and": v = tm.band(w, a, b)
    elif name == "or": v = tm.bor(w, a, b)
    elif name == "xor": v = tm.bxor(w, a, b)
    elif name in ("lshift", "rshift"):
        big = tm.ule(w, w, b)
        sh = tm.shl(w, a, b) if name == "lshift" else (tm.ashr(w, a, b) if ty.signed else tm.lshr(w, a, b))
        v = tm.ite(big, 0 if not ty.signed or name == "lshift" else tm.ashr(w, a, w - 1), sh, w) if type(b) is not int else (sh if b < w else 0)
    elif name in ("floordiv", "mod"):
        z = tm.eq(w, b, 0)
        x2 = CInt(ty, a)._asint(); y2 = CInt(ty, b)._asint()
        if br(z): return c.raw(0)
        r = py_binop(name, x2, y2)
        v = cbits(r, w)
    elif name == "pow":
        if type(b) is not int: raise Unsupported("symbolic power")
        v = 1
        for _ in range(b): v = tm.mul(w, v, a)
    else:
        raise Unsupported("ufunc " + name)
    return c.raw(v)

_OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "lshift": lambda a, b: a << b,
        "rshift": lambda a, b: a >> b, "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b,
        "floordiv": lambda a, b: a // b, "mod": lambda a, b: a % b, "pow": lambda a, b: a ** b, "truediv": lambda a, b: a / b,
        "eq": lambda a, b: a == b}

def ufunc2(name, a, b, out=None):
    if isinstance(a, View): a = a.a
    if isinstance(b, View): b = b.a
    if isinstance(a, (str, dict)) or isinstance(b, (str, dict)) or a is None or b is None:
        if name in _CMP: return name == "ne"
        raise TypeError("unsupported operand")
    A, B = asarray(py(a)), asarray(py(b))
    oa, ob = numpy.broadcast_arrays(A.off, B.off)
    scal = oa.ndim == 0
    if name in _CMP:
        r = empty(oa.shape, numpy.bool_)
        wa, wb = is_weak(a), is_weak(b)
        for o, x, y in zip(r.off.ravel(), oa.ravel(), ob.ravel()):
            v = cmp_scalar(name, a if wa else A.ldo(x), b if wb else B.ldo(y))
            if scal: return v if isinstance(v, (bool, SymBool)) else bool(v)
            r.sto(o, v)
        return r
    rt = DType(_rt(a, b, A, B))
    if name == "truediv" and rt.kind in "iub": rt = DType(numpy.float64)
    r = out if out is not None else empty(oa.shape, rt)
    wa, wb = is_weak(a), is_weak(b)
    for o, x, y in zip(r.off.ravel(), oa.ravel(), ob.ravel()):
        v = bin_scalar(name, rt, a if wa else A.ldo(x), b if wb else B.ldo(y))
        if scal and out is None and not isinstance(a, NDArray) and not isinstance(b, NDArray): return v
        if scal and out is None: return v
        r.sto(o, v)
    return r
def _mkops(cls):
    for n in list(_OPS):
        if n == "eq": continue
        setattr(cls, "__%s__" % n, (lambda n: lambda s, o: _guard(n, s, o))(n))
        setattr(cls, "__r%s__" % n, (lambda n: lambda s, o: _guard(n, o, s))(n))
    for n in _CMP:
        setattr(cls, "__%s__" % n, (lambda n: lambda s, o: ufunc2(n, s, o))(n))
def _guard(n, a, b):
    if isinstance(a, (list, tuple)) and n == "mul" and isinstance(b, NPInt): return a * ix(b)
    if isinstance(b, (list, tuple)) and n == "mul" and isinstance(a, NPInt): return b * ix(a)
    return ufunc2(n, a, b)
_mkops(NDArray); _mkops(NPInt)
def _iop(name):
    def f(self, o):
        r = ufunc2(name, self, o)
        if isinstance(r, NDArray) and r.dt != self.dt and not numpy.can_cast(r.dt.np, self.dt.np, "same_kind"):
            raise TypeError("Cannot cast ufunc output")
        if not isinstance(r, NDArray): r = asarray(r)
        if r.shape != self.shape: raise ValueError("non-broadcastable output operand")
        for x, y in zip(self.off.ravel(), r.off.ravel()): self.sto(x, unsafe(self.dt, r.ldo(y)))
        return self
    return f
for _n in ("add", "sub", "mul", "floordiv", "mod", "lshift", "rshift", "and", "or", "xor", "truediv"):
    setattr(NDArray, "__i%s__" % _n, _iop(_n))
def _neg(a):
    if a.dt.isobj: return umap(a, lambda v: -v, a.dt)
    c = a.dt.cls
    if isinstance(c.ty, TFloat):
        return umap(a, lambda v: -v, a.dt)
    return umap(a, lambda v: -v, a.dt)
NDArray.__neg__ = _neg
NDArray.__invert__ = lambda a: umap(a, (lambda v: lnot(v)) if a.dt.kind == "b" else (lambda v: ~v), a.dt)
NDArray.__matmul__ = lambda a, b: matmul(a, b)
NDArray.__abs__ = lambda a: umap(a, abs, a.dt)

def np_all(a, axis=None):
    if isinstance(a, (bool, SymBool)): return a
    t = 1
    for v in asarray(a).items(): t = tm.band(1, t, tobool(truth(v)))
    return mkbool(t)
def np_any(a, axis=None):
    if isinstance(a, (bool, SymBool)): return a
    t = 0
    for v in asarray(a).items(): t = tm.bor(1, t, tobool(truth(v)))
    return mkbool(t)
def _reduce(a, name, axis, start):
    a = asarray(a)
    dt = a.dt
    if dt.kind in "iub" and not dt.isobj:
        dt = DType(numpy.uint64 if dt.kind == "u" else numpy.int64)
    if axis is None:
        its = a.items()
        r = dt.cls.raw(start) if dt.kind in "iu" else start
        for v in its: r = bin_scalar(name, dt, r, v) if not (r is start and dt.kind not in "iu") else (v if True else r)
        return r
    offs = numpy.moveaxis(a.off, ix(axis), 0)
    cols = offs.reshape(offs.shape[0], -1)
    r = empty(offs.shape[1:], dt)
    for k, o in enumerate(r.off.ravel()):
        v = None
        for j in range(cols.shape[0]):
            x = a.ldo(cols[j, k]); v = x if v is None else bin_scalar(name, dt, v, x)
        r.sto(o, start if v is None else v)
    return r
def np_sum(a, axis=None, **k): return _reduce(a, "add", axis, 0)
def np_prod(a, axis=None, **k): return _reduce(a, "mul", axis, 1)
def np_max(a, axis=None):
    its = asarray(a).items()
    if not its: raise ValueError("zero-size array to reduction operation maximum which has no identity")
    m = its[0]
    for v in its[1:]:
        if cmp_scalar("lt", m, v): m = v
    return m
def np_min(a, axis=None):
    its = asarray(a).items()
    if not its: raise ValueError("zero-size array")
    m = its[0]
    for v in its[1:]:
        if cmp_scalar("lt", v, m): m = v
    return m
def np_abs(a):
    if is_weak(a): return abs(py(a))
    a = asarray(a)
    if a.dt.kind == "f":
        def f(v):
            if isinstance(v, float): return abs(v)
            if isinstance(v, SymFloat): return abs(v)
            return type(v).raw(tm.band(v.ty.w, v.v, tm.mask(v.ty.w - 1)))
        return umap(a, f, a.dt)
    return umap(a, abs, a.dt)

def msort(vals):
    r = []
    for v in vals:
        k = len(r)
        while k > 0 and cmp_scalar("lt", v, r[k - 1]): k -= 1
        r.insert(k, v)
    return r

def argsort(a):
    a = asarray(a); idx = []
    its = a.items()
    for i, v in enumerate(its):
        k = len(idx)
        while k > 0 and cmp_scalar("lt", v, its[idx[k - 1]]): k -= 1
        idx.insert(k, i)
    return array(idx, dtype=numpy.int64)

def unique(a, return_index=False):
    a = asarray(a); its = a.items()
    vals = []; idx = []
    for i, v in enumerate(its):
        k = 0; dup = False
        while k < len(vals):
            if cmp_scalar("eq", vals[k], v): dup = True; break
            if cmp_scalar("lt", v, vals[k]): break
            k += 1
        if not dup:
            vals.insert(k, v); idx.insert(k, i)
    r = array(vals, dtype=a.dt)
    return (r, array(idx, dtype=numpy.int64)) if return_index else r

def matmul(a, b, out=None):
    if out is not None:
        r = matmul(a, b)
        if not isinstance(r, NDArray) or out.ndim < r.ndim or numpy.broadcast_shapes(r.shape, out.shape) != out.shape: raise ValueError("matmul: output operand mismatch")
        out[...] = r
        return out
    a, b = asarray(a), asarray(b)
    A, B = a.off, b.off
    va = A.ndim == 1; vb = B.ndim == 1
    if va: A = A[None, :]
    if vb: B = B[:, None]
    if A.ndim == 0 or B.ndim == 0: raise ValueError("matmul: Input operand does not have enough dimensions")
    if A.shape[-1] != B.shape[-2]: raise ValueError("matmul: mismatch in core dimension")
    bs = numpy.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = numpy.broadcast_to(A, bs + A.shape[-2:]); B = numpy.broadcast_to(B, bs + B.shape[-2:])
    dt = DType(numpy.result_type(a.dt.np, b.dt.np))
    r = empty(bs + (A.shape[-2], B.shape[-1]), dt)
    for i in numpy.ndindex(*bs):
        for p in range(A.shape[-2]):
            for q in range(B.shape[-1]):
                v = None
                for k in range(A.shape[-1]):
                    x = bin_scalar("mul", dt, a.ldo(A[i][p, k]), b.ldo(B[i][k, q]))
                    v = x if v is None else bin_scalar("add", dt, v, x)
                r.sto(r.off[i][p, q], 0 if v is None else v)
    o = r.off
    if va: o = o[..., 0, :]
    if vb: o = o[..., 0] if not va else o[..., 0]
    return NDArray(r.obj, dt, o) if o.ndim else r.ldo(o[()] if isinstance(o, numpy.ndarray) else o)
def dot(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim <= 2 and b.ndim <= 2 and a.ndim and b.ndim: return matmul(a, b)
    if a.ndim == 0 or b.ndim == 0: return ufunc2("mul", a, b)
    if b.ndim == 1: return matmul(a, b)
    r = [matmul(a, NDArray(b.obj, b.dt, b.off[i])) for i in numpy.ndindex(*b.shape[:-2])]
    raise Unsupported("dot of %d-d arrays" % b.ndim)

def issubdtype(a, b):
    A = a.np if isinstance(a, DType) else a._np if hasattr(a, "_np") else a
    B = {number: numpy.number, integer: numpy.integer, unsignedinteger: numpy.unsignedinteger, signedinteger: numpy.signedinteger,
         inexact: numpy.inexact, floating: numpy.floating, complexfloating: numpy.complexfloating}.get(b)
    if B is None: B = DType(b).np
    return bool(numpy.issubdtype(A, B))
def iinfo(d):
    return numpy.iinfo(DType(d).np)
def isscalar(v): return not isinstance(v, (NDArray, View, list, tuple)) and v is not None
def shape(a): return asarray(a).shape
def atleast_1d(a):
    a = asarray(a)
    return a.reshape(1) if a.ndim == 0 else a
def squeeze(a, axis=None): return asarray(a).squeeze(axis)
def reshape(a, s): return asarray(a).reshape(s)
def swapaxes(a, i, j):
    a = asarray(a); return NDArray(a.obj, a.dt, a.off.swapaxes(ix(i), ix(j)))
def transpose(a, axes=None): return asarray(a).transpose(axes) if axes is not None else asarray(a).T

class View:
    """typed memoryview over an array"""
    _isarray = True
    def __init__(self, ty, a): self.ty = ty; self.a = a
    @property
    def shape(self): return tuple(CInt(SSIZE, x) for x in self.a.shape)
    @property
    def size(self): return self.a.size
    def __len__(self): return self.a.shape[0]
    def ptr(self, i):
        a = self.a; n = a.shape[0]
        if isinstance(i, tuple): raise Unsupported("multi-dimensional memoryview")
        if type(i) is CInt: v = i.bits(64)
        else: v = cbits(i, 64)
        if type(v) is not int and type(v) is not tm.T: raise Unsupported("view index")
        es = self.ty.el.size
        if type(v) is int:
            if v >= n: raise Violation("out-of-bounds access", "index %d of a memoryview of length %d" % (sgn(v, 64), n))
            return Ptr(a.obj, int(a.off[v]))
        if br(tm.ule(64, n, v)):
            raise Violation("out-of-bounds access", "symbolic index into a memoryview of length %d" % n)
        if not a.contiguous(): raise Unsupported("strided memoryview")
        return Ptr(a.obj, tm.add(64, int(a.off[0]) if n else 0, tm.mul(64, v, es)))
    def __iter__(self): return iter(self.a)
    def __getitem__(self, i):
        if isinstance(i, slice): return View(self.ty, self.a[i])
        return cyrt.WORLD.ld(self.ty.el, self.ptr(i))
    def __setitem__(self, i, v):
        if isinstance(i, slice):
            self.a[i] = v; return
        cyrt.WORLD.st(self.ty.el, self.ptr(i), v)

class NumpyModule:
    """the `np` seen by transpiled code"""
_MOD = NumpyModule()
for _k, _v in dict(ndarray=NDArray, dtype=DType, generic=generic, number=number, integer=integer, unsignedinteger=unsignedinteger,
                   inexact=inexact, floating=floating, bool_=bool_, int8=int8, int16=int16, int32=int32, int64=int64, uint8=uint8, uint16=uint16,
                   uint32=uint32, uint64=uint64, uint=uint64, float32=float32, float64=float64, double=float64, longdouble=longdouble,
                   complex128=complex128, object_=object_, empty=empty, zeros=zeros, ones=ones, full=full, empty_like=empty_like,
                   zeros_like=zeros_like, ones_like=ones_like, array=array, asarray=asarray, ascontiguousarray=ascontiguousarray, arange=arange, eye=eye,
                   concatenate=concatenate, all=np_all, any=np_any, sum=np_sum, prod=np_prod, max=np_max, min=np_min, abs=np_abs,
                   argsort=argsort, unique=unique, matmul=matmul, dot=dot, issubdtype=issubdtype, iinfo=iinfo, isscalar=isscalar, shape=shape,
                   atleast_1d=atleast_1d, squeeze=squeeze, reshape=reshape, transpose=transpose, swapaxes=swapaxes, newaxis=None, inf=float("inf"), nan=float("nan"),
                   ndindex=lambda *a: numpy.ndindex(*(toshape(a[0]) if len(a) == 1 and isinstance(a[0], (tuple, list)) else toshape(a))),
                   finfo=lambda d: numpy.finfo(DType(d).np), less=lambda a, b: ufunc2("lt", a, b), less_equal=lambda a, b: ufunc2("le", a, b),
                   greater=lambda a, b: ufunc2("gt", a, b), greater_equal=lambda a, b: ufunc2("ge", a, b), not_equal=lambda a, b: ufunc2("ne", a, b),
                   logical_not=lambda a: umap(a, lambda v: lnot(truth(v)), numpy.bool_) if isinstance(a, NDArray) else lnot(truth(a)),
                   logical_and=lambda a, b: ufunc2("and", umap(a, truth, numpy.bool_), umap(b, truth, numpy.bool_)),
                   pi=numpy.pi).items():
    setattr(_MOD, _k, _v)

# ------------------------------------------------------------------ C API and the rest
def _data(a):
    if not isinstance(a, NDArray): raise TypeError("Cannot convert %s to numpy.ndarray" % type(a).__name__)
    if a.dt.isobj: raise Unsupported("data pointer of an object array")
    f = a.off.ravel()
    return CPtr(VOID, Ptr(a.obj, int(f[0]) if f.size else 0), cyrt.WORLD)

class MultiIter:
    def __init__(self, *arrs):
        self.arrs = [asarray(a) for a in arrs]
        self.offs = numpy.broadcast_arrays(*[a.off for a in self.arrs])
        self.shape = tuple(int(x) for x in self.offs[0].shape)
        self.nd = len(self.shape); self.size = int(self.offs[0].size); self.i = 0
        self.offs = [o.ravel() for o in self.offs]
    def data(self, k):
        if self.i >= self.size: return CPtr(VOID, Ptr(Obj("past the end of a broadcast", 0), 0), cyrt.WORLD)
        return CPtr(VOID, Ptr(self.arrs[k].obj, int(self.offs[k][self.i])), cyrt.WORLD)
    def __iter__(self):
        for i in range(self.size):
            yield tuple(a.ldo(o[i]) for a, o in zip(self.arrs, self.offs))
def _mi(*a): return MultiIter(*a)
def _mi_data(it, k): return it.data(ix(k))
def _mi_next(it): it.i += 1
def _from_otf(v, typ, flags=0):
    t = {12: numpy.float64, 15: numpy.complex128, 7: numpy.int64, 11: numpy.float32}[int(typ)]
    a = asarray(v)
    if a.dt.isobj or not numpy.can_cast(a.dt.np, numpy.dtype(t), "safe") and not (is_weak(v)):
        if not numpy.can_cast(a.dt.np, numpy.dtype(t), "same_kind") or a.dt.kind not in "iufcb":
            raise TypeError("Cannot cast array data from %s to %s according to the rule 'safe'" % (a.dt, numpy.dtype(t)))
        if not numpy.can_cast(a.dt.np, numpy.dtype(t), "safe"):
            raise TypeError("Cannot cast array data from %s to %s according to the rule 'safe'" % (a.dt, numpy.dtype(t)))
    return a.astype(t, copy=False)
def _dims(a):
    o = Obj("dims", 8 * max(a.off.ndim, 1), 0)
    for i, x in enumerate(a.shape): store_bits(o, 8 * i, 8, x)
    return CPtr(SSIZE, Ptr(o, 0), cyrt.WORLD)
def _simplenew(nd, dims, typ):
    sh = [dims.get(L(i)).__index__() for i in range(ix(nd))]
    return empty(sh, {12: numpy.float64}[int(typ)])
def _isnan1(v):
    v = py(v)
    if isinstance(v, (SymComplex, complex)):
        v = SymComplex.of(v); return mkbool(tm.bor(1, tm.fcmp("uno", 64, v.re, v.re), tm.fcmp("uno", 64, v.im, v.im)))
    w = v.ty.w if isinstance(v, NPFloat) else 64
    b = fbits(v, w)
    return mkbool(tm.fcmp("uno", w, b, b))
def _signbit1(v):
    w = v.ty.w if isinstance(v, NPFloat) else 64
    b = fbits(py(v), w)
    return mkbool(tm.ext(b, w - 1, 1))
def _u1(f):
    def g(a):
        a = py(a)
        if isinstance(a, (NDArray, View, list, tuple)): return umap(asarray(a), f, numpy.bool_)
        return f(a)
    return g
def _sqrt1(v):
    w = v.ty.w if isinstance(v, NPFloat) else 64
    b = fbits(py(v), w)
    if type(b) is int and w == 64:
        import math
        f = tm.b2f(b); return math.sqrt(f) if f >= 0 else float("nan")
    r = tm.uf("sqrt%d" % w, w, b)
    return mkfloat(r) if w == 64 else type(v).raw(r)
def np_sqrt(a):
    a = py(a)
    if isinstance(a, (NDArray, View, list, tuple)):
        a = asarray(a); return umap(a, _sqrt1, a.dt if a.dt.kind == "f" else numpy.float64)
    return _sqrt1(a)
def np_real(a):
    a = py(a)
    if isinstance(a, (SymComplex, complex)): return mkfloat(SymComplex.of(a).re)
    return asarray(a).real
def np_imag(a):
    a = py(a)
    if isinstance(a, (SymComplex, complex)): return mkfloat(SymComplex.of(a).im)
    return asarray(a).imag
def broadcast_to(a, shape):
    a = asarray(a)
    return NDArray(a.obj, a.dt, numpy.broadcast_to(a.off, toshape(shape)))
def triu(a):
    a = asarray(a).copy()
    o = a.off
    for i in range(o.shape[-2]):
        for j in range(min(i, o.shape[-1])):
            for x in numpy.ravel(o[..., i, j]): a.sto(x, 0)
    return a
def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    A, B = asarray(a), asarray(b)
    oa, ob = numpy.broadcast_arrays(A.off, B.off)
    for x, y in zip(oa.ravel(), ob.ravel()):
        x, y = A.ldo(x), B.ldo(y)
        if isinstance(x, SymComplex) or isinstance(y, SymComplex): raise Unsupported("allclose of complex")
        if not bool(abs(x - y) <= atol + rtol * abs(y)): return False
    return True
def ix_grid(*args):
    out = []
    n = len(args)
    for k, a in enumerate(args):
        a = numpy.array([ix(v) for v in a])
        out.append(a.reshape([1] * k + [-1] + [1] * (n - k - 1)))
    return tuple(array(o.tolist(), dtype=numpy.int64) for o in out)
class errstate:
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
for _k, _v in dict(import_array=lambda: None, PyArray_DATA=_data, PyArray_SIZE=lambda a: CInt(LONG, a.size), PyArray_NDIM=lambda a: CInt(INT, a.ndim),
                   PyArray_DIMS=_dims, PyArray_ISCARRAY=lambda a: a.contiguous() and a.writeable, PyArray_ISFARRAY=lambda a: a.contiguous() and a.ndim <= 1 and a.writeable,
                   PyArray_SimpleNew=_simplenew, PyArray_MultiIterNew2=_mi, PyArray_MultiIterNew3=_mi, PyArray_MultiIterNew4=_mi,
                   PyArray_MultiIterNew5=_mi, PyArray_MultiIter_DATA=_mi_data, PyArray_MultiIter_NEXT=_mi_next, PyArray_FROM_OTF=_from_otf,
                   PyArray_FROMANY=lambda a, t, lo, hi, fl: _from_otf(a, t), NPY_DOUBLE=12, NPY_INT64=7, NPY_FLOAT32=11, NPY_COMPLEX128=15,
                   NPY_CDOUBLE=15, NPY_ARRAY_ALIGNED=256, NPY_ARRAY_C_CONTIGUOUS=1, broadcast=MultiIter, isnan=_u1(_isnan1), signbit=_u1(_signbit1),
                   isreal=_u1(lambda v: True if not isinstance(v, (SymComplex, complex)) else mkbool(tm.fcmp("oeq", 64, SymComplex.of(v).im, 0))),
                   sqrt=np_sqrt, real=np_real, imag=np_imag, triu=triu, allclose=allclose, broadcast_to=broadcast_to, ix_=ix_grid, errstate=errstate,
                   linalg=type("linalg", (), {"LinAlgError": numpy.linalg.LinAlgError})).items():
    setattr(_MOD, _k, _v)
