"""C types as declared in Cython sources."""

class CT:
    k = "?"
    def __repr__(self):
        return self.k

class TInt(CT):
    k = "int"
    def __init__(self, w, signed, name="", isbool=False):
        self.w = w; self.signed = signed; self.name = name; self.isbool = isbool
        self.size = w // 8
    def __repr__(self):
        return self.name or ("i" if self.signed else "u") + str(self.w)

class TFloat(CT):
    k = "float"
    def __init__(self, w, size, name):
        self.w = w; self.size = size; self.name = name
    def __repr__(self):
        return self.name

class TComplex(CT):
    k = "complex"; size = 16

class TPtr(CT):
    k = "ptr"; size = 8
    def __init__(self, to):
        self.to = to
    def __repr__(self):
        return "%r*" % (self.to,)

class TArr(CT):
    k = "arr"
    def __init__(self, el, n):
        self.el = el; self.n = n
    @property
    def size(self):
        return self.el.size * self.n

class TStruct(CT):
    k = "struct"
    def __init__(self, name, cname, fields, union=False):
        self.name = name; self.cname = cname; self.fields = fields      # name -> CT
        self.union = union; self.layout = None; self.size = None; self.csize = {}
    def __repr__(self):
        return "struct " + self.name

class TFunc(CT):
    k = "func"; size = 1
    def __init__(self, ret, args, names=()):
        self.ret = ret; self.args = args; self.names = names; self.ext = None

class TVoid(CT):
    k = "void"; size = 1

class TObj(CT):
    k = "obj"; size = 8
    def __init__(self, cls=None):
        self.cls = cls
    def __repr__(self):
        return "object" if self.cls is None else self.cls

class TView(CT):
    k = "view"
    def __init__(self, el, ndim):
        self.el = el; self.ndim = ndim

VOID = TVoid(); OBJ = TObj()
CHAR = TInt(8, True, "char"); SHORT = TInt(16, True, "short"); INT = TInt(32, True, "int")
LONG = TInt(64, True, "long"); LONGLONG = TInt(64, True, "long long")
UCHAR = TInt(8, False, "uchar"); USHORT = TInt(16, False, "ushort"); UINT = TInt(32, False, "uint")
ULONG = TInt(64, False, "ulong")
FLOAT = TFloat(32, 4, "float"); DOUBLE = TFloat(64, 8, "double"); LDOUBLE = TFloat(80, 16, "long double")
BINT = TInt(32, True, "bint", True)
SSIZE = TInt(64, True, "Py_ssize_t"); SIZE = TInt(64, False, "size_t")
BASIC = {
    "void": VOID, "char": CHAR, "short": SHORT, "int": INT, "long": LONG, "float": FLOAT, "double": DOUBLE,
    "bint": BINT, "Py_ssize_t": SSIZE, "size_t": SIZE, "ssize_t": SSIZE, "object": OBJ,
    "int8_t": CHAR, "int16_t": SHORT, "int32_t": INT, "int64_t": LONG, "intptr_t": LONG, "ptrdiff_t": LONG,
    "uint8_t": UCHAR, "uint16_t": USHORT, "uint32_t": UINT, "uint64_t": ULONG, "uintptr_t": ULONG,
    "dict": TObj("dict"), "list": TObj("list"), "tuple": TObj("tuple"), "str": TObj("str"),
    "bytes": TObj("bytes"), "type": TObj("type"),
}
NP = {
    "ndarray": TObj("ndarray"), "npy_intp": LONG, "npy_uint32": UINT, "uint64_t": ULONG, "int64_t": LONG,
    "uint32_t": UINT, "int32_t": INT, "npy_int64": LONG, "npy_uint64": ULONG, "npy_bool": UCHAR, "broadcast": TObj("broadcast"),
    "npy_int": INT, "dtype": TObj("dtype"), "double_t": DOUBLE, "float64_t": DOUBLE, "float32_t": FLOAT, "uint8_t": UCHAR,
    "int8_t": CHAR, "uint16_t": USHORT, "int16_t": SHORT, "bool_t": UCHAR, "complex128_t": TComplex(), "npy_double": DOUBLE,
}

BITGEN = TStruct("bitgen_t", "bitgen_t", {})
_vp = TPtr(VOID)
BITGEN.fields = {"state": _vp, "next_uint64": TPtr(TFunc(ULONG, [_vp])), "next_uint32": TPtr(TFunc(UINT, [_vp])),
                 "next_double": TPtr(TFunc(DOUBLE, [_vp])), "next_raw": TPtr(TFunc(ULONG, [_vp]))}
BITGEN.layout = {"state": 0, "next_uint64": 8, "next_uint32": 16, "next_double": 24, "next_raw": 32}
BITGEN.size = 40
