"""C11: keys, counters, increments, streams and state words are taken exactly or refused."""
from vp.task import Task
from .gens import *

EXPLANATION = "A fully symbolic Python integer, wider than the documented range and of either sign, is passed as key, counter, increment, idx, b, p/q/r, w/k or as a scalar of the state dictionary; on every path the call either raises exactly when the value is out of range, or every bit is found in the documented word of the state. uint64 arrays and lists of symbolic integers likewise. The integer/word conversions are decided against value mod 2^(size*i)."
ASSUMPTIONS = ["numpy's conversion of Python integers to arrays is modelled: OverflowError outside the dtype, float64 when a list mixes integers above and below 2^63"]

M64 = 2**64 - 1
def words(v, n, w): return [(v >> (w * i)) & (2**w - 1) for i in range(n)]

def attempt(f):
    try: return f()
    except Exception as e:
        if type(e).__name__ in ("ValueError", "OverflowError", "TypeError"): return None
        raise

# how to read key and counter words back: name -> (key bits, counter bits, reader)
def st_aes(b): s = b.state["s"]; return s["seed"], s["counter"]
KC = {"AESCounter": (128, 128), "ChaCha": (256, 128), "ChaCha8": (256, 128), "SPECK128": (256, 128),
      "Philox-2x32": (32, 64), "Philox-4x32": (64, 128), "Philox-2x64": (64, 128), "Philox-4x64": (128, 256),
      "ThreeFry-2x32": (64, 64), "ThreeFry-4x32": (128, 128), "ThreeFry-2x64": (128, 128), "ThreeFry-4x64": (256, 256),
      "Squares64": (64, 64), "Squares32": (64, 64), "HC128": (256, None)}

def keycheck(w, g, b, key):
    if g.cls == "AESCounter": w.eq("key words", w.items(b.state["s"]["seed"])[:2], words(key, 2, 64))
    elif g.cls == "ChaCha": w.eq("key words", w.items(b.state["state"]["keysetup"]), words(key, 8, 32))
    elif g.cls in ("Philox", "ThreeFry"):
        x = w.items(b.state["state"]["key"]); w.eq("key words", x, words(key, len(x), KC[g.name][0] // len(x)))
    elif g.cls == "Squares": w.eq("key", b.state["state"]["key"], key)
    elif g.cls == "SPECK128": w.eq("first round key", w.items(b.state["state"]["round_key"])[0], key & M64)

def ctrcheck(w, g, b, c):
    if g.cls == "AESCounter":
        x = w.items(b.state["s"]["counter"])
        for i in range(4): w.eq("counter %d" % i, x[2 * i:2 * i + 2], words((c + i) % 2**128, 2, 64))
    elif g.cls == "ChaCha": w.eq("counter words", w.items(b.state["state"]["ctr"]), words(c, 2, 64))
    elif g.cls in ("Philox", "ThreeFry"):
        x = w.items(b.state["state"]["counter"]); w.eq("counter words", x, words(c, len(x), KC[g.name][1] // len(x)))
    elif g.cls == "Squares": w.eq("counter", b.state["state"]["counter"], c)
    elif g.cls == "SPECK128":
        x = w.items(b.state["state"]["ctr"])
        for i in range(6): w.eq("counter %d" % i, x[2 * i:2 * i + 2], words((c + i) % 2**128, 2, 64))

def within(w, v, bits): return w.and_(v >= 0, v < 2**bits)

def keyint(w, g, bits):
    key = w.ssym("key", bits + 2)
    b = attempt(lambda: g.new(w, None, key=key))
    ok = within(w, key, bits)
    if g.cls == "Squares": ok = w.and_(ok, key % 2 == 1)
    w.check("refused exactly when out of range", (b is not None) == w.cond(ok))
    if b is not None: keycheck(w, g, b, key)

def ctrint(w, g, bits, seeded):
    c = w.ssym("ctr", bits + 2)
    if seeded: b = attempt(lambda: g.make(w, "#s", counter=c))
    else: b = attempt(lambda: g.new(w, None, key=0x1234567 if g.cls == "Squares" else 77, counter=c))
    w.check("refused exactly when out of range", (b is not None) == w.cond(within(w, c, bits)))
    if b is not None: ctrcheck(w, g, b, c)

def arrays(w, g, bits, what, n, dt):
    """arrays: the right dtype and length is exact, anything else refused or exact"""
    x = [w.sym("x%d" % i, int(dt[-2:])) for i in range(n)]
    a = w.arr(x, dt)
    if g.cls == "Squares" and what == "key": w.assume(x[0] % 2 == 1)
    val = 0
    for i, v in enumerate(x): val = val + v * 2**(int(dt[-2:]) * i)
    kw = {"key": 0x1234567 if g.cls == "Squares" else 77}; kw[what] = a
    b = attempt(lambda: g.new(w, None, **kw))
    if g.cls == "Squares" and n > 1: w.check("refused", b is None); return
    if dt == "uint64" and 64 * n <= bits: w.check("accepted", b is not None)
    if b is not None:
        w.check("accepted only in range", w.cond(within(w, val, bits)) and dt[0] == "u")
        (keycheck if what == "key" else ctrcheck)(w, g, b, val)

def lists(w, g, bits, what, n):
    """lists of integers of any size"""
    x = [w.ssym("x%d" % i, 66) for i in range(n)]
    if g.cls == "Squares" and what == "key": w.assume(x[0] % 2 == 1)
    kw = {"key": 0x1234567 if g.cls == "Squares" else 77}; kw[what] = list(x)
    b = attempt(lambda: g.new(w, None, **kw))
    val = 0
    for i, v in enumerate(x): val = val + v * 2**(64 * i)
    ok = w.and_(*[w.and_(v >= 0, v <= M64) for v in x])
    if b is None: w.check("in-range lists are not refused", not (w.cond(ok) and w.cond(within(w, val, bits))))
    else:
        w.check("accepted only in range", w.cond(w.and_(ok, within(w, val, bits))))
        (keycheck if what == "key" else ctrcheck)(w, g, b, val)

def shapes(w, g, what):
    """wrong types, dimensions and empty arrays are refused"""
    bad = [w.np.zeros((1, 2), dtype="uint64"), w.np.zeros((0,), dtype="uint64"), w.np.zeros((2,), dtype="int64"), w.np.zeros((2,), dtype="uint32"), w.np.zeros((2,), dtype="float64"), [1.5, 2.0], [], ["a"], "7", 1.5]
    for i, v in enumerate(bad):
        kw = {"key": 0x1234567 if g.cls == "Squares" else 77}; kw[what] = v
        if g.cls == "Squares" and v == "7" if isinstance(v, str) else g.cls == "Squares" and v == 1.5 if isinstance(v, float) else False: continue    # int() of them is taken
        w.check("malformed %s %d refused" % (what, i), attempt(lambda: g.new(w, None, **kw)) is None)
    if g.cls != "Squares": w.check("seed and key together refused", attempt(lambda: g.new(w, 1, key=0x1234567)) is None)

def incint(w, g, width):
    inc = w.ssym("inc", width + 2)
    b = attempt(lambda: g.make(w, "#s", inc=inc))
    w.check("refused exactly when out of range", (b is not None) == w.cond(within(w, inc, width)))
    if b is not None: w.eq("increment", b.state["state"]["inc"], (2 * inc + 1) % 2**width)

def scalar(w, g, kw, bits, read, mk):
    v = w.ssym("v", bits + 2)
    b = attempt(lambda: w.cls(g.mod, g.cls)(w.ss("#s"), **dict(g.kw, **{kw: v})))
    ok = within(w, v, bits)
    w.check("refused exactly when out of range", (b is not None) == w.cond(ok))
    if b is not None: w.eq("value used", read(b.state), mk(v))

def jsfpar(w, g, kw):
    """the rotations can only be observed through the stream: seen in the next step from a known state"""
    v = w.ssym("v", 9)
    par = dict(zip("pqr", (7, 13, 37) if g.kw["size"] == 64 else (27, 17, 3)))
    b = attempt(lambda: g.make(w, "#s", **dict(par, **{kw: v})))
    size = g.kw["size"]
    ok = w.and_(v >= 0, v < size) 
    w.check("refused exactly when out of range", (b is not None) == w.cond(ok))

def leaves(st, path=()):
    for k, v in st.items():
        if isinstance(v, dict): yield from leaves(v, path + (k,))
        elif not isinstance(v, str): yield path + (k,), v

def put(st, path, v):
    o = dict(st)
    o[path[0]] = v if len(path) == 1 else put(st[path[0]], path[1:], v)
    return o
def get(st, path):
    for k in path: st = st[k]
    return st

def statescalar(w, g, path, bits):
    """integers of the state dictionary: exact or refused"""
    b = g.make(w, "#s")
    v = w.ssym("v", bits + 2)
    st = put(b.state, path, v)
    def f(): b.state = st; return True
    r = attempt(f)
    ok = within(w, v, bits)
    w.check("refused exactly when out of range", (r is True) == w.cond(ok))
    if r: w.eq("value in the state", get(b.state, path), v)

def statearray(w, g, path, n, dt):
    """state arrays: right dtype and length exact; anything else refused"""
    b = g.make(w, "#s"); st = b.state; bits = int(dt[-2:])
    def tryset(v):
        def f(): b.state = put(st, path, v); return True
        return attempt(f)
    x = [w.sym("x%d" % i, bits) for i in range(n)]
    w.check("accepted", tryset(w.arr(x, dt)) is True)
    w.eq("words of the state", w.items(get(b.state, path)), x)
    y = []
    for v in x: y += [v, 0x55]
    if tryset(w.arr(y, dt)[::2]) is not None: w.eq("words of a strided array", w.items(get(b.state, path)), x)
    if n < 64:
        if tryset(w.arr(x[::-1], dt)[::-1]) is not None: w.eq("words of a reversed array", w.items(get(b.state, path)), x)
    other = "uint32" if dt == "uint64" else "uint64"
    for what, v in (("short", w.np.zeros(n - 1, dtype=dt)), ("long", w.np.zeros(n + 1, dtype=dt)), ("2-d", w.np.zeros((1, n), dtype=dt)), ("other dtype", w.np.zeros(n, dtype=other)), ("signed", w.np.zeros(n, dtype="int64"))):
        w.check(what + " array refused", tryset(v) is None)

def wrongclass(w, g):
    b = g.make(w, "#s"); st = b.state
    def tryset(v):
        def f(): b.state = v; return True
        return attempt(f)
    w.check("a state that is not a dict is refused", tryset(7) is None)
    w.check("the state of another class is refused", tryset(dict(st, bit_generator="Other")) is None)
    w.check("its own is accepted", tryset(st) is True)

def conv(w, bits, size):
    """int_to_array and object_to_int"""
    i2a = w.cls("tests._shims", "int_to_array_shim") if not hasattr(w, "m") else w.cls("common", "int_to_array")
    o2i = w.cls("common", "object_to_int")
    v = w.ssym("v", bits + 2)
    a = attempt(lambda: i2a(v, "v", bits, size))
    ok = within(w, v, bits)
    w.check("int_to_array refuses exactly what is out of range", (a is not None) == w.cond(ok))
    if a is not None:
        x = w.items(a)
        w.eq("length", len(x), bits // size); w.eq("dtype", str(a.dtype), "uint%d" % size)
        w.eq("words", x, words(v, bits // size, size))
        w.eq("inverse", o2i(a, bits, "v", 64, (32, 64)), v)
    r = attempt(lambda: o2i(v, bits, "v"))
    w.check("object_to_int refuses exactly what is out of range", (r is not None) == w.cond(ok))
    if r is not None: w.eq("value", r, v)

def conv2(w, n, size, bits):
    """object_to_int of an array, and back"""
    i2a = w.cls("tests._shims", "int_to_array_shim") if not hasattr(w, "m") else w.cls("common", "int_to_array")
    o2i = w.cls("common", "object_to_int")
    x = [w.sym("x%d" % i, size) for i in range(n)]
    val = 0
    for i, v in enumerate(x): val = val + v * 2**(size * i)
    r = attempt(lambda: o2i(w.arr(x, "uint%d" % size), bits, "v", 64, (32, 64)))
    w.check("refused exactly when out of range", (r is not None) == w.cond(val < 2**bits))
    if r is not None:
        w.eq("value", r, val)
        if bits >= n * size: w.eq("inverse", w.items(i2a(r, "v", n * size, size)), x)
    a = attempt(lambda: i2a(w.arr(x, "uint%d" % size), "v", n * size, size))
    w.check("arrays are accepted", a is not None)
    if a is not None: w.eq("array form", w.items(a), x)
    w.check("arrays of a wrong length are refused", attempt(lambda: i2a(w.arr(x, "uint%d" % size), "v", (n + 1) * size, size)) is None)

def le(w, n):
    """view_little_endian: pairs of 32-bit words are 64-bit words, low first"""
    vle = w.cls("tests._shims", "view_little_endian_shim") if not hasattr(w, "m") else w.cls("common", "view_little_endian")
    x = [w.sym("x%d" % i, 32) for i in range(2 * n)]
    w.eq("32 to 64", w.items(vle(w.arr(x, "uint32"), w.np.uint64)), [x[2 * i] + (x[2 * i + 1] << 32) for i in range(n)])
    y = [w.sym("y%d" % i, 64) for i in range(n)]
    w.eq("64 to 32", w.items(vle(w.arr(y, "uint64"), w.np.uint32)), [(v >> s) & 0xffffffff for v in y for s in (0, 32)])
    w.eq("64 to 64", w.items(vle(w.arr(y, "uint64"), w.np.uint64)), y)

def tasks(tier):
    T = []
    def add(name, fn, g, p, bound, quick=True, deadline=60):
        T.append(Task(name + "." + g.name, fn, g.mods, dict(g=g, **p), quick=quick, deadline=deadline, bound=bound))
    for n, (kb, cb) in KC.items():
        g = GENS[n]
        if n != "HC128" and n != "ChaCha8" or tier == "thorough": add("key", keyint, g, dict(bits=kb), "every integer key of %d bits and sign" % (kb + 1))
        if cb:
            for s in (False, True): add("counter" + (".seeded" if s else ""), ctrint, g, dict(bits=cb, seeded=s), "every integer counter of %d bits and sign" % (cb + 1), quick=n != "ChaCha8")
        for what, bb in (("key", kb), ("counter", cb)):
            if bb is None or n in ("ChaCha8", "HC128"): continue
            for k in sorted({1, max(1, bb // 64), bb // 64 + 1}):
                add("%s.array%d" % (what, k), arrays, g, dict(bits=bb, what=what, n=k, dt="uint64"), "every uint64 array of length %d" % k)
            for k in sorted({1, max(1, bb // 64)}):
                if g.cls == "Squares": continue      # plain integers only
                if k <= 2 or tier == "thorough": add("%s.list%d" % (what, k), lists, g, dict(bits=bb, what=what, n=k), "every list of %d integers of 65 bits and sign" % k)
            add("%s.malformed" % what, shapes, g, dict(what=what), "ten malformed arguments")
    for g in pick("lcg"):
        wd = 64 if g.cls == "PCG32" else 128
        if "-" not in g.name or g.name == "LCG128Mix-xsl-rr": add("inc", incint, g, dict(width=wd), "every integer increment of %d bits and sign" % (wd + 1))
    add("idx", scalar, GENS["Tyche"], dict(kw="idx", bits=32, read=lambda s: 0, mk=lambda v: 0), "every integer idx of 33 bits and sign")
    add("b", scalar, GENS["LXM"], dict(kw="b", bits=64, read=lambda s: s["state"]["b"], mk=lambda v: v | 1), "every integer b of 65 bits and sign")
    add("w", scalar, GENS["SFC64"], dict(kw="w", bits=64, read=lambda s: s["state"]["w"], mk=lambda v: (v + 12) % 2**64), "every integer w of 65 bits and sign")
    add("k", scalar, GENS["SFC64"], dict(kw="k", bits=64, read=lambda s: s["state"]["k"], mk=lambda v: v | 1), "every integer k of 65 bits and sign")
    for n in ("JSF64", "JSF32"):
        for k in "pqr": add(k, jsfpar, GENS[n], dict(kw=k), "every rotation of 8 bits and sign")
    for g in GENS.values():
        if g.cls == "RDRAND": continue
        add("class", wrongclass, g, {}, "three assignments")
    seen = set()
    for g in GENS.values():
        if g.cls in seen and g.cls not in ("JSF", "Squares", "Philox", "ThreeFry"): continue
        seen.add(g.cls)
        for k, s in g.spec.items():
            if isinstance(s, tuple) and s[0] in ("bits", "odd") and s[1] > 1:
                add("state." + k, statescalarby, g, dict(key=k, bits=s[1]), "every integer of %d bits and sign" % (s[1] + 1))
        if g.cls in CHECKED: add("state.arrays", statearrays, g, {}, "every right array; five wrong ones per array", quick="big" not in g.tags)
    for bits in (32, 64, 128, 256) + ((512,) if tier == "thorough" else ()):
        for size in (32, 64):
            if size <= bits: T.append(Task("conv.%d.%d" % (bits, size), conv, ["common"], dict(bits=bits, size=size), deadline=60, bound="every integer of %d bits and sign" % (bits + 1)))
    for n, size, bits in ((1, 64, 64), (2, 64, 128), (2, 64, 100), (3, 64, 128), (4, 64, 256), (4, 32, 128), (3, 32, 64), (8, 32, 256)):
        T.append(Task("conv2.%dx%d.%d" % (n, size, bits), conv2, ["common"], dict(n=n, size=size, bits=bits), deadline=60, bound="every array of %d uint%d" % (n, size)))
    T.append(Task("le", le, ["common"], dict(n=3), deadline=60, bound="every array of 6 uint32 and 3 uint64"))
    return T

CHECKED = {"HC128", "LXM", "MT19937", "MT64", "Philox", "ThreeFry", "SFMT", "SPECK128", "Xoroshiro128", "Xorshift1024", "Xoshiro256", "Xoshiro512", "EFIIX64", "DSFMT"}
def pathof(st, key):
    return next(p for p, v in leaves(st) if p[-1] == key)
def statescalarby(w, g, key, bits): statescalar(w, g, pathof(g.make(w, "#p").state, key), bits)
def statearrays(w, g):
    for p, v in leaves(g.make(w, "#p").state):
        if hasattr(v, "shape") and v.shape and str(v.dtype)[0] == "u" and p[-1] not in ("buffered_uniforms",): statearray(w, g, p, v.shape[0], str(v.dtype))
