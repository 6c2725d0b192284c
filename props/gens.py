"""Every bit generator configuration: how to build one, what its states look like."""
B = ("bits", 1)
def W(n): return ("bits", n)
def R(lo, hi, step=1): return ("range", lo, hi, step)
HU = {"has_uint32": B, "uinteger": W(32)}

class Gen:
    def __init__(self, name, mod, cls, kw=None, spec=None, raw=64, half=None, tags=(), **attrs):
        self.name = name; self.mod = mod; self.cls = cls; self.kw = dict(kw or {}); self.spec = dict(spec or {})
        self.raw = raw            # width of one native output
        self.half = half          # 'lohi' / 'hilo': order in which the halves of a 64-bit output are handed out; None: no buffered half
        self.tags = set(tags)
        self.__dict__.update(attrs)
    @property
    def mods(self): return ["common", self.mod]
    def make(self, w, tag, **kw):
        k = dict(self.kw); k.update(kw)
        return w.cls(self.mod, self.cls)(w.ss(tag), **k)
    def new(self, w, seed=None, **kw):
        k = dict(self.kw); k.update(kw)
        return w.cls(self.mod, self.cls)(seed, **k)
    def symstate(self, w, bg, tag, over=None):
        """an arbitrary valid state"""
        return sym_like(w, bg.state, dict(self.spec, **(over or {})), tag)

def sym_like(w, st, spec, tag):
    out = {}
    for k, v in st.items():
        s = spec.get(k)
        if isinstance(v, dict): out[k] = sym_like(w, v, spec, tag + "." + k)
        elif isinstance(v, str): out[k] = v
        elif hasattr(v, "shape"):
            n = 1
            for x in v.shape: n *= x
            if s == "keep": out[k] = v; continue
            if str(v.dtype) == "float64":
                out[k] = w.farr([w.symf("%s.%s[%d]" % (tag, k, i)) for i in range(n)])
            else:
                out[k] = w.arr([w.sym("%s.%s[%d]" % (tag, k, i), 8 * int(v.dtype.itemsize)) for i in range(n)], str(v.dtype))
        elif s is None: out[k] = v
        else: out[k] = symval(w, tag + "." + k, s)
    return out

def symval(w, name, s):
    if isinstance(s, int): return s
    if s[0] == "bits": return w.sym(name, s[1])
    if s[0] == "odd":
        v = w.sym(name, s[1]); w.assume(v % 2 == 1); return v
    if s[0] == "range":
        lo, hi, step = s[1:]
        n = (hi - lo) // step
        v = w.sym(name, max(1, n.bit_length()))
        w.assume(v <= n)
        return lo + step * v
    raise ValueError(s)

GENS = {}
def add(g): GENS[g.name] = g; return g

add(Gen("AESCounter", "aes", "AESCounter", {}, dict(HU, offset=R(0, 64, 8)), half="lohi", tags=["block"]))
for r in (20, 8):
    add(Gen("ChaCha%s" % ("" if r == 20 else r), "chacha", "ChaCha", {"rounds": r}, {"keysetup": None}, raw=32, half="pair", tags=["block", "native32"]))
add(Gen("DSFMT", "dsfmt", "DSFMT", {}, {"idx": 382, "buffer_loc": R(0, 382)}, raw=52, tags=["big", "dsfmt"]))
add(Gen("EFIIX64", "efiix64", "EFIIX64", {}, dict(HU, i=W(64), a=W(64), b=W(64), c=W(64)), half="lohi"))
add(Gen("HC128", "hc128", "HC128", {}, dict(hc_idx=R(0, 1008, 16), buffer_idx=R(0, 16)), raw=32, half="pair", tags=["big"]))
add(Gen("JSF64", "jsf", "JSF", {"size": 64}, dict(HU, a=W(64), b=W(64), c=W(64), d=W(64)), half="lohi"))
add(Gen("JSF32", "jsf", "JSF", {"size": 32}, dict(a=W(32), b=W(32), c=W(32), d=W(32)), raw=32, half="pair"))
add(Gen("LXM", "lxm", "LXM", {}, dict(HU, lcg_state=W(64), b=("odd", 64)), half="lohi"))
add(Gen("MT19937", "mt19937", "MT19937", {}, dict(pos=R(0, 624)), raw=32, half="pair", tags=["big"]))
add(Gen("MT64", "mt64", "MT64", {}, dict(HU, pos=R(0, 312)), half="lohi", tags=["big"]))
add(Gen("PCG32", "pcg32", "PCG32", {}, dict(state=W(64), inc=("odd", 64)), raw=32, half="pair", tags=["lcg"]))
for v in ("xsl-rr", "dxsm", "dxsm-128"):
    add(Gen("PCG64" + {"xsl-rr": "", "dxsm": "-cm-dxsm", "dxsm-128": "-dxsm-128"}[v], "pcg64", "PCG64", {"variant": v}, dict(HU, state=W(128), inc=("odd", 128)), half="lohi", tags=["lcg"]))
add(Gen("PCG64DXSM", "pcg64", "PCG64DXSM", {}, dict(HU, state=W(128), inc=("odd", 128)), half="lohi", tags=["lcg"]))
for o in ("xsl-rr", "dxsm", "murmur3", "upper", "lower"):
    for post in (True, False):
        add(Gen("LCG128Mix-%s%s" % (o, "" if post else "-pre"), "pcg64", "LCG128Mix", {"output": o, "post": post}, dict(HU, state=W(128), inc=("odd", 128)), half="lohi", tags=["lcg"]))
for n in (2, 4):
    for wd in (32, 64):
        for c, m in (("Philox", "philox"), ("ThreeFry", "threefry")):
            add(Gen("%s-%dx%d" % (c, n, wd), m, c, {"number": n, "width": wd}, dict(HU if wd == 64 else {"has_uint32": B, "uinteger": W(32)}, buffer_pos=R(0, 4)),
                    raw=wd, half="lohi" if wd == 64 else "pair", tags=["block"], N=n))
for v in ("quad", "trio"):
    add(Gen("Romu-" + v, "romu", "Romu", {"variant": v}, dict(HU, w=W(64), x=W(64), y=W(64), z=W(64)), half="lohi"))
add(Gen("SFC64", "sfc", "SFC64", {}, dict(HU, a=W(64), b=W(64), c=W(64), w=W(64), k=("odd", 64)), half="lohi"))
add(Gen("SFMT", "sfmt", "SFMT", {}, dict(HU, idx=624, buffer_loc=R(0, 312)), half="lohi", tags=["big"]))
add(Gen("SPECK128", "speck128", "SPECK128", {}, dict(HU, offset=R(0, 96, 8)), half="lohi", tags=["block"]))
for v in (64, 32):
    add(Gen("Squares%d" % v, "squares", "Squares", {"variant": v}, dict(HU, key=W(64), counter=W(64)), raw=v, half="lohi" if v == 64 else "pair", tags=["block"]))
for o in (True, False):
    add(Gen("Tyche" + ("" if o else "-openrand"), "tyche", "Tyche", {"original": o}, dict(a=W(32), b=W(32), c=W(32), d=W(32)), raw=32, half="pair"))
for o in (False, True):
    add(Gen("Xoroshiro128" + ("pp" if o else ""), "xoroshiro128", "Xoroshiro128", {"plusplus": o}, dict(HU), half="lohi", tags=["f2"]))
add(Gen("Xorshift1024", "xorshift1024", "Xorshift1024", {}, dict(HU, p=R(0, 15)), half="lohi", tags=["f2"]))
add(Gen("Xoshiro256", "xoshiro256", "Xoshiro256", {}, dict(HU), half="lohi", tags=["f2"]))
add(Gen("Xoshiro512", "xoshiro512", "Xoshiro512", {}, dict(HU), half="lohi", tags=["f2"]))

for _g in GENS.values():
    # order in which two native 32-bit outputs make a 64-bit one ("hi": the first becomes the high word)
    _g.pair = None if _g.half != "pair" else "lo" if _g.cls in ("ChaCha", "HC128", "Squares") else "hi"
    # width of what next_raw delivers
    _g.rawdraw = 32 if _g.half == "pair" and _g.cls not in ("ChaCha", "HC128", "Squares", "Tyche") else 64
    # form of doubles: top 53 bits of a 64-bit draw, two-word 27+26 bits, or the 52-bit [1,2) mantissa
    _g.dbl = "dsfmt" if _g.cls == "DSFMT" else "two" if _g.half == "pair" and _g.cls not in ("ChaCha", "HC128", "JSF") else "top53"

def pick(*tags, no=()):
    return [g for g in GENS.values() if all(t in g.tags for t in tags) and not any(t in g.tags for t in no)]
