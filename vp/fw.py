"""Fixed-width unsigned values for the symbolic runs of the references: the arithmetic of props/ref.py on exact-width terms.
`<<` widens, `>>` and masks narrow, `^ | &` take the wider operand; sums and products go through ref.add / ref.mul."""
from . import terms as tm
from .cyrt import SymInt, SymBool, uint, isx, mkbool, aspyint, py

class U:
    __slots__ = ("t", "w")
    def __init__(self, t, w): self.t = t; self.w = w
    def _asint(self): return uint(self.t, self.w)
    def __hash__(self): return hash((self.t, self.w))
    def __repr__(self): return "<u%d %s>" % (self.w, tm.show(self.t, 4))
    def __xor__(s, o): return _bin(tm.bxor, s, o)
    __rxor__ = __xor__
    def __or__(s, o): return _bin(tm.bor, s, o)
    __ror__ = __or__
    def __and__(s, o):
        if isinstance(o, int):
            n = o.bit_length()
            if n <= s.w and n and o == (1 << n) - 1: return mk(tm.ext(s.t, 0, n) if n < s.w else s.t, n)
            n = min(n, s.w)
            if not n: return 0
            return mk(tm.band(n, tm.ext(s.t, 0, n) if n < s.w else s.t, o & tm.mask(n)), n)
        return _bin(tm.band, s, o)
    __rand__ = __and__
    def __lshift__(s, k): return mk(tm.cat([(0, k), (s.t, s.w)]), s.w + k) if k else s
    def __rshift__(s, k): return s if not k else 0 if k >= s.w else mk(tm.ext(s.t, k, s.w - k), s.w - k)
    def __add__(s, o): return fx(uint(s.t, s.w) + si(o))
    __radd__ = __add__
    def __mul__(s, o): return fx(uint(s.t, s.w) * si(o))
    __rmul__ = __mul__
    def __sub__(s, o): return uint(s.t, s.w) - si(o)
    def __rsub__(s, o): return si(o) - uint(s.t, s.w)
    def __eq__(s, o): return uint(s.t, s.w) == si(o)
    def __ne__(s, o): return uint(s.t, s.w) != si(o)
    def __lt__(s, o): return uint(s.t, s.w) < si(o)
    def __le__(s, o): return uint(s.t, s.w) <= si(o)
    def __gt__(s, o): return uint(s.t, s.w) > si(o)
    def __ge__(s, o): return uint(s.t, s.w) >= si(o)
    def __mod__(s, o): return fx(uint(s.t, s.w) % si(o))
def si(o): return uint(o.t, o.w) if type(o) is U else o
def mk(t, w): return t if type(t) is int else U(t, w)
def fx(x, w=None):
    """as a fixed-width value (of width w when given)"""
    if type(x) is U: return x if w is None or x.w == w else mk(tm.zext(x.t, x.w, w) if x.w < w else tm.ext(x.t, 0, w), w)
    if isinstance(x, int) and not isinstance(x, bool): return x
    x = aspyint(py(x))
    if type(x) is int: return x
    if w is not None: return mk(isx(x, w), w)
    assert tm.srng(x.t, x.w)[0] >= 0, "negative value in a reference"
    return mk(tm.ext(x.t, 0, x.w - 1), x.w - 1)
def at(x, w):
    """term of width w (truncating)"""
    if isinstance(x, int): return x & tm.mask(w)
    return fx(x, w).t if type(fx(x, w)) is U else fx(x, w)
def _bin(f, a, b):
    b = fx(b)
    w = max(a.w, b.bit_length() if isinstance(b, int) else b.w)
    return mk(f(w, at(a, w), at(b, w)), w)
def add(w, *a):
    r = 0
    for x in a: r = tm.add(w, r, at(x, w))
    return mk(r, w)
def sub(w, a, b): return mk(tm.sub(w, at(a, w), at(b, w)), w)
def mul(w, a, b): return mk(tm.mul(w, at(a, w), at(b, w)), w)
def rotl(x, k, w): return mk(tm.rotl(w, at(x, w), k), w)
def mulhilo(w, a, b):
    p = tm.mul(2 * w, at(a, 2 * w) if isinstance(a, int) else tm.zext(at(a, w), w, 2 * w), at(b, 2 * w) if isinstance(b, int) else tm.zext(at(b, w), w, 2 * w))
    if type(p) is int: return p >> w, p & tm.mask(w)
    return mk(tm.ext(p, w, w), w), mk(tm.ext(p, 0, w), w)
def rrot(x, r, w):
    n = w.bit_length() - 1
    return mk(tm.rotl(w, at(x, w), tm.zext(tm.neg(n, at(r, n)), n, w)), w)
