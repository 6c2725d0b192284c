"""Hash-consed bit-vector terms.

A value is either a Python int (constant, already reduced mod 2**w) or a T node.
All constructors take the width explicitly.  Booleans are width-1 vectors.
Everything here is a semantics-preserving normalisation; deciding is done by
vp.solve (z3) on whatever is left.
"""
import struct, sys
sys.setrecursionlimit(200000)

class T:
    __slots__ = ("op", "w", "args", "data", "id", "rng", "__weakref__")
    def __repr__(self):
        return show(self, 4)

_tab = {}
_next = [0]

def mk(op, w, args, data=None):
    k = (op, w, args, data)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op; t.w = w; t.args = args; t.data = data
        t.id = _next[0]; _next[0] += 1
        t.rng = None
        _tab[k] = t
    return t

_gen = [object()]
def generation(): return _gen[0]
def reset():
    _gen[0] = object()
    _tab.clear(); _extmemo.clear(); _supp.clear(); _tables.clear(); _table_ids.clear()

def show(t, depth=6):
    if type(t) is int:
        return hex(t) if t > 9 else str(t)
    if t.op == "var":
        return t.data
    if depth == 0:
        return "#%d" % t.id
    return "%s%d%s(%s)" % (t.op, t.w, "" if t.data is None else "{%s}" % (str(t.data)[:40],),
                           ",".join(show(a, depth - 1) for a in t.args[:6]))

def isc(x):
    return type(x) is int

def var(name, w):
    return mk("var", w, (), name)

def mask(w):
    return (1 << w) - 1

# ---------------------------------------------------------------- ranges
def rng(t):
    """inclusive unsigned (lo, hi) bound"""
    if type(t) is int:
        return (t, t)
    r = t.rng
    if r is not None:
        return r
    op = t.op; w = t.w
    full = (0, (1 << w) - 1)
    r = full
    if op == "cat":
        lo = hi = 0; sh = 0
        for p, pw in zip(t.args, t.data):
            l, h = rng(p)
            lo += l << sh; hi += h << sh; sh += pw
        r = (lo, hi)
    elif op == "ite":
        a = rng(t.args[1]); b = rng(t.args[2])
        r = (min(a[0], b[0]), max(a[1], b[1]))
    elif op == "and":
        hi = full[1]
        for a in t.args:
            hi = min(hi, rng(a)[1])
        if t.data is not None:
            hi = min(hi, t.data)
        r = (0, hi)
    elif op == "xor" or op == "or":
        hi = t.data or 0; n = hi.bit_length(); lo = 0 if op == "xor" else hi
        for a in t.args: n = max(n, rng(a)[1].bit_length())
        r = (lo, (1 << n) - 1)
    elif op == "tbl":
        tb = _tables[t.data]
        r = (min(tb), max(tb))
    elif op == "sel":
        rs = [rng(a) for a in t.args[1:]]
        r = (min(x[0] for x in rs), max(x[1] for x in rs))
    elif op == "lin":
        c, co = t.data
        lo = hi = c
        h = 1 << (w - 1)
        for a, k in zip(t.args, co):
            l_, h_ = rng(a)
            if k >= h:
                k -= 1 << w
            if k >= 0:
                lo += k * l_; hi += k * h_
            else:
                lo += k * h_; hi += k * l_
        if lo >= 0 and hi <= full[1]:
            r = (lo, hi)
        elif lo >= -(1 << w) and hi < 0:
            r = (lo + (1 << w), hi + (1 << w))
        elif lo >= (1 << w) and hi < (2 << w):
            r = (lo - (1 << w), hi - (1 << w))
    elif op == "urem":
        d = t.args[1]
        l, h = rng(d)
        if l > 0:
            r = (0, h - 1)
    elif op == "udiv":
        l, h = rng(t.args[0]); l2, h2 = rng(t.args[1])
        if l2 > 0:
            r = (l // h2, h // l2)
    elif op == "mul":
        l, h = rng(t.args[0]); l2, h2 = rng(t.args[1])
        if h * h2 <= full[1]:
            r = (l * l2, h * h2)
    elif op == "lshr":
        r = (0, rng(t.args[0])[1] >> min(rng(t.args[1])[0], w))
    elif op == "ctpop":
        r = (0, t.args[0].w)
    t.rng = r
    return r

def srng(t, w):
    """signed (lo, hi) bound"""
    if type(t) is int:
        v = t - (1 << w) if t >> (w - 1) else t
        return (v, v)
    h = 1 << (w - 1)
    if t.op == "sext":
        return srng(t.args[0], t.args[0].w)
    if t.op == "ite":
        a = srng(t.args[1], w); b = srng(t.args[2], w)
        return (min(a[0], b[0]), max(a[1], b[1]))
    if t.op == "lin":
        c, co = t.data
        if c >= h:
            c -= 1 << w
        lo = hi = c
        for a, k in zip(t.args, co):
            l_, h_ = srng(a, w)
            if k >= h:
                k -= 1 << w
            if k >= 0:
                lo += k * l_; hi += k * h_
            else:
                lo += k * h_; hi += k * l_
        if lo >= -h and hi < h:
            return (lo, hi)
    l, hi = rng(t)
    if hi < h:
        return (l, hi)
    if l >= h:
        return (l - 2 * h, hi - 2 * h)
    return (-h, h - 1)

# ---------------------------------------------------------------- slices
_extmemo = {}

def ext(x, lo, w):
    """bits lo..lo+w-1 of x"""
    if type(x) is int:
        return (x >> lo) & ((1 << w) - 1)
    if lo == 0 and w == x.w:
        return x
    op = x.op
    if op == "var":
        assert lo >= 0 and w > 0 and lo + w <= x.w, (lo, w, x.w)
        return mk("ext", w, (x,), lo)
    k = (x, lo, w)
    r = _extmemo.get(k)
    if r is None:
        r = _extmemo[k] = _ext(x, lo, w, op)
    return r

DEEP = False          # costlier normalisation of sums (needed where a reference composes them differently)
XORMERGE = False      # join neighbouring slices of exclusive ors
XORPUSH = False      # slices of exclusive ors of slices and table entries
_leafy = ("cat", "sext"); _leafy2 = ("cat", "sext", "tbl", "var", "ext")
def _ext(x, lo, w, op):
    assert lo >= 0 and w > 0 and lo + w <= x.w, (lo, w, x.w)
    if op == "ext":
        return ext(x.args[0], lo + x.data, w)
    if op == "cat":
        parts = []; pos = 0; end = lo + w
        for p, pw in zip(x.args, x.data):
            a = max(lo, pos); b = min(end, pos + pw)
            if a < b:
                parts.append((ext(p, a - pos, b - a), b - a))
            pos += pw
            if pos >= end:
                break
        return cat(parts)
    if op in ("xor", "and", "or"):
        n = sum(1 for a in x.args if a.op not in (_leafy2 if XORPUSH else _leafy))
        if n == 0 or (n == 1 and len(x.args) > 1) or w == 1:
            f = _bw[op]
            r = None
            for a in x.args:
                e = ext(a, lo, w)
                r = e if r is None else f(w, r, e)
            if x.data is not None:
                r = f(w, r, (x.data >> lo) & ((1 << w) - 1))
            return r
    elif op == "lin":
        if lo == 0:
            c, co = x.data
            m = (1 << w) - 1
            return lin(w, c & m, [(ext(a, 0, w), k & m) for a, k in zip(x.args, co)])
        if not DEEP: return mk("ext", w, (x,), lo)
        c, co = x.data
        n = x.w - lo
        if c & ((1 << lo) - 1) == 0:
            rest = []; hi = []
            for a, k in zip(x.args, co):
                z = a.data[0] if a.op == "cat" and type(a.args[0]) is int and a.args[0] == 0 else 0
                if z + (k & -k).bit_length() - 1 >= lo: hi.append((a, k))
                else: rest.append((a, k))
            if hi or c:
                if not rest or len(rest) == 1 and rest[0][1] == 1:
                    # no carry from below
                    T = [(ext(a, 0, n), k >> lo) if not k & ((1 << lo) - 1) else (ext(a, a.data[0], x.w - a.data[0]), 0, k, a.data[0]) for a, k in hi]
                    U = []
                    for t in T:
                        if len(t) == 2: U.append(t); continue
                        y, _, k, z = t          # a = y << z with z < lo or k not a multiple
                        if z >= lo: U.append((cat([(0, z - lo), (y, x.w - z)]), k))
                        else: U.append((ext(y, 0, n), k >> (lo - z)))
                    if rest: U.append((ext(rest[0][0], lo, n), 1))
                    return ext(lin(n, c >> lo, [(a, k & mask(n)) for a, k in U]), 0, w)
        if lo + w < x.w: return ext(ext(x, 0, lo + w), lo, w)
    elif op == "mul":
        if lo == 0:
            return mul(w, ext(x.args[0], 0, w), ext(x.args[1], 0, w))
    elif op == "ite":
        if type(x.args[1]) is int or type(x.args[2]) is int or \
           x.args[1].op == "cat" or x.args[2].op == "cat":
            return ite(x.args[0], ext(x.args[1], lo, w), ext(x.args[2], lo, w), w)
    elif op == "sext":
        a = x.args[0]
        if lo + w <= a.w:
            return ext(a, lo, w)
        if lo >= a.w - 1:
            return sext(ext(a, a.w - 1, 1), 1, w)
        return sext(ext(a, lo, a.w - lo), a.w - lo, w)
    elif op == "tbl":
        tb = _tables[x.data]; m = (1 << w) - 1
        return tbl(w, x.args[0], tuple((v >> lo) & m for v in tb))
    elif op == "shl":
        if lo == 0 and type(x.args[1]) is not int and rng(x.args[1])[1] < w:
            return shl(w, ext(x.args[0], 0, w), ext(x.args[1], 0, w))
    elif op == "dy":
        pass
    if lo + w < x.w or lo > 0:
        l, h = rng(x)
        if h >> lo == l >> lo and lo + w == x.w:
            return (h >> lo) & ((1 << w) - 1)
        if h < (1 << lo):
            return 0
    return mk("ext", w, (x,), lo)

def cat(parts):
    """parts: [(value, width)] low first"""
    out = []
    for v, w in parts:
        if w == 0:
            continue
        if type(v) is not int and v.op == "cat":
            sub = list(zip(v.args, v.data))
        else:
            sub = [(v, w)]
        for p in sub:
            if out:
                q = _merge(out[-1], p)
                if q is not None:
                    out[-1] = q
                    continue
            out.append(p)
    if len(out) == 1:
        return out[0][0]
    w = sum(p[1] for p in out)
    # sign-extension written as replicated top bit is kept as is
    return mk("cat", w, tuple(p[0] for p in out), tuple(p[1] for p in out))

def _merge(p, q):
    (a, aw), (b, bw) = p, q
    if type(a) is int:
        if type(b) is int:
            return (a | (b << aw), aw + bw)
        return None
    if type(b) is int:
        return None
    if b.op == "ext":
        x = b.args[0]
        if a.op == "ext":
            if a.data + aw == b.data:
                y = a.args[0]
                if y is x or DEEP and y.op == "lin" and y.w == b.data and x.w > y.w and ext(x, 0, y.w) is y:
                    return (ext(x, a.data, aw + bw), aw + bw)
        if (DEEP or a.op != "ext") and b.data == aw and aw < x.w:
            # a may be the (rewritten) low part of x
            if _lowpart(x, aw) is a:
                return (ext(x, 0, aw + bw), aw + bw)
    if b.op == "lin":
        # low part of L followed by (high part of L) + y: L + (y << aw)
        for i, t in enumerate(b.args):
            if t.op == "ext" and t.data == aw and b.data[1][i] == 1 and t.args[0].op == "lin" and t.args[0].w == aw + bw and _lowpart(t.args[0], aw) is a:
                y = lin(bw, b.data[0], [(u, k) for u, k in zip(b.args, b.data[1]) if u is not t])
                return (lin(aw + bw, 0, [(t.args[0], 1), (cat([(0, aw), (y, bw)]), 1)]), aw + bw)
    if a.op == "tbl" and b.op == "tbl" and a.args[0] is b.args[0]:
        ta = _tables[a.data]; tb = _tables[b.data]
        return (tbl(aw + bw, a.args[0], tuple(u | (v << aw) for u, v in zip(ta, tb))), aw + bw)
    if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
        return (ite(a.args[0], cat([(a.args[1], aw), (b.args[1], bw)]),
                    cat([(a.args[2], aw), (b.args[2], bw)]), aw + bw), aw + bw)
    if a.op == "sext" and b.op == "sext" and a.args[0] is b.args[0] and a.args[0].w == 1:
        return (sext(a.args[0], 1, aw + bw), aw + bw)
    if XORMERGE and a.op == "xor" and b.op == "xor" and len(a.args) == len(b.args):
        # neighbouring slices of one exclusive or
        rest = list(b.args); out = []; left = []
        for x in a.args:
            for i, y in enumerate(rest):
                m = cat([(x, aw), (y, bw)])
                if _np(m) < _np(x) + _np(y): break
            else: left.append(x); continue
            del rest[i]; out.append(m)
        if len(left) > 1 or not out: return None
        if left: out.append(cat([(left[0], aw), (rest[0], bw)]))
        n = aw + bw; r = (a.data or 0) | ((b.data or 0) << aw)
        if not r and len(out) > 1 and all(type(x) is not int and x.op == "ext" and x.data == out[0].data and x.args[0].w == out[0].args[0].w for x in out) \
           and sum(x.args[0].op not in _leafy for x in out) > 1:
            W = out[0].args[0].w; r = 0
            for x in out: r = bxor(W, r, x.args[0])
            return (ext(r, out[0].data, n), n)
        for x in out: r = bxor(n, r, x)
        return (r, n)
    return None

def _np(x): return len(x.args) if type(x) is not int and x.op == "cat" else 1

def _lowpart(x, w):
    if x.op in ("lin", "mul", "xor", "and", "or", "ite", "shl"):
        return ext(x, 0, w)
    return None

def zext(x, w, nw):
    if nw < w:
        return ext(x, 0, nw)
    if type(x) is int or nw == w:
        return x
    return cat([(x, w), (0, nw - w)])

def sext(x, w, nw):
    if nw <= w:
        return ext(x, 0, nw)
    if type(x) is int:
        return (x | ~mask(w)) & mask(nw) if x >> (w - 1) else x
    if rng(x)[1] < (1 << (w - 1)):
        return zext(x, w, nw)
    if x.op == "sext":
        return sext(x.args[0], x.args[0].w, nw)
    if x.op == "ite" and type(x.args[1]) is int and type(x.args[2]) is int:
        return ite(x.args[0], sext(x.args[1], w, nw), sext(x.args[2], w, nw), nw)
    return mk("sext", nw, (x,))

def sx(x, w):
    """python int value (signed) of constant x"""
    return x - (1 << w) if x >> (w - 1) else x

# ---------------------------------------------------------------- bitwise
def _runs(c, w):
    out = []; pos = 0
    while pos < w:
        b = (c >> pos) & 1
        e = pos + 1
        while e < w and ((c >> e) & 1) == b:
            e += 1
        out.append((b, pos, e - pos)); pos = e
    return out

def _cuts(x):
    s = set(); p = 0
    for pw in x.data:
        p += pw; s.add(p)
    return s

def _seg(f, w, a, b):
    """try to apply bitwise f segment-wise; None if it does not pay off"""
    ca = a.op == "cat"; cb = type(b) is not int and b.op == "cat"
    if not (ca and cb):
        return None
    sa = _cuts(a); sb = _cuts(b)
    cuts = sorted(sa | sb)
    if sa != sb:
        # pay-off only if every segment has a constant side
        pos = 0
        for c in cuts:
            u = ext(a, pos, c - pos); v = ext(b, pos, c - pos)
            if type(u) is not int and type(v) is not int:
                return None
            pos = c
    pos = 0; parts = []
    for c in cuts:
        parts.append((f(c - pos, ext(a, pos, c - pos), ext(b, pos, c - pos)), c - pos))
        pos = c
    return cat(parts)

def _nary(op, w, a, b):
    args = []; const = None
    for x in (a, b):
        if type(x) is int:
            const = x if const is None else _cf[op](const, x)
        elif x.op == op and x.w == w and len(x.args) <= 24:
            args.extend(x.args)
            if x.data is not None:
                const = x.data if const is None else _cf[op](const, x.data)
        else:
            args.append(x)
    return args, const

_cf = {"xor": lambda a, b: a ^ b, "and": lambda a, b: a & b, "or": lambda a, b: a | b}

def _tblmerge(op, w, args):
    by = None; f = _cf[op]
    for i, a in enumerate(args):
        if a.op == "tbl":
            if by is None:
                by = {}
            j = by.get(a.args[0])
            if j is None:
                by[a.args[0]] = i
            else:
                ta = _tables[args[j].data]; tb = _tables[a.data]
                n = tbl(w, a.args[0], tuple(f(u, v) for u, v in zip(ta, tb)))
                rest = [x for k, x in enumerate(args) if k != i and k != j]
                return rest, n
    return None

def _tblsum(x):
    """a shifted exclusive or of table entries, or a constant selected by one, as table entries of full width"""
    if x.op != "cat": return None
    p = [(i, a) for i, a in enumerate(x.args) if a != 0]
    if len(p) != 1 or type(p[0][1]) is int: return None
    i, a = p[0]
    k = sum(x.data[:i])
    if a.op == "xor" and a.data is None and all(t.op == "tbl" for t in a.args):
        return [tbl(x.w, t.args[0], tuple(v << k for v in _tables[t.data])) for t in a.args]
    if a.op == "ite" and a.args[2] == 0 and type(a.args[1]) is int:
        c = a.args[0]; v = a.args[1] << k
        if c.op == "xor" and c.data is None and all(t.op == "tbl" for t in c.args):
            return [tbl(x.w, t.args[0], tuple(v if b else 0 for b in _tables[t.data])) for t in c.args]
    return None

def bxor(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a ^ b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if a.op == "tbl":
            return tbl(w, a.args[0], tuple(v ^ b for v in _tables[a.data]))
        if a.op == "ite" and type(a.args[1]) is int and type(a.args[2]) is int:
            return ite(a.args[0], a.args[1] ^ b, a.args[2] ^ b, w)
        if a.op == "cat":
            parts = []; pos = 0
            for p, pw in zip(a.args, a.data):
                parts.append((bxor(pw, p, (b >> pos) & mask(pw)), pw)); pos += pw
            return cat(parts)
    elif a is b:
        return 0
    else:
        r = _seg(bxor, w, a, b)
        if r is not None:
            return r
    args, const = _nary("xor", w, a, b)
    args.sort(key=_id)
    out = []
    for x in args:
        if out and out[-1] is x:
            out.pop()
        else:
            out.append(x)
    if XORPUSH:
        for i, x in enumerate(out):
            y = _tblsum(x)
            if y is not None:
                r = const or 0
                for z in out[:i] + out[i + 1:] + y: r = bxor(w, r, z)
                return r
    m = _tblmerge("xor", w, out)
    if m is not None:
        r = m[1]
        for x in m[0]:
            r = bxor(w, r, x)
        return r if const is None else bxor(w, r, const)
    if const == 0:
        const = None
    if not out:
        return const or 0
    if len(out) == 1:
        if const is None:
            return out[0]
        if type(out[0]) is not int and out[0].op in ("cat", "tbl"):
            return bxor(w, out[0], const)
    return mk("xor", w, tuple(out), const)

def bnot(w, a):
    return bxor(w, a, mask(w))

def _id(x):
    return x.id

def band(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a & b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == mask(w):
            return a
        if a.op == "tbl":
            return tbl(w, a.args[0], tuple(v & b for v in _tables[a.data]))
        rs = _runs(b, w)
        if len(rs) <= 8 or a.op == "cat":
            if len(rs) <= 8:
                return cat([(ext(a, p, n) if bit else 0, n) for bit, p, n in rs])
            parts = []; pos = 0
            for p, pw in zip(a.args, a.data):
                parts.append((band(pw, p, (b >> pos) & mask(pw)), pw)); pos += pw
            return cat(parts)
        lo = rs[0][2] if not rs[0][0] else 0; hi = rs[-1][2] if not rs[-1][0] else 0
        if DEEP and (lo or hi):
            return cat([(0, lo), (band(w - lo - hi, ext(a, lo, w - lo - hi), (b >> lo) & mask(w - lo - hi)), w - lo - hi), (0, hi)])
    elif a is b:
        return a
    else:
        r = _seg(band, w, a, b)
        if r is not None:
            return r
        if a.op == "xor" and a.data == mask(w) and len(a.args) == 1 and a.args[0] is b:
            return 0
        if b.op == "xor" and b.data == mask(w) and len(b.args) == 1 and b.args[0] is a:
            return 0
        if a.op == "cat" or b.op == "cat":
            # zero fields of one side clear the other
            c, o = (a, b) if a.op == "cat" else (b, a)
            if any(type(p) is int and p == 0 for p in c.args):
                parts = []; pos = 0
                for p, pw in zip(c.args, c.data):
                    parts.append((band(pw, p, ext(o, pos, pw)), pw)); pos += pw
                return cat(parts)
    args, const = _nary("and", w, a, b)
    args = sorted(set(args), key=_id)
    m = _tblmerge("and", w, args)
    if m is not None:
        r = m[1]
        for x in m[0]:
            r = band(w, r, x)
        return r if const is None else band(w, r, const)
    if w == 1:
        s = set(args)
        for x in args:
            if x.op == "xor" and x.data == 1 and len(x.args) == 1 and x.args[0] in s:
                return 0
    if const == mask(w):
        const = None
    if const == 0:
        return 0
    if len(args) == 1 and const is None:
        return args[0]
    return mk("and", w, tuple(args), const)

def bor(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a | b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if b == mask(w):
            return b
        if a.op == "tbl":
            return tbl(w, a.args[0], tuple(v | b for v in _tables[a.data]))
        rs = _runs(b, w)
        if len(rs) <= 8:
            return cat([(mask(n) if bit else ext(a, p, n), n) for bit, p, n in rs])
        if a.op == "cat":
            parts = []; pos = 0
            for p, pw in zip(a.args, a.data):
                parts.append((bor(pw, p, (b >> pos) & mask(pw)), pw)); pos += pw
            return cat(parts)
    elif a is b:
        return a
    else:
        r = _seg(bor, w, a, b)
        if r is not None:
            return r
        r = _rot(w, a, b)
        if r is not None:
            return r
    args, const = _nary("or", w, a, b)
    args = sorted(set(args), key=_id)
    m = _tblmerge("or", w, args)
    if m is not None:
        r = m[1]
        for x in m[0]:
            r = bor(w, r, x)
        return r if const is None else bor(w, r, const)
    if w == 1:
        s = set(args)
        for x in args:
            if x.op == "xor" and x.data == 1 and len(x.args) == 1 and x.args[0] in s:
                return 1
    if const == 0:
        const = None
    if len(args) == 1 and const is None:
        return args[0]
    return mk("or", w, tuple(args), const)

_bw = {"xor": bxor, "and": band, "or": bor}

def _rot(w, a, b):
    """(x >> s) | (x << (-s mod w)) with symbolic s -> rotl"""
    if {a.op, b.op} != {"shl", "lshr"}:
        return None
    s, l = (a, b) if a.op == "shl" else (b, a)
    if s.args[0] is not l.args[0]:
        return None
    x = s.args[0]; sa = s.args[1]; la = l.args[1]
    if w & (w - 1) or type(sa) is int or type(la) is int:
        return None
    k = w.bit_length() - 1
    # both amounts < w and sum = 0 mod w
    if rng(sa)[1] < w and rng(la)[1] < w:
        if add(k, ext(sa, 0, k), ext(la, 0, k)) == 0:
            return rotl(w, x, zext(ext(sa, 0, k), k, w))
    return None

# ---------------------------------------------------------------- arithmetic
def _widen(y, w):
    if type(y) is int:
        return y
    if y.w == w:
        return y
    if y.op == "ext" and y.data == 0 and y.args[0].w == w:
        return y.args[0]
    return zext(y, y.w, w)

def lin(w, c, terms):
    """sum of coef*term + c  (mod 2^w); terms: [(value, coef)]"""
    m = (1 << w) - 1
    acc = {}
    stack = list(terms)
    while stack:
        t, k = stack.pop()
        k &= m
        if k == 0:
            continue
        if type(t) is int:
            c += t * k
            continue
        op = t.op
        if op == "lin":
            c2, co = t.data
            c += c2 * k
            for a, k2 in zip(t.args, co):
                stack.append((a, k * k2))
            continue
        if op == "cat" and type(t.args[0]) is int:
            z = t.args[0]; zw = t.data[0]
            if z == 0 and len(t.args) == 2:
                y = t.args[1]
                x = _widen(y, w)
                if (type(x) is not int and (x.op != "cat" or y.op == "lin")):
                    if y.op == "lin":
                        c2, co = y.data
                        c += (c2 << zw) * k
                        for a, k2 in zip(y.args, co):
                            stack.append((_widen(a, w), (k * k2) << zw))
                    else:
                        stack.append((x, k << zw))
                    continue
        if op == "xor" and t.data == m and len(t.args) == 1:
            # ~x = -x-1
            stack.append((t.args[0], -k)); c -= k
            continue
        if op == "cat" and DEEP:
            # constant segments join the constant
            z = 0; pos = 0
            for p, pw in zip(t.args, t.data):
                if type(p) is int: z |= p << pos
                pos += pw
            if z:
                c += z * k
                t = cat([(0 if type(p) is int else p, pw) for p, pw in zip(t.args, t.data)])
                if t.op != "cat" or type(t.args[0]) is int and len(t.args) == 2: stack.append((t, k)); continue
        acc[t] = acc.get(t, 0) + k
    c &= m
    items = [(t, k & m) for t, k in acc.items() if k & m]
    if not items:
        return c
    if DEEP and len(items) > 1 and any(t.op == "cat" for t, k in items):
        n = _shifts(w, items)
        if n is not None: return lin(w, c, n)
    if DEEP and len(items) == 1 and items[0][1] == 1 and c and items[0][0].op == "cat":
        r = _disjoint(w, items[0][0], c)
        if r is not None: return r
    if len(items) == 1 and c == 0:
        t, k = items[0]
        if k == 1:
            return t
        if k & (k - 1) == 0:
            s = k.bit_length() - 1
            return cat([(0, s), (ext(t, 0, w - s), w - s)])
    if len(items) > 1:
        # two halves of one value with the same coefficient
        cats = [(t, k) for t, k in items if t.op == "cat"]
        if len(cats) > 1 and not DEEP:
            for i, (t, k) in enumerate(cats):
                for t2, k2 in cats[i + 1:]:
                    if k2 == k:
                        d = _disjoint(w, t, t2)
                        if d is not None and type(d) is not int and d.op != "cat":
                            return lin(w, c, [p for p in items if p[0] is not t and p[0] is not t2] + [(d, k)])
        if len(cats) > 1 and DEEP:
            groups = {}
            for t, k in cats: groups.setdefault(k, []).append(t)
            for k, g in groups.items():
                if not 1 < len(g) < 8: continue
                ds = [(d, t, t2) for i, t in enumerate(g) for t2 in g[i + 1:] for d in (_disjoint(w, t, t2),) if d is not None]
                best = [x for x in ds if type(x[0]) is not int and (x[0].op != "cat" or x[0] in acc)] or (ds if len(ds) == 1 and _joins(ds[0][0]) else [])
                if best:
                    d, t, t2 = best[0]
                    return lin(w, c, [p for p in items if p[0] is not t and p[0] is not t2] + [(d, k)])
        hs = [] if not DEEP else [(t, k) for t, k in items if k == 1 and t.op == "ext" and t.args[0].op == "lin" and t.data > 0 and t.data + w == t.args[0].w]
        if len(hs) == 1:
            # high part of L plus y is the high part of L + (y << n) when y completes a term of L
            h = hs[0][0]; n = h.data; L = h.args[0]
            new = lin(L.w, c << n, [(L, 1)] + [(cat([(0, n), (t, w)]), k) for t, k in items if t is not h])
            if type(new) is int or new.op != "lin" or len(new.args) <= len(L.args): return ext(new, n, w)
    if not DEEP:
        z = c
        for t, k in items: z |= k
        if not z & 1:
            z = (z & -z).bit_length() - 1
            return cat([(0, z), (lin(w - z, c >> z, [(ext(t, 0, w - z), k >> z) for t, k in items]), w - z)])
    elif not c & 1:
        z = (c & -c).bit_length() - 1 if c else w
        for t, k in items:
            n = (k & -k).bit_length() - 1
            if t.op == "cat" and type(t.args[0]) is int and t.args[0] == 0: n += t.data[0]
            if n < z: z = n
            if not z: break
        if z >= w: return 0
        if z:
            new = []
            for t, k in items:
                n = min((k & -k).bit_length() - 1, z)
                new.append((ext(t, z - n, w - z), k >> n))
            return cat([(0, z), (lin(w - z, c >> z, new), w - z)])
    items.sort(key=lambda p: p[0].id)
    return mk("lin", w, tuple(p[0] for p in items), (c, tuple(p[1] for p in items)))

def _joins(d):
    """the two have no zero segment in common any more: they are the halves of d"""
    return all(type(p) is not int for p in d.args)

def _shifts(w, items):
    """combine t and a shifted copy of t written as a concatenation"""
    L = []
    for t, k in items:
        y = t.data[0] if t.op == "cat" and type(t.args[0]) is int and t.args[0] == 0 else 0
        z = y + ((k & -k).bit_length() - 1)
        L.append((t, k, y, z))
    for i, (t, k, y, z) in enumerate(L):
        if not z or z >= w: continue
        R = ext(t, y, w - z)
        for j, (u, l, y2, z2) in enumerate(L):
            if i != j and (z2 < z or z2 == z and j < i) and y2 + w - z <= w and (t.op == "cat" or u.op == "cat") and ext(u, y2, w - z) is R:
                return [(a, b) for n, (a, b, _, _) in enumerate(L) if n != i and n != j] + [(u, l + (k << (y - y2) if y >= y2 else k >> (y2 - y)))]
    return None

_supp = {}
def _support(x):
    """bits of a concatenation outside its constant zeros"""
    r = _supp.get(x)
    if r is None:
        r = pos = 0
        for p, pw in zip(x.args, x.data):
            r |= (p if type(p) is int else mask(pw)) << pos; pos += pw
        _supp[x] = r
    return r

def _disjoint(w, a, b):
    if type(b) is int:
        if a.op != "cat":
            return None
        pos = 0
        for p, pw in zip(a.args, a.data):
            if type(p) is not int:
                if (b >> pos) & mask(pw):
                    return None
            elif p & ((b >> pos) & mask(pw)):
                return None
            pos += pw
        return bor(w, a, b)
    if a.op == "cat" and b.op == "cat":
        if _support(a) & _support(b): return None
        cuts = sorted(_cuts(a) | _cuts(b))
        pos = 0
        for c in cuts:
            if ext(a, pos, c - pos) != 0 and ext(b, pos, c - pos) != 0:
                return None
            pos = c
        return bor(w, a, b)
    return None

def add(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return (a + b) & mask(w)
        a, b = b, a
    if type(b) is int and b == 0:
        return a
    r = _disjoint(w, a, b)
    if r is not None:
        return r
    return lin(w, 0, [(a, 1), (b, 1)])

def sub(w, a, b):
    if type(a) is int and type(b) is int:
        return (a - b) & mask(w)
    if a is b:
        return 0
    return lin(w, 0, [(a, 1), (b, -1)])

def neg(w, a):
    return sub(w, 0, a)

def mul(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return (a * b) & mask(w)
        a, b = b, a
    if type(b) is int:
        return lin(w, 0, [(a, b)])
    if a.id > b.id:
        a, b = b, a
    if a.op == "lin" and len(a.args) == 1 and a.data[0] == 0:
        return lin(w, 0, [(mul(w, a.args[0], b), a.data[1][0])])
    if b.op == "lin" and len(b.args) == 1 and b.data[0] == 0:
        return lin(w, 0, [(mul(w, a, b.args[0]), b.data[1][0])])
    if w == 1:
        return band(1, a, b)
    return mk("mul", w, (a, b))

def udiv(w, a, b):
    if type(b) is int:
        if b == 0:
            return mask(w)
        if type(a) is int:
            return a // b
        if b & (b - 1) == 0:
            return lshr(w, a, b.bit_length() - 1)
        if rng(a)[1] < b:
            return 0
    return mk("udiv", w, (a, b))

def urem(w, a, b):
    if type(b) is int:
        if b == 0:
            return a
        if type(a) is int:
            return a % b
        if b & (b - 1) == 0:
            return band(w, a, b - 1)
        if rng(a)[1] < b:
            return a
    return mk("urem", w, (a, b))

def sdiv(w, a, b):
    if type(a) is int and type(b) is int:
        x = sx(a, w); y = sx(b, w)
        if y == 0:
            return mask(w) if x >= 0 else 1
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    if type(b) is int and srng(a, w)[0] >= 0 and sx(b, w) > 0:
        return udiv(w, a, b)
    return mk("sdiv", w, (a, b))

def srem(w, a, b):
    if type(a) is int and type(b) is int:
        x = sx(a, w); y = sx(b, w)
        if y == 0:
            return a
        q = abs(x) % abs(y)
        return (q if x >= 0 else -q) & mask(w)
    if type(b) is int and srng(a, w)[0] >= 0 and sx(b, w) > 0:
        return urem(w, a, b)
    return mk("srem", w, (a, b))

def shl(w, a, s):
    if type(s) is int:
        if s >= w:
            return 0
        if type(a) is int:
            return (a << s) & mask(w)
        if s == 0:
            return a
        return cat([(0, s), (ext(a, 0, w - s), w - s)])
    if type(a) is int and a == 0:
        return 0
    if rng(s)[0] >= w:
        return 0
    return mk("shl", w, (a, s))

def lshr(w, a, s):
    if type(s) is int:
        if s >= w:
            return 0
        if type(a) is int:
            return a >> s
        if s == 0:
            return a
        return cat([(ext(a, s, w - s), w - s), (0, s)])
    if type(a) is int and a == 0:
        return 0
    if rng(s)[0] >= w:
        return 0
    return mk("lshr", w, (a, s))

def ashr(w, a, s):
    if type(s) is int:
        s = min(s, w - 1)
        if type(a) is int:
            return (sx(a, w) >> s) & mask(w)
        if s == 0:
            return a
        return sext(ext(a, s, w - s), w - s, w)
    return mk("ashr", w, (a, s))

def rotl(w, x, s):
    """s taken mod w; s has width w"""
    if type(s) is int:
        s %= w
        if s == 0:
            return x
        if type(x) is int:
            return ((x << s) | (x >> (w - s))) & mask(w)
        return cat([(ext(x, w - s, s), s), (ext(x, 0, w - s), w - s)])
    if w & (w - 1) == 0:
        k = w.bit_length() - 1
        s = zext(ext(s, 0, k), k, w)
        if type(s) is int:
            return rotl(w, x, s)
    if type(x) is int and (x == 0 or x == mask(w)):
        return x
    return mk("rotl", w, (x, s))

def fshl(w, a, b, s):
    if type(s) is int:
        s %= w
        if s == 0:
            return a
        return cat([(ext(b, w - s, s), s), (ext(a, 0, w - s), w - s)])
    if a is b or (type(a) is int and type(b) is int and a == b):
        return rotl(w, a, s)
    s = urem(w, s, w)
    return ite(eq(w, s, 0), a, bor(w, shl(w, a, s), lshr(w, b, sub(w, w, s))), w)

def fshr(w, a, b, s):
    if type(s) is int:
        s %= w
        if s == 0:
            return b
        return cat([(ext(b, s, w - s), w - s), (ext(a, 0, s), s)])
    if a is b or (type(a) is int and type(b) is int and a == b):
        return rotl(w, a, neg(w, s))
    s = urem(w, s, w)
    return ite(eq(w, s, 0), b, bor(w, lshr(w, b, s), shl(w, a, sub(w, w, s))), w)

def ctpop(w, a):
    if type(a) is int:
        return bin(a).count("1")
    return mk("ctpop", w, (a,))

# ---------------------------------------------------------------- predicates
def ite(c, a, b, w):
    if type(c) is int:
        return a if c else b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    if c.op == "xor" and c.data == 1 and len(c.args) == 1:
        return ite(c.args[0], b, a, w)
    if w == 1:
        if a == 1 and type(a) is int:
            return c if (type(b) is int and b == 0) else bor(1, c, b)
        if a == 0 and type(a) is int:
            return bnot(1, c) if (type(b) is int and b == 1) else band(1, bnot(1, c), b)
        if type(b) is int:
            return band(1, c, a) if b == 0 else bor(1, bnot(1, c), a)
    if type(a) is not int and a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if type(b) is not int and b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if type(a) is int and type(b) is int and w > 1:
        # pull the differing field out
        d = a ^ b
        hi = d.bit_length(); lo = (d & -d).bit_length() - 1
        if hi - lo < w:
            ww = hi - lo
            m = mask(ww)
            inner = ite(c, (a >> lo) & m, (b >> lo) & m, ww)
            parts = []
            if lo:
                parts.append((a & mask(lo), lo))
            parts.append((inner, ww))
            if hi < w:
                parts.append((a >> hi, w - hi))
            return cat(parts)
    return mk("ite", w, (c, a, b))

def eq(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return 1 if a == b else 0
        a, b = b, a
    if a is b:
        return 1
    if type(b) is int:
        if w == 1:
            return a if b else bnot(1, a)
        l, h = rng(a)
        if b < l or b > h:
            return 0
        op = a.op
        if op == "cat":
            r = 1; pos = 0
            for p, pw in zip(a.args, a.data):
                e = eq(pw, p, (b >> pos) & mask(pw))
                if type(e) is int:
                    if e == 0:
                        return 0
                else:
                    r = band(1, r, e)
                pos += pw
            return r
        if op == "xor" and a.data is not None:
            return eq(w, mk("xor", w, a.args) if len(a.args) > 1 else a.args[0], a.data ^ b)
        if op == "xor" and len(a.args) == 2 and b == 0:
            return eq(w, a.args[0], a.args[1])
        if op == "ite":
            x, y = a.args[1], a.args[2]
            if type(x) is int or type(y) is int:
                return ite(a.args[0], eq(w, x, b), eq(w, y, b), 1)
        if op == "tbl":
            return tbl(1, a.args[0], tuple(1 if v == b else 0 for v in _tables[a.data]))
        if op == "lin":
            c, co = a.data
            if len(co) == 1 and co[0] & 1:
                inv = pow(co[0], -1, 1 << w)
                return eq(w, a.args[0], ((b - c) * inv) & mask(w))
            if len(co) == 2 and (co[0] + co[1]) & mask(w) == 0 and co[0] & 1:
                inv = pow(co[0], -1, 1 << w)
                k = ((b - c) * inv) & mask(w)
                if k == 0:
                    return eq(w, a.args[0], a.args[1])
        if op == "sext":
            s = a.args[0]
            t = b & mask(s.w)
            if sext(t, s.w, w) != b:
                return 0
            return eq(s.w, s, t)
    else:
        d = sub(w, a, b)
        if type(d) is int:
            return 1 if d == 0 else 0
        la, ha = rng(a); lb, hb = rng(b)
        if ha < lb or hb < la:
            return 0
        if w == 1:
            return bnot(1, bxor(1, a, b))
        if a.op == "cat" and b.op == "cat":
            r = 1; pos = 0
            for c in sorted(_cuts(a) | _cuts(b)):
                e = eq(c - pos, ext(a, pos, c - pos), ext(b, pos, c - pos))
                if type(e) is int:
                    if e == 0:
                        return 0
                else:
                    r = band(1, r, e)
                pos = c
            return r
        if a.op == "sext" and b.op == "sext" and a.args[0].w == b.args[0].w:
            return eq(a.args[0].w, a.args[0], b.args[0])
        if a.id > b.id:
            a, b = b, a
    return mk("eq", 1, (a, b), w)

def ne(w, a, b):
    return bnot(1, eq(w, a, b))

def ult(w, a, b):
    if type(a) is int and type(b) is int:
        return 1 if a < b else 0
    if a is b:
        return 0
    la, ha = rng(a); lb, hb = rng(b)
    if ha < lb:
        return 1
    if la >= hb:
        return 0
    if type(b) is int:
        if b == 1:
            return eq(w, a, 0)
        if b == mask(w):
            return ne(w, a, b)
    if type(a) is int:
        if a == 0:
            return ne(w, b, 0)
    # strip common zero top parts
    if type(a) is not int and a.op == "cat" and type(a.args[-1]) is int:
        k = a.data[-1]
        e = ext(b, w - k, k)
        if type(e) is int:
            if e == a.args[-1]:
                return ult(w - k, ext(a, 0, w - k), ext(b, 0, w - k))
    elif type(b) is not int and b.op == "cat" and type(b.args[-1]) is int:
        k = b.data[-1]
        e = ext(a, w - k, k)
        if type(e) is int and e == b.args[-1]:
            return ult(w - k, ext(a, 0, w - k), ext(b, 0, w - k))
    return mk("ult", 1, (a, b), w)

def ule(w, a, b):
    return bnot(1, ult(w, b, a))

def slt(w, a, b):
    if type(a) is int and type(b) is int:
        return 1 if sx(a, w) < sx(b, w) else 0
    if a is b:
        return 0
    la, ha = srng(a, w); lb, hb = srng(b, w)
    if ha < lb:
        return 1
    if la >= hb:
        return 0
    if la >= 0 and lb >= 0:
        return ult(w, a, b)
    if type(b) is int and b == 0:
        return ext(a, w - 1, 1)
    if type(a) is not int and a.op == "sext" and (type(b) is int or (b.op == "sext" and b.args[0].w == a.args[0].w)):
        s = a.args[0].w
        bb = ext(b, 0, s)
        if type(b) is not int or sext(bb, s, w) == b:
            return slt(s, a.args[0], bb)
    if type(b) is not int and b.op == "sext" and type(a) is int:
        s = b.args[0].w
        aa = ext(a, 0, s)
        if sext(aa, s, w) == a:
            return slt(s, aa, b.args[0])
    return mk("slt", 1, (a, b), w)

def sle(w, a, b):
    return bnot(1, slt(w, b, a))

# ---------------------------------------------------------------- tables
_tables = {}
_table_ids = {}

def table_id(t):
    i = _table_ids.get(t)
    if i is None:
        i = len(_table_ids)
        _table_ids[t] = i
        _tables[i] = t
    return i

def tbl(w, idx, table):
    """table[idx]; len(table) == 2**idx.w"""
    if type(idx) is int:
        return table[idx]
    f = table[0]
    if all(v == f for v in table):
        return f
    assert len(table) == 1 << idx.w
    if idx.op == "tbl":
        inner = _tables[idx.data]
        return tbl(w, idx.args[0], tuple(table[v] for v in inner))
    if idx.op == "xor" and idx.data is not None:
        k = idx.data
        base = mk("xor", idx.w, idx.args) if len(idx.args) > 1 else idx.args[0]
        return tbl(w, base, tuple(table[i ^ k] for i in range(len(table))))
    if w == idx.w and all(v == i for i, v in enumerate(table)):
        return idx
    return mk("tbl", w, (idx,), table_id(table))

def sel(w, idx, idxw, vals):
    """vals[idx] for symbolic vals; index out of range gives the last one"""
    if type(idx) is int:
        return vals[min(idx, len(vals) - 1)]
    v0 = vals[0]
    if all(v is v0 or (type(v) is int and type(v0) is int and v == v0) for v in vals):
        return v0
    if len(vals) <= 2:
        return ite(eq(idxw, idx, 0), vals[0], vals[1], w)
    if all(type(v) is int for v in vals) and idxw <= 12 and len(vals) == 1 << idxw:
        return tbl(w, idx, tuple(vals))
    return mk("sel", w, (idx,) + tuple(vals), idxw)

def uf(name, w, *args):
    return mk("uf", w, tuple(args), name)

# ---------------------------------------------------------------- floating point
# FP values are bit patterns; op names f32/f64 arithmetic.  "dy" is an exact
# dyadic number: the IEEE pattern (format data[0]) of unsigned(args[0]) * 2**data[1].
FMT = {16: (5, 11), 32: (8, 24), 64: (11, 53), 80: (15, 64), 128: (15, 113)}

def f2b(x, w=64):
    return struct.unpack("<Q", struct.pack("<d", x))[0] if w == 64 else struct.unpack("<I", struct.pack("<f", x))[0]

def b2f(b, w=64):
    return struct.unpack("<d", struct.pack("<Q", b))[0] if w == 64 else struct.unpack("<f", struct.pack("<I", b))[0]

def _nbits(x):
    return rng(x)[1].bit_length()

def dy(w, x, k):
    """bit pattern of x * 2^k, caller guarantees exactness"""
    if type(x) is int:
        if x == 0:
            return 0
        return dyconst(w, x, k)
    # strip constant low zeros
    while type(x) is not int and x.op == "cat" and type(x.args[0]) is int and x.args[0] == 0:
        z = x.data[0]
        x = ext(x, z, x.w - z); k += z
    while type(x) is not int and x.op == "cat" and type(x.args[-1]) is int and x.args[-1] == 0:
        x = ext(x, 0, x.w - x.data[-1])
    if type(x) is not int:
        n = _nbits(x)
        if n == 0: return 0
        if n < x.w: x = ext(x, 0, n)
    if type(x) is int: return dyconst(w, x, k) if x else 0
    return mk("dy", w, (x,), k)

def dyconst(w, x, k):
    e, p = FMT[w]
    n = x.bit_length()
    bias = (1 << (e - 1)) - 1
    ex = n - 1 + k + bias
    assert n <= p or x & (mask(n - p)) == 0
    assert 0 < ex < (1 << e) - 1
    m = x << (p - n) if p >= n else x >> (n - p)
    if w == 80:
        return m | (ex << 64)
    return (m & mask(p - 1)) | (ex << (p - 1))

def undy(w, c):
    """(sign, int, exp) of a finite constant, or None"""
    e, p = FMT[w]
    bias = (1 << (e - 1)) - 1
    if w == 80:
        s = c >> 79; ex = (c >> 64) & mask(15); m = c & mask(64)
        if ex == mask(15):
            return None
        if m == 0:
            return (s, 0, 0)
        k = ex - bias - 63
    else:
        s = c >> (w - 1); ex = (c >> (p - 1)) & mask(e); m = c & mask(p - 1)
        if ex == mask(e):
            return None
        if ex:
            m |= 1 << (p - 1)
            k = ex - bias - (p - 1)
        else:
            if m == 0:
                return (s, 0, 0)
            k = 1 - bias - (p - 1)
    while m & 1 == 0:
        m >>= 1; k += 1
    return (s, m, k)

def _asdy(w, a):
    """(x, k) if a is known to be the exact nonnegative dyadic x*2^k"""
    if type(a) is int:
        u = undy(w, a)
        if u is None or u[0]:
            return None
        return (u[1], u[2])
    if a.op == "dy":
        return (a.args[0], a.data)
    # 1.mantissa with constant exponent
    e, p = FMT[w]
    if w in (32, 64):
        top = ext(a, p - 1, e + 1)
        if type(top) is int and 0 < top < mask(e):
            bias = (1 << (e - 1)) - 1
            return (cat([(ext(a, 0, p - 1), p - 1), (1, 1)]), top - bias - (p - 1))
    return None

def uitofp(w, x, iw):
    e, p = FMT[w]
    if type(x) is int:
        if x == 0:
            return 0
        n = x.bit_length()
        if n <= p:
            return dyconst(w, x, 0)
        return fconst_round(w, x)
    if _nbits(x) <= p:
        return dy(w, x, 0)
    # trailing zeros give extra room
    y = x; z = 0
    if y.op == "cat" and type(y.args[0]) is int and y.args[0] == 0:
        z = y.data[0]
        y = ext(y, z, iw - z)
        if _nbits(y) <= p:
            return dy(w, y, z)
    return mk("uitofp", w, (x,), iw)

def fconst_round(w, x):
    e, p = FMT[w]
    n = x.bit_length(); s = n - p
    q = x >> s; r = x & mask(s); h = 1 << (s - 1)
    if r > h or (r == h and q & 1):
        q += 1
    return dyconst(w, q, s)

def sitofp(w, x, iw):
    if srng(x, iw)[0] >= 0:
        return uitofp(w, x, iw)
    if type(x) is int:
        v = uitofp(w, -sx(x, iw), iw)
        return v | (1 << (w - 1))
    return mk("sitofp", w, (x,), iw)

def _expok(w, x, k):
    e, p = FMT[w]
    bias = (1 << (e - 1)) - 1
    return k >= 1 - bias and _nbits(x) + k <= bias

def fbin(op, w, a, b):
    if type(a) is int and type(b) is int and w == 64:
        x, y = b2f(a), b2f(b)
        try:
            r = x + y if op == "fadd" else x - y if op == "fsub" else x * y if op == "fmul" else x / y
            return f2b(r)
        except (ZeroDivisionError, OverflowError):
            pass
    e, p = FMT[w]
    if op == "fmul" or op == "fdiv":
        for u, v in ((a, b), (b, a)) if op == "fmul" else ((a, b),):
            if type(v) is int:
                d = undy(w, v)
                if d and d[0] == 0 and d[1] == 1:      # power of two
                    q = _asdy(w, u)
                    if q:
                        k = q[1] + (d[2] if op == "fmul" else -d[2])
                        if _expok(w, q[0], k):
                            return dy(w, q[0], k)
    if op == "fadd":
        qa, qb = _asdy(w, a), _asdy(w, b)
        if qa and qb:
            r = _dyadd(w, qa, qb)
            if r is not None:
                return r
        # x + (-c) with x = 1.m : subtract exactly
        for u, v in ((a, b), (b, a)):
            if type(v) is int and v >> (w - 1):
                r = fbin("fsub", w, u, v & mask(w - 1))
                if type(r) is int or r.op == "dy":
                    return r
    if op == "fsub":
        qa, qb = _asdy(w, a), _asdy(w, b)
        if qa and qb:
            k = min(qa[1], qb[1])
            x = _scale(qa[0], qa[1] - k); y = _scale(qb[0], qb[1] - k)
            if rng(x)[0] >= rng(y)[1]:
                n = max(_nbits(x), _nbits(y), 1)
                if n <= p and _expok(w, x, k):
                    return dy(w, sub(n, _fit(x, n), _fit(y, n)), k)
                d = sub(n, _fit(x, n), _fit(y, n))
                if _nbits(d) <= p and _expok(w, d, k):
                    return dy(w, d, k)
    if op in ("fadd", "fmul") and (type(a) is int or (type(b) is not int and a.id > b.id)):
        a, b = b, a
    return mk(op, w, (a, b))

def _fit(x, n):
    if type(x) is int:
        return x
    if x.w == n:
        return x
    return ext(x, 0, n) if x.w > n else zext(x, x.w, n)

def _scale(x, s):
    if type(x) is int:
        return x << s
    return cat([(0, s), (x, x.w)]) if s else x

def _dyadd(w, qa, qb):
    e, p = FMT[w]
    k = min(qa[1], qb[1])
    if max(qa[1], qb[1]) - k > 200:
        return None
    x = _scale(qa[0], qa[1] - k); y = _scale(qb[0], qb[1] - k)
    hi = rng(x)[1] + rng(y)[1]
    n = max(hi.bit_length(), 1)
    if n <= p and k >= 1 - ((1 << (e - 1)) - 1):
        return dy(w, add(n, _fit(x, n), _fit(y, n)), k)
    return None

def fpconv(wf, wt, a):
    """fpext / fptrunc"""
    if wf == wt:
        return a
    q = _asdy(wf, a)
    if q and _nbits(q[0]) <= FMT[wt][1] and _expok(wt, q[0], q[1]):
        return dy(wt, q[0], q[1])
    if type(a) is int:
        d = undy(wf, a)
        if d and (d[1] == 0 or (d[1].bit_length() <= FMT[wt][1] and _expok(wt, d[1], d[2]))):
            v = dyconst(wt, d[1], d[2]) if d[1] else 0
            return v | (d[0] << (wt - 1))
    return mk("fpconv", wt, (a,), wf)

def fptoui(iw, a, w, signed=False):
    q = _asdy(w, a)
    if q:
        x, k = q
        if k >= 0:
            y = _scale(x, k)
            if _nbits(y) <= iw - (1 if signed else 0):
                return _fit(y, iw)
        else:
            if type(x) is int:
                y = x >> -k
            elif -k >= x.w:
                y = 0
            else:
                y = ext(x, -k, x.w + k)
            if _nbits(y) <= iw - (1 if signed else 0):
                return _fit(y, iw)
    return mk("fptosi" if signed else "fptoui", iw, (a,), w)

def fcmp(pred, w, a, b):
    """pred in olt, ole, oeq, une, ..."""
    qa, qb = _asdy(w, a), _asdy(w, b)
    if qa and qb:
        k = min(qa[1], qb[1])
        x = _scale(qa[0], qa[1] - k); y = _scale(qb[0], qb[1] - k)
        n = max(_nbits(x), _nbits(y), 1)
        x = _fit(x, n); y = _fit(y, n)
        p = pred[1:]
        if p == "eq": return eq(n, x, y)
        if p == "ne": return ne(n, x, y)
        if p == "lt": return ult(n, x, y)
        if p == "le": return ule(n, x, y)
        if p == "gt": return ult(n, y, x)
        if p == "ge": return ule(n, y, x)
        if pred == "ord": return 1
        if pred == "uno": return 0
    if type(a) is int and type(b) is int and w in (32, 64):
        x, y = b2f(a, w), b2f(b, w)
        un = x != x or y != y
        if pred == "ord": return int(not un)
        if pred == "uno": return int(un)
        if un: return 1 if pred[0] == "u" else 0
        p = pred[1:]
        return int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p])
    return mk("fcmp", 1, (a, b), (pred, w))

# ---------------------------------------------------------------- traversal
def topo(roots):
    """T nodes reachable from roots, arguments first"""
    seen = set(); out = []
    for r in roots:
        if type(r) is int or r in seen:
            continue
        stack = [(r, iter(r.args))]
        seen.add(r)
        while stack:
            n, it = stack[-1]
            for a in it:
                if type(a) is not int and a not in seen:
                    seen.add(a)
                    stack.append((a, iter(a.args)))
                    break
            else:
                out.append(n); stack.pop()
    return out

def free_vars(roots):
    return [t for t in topo(roots) if t.op == "var"]

import hashlib
def _ufval(name, w, args):
    h = hashlib.sha256(repr((name, w, args)).encode()).digest()
    v = int.from_bytes(h, "little")
    return v & mask(w)

UF_IMPL = {}

def ev1(t, a):
    """evaluate node t given argument values a (ints)"""
    op = t.op; w = t.w; m = (1 << w) - 1
    if op == "lin":
        c, co = t.data
        for x, k in zip(a, co):
            c += x * k
        return c & m
    if op == "xor":
        r = t.data or 0
        for x in a: r ^= x
        return r
    if op == "and":
        r = m if t.data is None else t.data
        for x in a: r &= x
        return r
    if op == "or":
        r = t.data or 0
        for x in a: r |= x
        return r
    if op == "cat":
        r = 0; s = 0
        for x, pw in zip(a, t.data):
            r |= x << s; s += pw
        return r
    if op == "ext": return (a[0] >> t.data) & m
    if op == "ite": return a[1] if a[0] else a[2]
    if op == "eq": return 1 if a[0] == a[1] else 0
    if op == "ult": return 1 if a[0] < a[1] else 0
    if op == "slt": return 1 if sx(a[0], t.data) < sx(a[1], t.data) else 0
    if op == "mul": return (a[0] * a[1]) & m
    if op == "sext": return sext(a[0], t.args[0].w, w)
    if op == "udiv": return udiv(w, *a)
    if op == "urem": return urem(w, *a)
    if op == "sdiv": return sdiv(w, *a)
    if op == "srem": return srem(w, *a)
    if op == "shl": return shl(w, *a)
    if op == "lshr": return lshr(w, *a)
    if op == "ashr": return ashr(w, *a)
    if op == "rotl": return rotl(w, *a)
    if op == "ctpop": return bin(a[0]).count("1")
    if op == "tbl": return _tables[t.data][a[0]]
    if op == "sel": return a[1 + min(a[0], len(a) - 2)]
    if op == "uf":
        f = UF_IMPL.get(t.data)
        return f(*a) & m if f else _ufval(t.data, w, tuple(a))
    if op == "dy": return dy(w, a[0], t.data)
    if op == "uitofp": return uitofp(w, a[0], t.data)
    if op == "sitofp": return sitofp(w, a[0], t.data)
    if op in ("fadd", "fsub", "fmul", "fdiv"):
        r = fbin(op, w, a[0], a[1])
        if type(r) is int: return r
    if op == "fcmp":
        r = fcmp(t.data[0], t.data[1], a[0], a[1])
        if type(r) is int: return r
    if op == "fpconv":
        r = fpconv(t.data, w, a[0])
        if type(r) is int: return r
    if op in ("fptoui", "fptosi"):
        r = fptoui(w, a[0], t.data, op == "fptosi")
        if type(r) is int: return r
    raise NotImplementedError("eval " + op)

def evaluate(roots, env):
    """env: var name -> int.  Returns list of ints for roots."""
    val = {}
    for t in topo(roots):
        if t.op == "var":
            val[t] = env[t.data] & mask(t.w)
        else:
            val[t] = ev1(t, [x if type(x) is int else val[x] for x in t.args])
    return [r if type(r) is int else val[r] for r in roots]

def rebuild(t, a):
    """re-run the smart constructor of t with new arguments"""
    op = t.op; w = t.w
    if op == "lin":
        return lin(w, t.data[0], list(zip(a, t.data[1])))
    if op in _bw:
        f = _bw[op]; r = a[0]
        for x in a[1:]:
            r = f(w, r, x)
        return r if t.data is None else f(w, r, t.data)
    if op == "cat": return cat(list(zip(a, t.data)))
    if op == "ext": return ext(a[0], t.data, w)
    if op == "ite": return ite(a[0], a[1], a[2], w)
    if op == "eq": return eq(t.data, a[0], a[1])
    if op == "ult": return ult(t.data, a[0], a[1])
    if op == "slt": return slt(t.data, a[0], a[1])
    if op == "mul": return mul(w, a[0], a[1])
    if op == "sext": return sext(a[0], t.args[0].w, w)
    if op == "udiv": return udiv(w, *a)
    if op == "urem": return urem(w, *a)
    if op == "sdiv": return sdiv(w, *a)
    if op == "srem": return srem(w, *a)
    if op == "shl": return shl(w, *a)
    if op == "lshr": return lshr(w, *a)
    if op == "ashr": return ashr(w, *a)
    if op == "rotl": return rotl(w, *a)
    if op == "ctpop": return ctpop(w, a[0])
    if op == "tbl": return tbl(w, a[0], _tables[t.data])
    if op == "sel": return sel(w, a[0], t.data, list(a[1:]))
    if op == "dy": return dy(w, a[0], t.data)
    if op == "uitofp": return uitofp(w, a[0], t.data)
    if op == "sitofp": return sitofp(w, a[0], t.data)
    if op in ("fadd", "fsub", "fmul", "fdiv"): return fbin(op, w, a[0], a[1])
    if op == "fcmp": return fcmp(t.data[0], t.data[1], a[0], a[1])
    if op == "fpconv": return fpconv(t.data, w, a[0])
    if op in ("fptoui", "fptosi"): return fptoui(w, a[0], t.data, op == "fptosi")
    return mk(op, w, tuple(a), t.data)

def substitute(roots, m):
    """replace terms (dict T -> value) and renormalise"""
    val = dict(m)
    for t in topo(roots):
        if t in val:
            continue
        if not t.args:
            val[t] = t
            continue
        na = [x if type(x) is int else val[x] for x in t.args]
        same = all(x is y or (type(x) is int and type(y) is int) for x, y in zip(na, t.args))
        val[t] = t if same else rebuild(t, na)
    return [r if type(r) is int else val[r] for r in roots]
