"""Floating-point terms read as real polynomials in the symbolic draws and parameters (rounding ignored), and equality of two of them decided by Z3 over the reals."""
import math
from fractions import Fraction
from . import terms as tm, solve
from .ctx import Unsupported

TOL = Fraction(1, 10**9)
S = 1 << 63

def add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r

def mono(m, n):
    d = dict(m)
    for a, e in n: d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))

def mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mono(m, n); v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    return r

def const(p):
    if not p: return Fraction(0)
    if len(p) == 1 and () in p: return p[()]
    return None

def K(x): return {(): x} if x else {}

def opaque(t):
    """a value outside the algebra (memory never written, a quotient of symbolic values): any real; a difference it
    makes counts only if the replay shows it"""
    return {(("opaque%d" % t.id, 1),): Fraction(1)}

def poly(t, memo=None):
    memo = {} if memo is None else memo
    if type(t) is int:
        f = tm.b2f(t)
        if f != f or f in (math.inf, -math.inf): raise Unsupported("real value of %r" % f)
        return K(Fraction(f))
    if t.id in memo: return memo[t.id]
    op = t.op; a = t.args
    if op == "var":
        n = t.data
        r = {(("sqrt:" + n, 2),): Fraction(1)} if n.startswith("chisq") else {((n, 1),): Fraction(1)}
    elif op == "fadd": r = add(poly(a[0], memo), poly(a[1], memo))
    elif op == "fsub": r = add(poly(a[0], memo), poly(a[1], memo), -1)
    elif op == "fmul": r = mul(poly(a[0], memo), poly(a[1], memo))
    elif op == "fdiv":
        c = const(poly(a[1], memo))
        r = mul(poly(a[0], memo), K(1 / c)) if c else opaque(t)
    elif op == "uf" and "sqrt" in str(t.data):
        p = poly(a[0], memo); c = const(p)
        if c is not None: r = K(Fraction(math.sqrt(float(c))))
        elif len(p) == 1 and list(p.values())[0] >= 0 and all(e % 2 == 0 and v.startswith("sqrt:") for v, e in list(p)[0]):
            m, k = list(p.items())[0]
            r = {tuple((v, e // 2) for v, e in m): Fraction(math.sqrt(float(k)))}
        else: r = opaque(t)
    elif op == "xor":
        if len(a) != 1 or t.data != S: r = opaque(t)
        else: r = add({}, poly(a[0], memo), -1)
    else: r = opaque(t)
    memo[t.id] = r
    return r

def equal(a, b, ms):
    """'equal', 'differ' or 'unknown': do a and b agree (up to 1e-9) for every value of the variables in [-1, 1]"""
    d = add(poly(a), poly(b), -1)
    import z3
    V = {}
    s = z3.Solver(); s.set("timeout", ms)
    e = z3.RealVal(0)
    for m, c in d.items():
        t = z3.RealVal(str(c))
        for v, k in m:
            if v not in V:
                V[v] = z3.Real(v); s.add(V[v] <= 1, V[v] >= (0 if v.startswith("sqrt:") else -1))
            for _ in range(k): t = t * V[v]
        e = e + t
    # first with the monomials as independent variables in the box (linear), then as products
    l = z3.Solver(); l.set("timeout", ms)
    f = z3.RealVal(0)
    for i, (m, c) in enumerate(sorted(d.items(), key=str)):
        y = z3.Real("m%d" % i) if m else z3.RealVal(1)
        if m: l.add(y <= 1, y >= -1)
        f = f + z3.RealVal(str(c)) * y
    l.add(z3.Or(f > z3.RealVal(str(TOL)), f < z3.RealVal(str(-TOL))))
    solve.STATS.real = getattr(solve.STATS, "real", 0) + 1
    if l.check() == z3.unsat: return "equal"
    s.add(z3.Or(e > z3.RealVal(str(TOL)), e < z3.RealVal(str(-TOL))))
    r = s.check()
    return "equal" if r == z3.unsat else "differ" if r == z3.sat else "unknown"
