"""C21: the structured samplers of ExtendedGenerator."""
import numpy as N
from math import sqrt
from vp.task import Task

EXPLANATION = "The structured samplers run with every underlying normal and chi-square draw symbolic (and, where stated, symbolic locations or factor matrices). Each output is a polynomial in the draws; Z3 decides over the reals that it equals the documented transformation of the draws at that position, for every value of the draws. The argument domain is decided with symbolic doubles where stated."
ASSUMPTIONS = ["real arithmetic: floating-point rounding up to 1e-9 is ignored in the linear structure", "the normal and chi-square draws are arbitrary values (numpy's distribution code is not encoded)", "svd, eigh and cholesky are numpy's, applied to the constant matrices of the harness", "reduced-rank Cholesky (SciPy's pstrf) is not covered"]
DEEP = False
MODS = ("common", "pcg64", "generator", "broadcasting", "distributions")

def setup(w):
    bg = w.cls("pcg64", "PCG64")(w.ss("#g"))
    return bg, w.cls("generator", "ExtendedGenerator")(bg)

def carr(w, vals, shape):
    return w.np.array([complex(*v) if isinstance(v, tuple) else complex(v) for v in vals]).reshape(shape)

def same(w, what, got, want):
    w.check(what + ": number of values", len(got) == len(want))
    for i, (a, b) in enumerate(zip(got, want)): w.eqreal("%s[%d]" % (what, i), a, b)

# ------------------------------------------------------------------ scalar complex normal
def cn1(w, D, loc, g, c):
    vr, vi, cov = 0.5 * (g + c.real), 0.5 * (g - c.real), 0.5 * c.imag
    rho = cov / sqrt(vr * vi) if vr > 0 and vi > 0 else 0.0
    x, y = D.normal(), D.normal()
    return [x * sqrt(vr) + loc[0], x * (rho * sqrt(vi)) + y * (sqrt(vi) * sqrt(1 - rho * rho)) + loc[1]]

def cn_scalar(w, g, c, size):
    bg, E = setup(w)
    D = w.drawsof(bg)
    loc = (1.25, -3.5)
    v = E.complex_normal(complex(*loc), g, complex(c), size)
    n = 1 if size is None else int(N.prod(size))
    if size is not None: w.check("shape", w.shape(v) == (size if isinstance(size, tuple) else (size,)))
    want = []
    for i in range(n): want += cn1(w, D, loc, g, complex(c))
    same(w, "value", w.citems(v), want)
    D.finish()

GS = [2.0, 3.0, 1.0, 5.0, 1.5, 4.0]; CS = [1.0, -2.0 + 0.5j, 0.0, 3.0 - 1j, 1.5, 0.25 + 2j]; LS = [(1.0, -1.0), (0.5, 2.0), (-3.0, 0.0), (7.0, 7.5), (0.0, 0.0), (2.0, -8.0)]
def vals(xs, shape): return [xs[i % len(xs)] for i in range(int(N.prod(shape)) if shape else 1)]

def cn_array(w, ls, gs, cs, size):
    bg, E = setup(w)
    D = w.drawsof(bg)
    l, g = vals(LS, ls), vals(GS, gs)
    c = [complex(x) * min(1.0, 1.0) for x in vals(CS, cs)]
    sh = N.broadcast_shapes(ls, gs, cs)
    G, C, L = N.broadcast_to(N.array(g).reshape(gs), sh), N.broadcast_to(N.array(c).reshape(cs), sh), N.broadcast_to(N.arange(len(l)).reshape(ls), sh)
    # keep every pair admissible
    if N.any(N.abs(C) > G):
        g = [x + 4.0 for x in g]; G = N.broadcast_to(N.array(g).reshape(gs), sh)
    def pack(v, s): return v[0] if s == () else w.np.array(v).reshape(s)
    r = E.complex_normal(carr(w, l, ls) if ls else complex(*l[0]), pack(g, gs), carr(w, c, cs) if cs else c[0], size)
    out = sh if size is None else size if isinstance(size, tuple) else (size,)
    w.check("shape", w.shape(r) == out)
    G, C, L = (N.broadcast_to(x, out) for x in (G, C, L))
    want = []
    for i in N.ndindex(*out): want += cn1(w, D, l[int(L[i])], float(G[i]), complex(C[i]))
    same(w, "value", w.citems(r), want)
    D.finish()

def cn_domain(w, which, arr, frac=3):
    """refused exactly when the documented domain is left"""
    bg, E = setup(w)
    u = w.sym("x", frac + 2)                # sign, exponent 1022 or 1023, leading bits of the fraction
    x = w.f64(((u >> (frac + 1)) << 63) | ((1022 + ((u >> frac) & 1)) << 52) | ((u & ((1 << frac) - 1)) << (52 - frac)))
    g, c = 1.0, 0.0
    if which == "gamma": g = x; bad = x < 0.0
    elif which == "real": g, c = x, 1.0; bad = x < 1.0
    elif which == "minus": g, c = x, -1.0; bad = x < 1.0
    if arr: args = (w.farr([0.0, 0.0]), w.farr([2.0, g]), w.farr([0.5, c]))
    else: args = (0.0, g, c)
    r = w.raises(ValueError, E.complex_normal, *args)
    w.check("refused exactly when not positive semi-definite", w.cond(bad) == r)

# ------------------------------------------------------------------ Wishart
def wis(w, D, df, dim):
    """one standard Wishart matrix from the next draws"""
    if df < dim:
        n = [[D.normal() for j in range(dim)] for i in range(df)]
        return [[sumf(n[k][i] * n[k][j] for k in range(df)) for j in range(dim)] for i in range(dim)]
    U = [[None] * dim for i in range(dim)]
    for i in range(dim):
        v, tag = D.chisq(float(df - i))
        D.tags = getattr(D, "tags", []) + [tag]
        U[i][i] = w.sqrt(v)
        for j in range(i + 1, dim): U[i][j] = D.normal()
    return [[sumf(U[k][i] * U[k][j] for k in range(min(i, j) + 1)) for j in range(dim)] for i in range(dim)]

def sumf(it):
    r = None
    for x in it: r = x if r is None else r + x
    return 0.0 if r is None else r

def sandwich(A, W):
    d = len(W)
    T = [[sumf(W[i][k] * A[j][k] for k in range(d)) for j in range(d)] for i in range(d)]        # W A'
    return [[sumf(T[k][j] * A[i][k] for k in range(d)) for j in range(d)] for i in range(d)]

def flat(M): return [x for r in M for x in r]

def dfs(w, D):
    for t in getattr(D, "tags", []): D.df(t)

def swishart(w, df, dim, size, rescale):
    bg, E = setup(w)
    D = w.drawsof(bg)
    r = E.standard_wishart(df, dim, size, rescale)
    sz = () if size is None else (size,) if isinstance(size, int) else tuple(size)
    w.check("shape", w.shape(r) == sz + (dim, dim))
    want = []
    for i in range(int(N.prod(sz))):
        W = flat(wis(w, D, df, dim))
        want += [x * (1.0 / df) for x in W] if rescale else W
    same(w, "value", w.fitems(r), want)
    D.finish(); dfs(w, D)

SC = [[[4.0, 1.0], [1.0, 3.0]], [[2.0, -0.5], [-0.5, 1.0]], [[1.0, 0.25], [0.25, 5.0]], [[9.0, 2.0], [2.0, 2.0]], [[6.0, 0.0], [0.0, 1.0]], [[3.0, 1.5], [1.5, 4.0]]]
def factor_of(M, method):
    M = N.array(M)
    if method == "factor": return M
    if method == "cholesky": return N.linalg.cholesky(M)
    if method == "eigh":
        s, u = N.linalg.eigh(M); return u * N.sqrt(abs(s))
    u, s, vh = N.linalg.svd(M)
    return u * N.sqrt(s)

def wishart(w, df, ss, size, method, sym=False, dim=2):
    bg, E = setup(w)
    D = w.drawsof(bg)
    k = int(N.prod(ss))
    if sym: mats = [[[w.symf("a%d%d%d" % (q, i, j)) for j in range(dim)] for i in range(dim)] for q in range(k)]; F = mats
    else:
        mats = [SC[i % len(SC)] for i in range(k)]
        if dim == 3: mats = [[m[0] + [0.5], m[1] + [-0.25], [0.5, -0.25, 6.0]] for m in mats]
        if method == "factor" and dim == 3: mats = [[[2.0, 0.0, 1.0], [m[0][1], m[1][1], 0.0], [0.5, 0.0, 1.5]] for m in mats]
        elif method == "factor": mats = [[[2.0, 0.0], [m[0][1], m[1][1]]] for m in mats]
        F = [factor_of(m, method).tolist() for m in mats]
    scale = w.farr([x for m in mats for r in m for x in r], tuple(ss) + (dim, dim))
    kw = {} if method == "svd" else dict(method=method)
    r = E.wishart(df if isinstance(df, int) else w.np.array(df), scale, size, **kw)
    dfa = N.array(df); it = N.broadcast_shapes(dfa.shape, tuple(ss))
    sz = it if size is None else (size,) if isinstance(size, int) else tuple(size)
    w.check("shape", w.shape(r) == sz + (dim, dim))
    DF, Q = N.broadcast_to(dfa, it).ravel(), N.broadcast_to(N.arange(k).reshape(ss), it).ravel()
    cnt = int(N.prod(it)); blocks = int(N.prod(sz)) // cnt
    out = {}
    for i in range(cnt):
        for b in range(blocks): out[b, i] = flat(sandwich(F[int(Q[i])], wis(w, D, int(DF[i]), dim)))
    want = []
    for b in range(blocks):
        for i in range(cnt): want += out[b, i]
    same(w, "value", w.fitems(r), want)
    D.finish(); dfs(w, D)

# ------------------------------------------------------------------ multivariate normal
def mvn(w, ms, cs, size, method, sym=False):
    bg, E = setup(w)
    D = w.drawsof(bg)
    k, q = int(N.prod(ms)), int(N.prod(cs))
    mean = [[w.symf("m%d%d" % (i, j)) for j in range(2)] for i in range(k)] if sym else [[1.5 + i, -2.0 * i - 1.0] for i in range(k)]
    if sym: mats = [[[w.symf("a%d%d%d" % (p, i, j)) for j in range(2)] for i in range(2)] for p in range(q)]; F = mats
    else:
        mats = [SC[i % len(SC)] for i in range(q)]
        if method == "factor": mats = [[[2.0, 0.0], [m[0][1], m[1][1]]] for m in mats]
        F = [factor_of(m, method).tolist() for m in mats]
    kw = {} if method == "svd" else dict(method=method)
    r = E.multivariate_normal(w.farr([x for m in mean for x in m], tuple(ms) + (2,)), w.farr([x for m in mats for y in m for x in y], tuple(cs) + (2, 2)), size, **kw)
    bs = N.broadcast_shapes(tuple(ms), tuple(cs))
    sz = bs if size is None else (size,) if isinstance(size, int) else tuple(size)
    sz = N.broadcast_shapes(sz, bs)
    w.check("shape", w.shape(r) == sz + (2,))
    I, J = N.broadcast_to(N.arange(k).reshape(ms), sz).ravel(), N.broadcast_to(N.arange(q).reshape(cs), sz).ravel()
    want = []
    for a, b in zip(I, J):
        z = [D.normal(), D.normal()]; A = F[int(b)]; m = mean[int(a)]
        want += [z[0] * A[i][0] + z[1] * A[i][1] + m[i] for i in range(2)]
    same(w, "value", w.fitems(r), want)
    D.finish()

GM = [[[2.0, 0.5j], [-0.5j, 3.0]], [[4.0, 1.0], [1.0, 2.0]], [[2.0, 0.25 + 0.25j], [0.25 - 0.25j, 5.0]], [[3.0, 0.0], [0.0, 2.5]], [[6.0, 1j], [-1j, 2.0]], [[2.5, 0.5], [0.5, 4.0]]]
RM = [[[0.5, 0.25], [0.25, -1.0]], [[1j, 0.125], [0.125, 0.5 - 0.5j]], [[0.0, 0.0], [0.0, 0.0]], [[-0.5, 0.125j], [0.125j, 0.25]]]
def mvcn(w, ls, gs, rs, size, method, gamma=True, relation=True):
    """the reference works in real and imaginary parts that alternate, as the documented covariance says"""
    bg, E = setup(w)
    D = w.drawsof(bg)
    kl, kg, kr = int(N.prod(ls)), int(N.prod(gs)), int(N.prod(rs))
    loc = [[(1.0 + i, -2.0 - i), (0.5 * i, 3.0)] for i in range(kl)]
    g = [N.array(GM[i % len(GM)]) for i in range(kg)]; r = [N.array(RM[(i if gamma else 3) % len(RM)]) for i in range(kr)]
    kw = {}
    if gamma: kw["gamma"] = carr(w, [complex(x) for m in g for x in m.ravel()], tuple(gs) + (2, 2))
    else: g = [N.eye(2)]
    if relation: kw["relation"] = carr(w, [complex(x) for m in r for x in m.ravel()], tuple(rs) + (2, 2))
    else: r = [N.zeros((2, 2))]
    if method != "svd": kw["method"] = method
    got = E.multivariate_complex_normal(carr(w, [x for m in loc for x in m], tuple(ls) + (2,)), size=size, **kw)
    cs = N.broadcast_shapes(tuple(gs), tuple(rs)); bs = N.broadcast_shapes(tuple(ls), cs)
    sz = bs if size is None else (size,) if isinstance(size, int) else tuple(size)
    w.check("shape", w.shape(got) == sz + (2,))
    I, G, R = (N.broadcast_to(N.arange(n).reshape(s), sz).ravel() for n, s in ((kl, ls), (kg, gs), (kr, rs)))
    want = []
    F = {}
    for a, b, c in zip(I, G, R):
        if (b, c) not in F:
            p, m = 0.5 * (g[b] + r[c]), 0.5 * (g[b] - r[c])
            V = N.zeros((4, 4))
            for i in range(2):
                for j in range(2):
                    V[2 * i, 2 * j] = p[i, j].real; V[2 * i, 2 * j + 1] = -m[i, j].imag; V[2 * i + 1, 2 * j] = p[i, j].imag; V[2 * i + 1, 2 * j + 1] = m[i, j].real
            F[b, c] = factor_of(V, method)
            w.check("the reference factor gives the covariance", bool(N.allclose(F[b, c] @ F[b, c].T, V)))
        A = F[b, c].tolist()
        z = [D.normal() for _ in range(4)]
        mu = [x for v in loc[int(a)] for x in v]
        want += [sumf(z[k] * A[i][k] for k in range(4)) + mu[i] for i in range(4)]
    same(w, "value", w.citems(got), want)
    D.finish()

# ------------------------------------------------------------------ refused
def refused(w, which):
    bg, E = setup(w)
    np = w.np
    f = w.farr
    I2 = f([1.0, 0.0, 0.0, 1.0], (2, 2)); I3 = f([1.0, 0.0, 0.0] * 3, (3, 3))
    calls = {
        "cn gamma imag": lambda: E.complex_normal(0.0, 1 + 1j, 0.0), "cn gamma imag array": lambda: E.complex_normal(carr(w, [0.0, 0.0], (2,)), carr(w, [1.0, 1 + 1j], (2,)), 0.0),
        "cn rho": lambda: E.complex_normal(0.0, 1.0, 1.5j), "cn rho array": lambda: E.complex_normal(0.0, f([1.0, 2.0], (2,)), carr(w, [1.5j, 0.0], (2,))),
        "cn zero variance": lambda: E.complex_normal(0.0, 1.0, 1 + 0.5j), "cn zero variance array": lambda: E.complex_normal(0.0, f([1.0, 2.0], (2,)), carr(w, [1 + 0.5j, 0.0], (2,))),
        "wishart df 0": lambda: E.wishart(0, I2), "wishart df array": lambda: E.wishart(np.array([3, 0]), I2), "wishart df empty": lambda: E.wishart(np.array([], dtype=np.int64), I2),
        "wishart scale 1d": lambda: E.wishart(3, f([1.0, 2.0], (2,))), "wishart scale shape": lambda: E.wishart(3, f([1.0] * 6, (3, 2))), "wishart size": lambda: E.wishart(np.array([3, 4]), I2, size=3), "wishart size short": lambda: E.wishart(np.array([[3], [4]]), I2, size=(1,)),
        "mvn mean 0d": lambda: E.multivariate_normal(0.0, I2), "mvn cov 1d": lambda: E.multivariate_normal(f([0.0, 0.0], (2,)), f([1.0, 2.0], (2,))), "mvn dims": lambda: E.multivariate_normal(f([0.0, 0.0], (2,)), I3),
        "mvn size": lambda: E.multivariate_normal(f([0.0] * 4, (2, 2)), I2, size=3), "mvn size short": lambda: E.multivariate_normal(f([0.0] * 4, (2, 1, 2)), I2, size=2), "mvn check": lambda: E.multivariate_normal(f([0.0, 0.0], (2,)), I2, check_valid="no"),
        "mvn psd": lambda: E.multivariate_normal(f([0.0, 0.0], (2,)), f([1.0, 2.0, 2.0, 1.0], (2, 2)), check_valid="raise", method="eigh"),
        "mvn psd svd": lambda: E.multivariate_normal(f([0.0, 0.0], (2,)), f([1.0, 2.0, 2.0, 1.0], (2, 2)), check_valid="raise"),
        "mvcn loc": lambda: E.multivariate_complex_normal(0.0), "mvcn gamma": lambda: E.multivariate_complex_normal(f([0.0, 0.0], (2,)), I3), "mvcn relation": lambda: E.multivariate_complex_normal(f([0.0, 0.0], (2,)), I2, I3),
        "mvcn hermitian": lambda: E.multivariate_complex_normal(f([0.0, 0.0], (2,)), carr(w, [1.0, 0.5j, 0.5j, 1.0], (2, 2))), "mvcn symmetric": lambda: E.multivariate_complex_normal(f([0.0, 0.0], (2,)), I2, carr(w, [0.0, 0.5, -0.5, 0.0], (2, 2))),
        "mvcn broadcast": lambda: E.multivariate_complex_normal(f([0.0, 0.0], (2,)), f([1.0, 0.0, 0.0, 1.0] * 2, (2, 2, 2)), f([0.0] * 12, (3, 2, 2))),
    }
    if w.symbolic and which is None: return list(calls)
    D = w.drawsof(bg)
    w.check("refused", w.raises(ValueError, calls[which]))
    D.finish()

REFUSED = ("cn gamma imag|cn gamma imag array|cn rho|cn rho array|cn zero variance|cn zero variance array|wishart df 0|wishart df array|wishart df empty|wishart scale 1d|wishart scale shape|wishart size|wishart size short|"
           "mvn mean 0d|mvn cov 1d|mvn dims|mvn size|mvn size short|mvn check|mvn psd|mvn psd svd|mvcn loc|mvcn gamma|mvcn relation|mvcn hermitian|mvcn symmetric|mvcn broadcast").split("|")

def tasks(tier):
    T = []
    def add(name, fn, p, b="every value of the draws; these shapes and parameters", d=100, quick=True, ms=30000, **k): T.append(Task(name, fn, list(MODS), p, deadline=d, ms=ms, bound=b, quick=quick, **k))
    for g, c in ((1.0, 0.0), (2.0, 1.0), (2.0, -1.0 + 0.5j), (1.0, 1.0), (1.0, -1.0), (3.0, 2 - 1j), (0.0, 0.0), (2.0, 2j)):
        for s in (None, 2, (2, 2)): add("cn.%s.%s.%s" % (g, c, s), cn_scalar, dict(g=g, c=c, size=s))
    shapes = [((2,), (), (), None), ((), (2,), (), None), ((), (), (2,), None), ((2,), (2,), (2,), None), ((2, 1), (3,), (), None), ((), (2, 1), (3,), None), ((3,), (2, 1), (3,), None), ((), (3,), (2, 1), None), ((1,), (2,), (1,), (2,)), ((2,), (), (), (3, 2)), ((), (2,), (2, 1), (2, 2)), ((), (), (1,), 2), ((2, 1, 1), (3, 1), (2,), None)]
    for l, g, c, s in shapes: add("cn.array.%s.%s.%s.%s" % (l, g, c, s), cn_array, dict(ls=l, gs=g, cs=c, size=s))
    for k in ("gamma", "real", "minus"):
        for a in (False, True):
            add("cn.domain.%s.%d" % (k, a), cn_domain, dict(which=k, arr=a), "every double of either sign between 1/2 and 2 with three fraction bits", quick=k != "real")
            add("cn.domain.%s.%d.deep" % (k, a), cn_domain, dict(which=k, arr=a, frac=6), "every double of either sign between 1/2 and 2 with six fraction bits", quick=False)
    for df, dim in ((1, 2), (2, 2), (3, 2), (5, 2), (1, 1), (2, 1), (2, 3), (3, 3), (1, 3), (7, 3)):
        for s in (None, 2, (2, 1)):
            for r in (True, False): add("sw.%d.%d.%s.%d" % (df, dim, s, r), swishart, dict(df=df, dim=dim, size=s, rescale=r), quick=dim < 3 or s is None)
    for df, ss, s in ((1, (), None), (3, (), None), (2, (), 2), (1, (), (2, 2)), ([1, 3], (), None), ([3, 1, 1, 2], (), None), (3, (2,), None), (1, (2,), None), ([1, 3], (2,), None), ([[1], [4]], (2,), None), ([2, 1], (2,), (3, 2)), ([1, 1], (), (2, 2)), (3, (2,), (2,)), ([4], (2, 2), None), (1, (2, 1), (2, 2, 1)), ([[3, 1]], (2, 1), None)):
        for m in ("svd", "cholesky", "eigh", "factor"): add("w.%s.%s.%s.%s" % (df, ss, s, m), wishart, dict(df=df, ss=ss, size=s, method=m), quick=m in ("factor", "cholesky") or (s is None and m == "svd"))
    for df, ss, s in (([1, 2], (), None), ([2, 1, 2], (), None), ([4, 1, 3, 2], (), None), ([2, 1], (2,), (3, 2)), (2, (2,), (2, 3, 2)), ([1, 4], (), (3, 2, 2)), ([3, 2], (2,), (2, 2))):
        for m in ("cholesky", "factor"): add("w3.%s.%s.%s.%s" % (df, ss, s, m), wishart, dict(df=df, ss=ss, size=s, method=m, dim=3), quick=m == "factor")
    for df in (1, 2, 3): add("w.symbolic.%d" % df, wishart, dict(df=df, ss=(), size=None, method="factor", sym=True), "every factor matrix and every value of the draws", conc_ok=False)
    add("w.symbolic.array", wishart, dict(df=[1, 3], ss=(2,), size=None, method="factor", sym=True), "every factor matrix and every value of the draws", conc_ok=False)
    for ms, cs, s in (((), (), None), ((), (), 2), ((), (), (2, 2)), ((2,), (), None), ((), (2,), None), ((2,), (2,), None), ((2, 1), (3,), None), ((), (), (1,)), ((), (), (1, 2)), ((1,), (), None), ((2,), (), (3, 2)), ((), (2,), (2, 1)), ((1,), (1,), (2, 1)), ((3, 1), (2,), (2, 3, 2))):
        for m in ("svd", "cholesky", "eigh", "factor"): add("mvn.%s.%s.%s.%s" % (ms, cs, s, m), mvn, dict(ms=ms, cs=cs, size=s, method=m), quick=m in ("factor", "svd"))
    add("mvn.symbolic", mvn, dict(ms=(), cs=(), size=2, method="factor", sym=True), "every mean and factor matrix and every value of the draws")
    add("mvn.symbolic.b", mvn, dict(ms=(2, 1), cs=(2,), size=None, method="factor", sym=True), "every mean and factor matrix and every value of the draws")
    for l, g, r, s in (((), (), (), None), ((), (), (), 2), ((2,), (), (), None), ((), (2,), (), None), ((), (), (2,), None), ((), (2,), (2,), None), ((2,), (2,), (2,), None), ((), (2, 3), (), None), ((), (), (2, 2), None), ((), (2, 1), (2,), None), ((2, 1), (2,), (), None), ((), (2,), (), (3, 2)), ((), (), (), (2, 2))):
        for m in ("svd", "cholesky", "eigh"): add("mvcn.%s.%s.%s.%s.%s" % (l, g, r, s, m), mvcn, dict(ls=l, gs=g, rs=r, size=s, method=m), quick=m == "svd" or (m == "cholesky" and len(g) < 2))
    add("mvcn.gamma", mvcn, dict(ls=(), gs=(), rs=(), size=None, method="svd", relation=False))
    add("mvcn.relation", mvcn, dict(ls=(), gs=(), rs=(), size=2, method="svd", gamma=False))
    add("mvcn.none", mvcn, dict(ls=(2,), gs=(), rs=(), size=None, method="svd", gamma=False, relation=False))
    for k in REFUSED: add("refused." + k.replace(" ", "-"), refused, dict(which=k), "this call", d=30)
    return T
