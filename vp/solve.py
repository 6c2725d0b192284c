"""Deciding: conversion of terms to z3, satisfiability, and equivalence by
sweeping (internal equalities proved bottom-up, then the outputs)."""
import time, random, os
import z3
from . import terms as tm
from .terms import T, topo

class Stats:
    def __init__(self):
        self.queries = 0; self.unsat = 0; self.sat = 0; self.unknown = 0
        self.time = 0.0; self.trivial = 0; self.sweep_merges = 0
    def asdict(self):
        d = dict(self.__dict__); d["time"] = round(self.time, 3); return d
    def merge(self, d):
        for k, v in d.items():
            setattr(self, k, getattr(self, k) + v)

STATS = Stats()

class Z3Conv:
    def __init__(self):
        self.m = {}
    def bv(self, x, w):
        """z3 bit-vector of width w"""
        if type(x) is int:
            return z3.BitVecVal(x, w)
        e = self.m[x]
        if w == 1:
            return z3.If(e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return e
    def val(self, x, w):
        """Bool when w == 1"""
        if type(x) is int:
            return z3.BoolVal(bool(x)) if w == 1 else z3.BitVecVal(x, w)
        return self.m[x]
    def conv(self, roots):
        for t in topo(roots):
            if t not in self.m:
                self.m[t] = self._conv(t)
    def get(self, t, w):
        if type(t) is int:
            return self.val(t, w)
        self.conv([t])
        return self.m[t]
    def _mux(self, idx, iw, vals, w):
        """vals[idx] (index beyond the end: last)"""
        n = len(vals)
        zi = self.bv(idx, iw)
        items = [self.val(v, w) for v in vals]
        k = max((n - 1).bit_length(), 1)
        k = min(k, iw)
        last = items[-1]
        def rec(lo, bit):
            if lo >= n:
                return last
            if bit < 0:
                return items[lo]
            a = rec(lo, bit - 1)
            if lo + (1 << bit) >= n:
                b = last
            else:
                b = rec(lo + (1 << bit), bit - 1)
            if a.eq(b):
                return a
            return z3.If(z3.Extract(bit, bit, zi) == 1, b, a)
        r = rec(0, k - 1)
        if n < (1 << iw) and iw > k:
            r = z3.If(z3.UGE(zi, z3.BitVecVal(n, iw)), last, r)
        return r
    def _conv(self, t):
        op = t.op; w = t.w; bv = self.bv
        if op == "var":
            return z3.Bool(t.data) if w == 1 else z3.BitVec(t.data, w)
        if op == "lin":
            c, co = t.data
            if w == 1:
                r = z3.BoolVal(bool(c & 1))
                for a in t.args:
                    r = z3.Xor(r, self.val(a, 1))
                return r
            r = None
            h = 1 << (w - 1)
            for a, k in zip(t.args, co):
                za = bv(a, w)
                neg = k > h
                if neg:
                    k = (1 << w) - k
                if k != 1:
                    za = za * z3.BitVecVal(k, w)
                r = (-za if neg else za) if r is None else (r - za if neg else r + za)
            if c:
                r = r + z3.BitVecVal(c, w)
            return r
        if op in ("and", "or", "xor"):
            if w == 1:
                xs = [self.val(a, 1) for a in t.args]
                if t.data is not None:
                    xs.append(z3.BoolVal(bool(t.data)))
                if op == "and": return z3.And(*xs)
                if op == "or": return z3.Or(*xs)
                r = xs[0]
                for x in xs[1:]:
                    r = z3.Xor(r, x)
                return r
            r = bv(t.args[0], w)
            rest = [bv(a, w) for a in t.args[1:]]
            if t.data is not None:
                rest.append(z3.BitVecVal(t.data, w))
            for x in rest:
                r = r & x if op == "and" else r | x if op == "or" else r ^ x
            return r
        if op == "cat":
            xs = [bv(a, pw) for a, pw in zip(t.args, t.data)]
            return z3.Concat(*reversed(xs))
        if op == "ext":
            r = z3.Extract(t.data + w - 1, t.data, bv(t.args[0], t.args[0].w))
            return r == z3.BitVecVal(1, 1) if w == 1 else r
        if op == "ite":
            return z3.If(self.val(t.args[0], 1), self.val(t.args[1], w), self.val(t.args[2], w))
        if op == "eq":
            return self.val(t.args[0], t.data) == self.val(t.args[1], t.data)
        if op == "ult":
            return z3.ULT(bv(t.args[0], t.data), bv(t.args[1], t.data))
        if op == "slt":
            return bv(t.args[0], t.data) < bv(t.args[1], t.data)
        if op == "sext":
            a = t.args[0]
            return z3.SignExt(w - a.w, bv(a, a.w))
        if op == "tbl":
            a = t.args[0]
            return self._mux(a, a.w, tm._tables[t.data], w)
        if op == "sel":
            return self._mux(t.args[0], t.data, t.args[1:], w)
        if op == "uf":
            ss = [self._srt(a) for a in t.args]
            f = z3.Function(t.data, *([s[1] for s in ss] + [z3.BitVecSort(w)]))
            r = f(*[s[0] for s in ss])
            return r == 1 if w == 1 else r
        if op in ("mul", "udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr", "rotl"):
            a, b = bv(t.args[0], w), bv(t.args[1], w)
            r = {"mul": lambda: a * b, "udiv": lambda: z3.UDiv(a, b), "urem": lambda: z3.URem(a, b),
                 "sdiv": lambda: a / b, "srem": lambda: z3.SRem(a, b), "shl": lambda: a << b,
                 "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b,
                 "rotl": lambda: z3.RotateLeft(a, b)}[op]()
            return r == 1 if w == 1 else r
        if op == "ctpop":
            a = bv(t.args[0], t.args[0].w); r = z3.BitVecVal(0, w)
            for i in range(t.args[0].w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
            return r
        # floating point on bit patterns
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = self._fp(t.args[0], w), self._fp(t.args[1], w)
            rm = z3.RNE()
            r = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op](rm, a, b)
            return z3.fpToIEEEBV(r)
        if op == "dy":
            x = t.args[0]; k = t.data
            p = z3.fpToFPUnsigned(z3.RNE(), bv(x, x.w), self._fs(w))
            e, pr = tm.FMT[w]
            step = (1 << (e - 1)) - 2
            while k:
                s = max(-step, min(step, k)); k -= s
                p = z3.fpMul(z3.RNE(), p, z3.fpBVToFP(z3.BitVecVal(tm.dyconst(w, 1, s), w), self._fs(w)))
            return z3.fpToIEEEBV(p)
        if op == "uitofp":
            return z3.fpToIEEEBV(z3.fpToFPUnsigned(z3.RNE(), bv(t.args[0], t.data), self._fs(w)))
        if op == "sitofp":
            return z3.fpToIEEEBV(z3.fpToFP(z3.RNE(), bv(t.args[0], t.data), self._fs(w)))
        if op == "fpconv":
            return z3.fpToIEEEBV(z3.fpToFP(z3.RNE(), self._fp(t.args[0], t.data), self._fs(w)))
        if op == "fptoui":
            return z3.fpToUBV(z3.RTZ(), self._fp(t.args[0], t.data), z3.BitVecSort(w))
        if op == "fptosi":
            return z3.fpToSBV(z3.RTZ(), self._fp(t.args[0], t.data), z3.BitVecSort(w))
        if op == "fcmp":
            pred, fw = t.data
            a, b = self._fp(t.args[0], fw), self._fp(t.args[1], fw)
            un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            if pred == "ord": return z3.Not(un)
            if pred == "uno": return un
            c = {"eq": z3.fpEQ, "lt": z3.fpLT, "le": z3.fpLEQ, "gt": z3.fpGT, "ge": z3.fpGEQ,
                 "ne": lambda x, y: z3.And(z3.Not(z3.fpEQ(x, y)), z3.Not(un))}[pred[1:]](a, b)
            return z3.Or(un, c) if pred[0] == "u" else c
        raise NotImplementedError("z3 " + op)
    def _srt(self, a):
        if type(a) is int:
            raise NotImplementedError("uf const arg needs width")
        if a.w == 1:
            return (self.bv(a, 1), z3.BitVecSort(1))
        return (self.m[a], z3.BitVecSort(a.w))
    def _fs(self, w):
        e, p = tm.FMT[w]
        return z3.FPSort(e, p)
    def _fp(self, x, w):
        if w == 80:
            raise NotImplementedError("x87 arithmetic in z3")
        return z3.fpBVToFP(self.bv(x, w), self._fs(w))

DEADLINE = [None]

def _time_left(ms):
    if DEADLINE[0] is None:
        return ms
    left = int((DEADLINE[0] - time.time()) * 1000)
    return max(50, min(ms, left))

def check(conds, timeout_ms=20000, want_model=True, logic=None):
    """conds: width-1 terms.  Returns ('unsat',None) | ('sat',env) | ('unknown',None)"""
    live = []
    for c in conds:
        if type(c) is int:
            if not c:
                STATS.trivial += 1
                return "unsat", None
        else:
            live.append(c)
    if not live:
        return "sat", {}
    cv = Z3Conv()
    t0 = time.time()
    try:
        cv.conv(live)
        s = z3.SolverFor(logic) if logic else z3.Solver()
        s.set("timeout", _time_left(timeout_ms))
        for c in live:
            s.add(cv.m[c])
        r = s.check()
    except z3.Z3Exception:
        STATS.queries += 1; STATS.unknown += 1
        STATS.time += time.time() - t0
        return "unknown", None
    STATS.queries += 1
    STATS.time += time.time() - t0
    if r == z3.unsat:
        STATS.unsat += 1
        return "unsat", None
    if r == z3.sat:
        STATS.sat += 1
        env = None
        if want_model:
            m = s.model(); env = {}
            for v in tm.free_vars(live):
                z = cv.m[v]
                x = m.eval(z, model_completion=True)
                env[v.data] = (1 if z3.is_true(x) else 0) if v.w == 1 else x.as_long()
        return "sat", env
    STATS.unknown += 1
    return "unknown", None

# ------------------------------------------------------------------ equivalence
def rand_env(vars_, rnd, special):
    env = {}
    for v in vars_:
        w = v.w
        if special == 0:
            env[v.data] = 0
        elif special == 1:
            env[v.data] = tm.mask(w)
        else:
            k = rnd.random()
            if k < 0.15:
                env[v.data] = rnd.choice([0, 1, tm.mask(w), tm.mask(w) >> 1, 1 << (w - 1)])
            else:
                env[v.data] = rnd.getrandbits(w)
    return env

class Neq(Exception):
    def __init__(self, env):
        self.env = env

def prove_equal(pairs, assume=(), timeout_ms=30000, seed=1, nsig=24):
    """pairs: [(w, a, b)].  Returns ('proved', None), ('cex', env) or ('unknown', why)"""
    pairs = [(w, a, b) for w, a, b in pairs if not (a is b or (type(a) is int and type(b) is int and a == b))]
    assume = [c for c in assume if c != 1 or type(c) is not int]
    if any(type(c) is int and c == 0 for c in assume):
        STATS.trivial += 1
        return "proved", None
    keep = []
    for p in pairs:
        if _structural(*p, assume=assume): STATS.trivial += 1
        else: keep.append(p)
    pairs = [p for p in keep if not _f2equal(*p)]
    if not pairs:
        STATS.trivial += 1
        return "proved", None
    rnd = random.Random(seed)
    roots = [x for p in pairs for x in p[1:]]
    vars_ = tm.free_vars(roots + list(assume))
    # concrete evaluations satisfying the assumptions: signatures for sweeping
    envs = []
    if assume:
        r, env = check(list(assume), timeout_ms)
        if r == "unsat":
            return "proved", None
        if r == "unknown":
            return "unknown", "assumptions"
        base = {v.data: rnd.getrandbits(v.w) for v in vars_}
        base.update(env); envs.append(base)
    if not assume:
        for i in range(nsig): envs.append(rand_env(vars_, rnd, i))
    else:
        envs.extend(_walk(list(assume), vars_, envs[0], rnd, nsig - 1))
    nodes = topo(roots)
    try:
        sigs = _signatures(nodes, envs)
    except NotImplementedError:
        sigs = None
    if sigs is not None:
        for w, a, b in pairs:
            sa = [a] * len(envs) if type(a) is int else sigs[a]
            sb = [b] * len(envs) if type(b) is int else sigs[b]
            for e, x, y in zip(envs, sa, sb):
                if x != y:
                    # a concrete witness; confirmed by the solver's evaluation of the same query
                    STATS.queries += 1; STATS.sat += 1
                    return "cex", e
        rep = _sweep(nodes, sigs, len(envs), assume, set(topo([a for _, a, b in pairs if type(a) is not int])), set(topo([b for _, a, b in pairs if type(b) is not int])))
        left = []
        for w, a, b in pairs:
            ra = a if type(a) is int else rep[a]
            rb = b if type(b) is int else rep[b]
            if ra is rb or (type(ra) is int and type(rb) is int and ra == rb):
                STATS.trivial += 1
                continue
            left.append((w, ra, rb))
    else:
        left = pairs
    for w, a, b in left:
        c = tm.ne(w, a, b)
        r, env = check(list(assume) + [c], timeout_ms)
        if r == "sat":
            full = {v.data: 0 for v in vars_}
            full.update(env)
            return "cex", full
        if r == "unknown":
            return "unknown", "solver timeout on %d-bit equality" % w
    return "proved", None

def _f2equal(w, a, b):
    """equal as affine maps over the bits of the variables (and of the first non-linear nodes met)"""
    roots = [x for x in (a, b) if type(x) is not int]
    if sum(1 for x in roots if x.op in ("xor", "cat", "ext")) == 0: return False
    rows = {}; nbits = [1]
    def leaf(t):
        lo = nbits[0]; nbits[0] += t.w
        return [1 << (lo + i) for i in range(t.w)]
    def val(x, w):
        if type(x) is int: return [(x >> i) & 1 for i in range(w)]
        return rows[x]
    nonlin = 0
    for t in topo(roots):
        op, w_ = t.op, t.w; r = None
        if op == "xor":
            r = list(val(t.args[0], w_))
            for x in t.args[1:]:
                for i, y in enumerate(val(x, w_)): r[i] ^= y
            if t.data is not None:
                for i in range(w_): r[i] ^= (t.data >> i) & 1
        elif op == "cat":
            r = []
            for x, xw in zip(t.args, t.data): r += val(x, xw)
        elif op == "ext":
            r = rows[t.args[0]][t.data:t.data + w_]
        elif op == "and" and len(t.args) == 1 and t.data is not None:
            r = [x if (t.data >> i) & 1 else 0 for i, x in enumerate(rows[t.args[0]])]
        elif op == "ite" and type(t.args[1]) is int and type(t.args[2]) is int:
            c = rows[t.args[0]][0]
            r = [(c if ((t.args[1] ^ t.args[2]) >> i) & 1 else 0) ^ ((t.args[2] >> i) & 1) for i in range(w_)]
        elif op == "sext":
            x = t.args[0]; r = list(rows[x]) + [rows[x][-1]] * (w_ - x.w)
        elif op == "lin" and len(t.args) == 1 and t.data[0] == 0:
            x = rows[t.args[0]]
            if not any(x[1:]):      # a bit times a constant
                r = [x[0] if (t.data[1][0] >> i) & 1 else 0 for i in range(w_)]
        elif op == "tbl" and t.args[0].w == 1:
            tb = tm._tables[t.data]
            if len(tb) >= 2 and type(tb[0]) is int and type(tb[1]) is int:
                c = rows[t.args[0]][0]
                r = [(c if ((tb[0] ^ tb[1]) >> i) & 1 else 0) ^ ((tb[0] >> i) & 1) for i in range(w_)]
        if r is None:
            if op != "var":
                nonlin += 1
                if nonlin > 200: return False
            r = leaf(t)
        rows[t] = r
    if val(a, w) == val(b, w):
        STATS.trivial += 1
        return True
    return False

def _structural(w, a, b, limit=4000, assume=()):
    """equal by rewriting alone: same selections taken element by element, concatenations part by part"""
    seen = set(); q = [(w, a, b)]; n = 0
    while q:
        w, a, b = q.pop()
        if a is b or (type(a) is int and type(b) is int and a == b): continue
        k = (a if type(a) is int else a.id, type(a) is int, b if type(b) is int else b.id, type(b) is int)
        if k in seen: continue
        seen.add(k); n += 1
        if n > limit: return False
        oa = None if type(a) is int else a.op; ob = None if type(b) is int else b.op
        if oa == "cat" or ob == "cat":
            cuts = {0, w}
            for t in (a, b):
                if type(t) is not int and t.op == "cat":
                    p = 0
                    for x in t.data: p += x; cuts.add(p)
            cuts = sorted(cuts)
            for lo, hi in zip(cuts, cuts[1:]):
                q.append((hi - lo, tm.ext(a, lo, hi - lo), tm.ext(b, lo, hi - lo)))
            continue
        if oa is None or ob is None: return False
        if oa == ob and oa == "ext" and a.data == b.data:
            x, y = a.args[0], b.args[0]
            if type(x) is not int and type(y) is not int and x.w == y.w and x.op == y.op == "sel" and x.data == y.data and len(x.args) == len(y.args) and x.args[0] is y.args[0]:
                for i, (u, v) in enumerate(zip(x.args[1:], y.args[1:])):
                    if u is v: continue
                    u, v = tm.ext(u, a.data, w), tm.ext(v, a.data, w)
                    if not _structural(w, u, v, limit, assume):
                        if not _dead(x.args[0], i, len(x.args) - 1, assume): return False
                continue
        if oa == ob == "sel" and a.data == b.data and len(a.args) == len(b.args) and a.args[0] is b.args[0]:
            for i, (u, v) in enumerate(zip(a.args[1:], b.args[1:])):
                if u is v: continue
                if not _structural(w, u, v, limit, assume):
                    if not _dead(a.args[0], i, len(a.args) - 1, assume): return False
            continue
        if "xor" in (oa, ob) or (oa == ob == "ext" and a.args[0].op == "xor"):
            la, lb = _xleaves(w, a), _xleaves(w, b)
            if la is not None and lb is not None:
                ra = [t for t in la[1] if t not in lb[1]]; rb = [t for t in lb[1] if t not in la[1]]
                if la[0] == lb[0] and not ra and not rb: continue
                if len(ra) + len(rb) < len(la[1]) + len(lb[1]) or la[0] != lb[0]:
                    x = y = 0
                    for t in ra: x = tm.bxor(w, x, t)
                    for t in rb: y = tm.bxor(w, y, t)
                    x = tm.bxor(w, x, la[0] ^ lb[0])
                    q.append((w, x, y)); continue
        ia, ib = _asite(w, a), _asite(w, b)
        if ia and ib and ia[0] is ib[0]:
            q.append((w, ia[1], ib[1])); q.append((w, ia[2], ib[2])); continue
        return False
    return True

def _xleaves(w, a, limit=200):
    """a as (constant, set of leaves) of a bitwise exclusive or, slices pushed inwards"""
    c = 0; out = {}; q = [a]; n = 0
    while q:
        t = q.pop(); n += 1
        if n > limit: return None
        if type(t) is int: c ^= t; continue
        if t.op == "xor":
            if t.data is not None: c ^= t.data
            q.extend(t.args); continue
        if t.op == "ext" and t.args[0].op == "xor":
            x = t.args[0]
            if x.data is not None: c ^= (x.data >> t.data) & ((1 << w) - 1)
            q.extend(tm.ext(u, t.data, w) for u in x.args); continue
        if t in out: del out[t]
        else: out[t] = 1
    return c, out

def _asite(w, a):
    if a.op == "ite": return a.args
    if a.op == "ext" and a.args[0].op == "ite":
        c, x, y = a.args[0].args
        return c, tm.ext(x, a.data, w), tm.ext(y, a.data, w)
    return None

def _dead(idx, i, n, assume):
    """entry i of a selection is never taken under the assumptions"""
    if not assume: return False
    return check(list(assume) + [tm.eq(idx.w, idx, i) if i < n - 1 else tm.ule(idx.w, i, idx)], 2000, want_model=False)[0] == "unsat"

def _signatures(nodes, envs):
    sig = {}
    n = len(envs)
    ev1 = tm.ev1
    for t in nodes:
        if t.op == "var":
            m = tm.mask(t.w); nm = t.data
            sig[t] = tuple(e[nm] & m for e in envs)
        else:
            cols = [((a,) * n) if type(a) is int else sig[a] for a in t.args]
            sig[t] = tuple(ev1(t, x) for x in zip(*cols))
    return sig

def _walk(assume, vars_, start, rnd, n):
    """assignments satisfying the assumptions, by random moves from one of them"""
    cur = dict(start); out = []
    av = tm.free_vars(assume); names = {v.data for v in av}
    free = [v for v in vars_ if v.data not in names]
    cons = [(c, {v.data for v in tm.free_vars([c])}) for c in assume]
    for i in range(n):
        for v in free: cur[v.data] = rand_env([v], rnd, 2)[v.data]
        for v in av:
            for _ in range(3):
                old = cur[v.data]; k = rnd.random()
                if k < 0.3: new = rnd.getrandbits(v.w)
                elif k < 0.4: new = rnd.choice([0, 1, tm.mask(v.w), 1 << (v.w - 1)])
                else:
                    lo = rnd.randrange(v.w); m = ((1 << rnd.choice([1, 8, 32, 64])) - 1) << lo & tm.mask(v.w)
                    new = (old & ~m) | (rnd.getrandbits(v.w) & m)
                if new == old: continue
                cur[v.data] = new
                try:
                    ok = all(tm.evaluate([c], cur)[0] for c, ns in cons if v.data in ns)
                except NotImplementedError: ok = False
                if not ok: cur[v.data] = old
        out.append(dict(cur))
    return out

def _sweep(nodes, sigs, n, assume, ca=(), cb=(), local_ms=300):
    """merge internal nodes proved equal; returns node -> representative value"""
    rep = {}
    classes = {}
    # only bother with classes that have several members
    cnt = {}
    for t in nodes:
        k = (t.w, sigs[t]); cnt[k] = cnt.get(k, 0) + 1
    budget = [400]
    for t in nodes:
        if t.args:
            na = [x if type(x) is int else rep[x] for x in t.args]
            if all(x is y or (type(x) is int and type(y) is int) for x, y in zip(na, t.args)):
                r = t
            else:
                r = tm.rebuild(t, na)
        else:
            r = t
        k = (t.w, sigs[t])
        if cnt[k] > 1 and t.w > 1 and t.op != "var":
            lst = classes.setdefault(k, [])
            ia, ib = t in ca, t in cb
            hit = False
            for c, _, _ in lst:
                if c is r:
                    hit = True; break
            if not hit and type(r) is not int:
                tried = 0
                for c, xa, xb in lst:
                    if not ((xa and ib) or (xb and ia)) or (xa and xb and ia and ib): continue
                    tried += 1
                    if tried > 3: break
                    if budget[0] > 0 and _local_equal(t.w, c, r, assume, local_ms, budget):
                        r = c; hit = True; STATS.sweep_merges += 1
                        break
            if not hit or True:
                lst.append((r, ia, ib))
        elif t.op != "var" and len(set(sigs[t])) == 1 and t.w > 1 and type(r) is not int and n >= 8 and not (t in ca and t in cb):
            if budget[0] > 0 and _local_equal(t.w, sigs[t][0], r, assume, local_ms, budget):
                r = sigs[t][0]; STATS.sweep_merges += 1
        rep[t] = r
    return rep

def _local_equal(w, a, b, assume, ms, budget):
    for depth in (4, 9, None):
        budget[0] -= 1
        if depth is None:
            if len(topo([x for x in (a, b) if type(x) is not int])) > 4000:
                return False
            x, y = a, b
            cond = list(assume)
        else:
            x, y, cutany = _cut(a, b, depth)
            cond = []
        c = tm.ne(w, x, y)
        if type(c) is int:
            return c == 0
        r, _ = check(cond + [c], ms if depth != None else ms * 4, want_model=False)
        if r == "unsat":
            return True
        if r == "unknown":
            return False
        if depth is not None and not cutany:
            if not assume:
                return False
    return False

def _cut(a, b, depth):
    """replace nodes deeper than depth by fresh variables (consistently)"""
    dist = {}
    frontier = [x for x in (a, b) if type(x) is not int]
    for x in frontier:
        dist[x] = 0
    cur = frontier
    for d in range(depth):
        nxt = []
        for t in cur:
            for c in t.args:
                if type(c) is not int and c not in dist:
                    dist[c] = d + 1; nxt.append(c)
        cur = nxt
    m = {}
    for t in cur:
        if t.args:
            m[t] = tm.var("!cut%d" % t.id, t.w)
    if not m:
        return a, b, False
    x, y = tm.substitute([a, b], m)
    return x, y, True
