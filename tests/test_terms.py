"""random cross-check of the normaliser against direct evaluation and z3"""
import random, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import terms as tm, solve
import z3

def naive(op, w, a, b, c):
    m = (1 << w) - 1
    return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "xor": lambda: a ^ b,
            "and": lambda: a & b, "or": lambda: a | b, "shlc": lambda: a << c, "lshrc": lambda: a >> c,
            "rotlc": lambda: tm.rotl(w, a, c), "not": lambda: ~a,
            "ashrc": lambda: tm.sx(a, w) >> c}[op]() & m

def run(n, seed):
    rnd = random.Random(seed)
    tm.XORPUSH = bool(seed & 1); tm.XORMERGE = bool(seed & 2); tm.DEEP = bool(seed & 4)
    TB = [tuple(rnd.getrandbits(8) for _ in range(16)) for _ in range(3)]
    for it in range(n):
        W = rnd.choice([8, 16, 32])
        names = ["a", "b", "c"]
        envs = [{v: rnd.getrandbits(W) for v in names} for _ in range(4)]
        pool = [(tm.var(v, W), [e[v] for e in envs], W) for v in names]
        pool.append((rnd.getrandbits(W),) * 1 + ([0] * 4, W))
        k = pool[-1][0]
        pool[-1] = (k, [k] * 4, W)
        k = rnd.choice([1, 0xff, tm.mask(W), 1 << (W - 1), 0xf0 & tm.mask(W)])
        pool.append((k, [k] * 4, W))
        for step in range(14):
            op = rnd.choice(["add", "sub", "mul", "xor", "and", "or", "shlc", "lshrc", "rotlc", "not", "ashrc",
                             "narrow", "ite", "mulc", "cmp", "catr", "mulh", "halfsum", "shlmul", "tbl", "bit"])
            x = rnd.choice(pool); y = rnd.choice(pool); c = rnd.randrange(W)
            if op == "narrow":
                lo = rnd.randrange(W); nw = rnd.randrange(1, W - lo + 1)
                e = tm.ext(x[0], lo, nw)
                ev = [(v >> lo) & tm.mask(nw) for v in x[1]]
                if rnd.random() < .5:
                    t = tm.zext(e, nw, W); tv = ev
                else:
                    t = tm.sext(e, nw, W); tv = [(v | ~tm.mask(nw)) & tm.mask(W) if v >> (nw - 1) else v for v in ev]
            elif op == "catr":
                t = tm.cat([(tm.ext(x[0], 0, c), c), (tm.ext(y[0], c, W - c), W - c)]) if c else y[0]
                tv = [((u & tm.mask(c)) | (v >> c << c)) & tm.mask(W) for u, v in zip(x[1], y[1])]
            elif op == "ite":
                z = rnd.choice(pool)
                t = tm.ite(tm.ult(W, x[0], y[0]), z[0], x[0], W)
                tv = [zz if u < v else u for u, v, zz in zip(x[1], y[1], z[1])]
            elif op == "cmp":
                kind = rnd.choice(["eq", "ult", "slt"])
                f = getattr(tm, kind)
                t = tm.zext(f(W, x[0], y[0]), 1, W)
                tv = [f(W, u, v) for u, v in zip(x[1], y[1])]
            elif op == "mulh":          # product of the halves, high half, and middle sums as in emulated wide products
                h = W // 2; k = rnd.getrandbits(h)
                a0 = tm.zext(tm.ext(x[0], rnd.choice([0, h]) * 0, h), h, W)
                t = tm.mul(W, a0, k); tv = [((u & tm.mask(h)) * k) & tm.mask(W) for u in x[1]]
                if rnd.random() < .6:
                    t = tm.lshr(W, t, h); tv = [v >> h for v in tv]
                    if rnd.random() < .5:
                        b1 = tm.lshr(W, x[0], h)
                        t = tm.add(W, t, tm.mul(W, b1, k)); tv = [(v + (u >> h) * k) & tm.mask(W) for u, v in zip(x[1], tv)]
            elif op == "shlmul":
                k = rnd.getrandbits(W) & ~3; z = rnd.randrange(W)
                t = tm.add(W, tm.mul(W, tm.shl(W, x[0], z), k), y[0]); tv = [((u << z) * k + v) & tm.mask(W) for u, v in zip(x[1], y[1])]
                z2 = rnd.randrange(W)
                if rnd.random() < .7: t = tm.lshr(W, t, z2); tv = [v >> z2 for v in tv]
            elif op == "halfsum":
                h = W // 2; lo, hi = (0, h) if rnd.random() < .5 else (h, 0)
                e1 = tm.ext(x[0], lo, h); e2 = tm.ext(y[0], hi, h)
                t = tm.cat([(tm.add(h, e1, e2), h), (tm.bxor(h, e1, e2), h)])
                tv = [((((u >> lo) & tm.mask(h)) + ((v >> hi) & tm.mask(h))) & tm.mask(h)) | ((((u >> lo) ^ (v >> hi)) & tm.mask(h)) << h) for u, v in zip(x[1], y[1])]
            elif op == "tbl":
                T = TB[rnd.randrange(3)]; lo = rnd.randrange(W - 4)
                t = tm.zext(tm.tbl(8, tm.ext(x[0], lo, 4), T), 8, W) if W > 8 else tm.tbl(8, tm.ext(x[0], lo, 4), T)
                tv = [T[(u >> lo) & 15] for u in x[1]]
            elif op == "bit":
                b = rnd.randrange(W); k = rnd.getrandbits(W)
                t = tm.ite(tm.ext(x[0], b, 1), k, 0, W); tv = [k if u >> b & 1 else 0 for u in x[1]]
            elif op == "mulc":
                k = rnd.choice([3, 8, 16, tm.mask(W), rnd.getrandbits(W)])
                t = tm.mul(W, x[0], k); tv = [(u * k) & tm.mask(W) for u in x[1]]
            else:
                f = {"add": tm.add, "sub": tm.sub, "mul": tm.mul, "xor": tm.bxor, "and": tm.band, "or": tm.bor}.get(op)
                if f:
                    t = f(W, x[0], y[0])
                elif op == "not":
                    t = tm.bnot(W, x[0])
                else:
                    t = {"shlc": tm.shl, "lshrc": tm.lshr, "rotlc": tm.rotl, "ashrc": tm.ashr}[op](W, x[0], c)
                tv = [naive(op, W, u, v, c) for u, v in zip(x[1], y[1])]
            for e, v in zip(envs, tv):
                g = tm.evaluate([t], e)[0]
                assert g == v, (op, it, tm.show(t), e, hex(g), hex(v))
            r = tm.rng(t)
            assert all(r[0] <= v <= r[1] for v in tv), (op, r, tv, tm.show(t))
            pool.append((t, tv, W))
        # z3 agrees with the evaluator
        if it % 20 == 0:
            t = pool[-1][0]
            if type(t) is not int:
                cv = solve.Z3Conv(); cv.conv([t])
                for e, v in zip(envs, pool[-1][1]):
                    s = z3.Solver()
                    for nme in names: s.add(z3.BitVec(nme, W) == e[nme])
                    s.add(cv.m[t] != v)
                    assert s.check() == z3.unsat, tm.show(t, 10)
if __name__ == "__main__":
    run(int(sys.argv[1]) if len(sys.argv) > 1 else 1500, int(sys.argv[2]) if len(sys.argv) > 2 else 1)
    print("ok")
