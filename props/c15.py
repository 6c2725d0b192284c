"""C15: Squares keys obey their construction rules for every entropy."""
from vp.task import Task

EXPLANATION = "generate_keys and Squares(seed) run over seed words that are symbolic 64-bit values. The bounded-integer draws inside may be rejected; the harness bounds how often (none, one at each position, or a run of them that empties the word buffer). For every such seed the key obeys the documented rules."
ASSUMPTIONS = ["rejections inside the sampler: at most those stated in the bound of a harness", "the symbolic seed words stand for what numpy's SeedSequence returns"]
DEEP = False

def sampler(w, reject=(), words=0, free=()):
    """bound the rejections: shuffle draws in `reject` are rejected once, all others are accepted at first; high digit draws in `free` may be rejected, at most `words` are made"""
    if not w.symbolic: return
    S = w.cls("squares", "_SequenceSampler")
    inv, bits, nw = S.random_inverval, S.gen_bits, S.next_word
    st = dict(n=0, mx=None, k=0, nw=0)
    def random_inverval(self, mx):
        n = w.int(mx)
        st["mx"] = int(n); st["k"] = 0
        r = inv(self, mx)
        st["mx"] = None; st["n"] += 1
        return r
    def gen_bits(self, nb):
        r = bits(self, nb)
        if st["mx"] is not None:
            want = 1 if st["n"] in reject else 0
            w.assume(r >= st["mx"] if st["k"] < want and st["mx"] not in (2, 16) else r < st["mx"])
            st["k"] += 1
        return r
    def next_word(self):
        r = nw(self)
        st["nw"] += 1
        if st["nw"] > words: w.assume(False)
        if st["nw"] not in free:
            w.assume(r != 0)
            if st["last"] is not None: w.assume(r != st["last"])
        st["last"] = r
        return r
    st["last"] = None
    S.random_inverval, S.gen_bits, S.next_word = random_inverval, gen_bits, next_word

def digits(w, key): return [(key >> (4 * i)) & 15 for i in range(16)]

def rules(w, what, key, distinct=True):
    d = digits(w, key)
    w.eq(what + ": odd", key & 1, 1)
    for i in range(8 if distinct else 0):
        for j in range(i): w.check("%s: digits %d and %d differ" % (what, j, i), d[i] != d[j])
    for i in range(8, 16):
        w.check("%s: digit %d is not 0" % (what, i), d[i] != 0)
        w.check("%s: digit %d differs from the one before" % (what, i), d[i] != d[i - 1])

def structure(w, how, n, words, reject=(), free=()):
    sampler(w, reject, words, free)
    if how == "squares":
        bg = w.cls("squares", "Squares")(w.ss("r"))
        rules(w, "derived key", bg.state["state"]["key"], False)
        return
    keys = w.items(w.cls("squares", "generate_keys")(w.ss("r"), n))
    w.check("number of keys", len(keys) == n)
    for i, k in enumerate(keys): rules(w, "key %d" % i, k, False)

FIX = (3, 9, 0, 11, 5, 2, 7, 1, 6, 4, 2, 1, 3, 1, 0)
def fields(w, free, tag, fix=FIX, high=(), reject=()):
    """words that make one key: the shuffle draws in `free`, the high digits in `high` and the values rejected before the draws in `reject` are symbolic"""
    F = []
    def put(v, nb): F.append((v, nb))
    for i in range(15):
        mx = 16 - i
        nb = 4 if mx >= 8 else 3 if mx >= 4 else 2 if mx > 2 else 1
        if i in reject:
            v = w.sym("%s.r%d" % (tag, i), 64)
            w.assume(w.and_(v >= mx, v < (1 << nb)))
            put(v, nb)
        if i in free:
            v = w.sym("%s.j%d" % (tag, i), 64)
            w.assume(v < mx)
        else: v = fix[i] % mx
        put(v, nb)
    last = None
    for i in range(8):
        if i in high:
            v = w.sym("%s.d%d" % (tag, i), 64)
            w.assume(v < 16)
        else: v = (6, 10, 2, 9, 5, 12, 7, 3)[i]
        put(v, 4)
    for i in range(4): put((8, 11, 13, 4)[i], 4)
    out = [0]; off = 0
    for v, nb in F:
        if off + nb > 64: out.append(0); off = 0
        out[-1] = out[-1] | (v << off); off += nb
    return out

def window(w, free, high=(), reject=(), how="keys"):
    sampler(w, reject, 12, free=range(1, 13))
    vals = fields(w, free, "a", high=high, reject=reject) + [0x35a7c1e92b4d6f80]
    seq = w.wordseq(vals)
    if how == "squares": key = w.cls("squares", "Squares")(seq).state["state"]["key"]
    else: key = w.items(w.cls("squares", "generate_keys")(seq, 1))[0]
    rules(w, "key", key)

def boundary(w, zeros):
    """the high digits come from symbolic words that lie after the first buffer"""
    x = w.sym("x", 64)
    vals = [0x0123456789abcdef] + [0] * zeros + [x, 0x35a7c1e92b4d6f80, 0x9b1d2c3e4f5a6b7c]
    w.assume(w.and_(*[((x >> (4 * i)) & 15) != 0 for i in range(16)] + [((x >> (4 * i)) & 15) != ((x >> (4 * i + 4)) & 15) for i in range(15)]))
    keys = w.items(w.cls("squares", "generate_keys")(w.wordseq(vals), 1))
    rules(w, "key", keys[0])
    k = w.items(w.cls("squares", "generate_keys")(w.wordseq(vals), 1))
    w.eq("the same words give the same key", keys[0], k[0])

def uniq(w, words):
    """the second key may repeat the first"""
    sampler(w, (), 40, free=range(1, 41))
    a = fields(w, (), "a")
    b = fields(w, (words,), "b", high=(7,))
    c = [0x9b1d2c3e4f5a6b7c, 0x1d2c3e4f5a6b7c9b, 0x2c3e4f5a6b7c9b1d, 0x3e4f5a6b7c9b1d2c]
    keys = w.items(w.cls("squares", "generate_keys")(w.wordseq(a + b + c), 2, True))
    w.check("number of keys", len(keys) == 2)
    w.check("the keys differ", keys[0] != keys[1])

def same(w):
    sampler(w, (), 8)
    k = []
    for t in range(2):
        f = w.cls("squares", "generate_keys")
        if w.symbolic: w.c15 = None
        k.append(w.items(f(w.ss("r"), 1))[0])
    w.eq("key", k[0], k[1])

def zero(w, k):
    sampler(w, (), 8)
    key = w.items(w.cls("squares", "generate_keys")(w.ss("r"), 1))[0]
    w.check("digit %d is not 0" % k, digits(w, key)[k] != 0)

def refused(w, n):
    w.check("refused", w.raises(ValueError, w.cls("squares", "generate_keys"), w.ss("#a"), n))

def tasks(tier):
    T = []
    M = ["common", "squares"]
    def add(name, f, p, b, d=120, quick=True): T.append(Task(name, f, M, p, deadline=d, ms=60000, bound=b, quick=quick, max_paths=4000))
    add("key.accepted", structure, dict(how="keys", n=1, words=8), "every seed word; no rejection")
    add("squares.accepted", structure, dict(how="squares", n=1, words=8), "every seed word; no rejection")
    for k in range(1, 8):
        add("window.%d" % k, window, dict(free=(0, k)), "every value of shuffle draws 0 and %d, the others fixed" % k)
        if k < 7: add("window3.%d" % k, window, dict(free=(0, k, k + 1)), "every value of shuffle draws 0, %d and %d, the others fixed" % (k, k + 1), quick=k in (1, 6))
    add("window.squares", window, dict(free=(0, 7), how="squares"), "every value of shuffle draws 0 and 7, the others fixed")
    add("window.high", window, dict(free=(7,), high=(0,)), "every value of shuffle draw 7 and of the first high digit, accepted or not")
    for c in range(0, 8): add("window.high.%d" % c, window, dict(free=(), high=(c,)), "every value of high digit %d, accepted or not" % (8 + c))
    for c in range(0, 7): add("window.high2.%d" % c, window, dict(free=(), high=(c, c + 1)), "every value of high digits %d and %d, accepted or not" % (8 + c, 9 + c), quick=c in (0, 6))
    for c in range(0, 15):
        if 16 - c in (16, 2): continue
        add("window.reject.%d" % c, window, dict(free=(c,), reject=(c,)), "every rejected and accepted value of shuffle draw %d" % c)
    for z in (1, 7, 8, 9, 10): add("boundary.%d" % z, boundary, dict(zeros=z), "%d words that are rejected, then every 64-bit word with nonzero, changing digits" % z)
    for k in (0, 7): add("unique.%d" % k, uniq, dict(words=k), "two keys; every value of shuffle draw %d and the last high digit of the second" % k)
    for k in range(1, 8): add("zero.digit.%d" % k, zero, dict(k=k), "every seed word; no rejection", quick=k in (1, 7))
    for n in (0, -1): add("refused.%d" % n, refused, dict(n=n), "this count", d=30)
    return T
