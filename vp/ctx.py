"""Path exploration by re-execution: a harness is an ordinary Python function;
every branch on a symbolic condition asks the current Ctx for a decision."""
import time
import z3
from . import terms as tm, solve
from .solve import STATS

class PathEnd(BaseException):
    """this path is finished (assumption failed / infeasible)"""

class Unsupported(BaseException):
    """a construct the machinery cannot encode"""

class Limit(Unsupported):
    pass

class Ctx:
    cur = None
    def __init__(self, prefix=(), deadline=None, feas_ms=5000):
        self.prefix = list(prefix); self.taken = []; self.pc = []
        self.pending = []          # alternative prefixes
        self.conv = solve.Z3Conv(); self.solver = z3.Solver(); self.solver.set("timeout", feas_ms)
        self.fresh = 0; self.deadline = deadline
        self.pcset = {}
        self.undef = []
        self.events = []
        self.facts = set()
        self.unknown_branches = 0
        self.names = {}
        self.steps = 0; self.nobranch = False
        self.big = None            # conditions with more nodes than this are taken both ways without asking the solver
        self._big = {}
    # -- symbols
    def var(self, name, w):
        """named input; numbered if the name was used before"""
        k = self.names.get(name, 0); self.names[name] = k + 1
        return tm.var(name if k == 0 else "%s~%d" % (name, k), w)
    def undefined(self, w, why):
        self.fresh += 1
        v = tm.var("undef!%d" % self.fresh, w)
        self.undef.append((v, why))
        return v
    # -- conditions
    def _isbig(self, c):
        if self.big is None or c is None: return False
        if c not in self._big: self._big[c] = len(tm.topo([c])) > self.big
        return self._big[c]
    def _add(self, c):
        self.pc.append(c)
        if self._isbig(c): self._learn(c); return
        self.conv.conv([c])
        self.solver.add(self.conv.m[c])
        self._learn(c)
    def _learn(self, c):
        self.pcset[c] = 1
        self.pcset[tm.bnot(1, c)] = 0
        if c.op == "and" and c.w == 1 and c.data is None:
            for a in c.args:
                self._learn(a)
        elif c.op == "xor" and c.data == 1 and len(c.args) == 1 and c.args[0].op == "or" and c.args[0].data is None:
            for a in c.args[0].args:
                self._learn(tm.bnot(1, a))
    def assume(self, c):
        if type(c) is int:
            if not c:
                raise PathEnd()
            return
        v = self.pcset.get(c)
        if v == 1:
            return
        if v == 0:
            raise PathEnd()
        self._add(c)
        if self._feasible(None) == "unsat":
            raise PathEnd()
    def _feasible(self, c):
        """is pc (and c) satisfiable"""
        if self._isbig(c): return "unknown"
        t0 = time.time()
        try:
            if c is None:
                r = self.solver.check()
            else:
                self.conv.conv([c])
                r = self.solver.check(self.conv.m[c])
        except z3.Z3Exception:
            r = z3.unknown
        STATS.queries += 1; STATS.time += time.time() - t0
        if r == z3.unsat:
            STATS.unsat += 1
            return "unsat"
        if r == z3.sat:
            STATS.sat += 1
            return "sat"
        STATS.unknown += 1
        return "unknown"
    def known(self, c):
        """decided value of c under the path condition without branching, or None"""
        if type(c) is int:
            return c
        return self.pcset.get(c)
    def must(self, c):
        """does the path condition imply c? (True/False; unknown counts as False)"""
        v = self.known(c)
        if v is not None:
            return bool(v)
        if self._feasible(tm.bnot(1, c)) == "unsat":
            self.pcset[c] = 1; self.pcset[tm.bnot(1, c)] = 0
            return True
        return False
    def branch(self, c):
        """decide condition c on this path"""
        if type(c) is int:
            return bool(c)
        v = self.pcset.get(c)
        if v is not None:
            return bool(v)
        if self.nobranch:
            from .llsym import MergeFail
            raise MergeFail()
        if self.deadline and time.time() > self.deadline:
            raise Limit("time limit while exploring")
        n = len(self.taken)
        if n < len(self.prefix):
            d = self.prefix[n]
            self.taken.append(d)
            self._add(c if d else tm.bnot(1, c))
            return d
        nc = tm.bnot(1, c)
        rt = self._feasible(c)
        if rt == "unsat":
            # implied: record as a decision so that replays agree
            self.taken.append(False)
            self._add(nc)
            return False
        rf = self._feasible(nc)
        if rf == "unsat":
            self.taken.append(True)
            self._add(c)
            return True
        if rt == "unknown" or rf == "unknown":
            self.unknown_branches += 1
        self.pending.append(self.taken + [False])
        self.taken.append(True)
        self._add(c)
        return True
    def choose(self, t, w, limit=64):
        """concretise term t by branching over its feasible values"""
        if type(t) is int:
            return t
        if self.nobranch:
            from .llsym import MergeFail
            raise MergeFail()
        for _ in range(limit):
            t0 = time.time()
            r = self.solver.check()
            STATS.queries += 1; STATS.time += time.time() - t0
            if r != z3.sat:
                if r == z3.unsat:
                    STATS.unsat += 1
                    raise PathEnd()
                raise Unsupported("cannot enumerate values")
            STATS.sat += 1
            self.conv.conv([t])
            n = len(self.taken)
            if n < len(self.prefix):
                # replay: prefix entries for choose are ("v", value)
                d = self.prefix[n]
                self.taken.append(d)
                val, eqd = d
                c = tm.eq(w, t, val)
                if eqd:
                    if type(c) is not int: self._add(c)
                    return val
                nc = tm.bnot(1, c)
                if type(nc) is not int: self._add(nc)
                continue
            z = self.solver.model().eval(self.conv.m[t], model_completion=True)
            val = (1 if z3.is_true(z) else 0) if w == 1 else z.as_long()
            c = tm.eq(w, t, val)
            if type(c) is not int:
                nc = tm.bnot(1, c)
                if self._feasible(nc) != "unsat":
                    self.pending.append(self.taken + [(val, False)])
                self.taken.append((val, True))
                self._add(c)
            else:
                self.taken.append((val, True))
            return val
        raise Limit("too many values")

def explore(fn, deadline=None, max_paths=4000, feas_ms=5000):
    """run fn(ctx) on every feasible path; yields (ctx, result)"""
    todo = [[]]
    n = 0
    while todo:
        p = todo.pop()
        c = Ctx(p, deadline, feas_ms)
        old = Ctx.cur
        Ctx.cur = c
        try:
            try:
                r = fn(c)
                ok = True
            except PathEnd:
                ok = False; r = None
        finally:
            Ctx.cur = old
        todo.extend(c.pending)
        n += 1
        if ok:
            yield c, r
        if n >= max_paths and todo:
            raise Limit("more than %d paths" % max_paths)
        if deadline and time.time() > deadline and todo:
            raise Limit("time limit after %d paths" % n)
