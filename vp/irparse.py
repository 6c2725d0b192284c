"""Parser for the subset of textual LLVM IR that clang emits for C."""
import re, struct

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "el", "size", "align", "offs", "name")
    def __repr__(self):
        return self.name

def _al(x, a):
    return (x + a - 1) // a * a

class Types:
    def __init__(self):
        self.cache = {}
        self.named = {}       # name -> body text
        self.namedty = {}
    def mkint(self, n):
        t = self.cache.get(("i", n))
        if t is None:
            t = Ty(); t.k = "i"; t.n = n; t.el = None; t.offs = None; t.name = "i%d" % n
            t.size = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else _al((n + 7) // 8, 16)
            t.align = min(t.size, 16)
            self.cache[("i", n)] = t
        return t
    def simple(self, k):
        t = self.cache.get(k)
        if t is None:
            t = Ty(); t.name = k; t.el = None; t.offs = None; t.n = 0
            t.k, t.size, t.align, t.n = {"float": ("f", 4, 4, 32), "double": ("f", 8, 8, 64), "x86_fp80": ("f", 16, 16, 80),
                "ptr": ("p", 8, 8, 64), "void": ("v", 0, 1, 0), "label": ("l", 0, 1, 0), "metadata": ("m", 0, 1, 0),
                "half": ("f", 2, 2, 16), "fp128": ("f", 16, 16, 128)}[k]
            self.cache[k] = t
        return t
    def array(self, n, el):
        key = ("a", n, id(el))
        t = self.cache.get(key)
        if t is None:
            t = Ty(); t.k = "a"; t.n = n; t.el = el; t.size = n * el.size; t.align = el.align; t.offs = None
            t.name = "[%d x %r]" % (n, el)
            self.cache[key] = t
        return t
    def vector(self, n, el):
        key = ("V", n, id(el))
        t = self.cache.get(key)
        if t is None:
            t = Ty(); t.k = "V"; t.n = n; t.el = el; t.offs = None
            t.size = _al((n * (el.n if el.n else 64) + 7) // 8, 1)
            t.align = 1 << max(t.size - 1, 0).bit_length()
            t.name = "<%d x %r>" % (n, el)
            self.cache[key] = t
        return t
    def struct(self, els, packed=False):
        key = ("s", tuple(id(e) for e in els), packed)
        t = self.cache.get(key)
        if t is None:
            t = Ty(); t.k = "s"; t.n = len(els); t.el = list(els); t.name = "{%s}" % ",".join(map(repr, els))
            self._lay(t, packed)
            self.cache[key] = t
        return t
    def _lay(self, t, packed):
        o = 0; a = 1; t.offs = []
        for e in t.el:
            ea = 1 if packed else e.align
            o = _al(o, ea); t.offs.append(o); o += e.size; a = max(a, ea)
        t.size = _al(o, a); t.align = a

TOK = re.compile(r'''\s*(?:
  (?P<str>c"(?:[^"])*")|
  (?P<name>[%@](?:[-a-zA-Z$._0-9]+|"[^"]*"))|
  (?P<meta>![-a-zA-Z$._0-9]*)|
  (?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)|
  (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)|
  (?P<id>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)|
  (?P<attr>\#\d+)|
  (?P<q>"[^"]*")|
  (?P<p>\.\.\.|[(){}\[\]<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise IRError("token: " + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        v = m.group(k)
        out.append((k, v))
    return out

class P:
    """token cursor"""
    __slots__ = ("t", "i", "m")
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.m = mod
    def peek(self, o=0):
        j = self.i + o
        return self.t[j][1] if j < len(self.t) else None
    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]; self.i += 1
        return v
    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False
    def expect(self, v):
        if not self.eat(v):
            raise IRError("expected %s got %s" % (v, self.t[self.i - 2:self.i + 6]))
    def type(self):
        ts = self.m.types
        v = self.next()
        if v[0] == "i" and v[1:].isdigit():
            r = ts.mkint(int(v[1:]))
        elif v in ("float", "double", "x86_fp80", "ptr", "void", "label", "metadata", "half", "fp128"):
            r = ts.simple(v)
        elif v == "[":
            n = int(self.next()); self.expect("x"); e = self.type(); self.expect("]")
            r = ts.array(n, e)
        elif v == "<":
            if self.peek() == "{":
                self.next(); r = self._struct(True); self.expect(">")
            else:
                n = int(self.next()); self.expect("x"); e = self.type(); self.expect(">")
                r = ts.vector(n, e)
        elif v == "{":
            r = self._struct(False)
        elif v[0] == "%":
            r = self.m.named_type(v)
        else:
            raise IRError("type " + v)
        while self.peek() == "*":
            self.next(); r = ts.simple("ptr")
        return r
    def _struct(self, packed):
        els = []
        while not self.eat("}"):
            els.append(self.type()); self.eat(",")
        return self.m.types.struct(els, packed)
    def skip_attrs(self):
        while True:
            v = self.peek()
            if v in PATTRS:
                self.next()
                if self.peek() == "(":
                    self._skip_paren()
                elif v == "align":
                    self.next()
            else:
                return
    def _skip_paren(self):
        d = 0
        while True:
            v = self.next()
            if v == "(": d += 1
            elif v == ")":
                d -= 1
                if d == 0: return
    def operand(self, ty):
        """returns ('c', value) constants | ('l', name) local"""
        k, v = self.t[self.i]
        if k == "name" and v[0] == "%":
            self.i += 1
            return ("l", v)
        return ("c", self.const(ty))
    def const(self, ty):
        k, v = self.t[self.i]; self.i += 1
        if k == "num":
            if ty.k == "f":
                return _fpconst(float(v), ty)
            return int(v) & ((1 << ty.n) - 1)
        if k == "hex":
            return _hexfp(v, ty)
        if v == "true": return 1
        if v == "false": return 0
        if v == "null": return 0
        if v in ("undef", "poison"):
            return ("undef",)
        if v == "zeroinitializer":
            return ("zero",)
        if k == "name" and v[0] == "@":
            return ("g", v)
        if k == "str":
            return ("bytes", _unesc(v[2:-1]))
        if v in ("[", "<", "{"):
            if v == "<" and self.peek() == "{":
                self.next(); r = self._caggr("}"); self.expect(">"); return r
            return self._caggr({"[": "]", "<": ">", "{": "}"}[v])
        if v == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                self.next()
                if self.peek() == "(" and self.t[self.i + 1][0] == "num":
                    self._skip_paren()
            self.expect("(")
            bt = self.type(); self.expect(",")
            pt = self.type(); base = self.const(pt)
            idx = []
            while self.eat(","):
                self.eat("inrange")
                it = self.type(); idx.append((it, ("c", self.const(it))))
            self.expect(")")
            return ("gep", bt, base, idx)
        if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
            self.expect("("); st = self.type(); c = self.const(st); self.expect("to"); dt = self.type(); self.expect(")")
            return ("cast", v, st, c, dt)
        if v in ("add", "sub", "mul", "xor", "and", "or", "shl", "lshr"):
            while self.peek() in ("nuw", "nsw", "exact"): self.next()
            self.expect("("); st = self.type(); a = self.const(st); self.expect(","); st2 = self.type(); b = self.const(st2); self.expect(")")
            return ("bin", v, st, a, b)
        raise IRError("const %s %s" % (k, v))
    def _caggr(self, end):
        r = []
        while not self.eat(end):
            t = self.type(); r.append((t, self.const(t))); self.eat(",")
        return ("agg", r)

PATTRS = set("""noundef nocapture readonly readnone writeonly nonnull noalias signext zeroext align dereferenceable
 dereferenceable_or_null returned inreg byval sret immarg nofree nosync allocptr allocalign nest swiftself writable
 noext range nofpclass captures dead_on_unwind""".split())
FLAGS = {"nuw", "nsw", "exact", "disjoint", "nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "samesign"}

def _unesc(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

def _fpconst(x, ty):
    if ty.n == 64: return struct.unpack("<Q", struct.pack("<d", x))[0]
    if ty.n == 32: return struct.unpack("<I", struct.pack("<f", x))[0]
    raise IRError("fp const")

def _hexfp(v, ty):
    if v.startswith("0xK"):
        return int(v[3:], 16)
    b = int(v[2:], 16)
    if ty.n == 64: return b
    if ty.n == 32:
        return struct.unpack("<I", struct.pack("<f", struct.unpack("<d", struct.pack("<Q", b))[0]))[0]
    return b

def _alignment(p):
    while p.eat(","):
        if p.peek() == "align":
            p.next(); return int(p.next())
        break
    return 1

class Instr:
    __slots__ = ("op", "res", "a", "flags", "dbg", "al")
    def __init__(self, op, res, a, flags=()):
        self.al = 1; self.op = op; self.res = res; self.a = a; self.flags = flags; self.dbg = None

class Func:
    def __init__(self, name, ret, params, lines, mod):
        self.name = name; self.ret = ret; self.params = params; self.lines = lines; self.mod = mod
        self.blocks = None
    def decode(self):
        if self.blocks is None:
            self.blocks = _decode(self)
        return self.blocks

class Module:
    def __init__(self, text):
        self.types = Types()
        self.funcs = {}
        self.globals = {}
        self.decls = {}
        self.aliases = {}
        self._parse(text)
    def named_type(self, v):
        t = self.types.namedty.get(v)
        if t is None:
            body = self.types.named.get(v)
            if body is None or body == "opaque":
                t = Ty(); t.k = "o"; t.n = 0; t.el = None; t.size = 0; t.align = 1; t.offs = None; t.name = v
            else:
                t = P(tokenize(body), self).type()
                t2 = Ty()
                for f in ("k", "n", "el", "size", "align", "offs"):
                    setattr(t2, f, getattr(t, f))
                t2.name = v; t = t2
            self.types.namedty[v] = t
        return t
    def _parse(self, text):
        lines = text.split("\n")
        i = 0; n = len(lines)
        # named types first
        for ln in lines:
            if ln.startswith("%") and " = type " in ln:
                a, b = ln.split(" = type ", 1)
                self.types.named[a] = b.strip()
        while i < n:
            ln = lines[i]
            if ln.startswith("@"):
                self._global(ln)
            elif ln.startswith("define"):
                body = []
                j = i + 1
                while not lines[j].startswith("}"):
                    body.append(lines[j]); j += 1
                self._define(ln, body)
                i = j
            elif ln.startswith("declare"):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.decls[m.group(1)] = ln
            i += 1
    def _global(self, ln):
        name, rest = ln.split(" = ", 1)
        rest = re.sub(r',\s*!dbg.*$', '', rest)
        if re.search(r'\balias\b', rest.split("@")[0]):
            self.aliases[name[1:]] = rest.split("@")[-1].strip()
            return
        toks = tokenize(rest)
        p = P(toks, self)
        ext = False
        while p.peek() not in ("global", "constant"):
            v = p.next()
            if v in ("external", "extern_weak"):
                ext = True
            if p.peek() == "(":
                p._skip_paren()
        const = p.next() == "constant"
        ty = p.type()
        init = None
        if not ext and p.peek() is not None and p.peek() != ",":
            init = p.const(ty)
        self.globals[name[1:]] = (ty, init, const)
    def _define(self, ln, body):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
        name = m.group(1)
        head = ln[len("define"):m.start()]
        toks = tokenize(head)
        p = P(toks, self)
        LINK = {"internal", "private", "dso_local", "hidden", "linkonce_odr", "weak", "available_externally", "linkonce",
                "weak_odr", "local_unnamed_addr", "unnamed_addr", "fastcc", "external", "protected"}
        while True:
            if p.peek() in LINK: p.next()
            else:
                q = p.i; p.skip_attrs()
                if p.i == q: break
        ret = p.type()
        # parameters
        i = m.end() - 1; d = 0; j = i
        while True:
            if ln[j] == "(": d += 1
            elif ln[j] == ")":
                d -= 1
                if d == 0: break
            j += 1
        p = P(tokenize(ln[i + 1:j]), self)
        params = []; k = 0; bv = {}
        while p.peek() is not None:
            if p.peek() == "...":
                p.next(); break
            t = p.type()
            q0 = p.i
            p.skip_attrs()
            q1 = p.i
            for q in range(q0, q1):
                if p.t[q][1] == "byval":        # the callee works on its own copy
                    p.i = q + 2; bv[k] = p.type(); p.i = q1
            if p.kind() == "name":
                nm = p.next()
            else:
                nm = "%%%d" % k
            params.append((t, nm)); k += 1
            p.eat(",")
        fn = self.funcs[name] = Func(name, ret, params, body, self)
        fn.byval = bv

_meta_re = re.compile(r',\s*![a-zA-Z_.]+\s*!\S+')

def _decode(fn):
    blocks = {}; cur = None; order = []
    lines = fn.lines
    # implicit entry label
    first = True
    i = 0
    nparam = 0
    for t, nm in fn.params:
        nparam += 1
    while i < len(lines):
        ln = lines[i]; i += 1
        s = ln.strip()
        if not s or s.startswith(";"):
            continue
        if not ln.startswith(" "):
            m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                cur = "%" + m.group(1)
                blocks[cur] = []
                order.append(cur)
                continue
        if cur is None:
            cur = "%%%d" % len(fn.params)
            blocks[cur] = []; order.append(cur)
        if s.startswith("switch"):
            while "]" not in s:
                s += " " + lines[i].strip(); i += 1
        if "llvm.dbg." in s or s.startswith("#dbg"):
            continue
        s = _meta_re.sub("", s)
        ins = _instr(s, fn.mod)
        if ins is not None:
            blocks[cur].append(ins)
    # the unnamed entry block's label, for phi
    num = None
    return (blocks, order)

def _instr(s, mod):
    res = None
    m = re.match(r'(%(?:[-a-zA-Z$._0-9]+|"[^"]*")) = ', s)
    if m:
        res = m.group(1); s = s[m.end():]
    if s.startswith(("tail ", "musttail ", "notail ")):
        s = s.split(" ", 1)[1]
    op = s.split(None, 1)[0]
    if op == "call" and " asm " in s:
        return Instr("asm", res, (s,))
    p = P(tokenize(s), mod)
    p.next()
    flags = []
    if op in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "urem", "sdiv", "srem",
              "fadd", "fsub", "fmul", "fdiv", "frem"):
        while p.peek() in FLAGS: flags.append(p.next())
        t = p.type(); a = p.operand(t); p.expect(","); b = p.operand(t)
        return Instr(op, res, (t, a, b), tuple(flags))
    if op == "fneg":
        while p.peek() in FLAGS: p.next()
        t = p.type(); a = p.operand(t)
        return Instr(op, res, (t, a))
    if op in ("icmp", "fcmp"):
        while p.peek() in FLAGS: p.next()
        pred = p.next()
        t = p.type(); a = p.operand(t); p.expect(","); b = p.operand(t)
        return Instr(op, res, (pred, t, a, b))
    if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "uitofp", "sitofp", "fptoui", "fptosi",
              "fpext", "fptrunc", "addrspacecast"):
        while p.peek() in FLAGS: p.next()
        t = p.type(); a = p.operand(t); p.expect("to"); dt = p.type()
        return Instr(op, res, (t, a, dt))
    if op == "load":
        p.eat("volatile"); p.eat("atomic")
        t = p.type(); p.expect(","); pt = p.type(); a = p.operand(pt)
        r = Instr(op, res, (t, a)); r.al = _alignment(p)
        return r
    if op == "store":
        p.eat("volatile"); p.eat("atomic")
        t = p.type(); v = p.operand(t); p.expect(","); pt = p.type(); a = p.operand(pt)
        r = Instr(op, res, (t, v, a)); r.al = _alignment(p)
        return r
    if op == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"): p.next()
        bt = p.type(); p.expect(","); pt = p.type(); base = p.operand(pt)
        idx = []
        while p.eat(","):
            it = p.type(); idx.append((it, p.operand(it)))
        return Instr(op, res, (bt, base, idx))
    if op == "br":
        if p.peek() == "label":
            p.next()
            return Instr("br", None, (p.next(),))
        t = p.type(); c = p.operand(t); p.expect(","); p.next(); a = p.next(); p.expect(","); p.next(); b = p.next()
        return Instr("condbr", None, (c, a, b))
    if op == "switch":
        t = p.type(); v = p.operand(t); p.expect(","); p.next(); d = p.next(); p.expect("[")
        cases = []
        while not p.eat("]"):
            ct = p.type(); c = p.const(ct); p.expect(","); p.next(); cases.append((c, p.next()))
        return Instr("switch", None, (t, v, d, cases))
    if op == "phi":
        while p.peek() in FLAGS: p.next()
        t = p.type(); inc = []
        while True:
            p.expect("["); v = p.operand(t); p.expect(","); l = p.next(); p.expect("]")
            inc.append((v, l))
            if not p.eat(","): break
        return Instr("phi", res, (t, inc))
    if op == "ret":
        t = p.type()
        return Instr("ret", None, (t, None if t.k == "v" else p.operand(t)))
    if op == "select":
        while p.peek() in FLAGS: p.next()
        ct = p.type(); c = p.operand(ct); p.expect(","); t = p.type(); a = p.operand(t); p.expect(",")
        p.type(); b = p.operand(t)
        return Instr("select", res, (ct, c, t, a, b))
    if op == "call":
        while p.peek() in FLAGS or p.peek() in ("fastcc", "ccc"): p.next()
        p.skip_attrs()
        t = p.type()
        if p.peek() == "(":      # function type
            p._skip_paren()
        k, v = p.t[p.i]; p.i += 1
        callee = ("c", ("g", v)) if v[0] == "@" else ("l", v)
        p.expect("(")
        args = []
        while not p.eat(")"):
            at = p.type()
            if at.k == "m":
                d = 0
                while not (d == 0 and p.peek() in (",", ")")):
                    x = p.next()
                    if x == "(": d += 1
                    elif x == ")": d -= 1
                args.append((at, None))
            else:
                p.skip_attrs()
                args.append((at, p.operand(at)))
            p.eat(",")
        return Instr("call", res, (t, callee, args))
    if op == "alloca":
        p.eat("inalloca")
        t = p.type(); n = None
        if p.eat(","):
            if p.peek() != "align":
                nt = p.type(); n = p.operand(nt)
        return Instr("alloca", res, (t, n))
    if op == "extractvalue":
        t = p.type(); a = p.operand(t); idx = []
        while p.eat(","): idx.append(int(p.next()))
        return Instr(op, res, (t, a, idx))
    if op == "insertvalue":
        t = p.type(); a = p.operand(t); p.expect(","); vt = p.type(); v = p.operand(vt); idx = []
        while p.eat(","): idx.append(int(p.next()))
        return Instr(op, res, (t, a, vt, v, idx))
    if op == "extractelement":
        t = p.type(); a = p.operand(t); p.expect(","); it = p.type(); i = p.operand(it)
        return Instr(op, res, (t, a, it, i))
    if op == "insertelement":
        t = p.type(); a = p.operand(t); p.expect(","); vt = p.type(); v = p.operand(vt); p.expect(","); it = p.type(); i = p.operand(it)
        return Instr(op, res, (t, a, v, it, i))
    if op == "shufflevector":
        t = p.type(); a = p.operand(t); p.expect(","); p.type(); b = p.operand(t); p.expect(","); mt = p.type(); m = p.const(mt)
        return Instr(op, res, (t, a, b, mt, m))
    if op == "freeze":
        t = p.type(); a = p.operand(t)
        return Instr(op, res, (t, a))
    if op == "unreachable":
        return Instr(op, None, ())
    if op == "fence":
        return None
    raise IRError("instruction " + s[:80])
