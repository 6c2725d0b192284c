"""Cython source -> Python source over the symbolic runtime (cyrt)."""
import os, re, sys
from Cython.Compiler import Scanning, Parsing, Errors, Symtab
from Cython.Compiler.Main import Context, CompilationOptions
from .cytypes import *
from . import cytypes as ct
from .ctx import Unsupported

def parse(path, pxd, name):
    opts = CompilationOptions(language_level=3)
    ctx = Context.from_options(opts)
    src = Scanning.FileSourceDescriptor(path)
    Errors.init_thread()
    scope = Symtab.ModuleScope(name, None, ctx)
    with open(path, encoding="utf8") as f:
        s = Scanning.PyrexScanner(f, src, source_encoding="utf8", scope=scope, context=ctx)
        return Parsing.p_module(s, pxd, scope.name)

def nm(n):
    return type(n).__name__

def stats(n):
    if n is None:
        return []
    if nm(n) == "StatListNode":
        return n.stats
    return [n]

class ClassInfo:
    def __init__(self, name):
        self.name = name; self.attrs = {}; self.cmethods = {}; self.module = None
        self.shadow = set()       # attributes hidden from Python by a property of the same name

class Scope:
    """declarations of one module (pxd + pyx)"""
    def __init__(self, name):
        self.name = name
        self.types = {}        # name -> CT
        self.cvars = {}        # module level C variables -> CT
        self.typedefs = {}
        self.externs = {}      # name -> (CT, header)
        self.enums = {}        # enum constant name -> header
        self.classes = {}      # cdef class name -> ClassInfo
        self.cfuncs = {}       # cdef function name -> TFunc
        self.defs = {}         # DEF constants
        self.cimports = {}     # local name -> (module, name) / (module, None)
        self.headers = []
        self.structs = []      # extern structs

class Project:
    """all Cython modules of the package, as found in a source directory"""
    def __init__(self, root):
        self.root = root                     # directory of the package
        self.scopes = {}
        self.trees = {}

    def path(self, mod, ext):
        return os.path.join(self.root, mod + ext)

    def scope(self, mod):
        s = self.scopes.get(mod)
        if s is None:
            s = self.scopes[mod] = Scope(mod)
            p = self.path(mod, ".pxd")
            if os.path.exists(p):
                self._collect(s, parse(p, True, mod).body, True)
            p = self.path(mod, ".pyx")
            if os.path.exists(p):
                t = parse(p, False, mod)
                self.trees[mod] = t
                self._collect(s, t.body, False)
        return s

    # ---------------------------------------------------------- declarations
    def _collect(self, s, body, pxd):
        if pxd:
            s.pxd_body = body
        for n in stats(body):
            k = nm(n)
            if k == "FromCImportStatNode":
                m = n.module_name
                for _, name, asn in n.imported_names:
                    s.cimports[asn or name] = (m, name)
                if m.startswith("randomgen."):
                    self.scope(m.split(".")[1])
            elif k == "CImportStatNode":
                s.cimports[n.as_name or n.module_name] = (n.module_name, None)
            elif k == "CDefExternNode":
                h = n.include_file
                for d in stats(n.body):
                    self._extern(s, d, h)
            elif k == "CTypeDefNode":
                name, t = self.declare(s, n.declarator, self.btype(s, n.base_type))
                s.types[name] = t
            elif k == "CStructOrUnionDefNode":
                self._struct(s, n, None)
            elif k == "CEnumDefNode":
                s.types[n.name] = INT
            elif k == "CVarDefNode":
                self._cvardef(s, n)
            elif k == "CFuncDefNode":
                b = self.btype(s, n.base_type)
                name, t = self.declare(s, n.declarator, b)
                s.cfuncs[name] = t
            elif k == "CClassDefNode":
                ci = s.classes.setdefault(n.class_name, ClassInfo(n.class_name))
                ci.module = s.name
                s.types[n.class_name] = TObj(n.class_name)
                for d in stats(n.body):
                    if nm(d) == "CVarDefNode":
                        b = self.btype(s, d.base_type)
                        for dc in d.declarators:
                            name, t = self.declare(s, dc, b)
                            if isinstance(t, TFunc):
                                ci.cmethods[name] = t
                            else:
                                ci.attrs[name] = t
            elif k == "StatListNode":
                self._collect(s, n, False)

    def _cvardef(self, s, n):
        b = self.btype(s, n.base_type)
        for dc in n.declarators:
            name, t = self.declare(s, dc, b)
            if isinstance(t, TFunc):
                s.cfuncs[name] = t
            else:
                s.cvars[name] = t

    def _extern(self, s, d, h):
        k = nm(d)
        if k == "CStructOrUnionDefNode":
            self._struct(s, d, h)
        elif k == "CTypeDefNode":
            name, t = self.declare(s, d.declarator, self.btype(s, d.base_type))
            if isinstance(t, TInt) and not name in BASIC and h:
                # the header decides the actual size
                t = TInt(t.w, t.signed, name); t.extsize = None
                s.typedefs[name] = (t, h)
            s.types[name] = t
            if isinstance(t, TStruct) and name not in t.cnames:
                t.cnames.append(name)
        elif k == "CEnumDefNode":
            if d.name:
                s.types[d.name] = INT
            for it in d.items:
                s.enums[it.name] = h
        elif k == "CVarDefNode":
            b = self.btype(s, d.base_type)
            for dc in d.declarators:
                name, t = self.declare(s, dc, b)
                s.externs[name] = (t, h)
        elif k == "CFuncDefNode":
            b = self.btype(s, d.base_type)
            name, t = self.declare(s, d.declarator, b)
            s.externs[name] = (t, h)
        elif k == "StatListNode":
            for x in d.stats:
                self._extern(s, x, h)
        elif k in ("PassStatNode",):
            pass
        else:
            raise Unsupported("extern " + k)

    def _struct(self, s, n, h):
        t = s.types.get(n.name)
        if not isinstance(t, TStruct):
            t = TStruct(n.name, n.name if n.typedef_flag else n.kind + " " + n.name, {}, n.kind == "union")
            s.types[n.name] = t
            t.cnames = [t.cname]
        for a in n.attributes or []:
            if nm(a) != "CVarDefNode":
                continue
            b = self.btype(s, a.base_type)
            for dc in a.declarators:
                name, ty = self.declare(s, dc, b)
                t.fields[name] = ty
        if h:
            t.header = h
            if t not in s.structs:
                s.structs.append(t)

    def lookup_type(self, s, name):
        t = s.types.get(name)
        if t is not None:
            return t
        c = s.cimports.get(name)
        if c is not None:
            m, orig = c
            if m.startswith("randomgen."):
                return self.lookup_type(self.scope(m.split(".")[1]), orig)
            if orig == "bitgen_t":
                return BITGEN
            if m.startswith("numpy") and orig in NP:
                return NP[orig]
            if orig in BASIC:
                return BASIC[orig]
            if orig == "PyObject":
                return TObj(None)
            if m.startswith("numpy.random.bit_generator"):
                return TObj("_NPBitGenerator")
        return BASIC.get(name)

    def btype(self, s, n):
        k = nm(n)
        if k == "CSimpleBaseTypeNode":
            if n.is_basic_c_type:
                if n.name == "int":
                    if n.longness == 0: return INT if n.signed else UINT
                    if n.longness == -1: return SHORT if n.signed else USHORT
                    return LONG if n.signed else ULONG
                if n.name == "char": return CHAR if n.signed in (1, 2) else UCHAR
                if n.name == "double" and n.longness: return LDOUBLE
                return BASIC[n.name]
            if n.module_path:
                mod = n.module_path[0]
                c = s.cimports.get(mod)
                if c and c[0] == "numpy":
                    if n.name in NP: return NP[n.name]
                if c and c[0].startswith("libc"):
                    return BASIC[n.name]
                if mod == "libc" and n.name in BASIC:
                    return BASIC[n.name]
                raise Unsupported("type %s.%s" % (n.module_path, n.name))
            if n.name is None:
                return OBJ
            t = self.lookup_type(s, n.name)
            if t is None:
                if n.templates if hasattr(n, "templates") else False:
                    pass
                return TObj(n.name)
            return t
        if k == "MemoryViewSliceTypeNode":
            return TView(self.btype(s, n.base_type_node), len(n.axes))
        if k in ("CQualifierTypeNode", "CConstTypeNode", "CConstOrVolatileTypeNode"):
            return self.btype(s, n.base_type)
        if k == "TemplatedTypeNode":
            return self.btype(s, n.base_type_node)
        if k == "CComplexBaseTypeNode":
            return self.declare(s, n.declarator, self.btype(s, n.base_type))[1]
        raise Unsupported("base type " + k)

    def constexpr(self, s, n):
        k = nm(n)
        if k == "IntNode":
            return int(str(n.value).rstrip("uUlL"), 0)
        if k == "NameNode":
            if n.name in s.defs: return s.defs[n.name]
            raise Unsupported("constant " + n.name)
        if k in ("AddNode", "SubNode", "MulNode", "DivNode", "BinopNode") or hasattr(n, "operand1"):
            a = self.constexpr(s, n.operand1); b = self.constexpr(s, n.operand2)
            return {"+": a + b, "-": a - b, "*": a * b, "/": a // b if b else 0, "//": a // b if b else 0}[n.operator]
        raise Unsupported("constant expression " + k)

    def declare(self, s, d, b):
        k = nm(d)
        if k == "CNameDeclaratorNode":
            return d.name, b
        if k == "CPtrDeclaratorNode":
            return self.declare(s, d.base, TPtr(b))
        if k == "CArrayDeclaratorNode":
            if d.dimension is None:
                return self.declare(s, d.base, TPtr(b))
            return self.declare(s, d.base, TArr(b, self.constexpr(s, d.dimension)))
        if k == "CFuncDeclaratorNode":
            args = []; names = []
            for a in d.args:
                an, at = self.argdecl(s, a, True)
                args.append(at); names.append(an)
            return self.declare(s, d.base, TFunc(b, args, names))
        raise Unsupported("declarator " + k)

    def argdecl(self, s, a, cfunc):
        """(name, type) of an argument; a bare name is an untyped argument unless it is a type"""
        b = a.base_type
        dn = a.declarator
        if nm(b) == "CSimpleBaseTypeNode" and nm(dn) == "CNameDeclaratorNode" and not dn.name:
            if b.is_basic_c_type or b.module_path or (b.name and self.lookup_type(s, b.name) is not None and cfunc and b.name not in ("object",) and not b.is_self_arg):
                if not (b.is_self_arg):
                    return "", self.btype(s, b)
            return b.name, OBJ
        t = self.btype(s, b)
        name, t = self.declare(s, dn, t)
        return name, t

# ------------------------------------------------------------------ emitter
BINOPS = {"+": "+", "-": "-", "*": "*", "/": "/", "//": "//", "%": "%", "**": "**", "<<": "<<", ">>": ">>",
          "&": "&", "|": "|", "^": "^", "@": "@"}

class Emitter:
    def __init__(self, project, mod):
        self.p = project; self.s = project.scope(mod); self.mod = mod
        self.types = []; self.tindex = {}
        self.out = []; self.ind = 0
        self.cls = None
        self.locals = None        # name -> CT for typed locals
        self.boxed = set(); self.globals_decl = set(); self.assigned = set()
        self.ret = None
        self.tmp = 0

    def T(self, t):
        k = id(t)
        if k not in self.tindex:
            self.tindex[k] = len(self.types); self.types.append(t)
        return "_T[%d]" % self.tindex[k]

    def w(self, line):
        self.out.append("    " * self.ind + line)

    def module(self):
        pb = getattr(self.s, "pxd_body", None)
        if pb is not None:
            for n in stats(pb):
                if nm(n) == "CFuncDefNode":
                    self.stat(n)
        for n in stats(self.p.trees[self.mod].body):
            self.stat(n)
        return "\n".join(self.out) + "\n"

    # ---- statements
    def block(self, body):
        self.ind += 1
        n0 = len(self.out)
        for n in stats(body):
            self.stat(n)
        if len(self.out) == n0:
            self.w("pass")
        self.ind -= 1

    def stat(self, n):
        k = nm(n)
        f = getattr(self, "s_" + k, None)
        if f is None:
            raise Unsupported("%s: statement %s" % (self.mod, k))
        f(n)

    def s_StatListNode(self, n):
        for x in n.stats: self.stat(x)
    def s_PassStatNode(self, n): self.w("pass")
    def s_CDefExternNode(self, n): pass
    def s_CTypeDefNode(self, n): pass
    def s_CStructOrUnionDefNode(self, n): pass
    def s_CEnumDefNode(self, n): pass
    def s_CImportStatNode(self, n):
        if n.module_name.split(".")[0] in ("libc", "cpython", "cython"):
            return
        self.w("%s = _cimport(%r)" % ((n.as_name or n.module_name).split(".")[0], n.module_name))
    def s_FromCImportStatNode(self, n):
        for _, name, asn in n.imported_names:
            if n.module_name.startswith("libc.stdint") or name in NP and n.module_name == "numpy":
                continue
            self.w("%s = _cimport(%r, %r)" % (asn or name, n.module_name, name))
    def s_FromImportStatNode(self, n):
        m = n.module.module_name.value
        lvl = getattr(n.module, "level", 0) or 0
        for name, tgt in n.items:
            self.assign_name(tgt.name, "_import(%r, %r, %d)" % (m, str(name), lvl), raw=True)
    def s_GlobalNode(self, n):
        self.w("global " + ", ".join(n.names))
    def s_NonlocalNode(self, n):
        self.w("nonlocal " + ", ".join(n.names))
    def s_ExprStatNode(self, n):
        self.w(self.e(n.expr))
    def s_GILStatNode(self, n):
        for x in stats(n.body): self.stat(x)
    def s_GILExitNode(self, n): pass
    def s_DelStatNode(self, n):
        self.w("del " + ", ".join(self.e(a) for a in n.args))
    def s_BreakStatNode(self, n): self.w("break")
    def s_ContinueStatNode(self, n): self.w("continue")
    def s_ReturnStatNode(self, n):
        if n.value is None:
            self.w("return None")
        else:
            v = self.e(n.value)
            if self.ret is not None and self.ret.k != "void":
                v = "_co(%s, %s)" % (self.T(self.ret), v)
            elif self.ret is None:
                v = "_py(%s)" % v
            self.w("return " + v)
    def s_AssertStatNode(self, n):
        self.w("assert %s" % self.e(n.condition))
    def s_RaiseStatNode(self, n):
        if n.exc_type is None:
            self.w("raise"); return
        t = self.e(n.exc_type)
        if n.exc_value is not None:
            t = "%s(%s)" % (t, self.e(n.exc_value))
        self.w("raise " + t + ((" from " + self.e(n.cause)) if n.cause is not None else ""))
    def s_IfStatNode(self, n):
        kw = "if"
        for c in n.if_clauses:
            self.w("%s %s:" % (kw, self.e(c.condition))); kw = "elif"
            self.block(c.body)
        if n.else_clause is not None:
            self.w("else:"); self.block(n.else_clause)
    def s_WhileStatNode(self, n):
        self.w("while _loop(%s):" % self.e(n.condition))
        self.block(n.body)
        if n.else_clause is not None:
            self.w("else:"); self.block(n.else_clause)
    def s_ForInStatNode(self, n):
        seq = n.iterator.sequence if nm(n.iterator) != "NameNode" else n.iterator
        tgt = n.target
        if nm(seq) == "SimpleCallNode" and nm(seq.function) == "NameNode" and seq.function.name == "range":
            it = "_crange(%s)" % ", ".join(self.e(a) for a in seq.args)
        else:
            it = "_iter(%s)" % self.e(seq)
        if nm(tgt) == "NameNode" and not self.typed(tgt.name):
            self.note(tgt.name)
            self.w("for %s in %s:" % (tgt.name, it))
            self.block(n.body)
        else:
            self.tmp += 1
            t = "_i%d" % self.tmp
            self.w("for %s in %s:" % (t, it))
            self.ind += 1
            self.assign(tgt, t)
            self.ind -= 1
            self.block(n.body)
        if n.else_clause is not None:
            self.w("else:"); self.block(n.else_clause)
    def s_TryExceptStatNode(self, n):
        self.w("try:"); self.block(n.body)
        for c in n.except_clauses:
            if c.pattern is None:
                self.w("except Exception:")
            else:
                pat = c.pattern if isinstance(c.pattern, list) else [c.pattern]
                ps = self.e(pat[0]) if len(pat) == 1 else "(" + ", ".join(self.e(x) for x in pat) + ",)"
                self.w("except %s%s:" % (ps, " as " + c.target.name if c.target is not None else ""))
            self.block(c.body)
        if n.else_clause is not None:
            self.w("else:"); self.block(n.else_clause)
    def s_TryFinallyStatNode(self, n):
        self.w("try:"); self.block(n.body)
        self.w("finally:"); self.block(n.finally_clause)
    def s_WithStatNode(self, n):
        self.w("with _with(%s)%s:" % (self.e(n.manager), " as " + n.target.name if n.target is not None else ""))
        self.block(n.body)

    # ---- assignment
    def typed(self, name):
        if self.locals is not None:
            if name in self.locals: return self.locals[name]
            if name in self.assigned and name not in self.globals_decl: return None
        return self.s.cvars.get(name) if (self.locals is None or name not in self.assigned) else None
    def note(self, name):
        if self.locals is not None: self.assigned.add(name)
    def assign_name(self, name, v, raw=False):
        t = self.typed(name)
        if self.locals is not None and name in self.boxed:
            self.w("_b_%s.set(%s)" % (name, v)); return
        if t is not None:
            self.w("%s = _co(%s, %s)" % (name, self.T(t), v))
        else:
            self.note(name)
            self.w("%s = %s" % (name, v if raw else "_dec(%s)" % v))
    def assign(self, l, v):
        k = nm(l)
        if k == "NameNode":
            self.assign_name(l.name, v)
        elif k == "AttributeNode":
            self.w("_setattr(%s, %r, %s)" % (self.e(l.obj), self.attr(l), v))
        elif k == "IndexNode":
            self.w("_setitem(%s, %s, %s)" % (self.e(l.base), self.e(l.index), v))
        elif k == "SliceIndexNode":
            self.w("_setitem(%s, %s, %s)" % (self.e(l.base), self.slc(l), v))
        elif k in ("TupleNode", "ListNode"):
            self.tmp += 1
            t = "_u%d" % self.tmp
            self.w("%s = _unpack(%s, %d)" % (t, v, len(l.args)))
            for i, a in enumerate(l.args):
                self.assign(a, "%s[%d]" % (t, i))
        else:
            raise Unsupported("assignment to " + k)
    def s_SingleAssignmentNode(self, n):
        r = n.rhs
        if nm(r) == "ImportNode":
            m = r.module_name.value
            full = m.startswith("numpy.random") is False or True
            self.note(n.lhs.name) if nm(n.lhs) == "NameNode" else None
            self.w("%s = _import(%r, None, 0, %r)" % (n.lhs.name, str(m), bool(getattr(r, "is_import_as_name", False))))
            return
        if nm(r) == "TupleNode" and nm(n.lhs) == "TupleNode" and len(r.args) == len(n.lhs.args):
            ts = []
            for a in r.args:
                self.tmp += 1
                t = "_u%d" % self.tmp
                self.w("%s = %s" % (t, self.e(a))); ts.append(t)
            for a, t in zip(n.lhs.args, ts):
                self.assign(a, t)
            return
        self.assign(n.lhs, self.e(r))
    def s_CascadedAssignmentNode(self, n):
        self.tmp += 1
        t = "_u%d" % self.tmp
        self.w("%s = %s" % (t, self.e(n.rhs)))
        for l in n.lhs_list:
            self.assign(l, t)
    def s_InPlaceAssignmentNode(self, n):
        op = n.operator
        r = self.lit(n.rhs)
        l = n.lhs; k = nm(l)
        if k == "NameNode":
            self.assign_name(l.name, "_iop(%r, %s, %s)" % (op, self.e(l), r))
        elif k == "AttributeNode":
            self.tmp += 1; t = "_u%d" % self.tmp
            self.w("%s = %s" % (t, self.e(l.obj)))
            self.w("_setattr(%s, %r, _iop(%r, _getattr(%s, %r), %s))" % (t, self.attr(l), op, t, self.attr(l), r))
        elif k in ("IndexNode", "SliceIndexNode"):
            self.tmp += 1; t = "_u%d" % self.tmp
            self.w("%s = %s; %si = %s" % (t, self.e(l.base), t, self.e(l.index) if k == "IndexNode" else self.slc(l)))
            self.w("_setitem(%s, %si, _iop(%r, _getitem(%s, %si), %s))" % (t, t, op, t, t, r))
        else:
            raise Unsupported("in-place " + k)
    def s_CVarDefNode(self, n):
        if self.cls is not None and self.locals is None:
            return                                    # class attribute declaration
        b = self.p.btype(self.s, n.base_type)
        for d in n.declarators:
            name, t = self.p.declare(self.s, d, b)
            if isinstance(t, TFunc):
                continue
            dd = d
            while not hasattr(dd, "default") and hasattr(dd, "base"):
                dd = dd.base
            default = getattr(dd, "default", None)
            if self.locals is not None:
                self.locals[name] = t
                if name in self.boxed or t.k in ("arr", "struct"):
                    self.boxed.add(name)
                    self.w("_b_%s = _Box(%s, %r)" % (name, self.T(t), name))
                    if default is not None:
                        self.w("_b_%s.set(%s)" % (name, self.e(default)))
                elif default is not None:
                    self.assign_name(name, self.e(default))
                elif t.k == "obj":
                    self.w("%s = None" % name)
            else:
                self.s.cvars[name] = t
                if t.k in ("arr", "struct"):
                    raise Unsupported("module level C array")
                if default is not None:
                    self.w("%s = _co(%s, %s)" % (name, self.T(t), self.e(default)))
                elif t.k == "obj":
                    self.w("%s = None" % name)

    # ---- functions and classes
    def _amp(self, n, acc):
        if isinstance(n, list):
            for x in n: self._amp(x, acc)
            return
        if nm(n) == "AmpersandNode":
            o = n.operand
            if nm(o) == "NameNode": acc.add(str(o.name))
        for a in getattr(n, "child_attrs", None) or getattr(n, "subexprs", None) or ():
            c = getattr(n, a, None)
            if c is not None: self._amp(c, acc)

    def _names(self, n, acc, gl):
        """names assigned in a function body"""
        if isinstance(n, list):
            for x in n: self._names(x, acc, gl)
            return
        k = nm(n)
        if k in ("SingleAssignmentNode", "InPlaceAssignmentNode"):
            self._tgt(n.lhs, acc)
        elif k == "CascadedAssignmentNode":
            for l in n.lhs_list: self._tgt(l, acc)
        elif k == "ForInStatNode":
            self._tgt(n.target, acc)
        elif k == "GlobalNode":
            gl.update(n.names)
        elif k == "FromImportStatNode":
            for _, t in n.items: self._tgt(t, acc)
        for a in getattr(n, "child_attrs", None) or ():
            c = getattr(n, a, None)
            if c is not None: self._names(c, acc, gl)
    def _tgt(self, l, acc):
        if nm(l) == "NameNode": acc.add(str(l.name))
        elif nm(l) in ("TupleNode", "ListNode"):
            for a in l.args: self._tgt(a, acc)

    def func(self, name, args, body, ret, decos, star=None, starstar=None, ctype=None):
        saved = (self.locals, self.boxed, self.assigned, self.ret, self.globals_decl)
        boxed = set(); self._amp(body, boxed)
        asg = set(); gl = set(); self._names(body, asg, gl)
        params = []; pre = []
        defaults = []
        seen_kw = False
        loc = {}
        for a, (an, at) in args:
            dflt = getattr(a, "default", None)
            if getattr(a, "kw_only", 0) and not seen_kw:
                seen_kw = True
                params.append("*" + (star or ""))
            if nm(dflt) == "NoneNode" or dflt is None:
                dv = None if dflt is None else "None"
            else:
                dv = self.e(dflt) if nm(dflt) not in ("BoolNode",) else ("True" if dflt.value else "False")
            params.append(an + ("=" + dv if dv is not None else ""))
            if at is not OBJ and not (at.k == "obj" and at.cls is None):
                loc[an] = at
                pre.append((an, at))
        if star and not seen_kw:
            params.append("*" + star)
        if starstar:
            params.append("**" + starstar)
        for d in decos:
            self.w("@" + d)
        if ctype is not None:
            self.w("@_vpcfunc(%s)" % self.T(ctype))
        self.w("def %s(%s):" % (name, ", ".join(params)))
        self.locals = dict(loc); self.boxed = boxed - gl; self.assigned = asg | {an for _, (an, _) in args}; self.ret = ret
        self.globals_decl = gl
        self.ind += 1
        n0 = len(self.out)
        self.boxed &= self.assigned | self._ctyped(body) | set(loc)
        for an, at in pre:
            opt = any(a2 == an and nm(getattr(a, "default", None)) == "NoneNode" for a, (a2, _) in args)
            if an in self.boxed:
                self.w("_b_%s = _Box(%s, %r); _b_%s.set(%s)" % (an, self.T(at), an, an, an))
            else:
                self.w("%s = _co(%s, %s)" % (an, self.T(at), an))
        self.ind -= 1
        for g in sorted(set(x for x in self.assigned if x in gl)):
            pass
        self.ind += 1
        for n in stats(body):
            self.stat(n)
        if len(self.out) == n0:
            self.w("pass")
        self.ind -= 1
        self.locals, self.boxed, self.assigned, self.ret, self.globals_decl = saved

    def _ctyped(self, body):
        r = set()
        def go(n):
            if isinstance(n, list):
                for x in n: go(x)
                return
            if nm(n) == "CVarDefNode":
                for d in n.declarators:
                    while not hasattr(d, "name"):
                        d = d.base
                    r.add(str(d.name))
            for a in getattr(n, "child_attrs", None) or ():
                c = getattr(n, a, None)
                if c is not None: go(c)
        go(body)
        return r

    def s_DefNode(self, n):
        args = [(a, self.p.argdecl(self.s, a, False)) for a in n.args]
        decos = []
        for d in n.decorators or []:
            t = self.e(d.decorator)
            if t.startswith("_getattr(cython") or t.startswith("cython."):
                continue
            decos.append(t if "_getattr" not in t else self.plain(d.decorator))
        self.func(str(n.name), args, n.body, None, decos,
                  str(n.star_arg.name) if n.star_arg is not None else None,
                  str(n.starstar_arg.name) if n.starstar_arg is not None else None)
        if n.name in ("__cinit__",):
            raise Unsupported("__cinit__")
    def plain(self, n):
        if nm(n) == "NameNode": return str(n.name)
        if nm(n) == "AttributeNode": return self.plain(n.obj) + "." + str(n.attribute)
        raise Unsupported("decorator")
    def s_CFuncDefNode(self, n):
        b = self.p.btype(self.s, n.base_type)
        d = n.declarator
        ret = b
        while nm(d) == "CPtrDeclaratorNode":
            ret = TPtr(ret); d = d.base
        name = d.base.name
        args = []
        for i, a in enumerate(d.args):
            an, at = self.p.argdecl(self.s, a, False)
            if not an: raise Unsupported("unnamed argument in " + name)
            if self.cls is not None and i == 0: at = OBJ
            args.append((a, (an, at)))
        ft = TFunc(ret, [at for _, (_, at) in args], [an for _, (an, _) in args])
        ft.ext = self.mod
        self.func(str(name), args, n.body, ret, [], ctype=ft)
        if self.cls is None:
            pass
    def s_CClassDefNode(self, n):
        ci = self.s.classes[n.class_name]
        bases = [self.e(b) for b in n.bases.args] if n.bases is not None else []
        self.w("class %s(%s):" % (n.class_name, ", ".join(bases) or "_CBase"))
        old = self.cls, self.locals
        self.cls = ci; self.locals = None
        self.ind += 1
        self.w("__module__ = %r" % ("randomgen." + self.mod))
        for d in stats(n.body):
            if nm(d) == "DefNode" and d.decorators and str(d.name) in ci.attrs: ci.shadow.add(str(d.name))
        for a, t in ci.attrs.items():
            a = "_cattr_" + a if a in ci.shadow else a
            self.w("%s = _CAttr(%r, %s)" % (a, a, self.T(t)))
        self.ind -= 1
        self.block(n.body)
        self.cls, self.locals = old
    def s_PyClassDefNode(self, n):
        bases = [self.e(b) for b in n.bases.args] if n.bases is not None and hasattr(n.bases, "args") else []
        mc = getattr(n, "mkw", None)
        mc = getattr(mc, "arg", mc)
        extra = ""
        if mc is not None and nm(mc) == "DictNode":
            extra = "".join(", %s=%s" % (it.key.value, self.e(it.value)) for it in mc.key_value_pairs)
        if nm(getattr(n, "metaclass", None)) in ("NameNode", "AttributeNode"): extra = ", metaclass=%s" % self.e(n.metaclass) + extra
        self.w("class %s(%s):" % (n.name, ", ".join(bases) + (extra if bases else extra[2:])))
        old = self.cls, self.locals
        self.cls = ClassInfo(n.name); self.locals = None
        self.ind += 1
        self.w("__module__ = %r" % ("randomgen." + self.mod))
        self.ind -= 1
        self.block(n.body)
        self.cls, self.locals = old

    # ---- expressions
    def e(self, n):
        f = getattr(self, "e_" + nm(n), None)
        if f is None:
            if hasattr(n, "operand1") and hasattr(n, "operator"):
                return self.binop(n)
            raise Unsupported("%s: expression %s" % (self.mod, nm(n)))
        return f(n)
    def lit(self, n):
        if nm(n) == "IntNode":
            return "_L(%s)" % self.e(n)
        if nm(n) == "UnaryMinusNode" and nm(n.operand) == "IntNode":
            return "_L(-%s)" % self.e(n.operand)
        if nm(n) == "NameNode" and n.name in self.s.defs and type(self.s.defs[n.name]) is int:
            return "_L(%d)" % self.s.defs[n.name]
        return self.e(n)
    def binop(self, n):
        op = n.operator
        return "(%s %s %s)" % (self.lit(n.operand1), BINOPS[op], self.lit(n.operand2))
    def e_IntNode(self, n):
        return str(int(str(n.value).rstrip("uUlL"), 0))
    def e_FloatNode(self, n): return repr(float(str(n.value).rstrip("fF")))
    def e_BoolNode(self, n): return "True" if n.value else "False"
    def e_NoneNode(self, n): return "None"
    def e_NullNode(self, n): return "_NULL"
    def e_EllipsisNode(self, n): return "Ellipsis"
    def e_UnicodeNode(self, n): return repr(str(n.value))
    def e_IdentifierStringNode(self, n): return repr(str(n.value))
    def e_StringNode(self, n): return repr(str(n.value))
    def e_BytesNode(self, n): return repr(bytes(n.value, "latin1") if isinstance(n.value, str) else bytes(n.value))
    def e_CharNode(self, n): return "_CI(%s, %d)" % (self.T(CHAR), ord(n.value))
    def e_NameNode(self, n):
        name = str(n.name)
        if self.locals is not None and name in self.boxed and (name in self.locals):
            return "_b_%s.get()" % name
        if name in self.s.defs and not (self.locals is not None and name in self.locals):
            return repr(self.s.defs[name])
        if name in self.s.enums:
            return "_enum(%r)" % name
        if name in self.s.externs and not (self.locals is not None and (name in self.locals or name in self.assigned)):
            return "_ext(%r)" % name
        return name
    def attr(self, n):
        """the attribute meant: a typed object's own C attribute comes before a property of the same name"""
        a = str(n.attribute)
        if nm(n.obj) == "NameNode":
            ci = None
            t = (self.locals or {}).get(str(n.obj.name))
            if n.obj.name == "self": ci = self.cls
            elif isinstance(t, TObj): ci = self.s.classes.get(t.cls)
            if ci is not None and a in ci.shadow: return "_cattr_" + a
        return a
    def e_AttributeNode(self, n):
        return "_getattr(%s, %r)" % (self.e(n.obj), self.attr(n))
    def e_IndexNode(self, n):
        return "_getitem(%s, %s)" % (self.e(n.base), self.e(n.index))
    def slc(self, n):
        if getattr(n, "slice", None) is not None:
            return self.e(n.slice)
        a = "None" if n.start is None else self.e(n.start)
        b = "None" if n.stop is None else self.e(n.stop)
        return "_slice(%s, %s, None)" % (a, b)
    def e_SliceIndexNode(self, n):
        return "_getitem(%s, %s)" % (self.e(n.base), self.slc(n))
    def e_SliceNode(self, n):
        return "_slice(%s, %s, %s)" % tuple("None" if x is None else self.e(x) for x in (n.start, n.stop, n.step))
    def e_SimpleCallNode(self, n):
        f = n.function
        args = n.args if n.args is not None else n.arg_tuple.args
        if nm(f) == "NameNode" and f.name == "super":
            return "super(%s)" % ", ".join(self.e(a) for a in args)
        if nm(f) == "NameNode" and f.name == "locals":
            return "locals()"
        if nm(f) == "AttributeNode" and nm(f.obj) == "NameNode" and f.obj.name == "self" and False:
            pass
        return "_c(%s)" % ", ".join([self.e(f)] + [self.e(a) for a in args])
    def e_GeneralCallNode(self, n):
        parts = [self.e(n.function)]
        pa = n.positional_args
        if nm(pa) == "AsTupleNode":
            parts.append("*" + self.e(pa.arg))
        elif nm(pa) == "TupleNode":
            parts += [self.e(a) for a in pa.args]
        else:
            # concatenation of tuples
            parts.append("*(%s)" % self.e(pa))
        kw = n.keyword_args
        if kw is not None:
            for d in (kw.keyword_args if nm(kw) == "MergedDictNode" else [kw]):
                if nm(d) == "DictNode":
                    for it in d.key_value_pairs:
                        parts.append("%s=%s" % (it.key.value, self.e(it.value)))
                else:
                    parts.append("**" + self.e(d))
        return "_c(%s)" % ", ".join(parts)
    def e_AsTupleNode(self, n): return "tuple(%s)" % self.e(n.arg)
    def e_TypecastNode(self, n):
        b = self.p.btype(self.s, n.base_type)
        _, t = self.p.declare(self.s, n.declarator, b)
        return "_cast(%s, %s)" % (self.T(t), self.lit(n.operand))
    def e_AmpersandNode(self, n):
        o = n.operand; k = nm(o)
        if k == "IndexNode":
            return "_addri(%s, %s)" % (self.e(o.base), self.e(o.index))
        if k == "AttributeNode":
            return "_addra(%s, %r)" % (self.e(o.obj), str(o.attribute))
        if k == "NameNode":
            if self.locals is not None and o.name in self.boxed and o.name in self.locals:
                return "_b_%s.ptr()" % o.name
            return "_addrn(%s)" % self.e(o)
        raise Unsupported("address of " + k)
    def e_SizeofTypeNode(self, n):
        b = self.p.btype(self.s, n.base_type)
        _, t = self.p.declare(self.s, n.declarator, b)
        return "_sizeof(%s)" % self.T(t)
    def e_SizeofVarNode(self, n):
        o = n.operand
        if nm(o) == "NameNode" and not self.typed(o.name):
            t = self.p.lookup_type(self.s, o.name)
            if t is not None:
                return "_sizeof(%s)" % self.T(t)
        if nm(o) == "NameNode" and self.typed(o.name):
            return "_sizeof(%s)" % self.T(self.typed(o.name))
        raise Unsupported("sizeof")
    def cmpop(self, op):
        return {"not_in": "not in", "is_not": "is not"}.get(op, op)
    def e_PrimaryCmpNode(self, n):
        s = "%s %s %s" % (self.lit(n.operand1), self.cmpop(n.operator), self.lit(n.operand2))
        if n.operator in ("in", "not_in"):
            s = "_in(%s, %s)" % (self.e(n.operand1), self.e(n.operand2))
            if n.operator == "not_in": s = "not " + s
        elif n.operator in ("is", "is_not"):
            s = "%s %s %s" % (self.e(n.operand1), self.cmpop(n.operator), self.e(n.operand2))
        c = n.cascade
        while c is not None:
            s += " %s %s" % (self.cmpop(c.operator), self.lit(c.operand2))
            c = c.cascade
        return "(%s)" % s
    def e_BoolBinopNode(self, n):
        return "(%s %s %s)" % (self.e(n.operand1), n.operator, self.e(n.operand2))
    def e_NotNode(self, n): return "(not %s)" % self.e(n.operand)
    def e_UnaryMinusNode(self, n): return "(-%s)" % self.lit(n.operand)
    def e_UnaryPlusNode(self, n): return "(+%s)" % self.lit(n.operand)
    def e_TildeNode(self, n): return "(~%s)" % self.lit(n.operand)
    def e_CondExprNode(self, n):
        return "(%s if %s else %s)" % (self.e(n.true_val), self.e(n.condition), self.e(n.false_val))
    def e_TupleNode(self, n):
        if any(nm(a) == "StarredUnpackingNode" for a in n.args):
            return "(%s,)" % ", ".join("*" + self.e(a.target) if nm(a) == "StarredUnpackingNode" else "_py(%s)" % self.e(a) for a in n.args)
        return "(%s)" % "".join("_py(%s), " % self.e(a) for a in n.args)
    def e_ListNode(self, n):
        return "[%s]" % ", ".join("_py(%s)" % self.e(a) for a in n.args)
    def e_SetNode(self, n):
        return "{%s}" % ", ".join("_py(%s)" % self.e(a) for a in n.args)
    def e_MergedSequenceNode(self, n):
        parts = []
        for a in n.args:
            if nm(a) in ("ListNode", "TupleNode", "SetNode"):
                parts += ["_py(%s)" % self.e(x) for x in a.args]
            else:
                parts.append("*" + self.e(a))
        s = ", ".join(parts)
        return {"list": "[%s]", "tuple": "(%s,)"}.get(str(getattr(n, "type", "")).split()[0], "[%s]") % s
    def e_DictNode(self, n):
        return "{%s}" % ", ".join("_py(%s): _py(%s)" % (self.e(it.key), self.e(it.value)) for it in n.key_value_pairs)
    def e_JoinedStrNode(self, n):
        return "''.join([%s])" % ", ".join("str(%s)" % self.e(v) for v in n.values)
    def e_FormattedValueNode(self, n):
        if n.format_spec is not None:
            return "format(_py(%s), %s)" % (self.e(n.value), self.e(n.format_spec))
        if n.conversion_char == "r":
            return "repr(_py(%s))" % self.e(n.value)
        return "str(_py(%s))" % self.e(n.value)
    def e_AnnotationNode(self, n): return "None"
    def e_ImportNode(self, n):
        return "_import(%r, None, 0)" % str(n.module_name.value)
    def e_ComprehensionNode(self, n):
        return self.comp(n.loop, {"list": "[%s]", "set": "{%s}", "dict": "{%s}"}[str(n.type).split()[0] if n.type is not None else "list"])
    def comp(self, loop, fmt):
        parts = []
        x = loop
        while True:
            k = nm(x)
            if k == "ForInStatNode":
                seq = x.iterator.sequence
                if nm(seq) == "SimpleCallNode" and nm(seq.function) == "NameNode" and seq.function.name == "range":
                    it = "_crange(%s)" % ", ".join(self.e(a) for a in seq.args)
                else:
                    it = "_iter(%s)" % self.e(seq)
                parts.append("for %s in %s" % (self.ctarget(x.target), it))
                x = x.body
            elif k == "IfStatNode":
                parts.append("if %s" % self.e(x.if_clauses[0].condition)); x = x.if_clauses[0].body
            elif k == "StatListNode" and len(x.stats) == 1:
                x = x.stats[0]
            elif k == "ComprehensionAppendNode":
                el = "_py(%s)" % self.e(x.expr); break
            elif k == "DictComprehensionAppendNode":
                el = "_py(%s): _py(%s)" % (self.e(x.dict_item.key), self.e(x.dict_item.value)); break
            elif k == "ExprStatNode" and nm(x.expr) == "YieldExprNode":
                el = "_py(%s)" % self.e(x.expr.arg); break
            else:
                raise Unsupported("comprehension " + k)
        return fmt % (el + " " + " ".join(parts))
    def ctarget(self, t):
        if nm(t) == "NameNode": return str(t.name)
        return "(" + "".join(self.ctarget(a) + ", " for a in t.args) + ")"
    def e_GeneratorExpressionNode(self, n):
        return self.comp(n.loop, "(%s)")
    def e_LambdaNode(self, n):
        d = n.def_node
        return "(lambda %s: %s)" % (", ".join(str(a.declarator.name or a.base_type.name) for a in d.args), self.e(d.body.value))

def transpile(project, mod):
    em = Emitter(project, mod)
    src = em.module()
    return src, em.types, em.s
