"""Parser for textual LLVM IR (opaque pointers, LLVM 18) -- the subset clang emits for gencpp.

Functions are split textually and parsed on demand.  Everything the parser does not know raises IRError,
so an unknown construct can never be skipped silently.
"""
import re

class IRError(Exception):
    pass

# ----------------------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b", "name")
    def __init__(self, k, a=None, b=None, name=None):
        self.k, self.a, self.b, self.name = k, a, b, name
    def __repr__(self):
        if self.k == "int": return "i%d" % self.a
        if self.k == "arr": return "[%d x %r]" % (self.a, self.b)
        if self.k == "struct": return self.name or "{%s}" % ", ".join(map(repr, self.a or []))
        return self.k

VOID, PTR, LABEL, META = Ty("void"), Ty("ptr"), Ty("label"), Ty("metadata")
FLOAT, DOUBLE, X86FP80 = Ty("float"), Ty("double"), Ty("fp80")
_ints = {}
def INT(n):
    if n not in _ints: _ints[n] = Ty("int", n)
    return _ints[n]

TOK = re.compile(r'''
   \s+
 | ;[^\n]*
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<var>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\](){}<>,=*:|])
''', re.X)

def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise IRError("cannot tokenize: %r" % s[i:i+60])
        i = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    out.append(("eof", ""))
    return out

def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\" and s[i+1] == "\\":
            out.append(92); i += 2
        elif s[i] == "\\":
            out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

# ----------------------------------------------------------------------------- operands
class Op:
    """operand: kind in reg,int,null,undef,zero,global,fp,agg,bytes,expr,inlineasm,meta"""
    __slots__ = ("k", "v", "ty", "x")
    def __init__(self, k, v, ty, x=None):
        self.k, self.v, self.ty, self.x = k, v, ty, x
    def __repr__(self):
        return "%s:%s" % (self.k, self.v)

class Ins:
    __slots__ = ("op", "dst", "ty", "args", "x", "line", "text")
    def __init__(self, op, dst=None, ty=None, args=(), x=None):
        self.op, self.dst, self.ty, self.args, self.x = op, dst, ty, args, x
        self.line = 0
    def __repr__(self):
        return "%s = %s %s %s %s" % (self.dst, self.op, self.ty, self.args, self.x)

PARAM_ATTRS = {"noundef", "zeroext", "signext", "noalias", "nonnull", "readonly", "readnone", "writeonly", "nocapture",
               "returned", "inreg", "immarg", "nest", "swiftself", "nofree", "noreturn", "dereferenceable", "align", "sret",
               "byval", "dereferenceable_or_null", "nofpclass", "captures", "dead_on_unwind", "writable",
               "allocptr", "allocalign", "initializes"}
LINKAGE = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak",
           "linkonce_odr", "weak_odr", "external", "dso_local", "dso_preemptable", "default", "hidden", "protected",
           "dllimport", "dllexport", "unnamed_addr", "local_unnamed_addr", "externally_initialized"}
FMF = {"nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"}
BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
          "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast",
         "addrspacecast"}

class P:
    """token cursor"""
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0
    def peek(self): return self.t[self.i]
    def kind(self): return self.t[self.i][0]
    def val(self): return self.t[self.i][1]
    def next(self):
        r = self.t[self.i]; self.i += 1; return r
    def accept(self, v):
        if self.t[self.i][1] == v and self.t[self.i][0] != "str":
            self.i += 1; return True
        return False
    def expect(self, v):
        if not self.accept(v):
            raise IRError("expected %r, got %r near %r" % (v, self.val(), self.t[max(0, self.i-6):self.i+6]))

    # -- types
    def type(self):
        k, v = self.next()
        if k == "word":
            if v == "void": t = VOID
            elif v == "ptr":
                t = PTR
                if self.val() == "addrspace":
                    self.next(); self.expect("("); self.next(); self.expect(")")
            elif v == "label": t = LABEL
            elif v == "metadata": t = META
            elif v == "float": t = FLOAT
            elif v == "double": t = DOUBLE
            elif v == "x86_fp80": t = X86FP80
            elif v == "opaque": t = Ty("opaque")
            elif re.fullmatch(r"i\d+", v): t = INT(int(v[1:]))
            else: raise IRError("unknown type " + v)
        elif k == "var":
            t = self.m.named_type(v)
        elif v == "[":
            n = int(self.next()[1]); self.expect("x"); e = self.type(); self.expect("]")
            t = Ty("arr", n, e)
        elif v == "{":
            t = Ty("struct", self.fields("}"), False)
        elif v == "<":
            if self.accept("{"):
                t = Ty("struct", self.fields("}"), True); self.expect(">")
            else:
                n = int(self.next()[1]); self.expect("x"); e = self.type(); self.expect(">")
                t = Ty("vec", n, e)
        else:
            raise IRError("unknown type token %r" % v)
        # function type suffix
        if self.val() == "(" and self.kind() == "p":
            save = self.i
            try:
                self.next(); ps = []; va = False
                while not self.accept(")"):
                    if self.accept("..."): va = True
                    else: ps.append(self.type())
                    self.accept(",")
                t = Ty("fn", t, (ps, va))
            except IRError:
                self.i = save
        return t
    def fields(self, close):
        fs = []
        while not self.accept(close):
            fs.append(self.type()); self.accept(",")
        return fs

    def skip_attrs(self):
        """parameter attributes"""
        x = {}
        while self.kind() == "word" and self.val() in PARAM_ATTRS:
            a = self.next()[1]
            if self.val() == "(" :
                self.next()
                if a in ("sret", "byval"): x[a] = self.type(); self.expect(")")
                else:
                    d = 1
                    while d:
                        v = self.next()[1]
                        d += (v == "(") - (v == ")")
            elif a == "align": self.next()
            else: x[a] = True
        return x

    # -- constants / operands of known type
    def operand(self, ty):
        k, v = self.next()
        if k == "var":
            if v[0] == "%": return Op("reg", v, ty)
            return Op("global", v, ty)
        if k == "num":
            if ty.k in ("float", "double", "fp80"): return Op("fp", v, ty)
            return Op("int", int(v), ty)
        if k == "str":
            return Op("bytes", unescape(v[2:-1]), ty)
        if k == "word":
            if v == "true": return Op("int", 1, ty)
            if v == "false": return Op("int", 0, ty)
            if v == "null": return Op("null", None, ty)
            if v in ("undef", "poison"): return Op("undef", None, ty)
            if v == "zeroinitializer": return Op("zero", None, ty)
            if v == "getelementptr":
                self.accept("inbounds"); self.accept("inrange")
                self.expect("("); sty = self.type(); self.expect(",")
                args = []
                while True:
                    self.accept("inrange")
                    args.append(self.typed())
                    if self.accept(")"): break
                    self.expect(",")
                return Op("expr", "gep", ty, (sty, args))
            if v in CASTS:
                self.expect("("); a = self.typed(); self.expect("to"); t2 = self.type(); self.expect(")")
                return Op("expr", v, t2, a)
            if v in BINOPS:
                while self.val() in ("nsw", "nuw", "exact"): self.next()
                self.expect("("); a = self.typed(); self.expect(","); b = self.typed(); self.expect(")")
                return Op("expr", v, ty, (a, b))
            if v == "asm":
                while self.kind() == "word": self.next()
                a = self.next()[1]; self.expect(","); b = self.next()[1]
                return Op("inlineasm", (a, b), ty)
            if v == "c":
                return Op("bytes", unescape(self.next()[1][1:-1]), ty)
        if v == "[":
            xs = []
            while not self.accept("]"):
                xs.append(self.typed()); self.accept(",")
            return Op("agg", xs, ty)
        if v == "{":
            xs = []
            while not self.accept("}"):
                xs.append(self.typed()); self.accept(",")
            return Op("agg", xs, ty)
        if v == "<":
            if self.accept("{"):
                xs = []
                while not self.accept("}"):
                    xs.append(self.typed()); self.accept(",")
                self.expect(">")
                return Op("agg", xs, ty)
            xs = []
            while not self.accept(">"):
                xs.append(self.typed()); self.accept(",")
            return Op("agg", xs, ty)
        raise IRError("unknown operand %r %r near %r" % (k, v, self.t[max(0, self.i-6):self.i+6]))
    def typed(self):
        ty = self.type()
        if ty.k == "metadata":
            # swallow metadata operand
            d = 0
            while True:
                k, v = self.peek()
                if d == 0 and v in (",", ")"): break
                d += (v in "([{" and k == "p") - (v in ")]}" and k == "p")
                self.next()
            return Op("meta", None, ty)
        self.skip_attrs()
        return self.operand(ty)

class Func:
    def __init__(self, mod, name, header, body):
        self.m, self.name, self.header, self.body = mod, name, header, body
        self._parsed = False
        self.parse_header()
    def parse_header(self):
        p = P(self.m, tokenize(self.header))
        p.next()                                  # define / declare
        while p.kind() == "word" and (p.val() in LINKAGE or p.val() in PARAM_ATTRS or p.val() in ("fastcc", "ccc", "noinline")):
            if p.val() in PARAM_ATTRS: p.skip_attrs()
            else: p.next()
        p.skip_attrs()
        # drop optional fn-type ambiguity: return type is followed by @name so no "(" directly
        self.ret = p.type()
        p.next()
        p.expect("(")
        self.params, self.vararg = [], False
        n = 0
        while not p.accept(")"):
            if p.accept("..."): self.vararg = True
            else:
                ty = p.type(); at = p.skip_attrs()
                if p.kind() == "var": nm = p.next()[1]
                else: nm = "%%%d" % n
                self.params.append((ty, nm, at)); n += 1
            p.accept(",")
    def parse(self):
        if self._parsed: return self
        self.blocks, self.order = {}, []
        cur, lab = None, None
        nparams = len(self.params)
        buf = None
        for raw in self.body:
            s = raw.rstrip()
            if not s or s.lstrip().startswith(";"): continue
            if buf is not None:
                buf += " " + s.strip()
                if s.strip().startswith("]"):
                    cur.append(self.parse_ins(buf)); buf = None
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', s)
            if m:
                lab = "%" + m.group(1)
                cur = []; self.blocks[lab] = cur; self.order.append(lab)
                continue
            if cur is None:
                # implicit entry label
                lab = "%" + str(self.implicit_entry())
                cur = []; self.blocks[lab] = cur; self.order.append(lab)
            st = s.strip()
            if st.startswith("switch") and st.endswith("["):
                buf = st; continue
            if "@llvm.dbg." in st: continue
            cur.append(self.parse_ins(st))
        self.entry = self.order[0]
        self._parsed = True
        return self
    def implicit_entry(self):
        n = 0
        for ty, nm, at in self.params:
            if re.fullmatch(r"%\d+", nm): n = max(n, int(nm[1:]) + 1)
        return n
    def parse_ins(self, s):
        ins = self._parse_ins(s)
        m = re.search(r"!dbg !(\d+)", s)
        if m: ins.line = int(m.group(1))
        ins.text = s
        return ins
    def _parse_ins(self, s):
        p = P(self.m, tokenize(s))
        dst = None
        if p.kind() == "var" and p.t[1][1] == "=":
            dst = p.next()[1]; p.next()
        op = p.next()[1]
        if op in ("tail", "musttail", "notail"): op = p.next()[1]
        if op == "alloca":
            p.accept("inalloca")
            ty = p.type(); n = None
            while p.accept(","):
                if p.accept("align"): p.next()
                elif p.kind() == "meta": break
                else: n = p.typed()
            return Ins("alloca", dst, ty, [n] if n else [])
        if op == "load":
            p.accept("atomic"); p.accept("volatile")
            ty = p.type(); p.expect(","); a = p.typed()
            return Ins("load", dst, ty, [a])
        if op == "store":
            p.accept("atomic"); p.accept("volatile")
            v = p.typed(); p.expect(","); a = p.typed()
            return Ins("store", None, v.ty, [v, a])
        if op == "getelementptr":
            p.accept("inbounds")
            ty = p.type(); args = []
            while p.accept(","):
                if p.kind() == "meta": break
                args.append(p.typed())
            return Ins("gep", dst, ty, args)
        if op in BINOPS:
            fl = set()
            while p.val() in ("nsw", "nuw", "exact", "disjoint") or p.val() in FMF: fl.add(p.next()[1])
            ty = p.type(); a = p.operand(ty); p.expect(","); b = p.operand(ty)
            return Ins(op, dst, ty, [a, b], fl)
        if op == "fneg":
            while p.val() in FMF: p.next()
            ty = p.type(); a = p.operand(ty)
            return Ins(op, dst, ty, [a])
        if op in ("icmp", "fcmp"):
            while p.val() in FMF: p.next()
            pred = p.next()[1]
            ty = p.type(); a = p.operand(ty); p.expect(","); b = p.operand(ty)
            return Ins(op, dst, ty, [a, b], pred)
        if op in CASTS:
            while p.val() in ("nneg", "nuw", "nsw") or p.val() in FMF: p.next()
            a = p.typed(); p.expect("to"); ty = p.type()
            return Ins(op, dst, ty, [a])
        if op == "freeze":
            a = p.typed(); return Ins(op, dst, a.ty, [a])
        if op == "select":
            while p.val() in FMF: p.next()
            a = p.typed(); p.expect(","); b = p.typed(); p.expect(","); c = p.typed()
            return Ins(op, dst, b.ty, [a, b, c])
        if op == "phi":
            while p.val() in FMF: p.next()
            ty = p.type(); inc = []
            while p.accept("["):
                v = p.operand(ty); p.expect(","); l = p.next()[1]; p.expect("]")
                inc.append((l, v)); p.accept(",")
            return Ins(op, dst, ty, [], inc)
        if op == "br":
            if p.accept("label"):
                return Ins("br", None, None, [], [p.next()[1]])
            c = p.typed(); p.expect(","); p.expect("label"); a = p.next()[1]; p.expect(","); p.expect("label"); b = p.next()[1]
            return Ins("br", None, None, [c], [a, b])
        if op == "switch":
            c = p.typed(); p.expect(","); p.expect("label"); d = p.next()[1]; p.expect("[")
            cs = []
            while not p.accept("]"):
                v = p.typed(); p.expect(","); p.expect("label"); cs.append((v.v, p.next()[1]))
            return Ins("switch", None, None, [c], (d, cs))
        if op == "ret":
            ty = p.type()
            if ty.k == "void": return Ins("ret", None, None, [])
            return Ins("ret", None, ty, [p.operand(ty)])
        if op == "unreachable":
            return Ins("unreachable")
        if op == "extractvalue":
            a = p.typed(); ix = []
            while p.accept(","):
                if p.kind() == "meta": break
                ix.append(int(p.next()[1]))
            return Ins(op, dst, None, [a], ix)
        if op == "insertvalue":
            a = p.typed(); p.expect(","); b = p.typed(); ix = []
            while p.accept(","):
                if p.kind() == "meta": break
                ix.append(int(p.next()[1]))
            return Ins(op, dst, a.ty, [a, b], ix)
        if op == "call":
            while p.val() in FMF or p.val() in ("fastcc", "ccc", "coldcc"): p.next()
            p.skip_attrs()
            ty = p.type()
            rty = ty.a if ty.k == "fn" else ty
            callee = p.operand(PTR)
            p.expect("(")
            args = []
            while not p.accept(")"):
                args.append(p.typed()); p.accept(",")
            return Ins("call", dst, rty, args, callee)
        if op in ("atomicrmw", "cmpxchg", "fence", "va_arg"):
            return Ins(op, dst, None, [], s)
        raise IRError("unknown instruction " + s[:120])

class Module:
    def __init__(self, text):
        self.types_raw, self.types = {}, {}
        self.funcs, self.globals_raw, self.globals = {}, {}, {}
        self.aliases = {}
        self.files, self.locs = {}, {}
        lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define "):
                j = i + 1
                while lines[j] != "}": j += 1
                name = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*\(', l)
                nm = "@" + name.group(1)
                self.funcs[nm] = (l, lines[i+1:j])
                i = j + 1; continue
            if l.startswith("declare "):
                name = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*\(', l)
                self.funcs["@" + name.group(1)] = (l, None)
            elif l.startswith("%"):
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', l)
                self.types_raw[m.group(1)] = m.group(2)
            elif l.startswith("@"):
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
                self.globals_raw[m.group(1)] = m.group(2)
            elif l.startswith("!"):
                m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', l)
                if m: self.locs[int(m.group(1))] = int(m.group(2))
            i += 1
        self._f = {}; self._nw = {}; self._statics = None
    def func(self, name):
        if name not in self._f:
            h, b = self.funcs[name]
            self._f[name] = Func(self, name, h.split("{")[0] if False else re.sub(r'\s*\{\s*$', '', h), b)
        return self._f[name]
    def named_type(self, v):
        if v in self.types: return self.types[v]
        raw = self.types_raw.get(v)
        if raw is None: raise IRError("unknown type " + v)
        t = Ty("struct", None, False, v)
        self.types[v] = t
        p = P(self, tokenize(raw))
        d = p.type()
        if d.k == "opaque": t.k = "opaque"
        else: t.a, t.b = d.a, d.b
        return t
    def never_written(self, name):
        """a static of one function that the module only reads: every mention is a load, or an address whose every use is a load, the
        source of a copy, or a further address"""
        if not name.strip('@"').startswith("_ZZ"): return False
        r = self._nw.get(name)
        if r is None: r = self._nw[name] = self._never_written(name)
        return r
    def _never_written(self, name):
        if self._statics is None:
            self._statics = {}
            for f, (h, b) in self.funcs.items():
                for l in b or ():
                    if "@_ZZ" in l:
                        for g in re.findall(r'@_ZZ[-a-zA-Z$._0-9]+', l): self._statics.setdefault(g, set()).add(f)
            for g, raw in self.globals_raw.items():
                for x in re.findall(r'@_ZZ[-a-zA-Z$._0-9]+', raw): self._statics.setdefault(x, set()).add("another global")
        fs = list(self._statics.get(name, ()))
        if len(fs) != 1 or fs[0] not in self.funcs: return False
        body = self.funcs[fs[0]][1]; todo, done = [name], set()
        while todo:
            x = todo.pop(); done.add(x); pat = re.compile(re.escape(x) + r'(?![\w.$"])')
            for l in body:
                if not pat.search(l): continue
                l = l.strip()
                if l.startswith(x + " ="): continue
                m = re.match(r'(%\S+) = getelementptr\b', l)
                if m:
                    if m.group(1) not in done: todo.append(m.group(1))
                elif re.match(r'%\S+ = load\b', l): pass
                elif re.match(r'(tail )?call void @llvm\.mem(cpy|move)\.', l) and not pat.search(l.split(",")[0]): pass
                else: return False
        return True
    def glob(self, name):
        """(type, init Op or None, is_const, threadlocal)"""
        if name in self.globals: return self.globals[name]
        raw = self.globals_raw.get(name)
        if raw is None: return None
        raw = re.sub(r',\s*!dbg !\d+', '', raw)
        p = P(self, tokenize(raw))
        tl, ext, const = False, False, None
        while True:
            v = p.val()
            if v == "thread_local":
                tl = True; p.next()
                if p.accept("("):
                    p.next(); p.expect(")")
            elif v == "alias": raise IRError("alias " + name)
            elif v in LINKAGE:
                if v in ("external", "extern_weak"): ext = True
                p.next()
            elif v == "global": p.next(); const = False; break
            elif v == "constant": p.next(); const = True; break
            else: raise IRError("global %s: %r" % (name, v))
        ty = p.type()
        init = None
        if not ext: init = p.operand(ty)
        self.globals[name] = (ty, init, const, tl)
        return self.globals[name]

# ----------------------------------------------------------------------------- layout (x86-64)
def align_of(t):
    if t.k == "int":
        n = t.a
        return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
    if t.k in ("ptr", "double"): return 8
    if t.k == "float": return 4
    if t.k == "fp80": return 16
    if t.k == "arr": return align_of(t.b)
    if t.k == "vec": return size_of(t)
    if t.k == "struct":
        if t.b: return 1
        return max([align_of(f) for f in t.a] or [1])
    raise IRError("align_of %r" % t)
def rnd(x, a): return (x + a - 1) // a * a
def size_of(t):
    if t.k == "int":
        return rnd((t.a + 7) // 8, align_of(t))
    if t.k in ("ptr", "double"): return 8
    if t.k == "float": return 4
    if t.k == "fp80": return 16
    if t.k == "arr": return t.a * size_of(t.b)
    if t.k == "vec": return t.a * size_of(t.b)
    if t.k == "struct":
        return layout(t)[1]
    raise IRError("size_of %r" % t)
_lay = {}
def layout(t):
    r = _lay.get(id(t))
    if r is None:
        off, offs, al = 0, [], 1
        for f in t.a:
            a = 1 if t.b else align_of(f)
            off = rnd(off, a); offs.append(off); off += size_of(f); al = max(al, a)
        r = (offs, rnd(off, al), t)
        _lay[id(t)] = r
    return r
