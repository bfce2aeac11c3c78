"""C16: constructors of single nodes.  The new node (C24) is blank; every argument stands in its place and everything else is still
blank.  Interning (C12) gives an unspecified view that depends on the text; the nodes given as parts are kept as they are."""
from spec import *
from lib import *
from c_ast import *
from c_ctx import context
from c_intern import override, raw_view, common
from c_spell import values, SETS
from c_op import global_code
P16 = ["C16"]
CACHED = [z3.Function("cached_" + x, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64)) for x in ("text", "length")]
def intern(c):
    q = c.fix_ptr(c.nxt()); c.require("result", c.ex.valid(c.st, q, 16)); w = raw_view(c)
    c.require("a text", z3.And(w[1] > 0, w[0] != 0)); c.assigns(q, 16)
    def post(px): px.set_cell(q, CACHED[0](*w)); px.set_cell(q.plus(8), CACHED[1](*w))
    return post
class A: pass
def text(cx, name):
    """a Str argument: any pointer and length; the text itself is only handed on"""
    i = cx.nxt(); t = cx.obj(name, 16, "stack"); p, n = z3.BitVec(name + "_ptr", 64), z3.BitVec(name + "_len", 64); cx.inputs += [(name + "_ptr", p), (name + "_len", n)]
    put8(cx, t, 0, p); put8(cx, t, 8, n); cx.args[i] = Ptr(t)
    a = A(); a.none = z3.BoolVal(False); a.w = (p, n); a.ok = z3.And(p != 0, n > 0); return a
def put8(cx, o, k, v, n=8): cx.st.mem[o] = c_write(cx.st.mem[o], None, bv(k), n, v)
def node_arg(cx, h, name): return code(cx, h, name, False)
def opts(cx, h, fields, size):
    """an options structure passed by address: fields (name, offset, size or "code")"""
    i = cx.nxt(); t = cx.obj("opts", size, "stack"); r = {}
    for name, k, w in fields:
        if w == "code":
            x = z3.BitVec(name, 64); cx.st.assume(z3.Or(x == 0, h.valid(cx.st, x))); put8(cx, t, k, Ptr(h.o, 0, x))
        else: x = z3.BitVec(name, 8 * w); put8(cx, t, k, x, w)
        cx.inputs.append((name, x)); r[name] = x
    cx.args[i] = Ptr(t); return r
ATTRS, SPECS, TYPE3, PARAMS4, BODY5, NAME, NUM = 8, 16, 24, 32, 40, 64, 120
def built(fn, setup, opts_=None):
    @contract(fn, props=P16, callable=False, opts=opts_ or {}, cost=5)
    def _(cx):
        h = heap_of(cx); V = dict(zip([n for n, _ in SETS["CODES"]], values(cx, "CODES"))); cx.CT = lambda n: bv(V["CT_" + n], 32)
        override(cx, "cache_str", intern)
        st0 = cx.st.clone()
        typ = lambda x: h.word(st0, x, "Type", 4)
        cx.isk = lambda x, *ks: z3.Or([typ(x) == cx.CT(k) for k in ks])
        cx.opt = lambda x, *ks: z3.Or(x == 0, cx.isk(x, *ks))
        cx.adopts = bv(0)      # a body that learns its parent
        accept, ctype, parts = setup(cx, h)
        st1 = cx.st.clone()
        cx.panics_if(z3.Not(accept))
        def post(px):
            news = px.st.ghost.get("new_nodes", ()); x = mem.bits(px.ret)
            px.ensure("only arguments of the documented kinds are accepted", accept)
            # assigning a part that already has a parent makes a copy that nothing refers to: it is not part of the result
            px.ensure("a new node is returned", z3.Or([x == n for n in news]) if news else F)
            if not news: return
            px.ensure("kind", h.word(px.st, x, "Type", 4) == ctype)
            seen = {112: 4}
            for k, v in parts.items():
                if isinstance(v, A):
                    for j in (0, 1): px.ensure("text at %d" % k, h.word(px.st, x, k + 8 * j) == z3.If(v.none, bv(0), CACHED[j](*v.w)))
                    seen[k] = 16
                else:
                    n = v.size() // 8; seen[k] = n
                    px.ensure("part at %d" % k, h.word(px.st, x, k, n) == v)
            for k in range(0, 128, 2):
                if not any(a <= k < a + n for a, n in seen.items()): px.ensure("nothing at %d" % k, h.word(px.st, x, k, 2) == 0)
            px.ensure("a body of a class knows its parent", z3.Or(cx.adopts == 0, h.word(px.st, cx.adopts, "Parent") == x))
            px.ensure("the other nodes are kept", FA(lambda y, k: z3.Implies(z3.And(h.valid(st1, y), z3.ULT(k, bv(128)), z3.Not(z3.And(y == cx.adopts, k >= U["Parent"], k < U["Parent"] + 8))), mem.bits(mem.read(px.st.mem[h.o], y, k, 1)) == mem.bits(mem.read(st1.mem[h.o], y, k, 1))), n=2))
        return post
def simple_text(fn, kind, where):
    def s(cx, h):
        t = text(cx, "text"); return t.ok, cx.CT(kind), {k: t for k in where}
    built(fn, s)
simple_text("def_attributes", "PlatformAttributes", (0, NAME))
simple_text("def_execution", "Execution", (0,))
simple_text("def_pragma", "Preprocess_Pragma", (0,))
simple_text("def_using_namespace", "Using_Namespace", (NAME,))
def _(cx, h):
    n = text(cx, "name"); b = node_arg(cx, h, "body"); return z3.And(n.ok, b != 0, cx.isk(b, "Extern_Linkage_Body", "Untyped")), cx.CT("Extern_Linkage"), {NAME: n, BODY5: b}
built("def_extern_link", _)
def _(cx, h):
    d = node_arg(cx, h, "declaration"); return z3.And(d != 0, cx.isk(d, "Class_Fwd", "Function_Fwd", "Operator_Fwd", "Struct_Fwd", "Class", "Function", "Operator", "Struct")), cx.CT("Friend"), {BODY5: d}
built("def_friend", _)
def _(cx, h):
    n = text(cx, "name"); f = cx.i("mflags"); return n.ok, cx.CT("Module"), {NAME: n, 116: f}
built("def_module", _)
def _(cx, h):
    n = text(cx, "name"); b = node_arg(cx, h, "body"); f = cx.i("mflags")
    return z3.And(n.ok, b != 0, cx.isk(b, "Namespace_Body", "Untyped")), cx.CT("Namespace"), {NAME: n, BODY5: b, 116: f}
built("def_namespace", _)
def _(cx, h):
    t = node_arg(cx, h, "type"); n = text(cx, "name"); v = node_arg(cx, h, "value")
    return z3.And(n.ok, t != 0, cx.isk(t, "Typename"), cx.opt(v, "Untyped")), cx.CT("Parameters"), {NAME: n, TYPE3: t, BODY5: v, NUM: bv(1, 32)}
built("def_param", _)
def _(cx, h):
    ps = node_arg(cx, h, "params"); d = node_arg(cx, h, "declaration"); f = cx.i("mflags")
    return z3.And(d != 0, cx.opt(ps, "Parameters"), cx.isk(d, "Class", "Function", "Struct", "Variable", "Using")), cx.CT("Template"), {PARAMS4: ps, BODY5: d, 116: f}
built("def_template", _)
def _(cx, h):
    n = text(cx, "name"); o = opts(cx, h, [("type_tag", 0, 2), ("array_expr", 8, "code"), ("specifiers", 16, "code"), ("attributes", 24, "code")], 32)
    return z3.And(n.ok, cx.opt(o["attributes"], "PlatformAttributes"), cx.opt(o["specifiers"], "Specifiers"), cx.opt(o["array_expr"], "Untyped")), cx.CT("Typename"), {NAME: n, ATTRS: o["attributes"], SPECS: o["specifiers"], BODY5: o["array_expr"], 122: o["type_tag"]}
built("def_type", _)
def _(cx, h):
    o = opts(cx, h, [("params", 0, "code"), ("initializer_list", 8, "code"), ("body", 16, "code")], 24); b = o["body"]
    return z3.And(cx.opt(o["params"], "Parameters"), cx.opt(b, "Function_Body", "Untyped")), z3.If(b == 0, cx.CT("Constructor_Fwd"), cx.CT("Constructor")), {PARAMS4: o["params"], TYPE3: o["initializer_list"], BODY5: b}
built("def_constructor", _)
def _(cx, h):
    o = opts(cx, h, [("body", 0, "code"), ("specifiers", 8, "code")], 16); b = o["body"]
    return z3.And(cx.opt(o["specifiers"], "Specifiers"), cx.opt(b, "Function_Body", "Untyped")), z3.If(b == 0, cx.CT("Destructor_Fwd"), cx.CT("Destructor")), {SPECS: o["specifiers"], BODY5: b}
built("def_destructor", _)
def _(cx, h):
    n = text(cx, "name"); o = opts(cx, h, [("body", 0, "code"), ("type", 8, "code"), ("specifier", 16, 1), ("attributes", 24, "code"), ("mflags", 32, 4), ("type_macro", 40, "code")], 48); b, t = o["body"], o["type"]
    scoped = o["specifier"] == 1

    macro = z3.If(t == 0, o["type_macro"], bv(0))
    ok = z3.And(n.ok, cx.opt(t, "Typename"), cx.opt(o["attributes"], "PlatformAttributes"), cx.opt(b, "Enum_Body", "Untyped"), z3.Or(b != 0, scoped, t != 0, macro != 0))
    return ok, z3.If(b == 0, z3.If(scoped, cx.CT("Enum_Class_Fwd"), cx.CT("Enum_Fwd")), z3.If(scoped, cx.CT("Enum_Class"), cx.CT("Enum"))), {NAME: n, BODY5: b, TYPE3: t, PARAMS4: macro, ATTRS: o["attributes"], 116: o["mflags"]}
built("def_enum", _)
def _(cx, h):
    t = node_arg(cx, h, "type"); n = text(cx, "name"); o = opts(cx, h, [("value", 0, "code"), ("specifiers", 8, "code"), ("attributes", 16, "code"), ("mflags", 24, 4)], 32)
    return z3.And(n.ok, t != 0, cx.isk(t, "Typename"), cx.opt(o["attributes"], "PlatformAttributes"), cx.opt(o["specifiers"], "Specifiers"), cx.opt(o["value"], "Untyped")), cx.CT("Variable"), {NAME: n, TYPE3: t, ATTRS: o["attributes"], SPECS: o["specifiers"], BODY5: o["value"], 116: o["mflags"]}
built("def_variable", _)
def _(cx, h):
    n = text(cx, "name"); t = node_arg(cx, h, "type"); o = opts(cx, h, [("attributes", 0, "code"), ("mflags", 8, 4)], 16)
    return z3.And(n.ok, t != 0, cx.opt(o["attributes"], "PlatformAttributes")), cx.CT("Using"), {NAME: n, TYPE3: t, ATTRS: o["attributes"], 116: o["mflags"]}
built("def_using", _)
def _(cx, h):
    n = text(cx, "name"); t = node_arg(cx, h, "type"); o = opts(cx, h, [("attributes", 0, "code"), ("mflags", 8, 4)], 16)
    return z3.And(n.ok, t != 0, cx.isk(t, "Class", "Class_Fwd", "Enum", "Enum_Fwd", "Enum_Class", "Enum_Class_Fwd", "Function_Fwd", "Struct", "Struct_Fwd", "Union", "Typename"), cx.opt(o["attributes"], "PlatformAttributes")), cx.CT("Typedef"), {NAME: n, TYPE3: t, 116: o["mflags"]}
built("def_typedef", _)
def _(cx, h):
    n = text(cx, "name"); b = node_arg(cx, h, "body"); o = opts(cx, h, [("attributes", 0, "code"), ("mflags", 8, 4)], 16)
    cx.require("a name or none", z3.Or(n.ok, n.w[0] == 0)); n.none = n.w[0] == 0
    return z3.And(b != 0, cx.isk(b, "Union_Body"), cx.opt(o["attributes"], "PlatformAttributes")), cx.CT("Union"), {NAME: n, BODY5: b, ATTRS: o["attributes"], 116: o["mflags"]}
built("def_union", _)
def _(cx, h):
    n = text(cx, "name"); o = opts(cx, h, [("params", 0, "code"), ("ret_type", 8, "code"), ("body", 16, "code"), ("specs", 24, "code"), ("attrs", 32, "code"), ("mflags", 40, 4)], 48); b, rt = o["body"], o["ret_type"]
    void = global_code(cx, h, "t_void"); cx.st.assume(void != 0)
    return z3.And(n.ok, cx.opt(o["params"], "Parameters"), cx.opt(rt, "Typename"), cx.opt(o["specs"], "Specifiers"), cx.opt(o["attrs"], "PlatformAttributes"), cx.opt(b, "Function_Body", "Execution", "Untyped")), z3.If(b == 0, cx.CT("Function_Fwd"), cx.CT("Function")), {NAME: n, BODY5: b, ATTRS: o["attrs"], SPECS: o["specs"], PARAMS4: o["params"], TYPE3: z3.If(rt == 0, void, rt), 116: o["mflags"]}
built("def_function", _)
def _(cx, h):
    t = node_arg(cx, h, "type"); o = opts(cx, h, [("body", 0, "code"), ("specs", 8, "code")], 16); b = o["body"]
    return z3.And(t != 0, cx.isk(t, "Typename"), cx.opt(b, "Function_Body", "Execution")), z3.If(b == 0, cx.CT("Operator_Cast_Fwd"), cx.CT("Operator_Cast")), {TYPE3: t, SPECS: o["specs"], BODY5: b}
built("def_operator_cast", _)
def record(struct):
    def s(cx, h):
        n = text(cx, "name"); o = opts(cx, h, [("body", 0, "code"), ("parent", 8, "code"), ("parent_access", 16, 4), ("attributes", 24, "code"), ("interfaces", 32, 8), ("num_interfaces", 40, 4), ("specifiers", 48, "code"), ("mflags", 56, 4)], 64); b = o["body"]
        cx.require("no interfaces", o["num_interfaces"] <= 0)
        parts = {NAME: n, BODY5: b, ATTRS: o["attributes"], SPECS: o["specifiers"], TYPE3: o["parent"], 116: o["mflags"], NUM: o["parent_access"]}
        if struct:
            cx.require("a name or none", z3.Or(n.ok, n.w[1] == 0)); n.none = n.w[1] == 0
            return z3.And(cx.opt(o["attributes"], "PlatformAttributes"), cx.opt(o["parent"], "Typename"), cx.opt(b, "Struct_Body")), z3.If(b == 0, cx.CT("Struct_Fwd"), cx.CT("Struct")), parts
        cx.assigns(Ptr(h.o, U["Parent"], b), 8); cx.adopts = b
        return z3.And(n.ok, cx.opt(o["attributes"], "PlatformAttributes"), cx.opt(o["parent"], "Class", "Struct", "Typename", "Untyped"), cx.opt(b, "Class_Body", "Untyped")), z3.If(b == 0, cx.CT("Class_Fwd"), cx.CT("Class")), parts
    return s
built("def_class", record(False)); built("def_struct", record(True))
