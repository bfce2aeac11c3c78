"""C17: operator declarations.  Types are compared by code_is_equal, which stays abstract (a function of the two nodes)."""
from spec import *
from lib import *
from c_ast import *
from c_spell import values, SETS
P17 = ["C17"]
EQ = z3.Function("same_code", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(1))
@contract("code_is_equal", props=[])
def _(cx):
    """at calls: some relation on nodes; it writes nothing"""
    h = heap_of(cx); a, b = code(cx, h, "self", False), code(cx, h, "other", False)
    def post(px): px.ret = EQ(a, b)
    return post
@contract("code_debug_str", props=[], trusted=True)
def _(cx):
    """at calls: text for a diagnostic"""
    r = cx.sret(16); cx.nxt(); cx.assigns(r, 16)
    return lambda px: None
def opnum(cx): return dict(zip([n for n, _ in SETS["OPS"]], values(cx, "OPS")))
def global_code(cx, h, nm):
    """the node a global constant of the library (t_int, t_bool) refers to"""
    g = [n for n in cx.ex.mod.globals_raw if n.strip('@"') == "_ZN3gen%d%sE" % (len(nm), nm)]
    if not g: raise Unsupported("no " + nm)
    p = cx.ex.global_ptr(cx.st, g[0]); x = z3.BitVec(nm, 64); cx.st.assume(h.valid(cx.st, x))
    cx.st.mem[p.obj] = c_write(cx.st.mem[p.obj], None, bv(0), 8, Ptr(h.o, 0, x)); return x
FAIL, GLOBAL, MEMBER = 0, 1, 2
@contract("operator__validate", props=P17, callable=False, cost=20)
def _(cx):
    h = heap_of(cx); op = cx.i("op"); ps = code(cx, h, "params", False); rt = code(cx, h, "ret_type", False); code(cx, h, "specifiers", False)
    tint, tbool = global_code(cx, h, "t_int"), global_code(cx, h, "t_bool")
    N = opnum(cx); st0 = cx.st.clone(); vs = cx.vs_codes = dict(zip([n for n, _ in SETS["CODES"]], values(cx, "CODES")))
    have = cx.choose(2)
    if have: cx.st.assume(ps != 0); L = plist(cx, h, ps, (bv(0),))
    else: cx.st.assume(ps == 0); L = None
    n = h.num(st0, ps) if have else bv(0, 32)
    typ = lambda x: h.word(st0, x, "Type", 4); vt = lambda x: h.word(st0, x, 24)
    isp = typ(ps) == bv(vs["CT_Parameters"], 32)
    o = lambda *names: z3.Or([op == bv(N["Op_" + x], 32) for x in names])
    cx.st.assume(z3.Or([op == bv(v, 32) for v in N.values()]))
    e = lambda a, b: EQ(a, b) == bv(1, 1)
    eq = e(vt(ps), rt); first_int = e(vt(ps), tint); second_int = e(vt(L.seq(bv(0))), tint) if have else z3.BoolVal(False); ret_bool = e(rt, tbool)
    is1, is2 = n == 1, n == 2; some = ps != 0; C = lambda v: bv(v, 32)
    If = z3.If
    rule = If(o("Assign"), If(is1, C(MEMBER), C(FAIL)),
        If(o("Assign_Add", "Assign_Subtract", "Assign_Multiply", "Assign_Divide", "Assign_Modulo", "Assign_BAnd", "Assign_BOr", "Assign_BXOr", "Assign_LShift", "Assign_RShift"),
           If(is1, C(MEMBER), If(z3.And(is2, eq), C(GLOBAL), C(FAIL))),
        If(o("Increment", "Decrement"), If(z3.Not(some), C(MEMBER), If(is1, If(first_int, C(MEMBER), If(eq, C(GLOBAL), C(FAIL))), If(z3.And(is2, eq, second_int), C(GLOBAL), C(FAIL)))),
        If(o("Unary_Plus", "Unary_Minus"), If(z3.Not(some), C(MEMBER), If(z3.And(is1, eq), C(GLOBAL), C(FAIL))),
        If(o("UnaryNot"), If(z3.Not(ret_bool), C(FAIL), If(z3.Not(some), C(MEMBER), If(is1, C(GLOBAL), C(FAIL)))),
        If(o("BNot", "Indirection", "AddressOf"), If(z3.Not(some), C(MEMBER), If(is1, C(GLOBAL), C(FAIL))),
        If(o("Add", "Subtract", "Multiply", "Divide", "Modulo", "BAnd", "BOr", "BXOr", "LShift", "RShift", "LAnd", "LOr", "LEqual", "LNot", "Lesser", "Greater", "LesserEqual", "GreaterEqual", "PtrToMemOfPtr", "Comma"),
           If(is1, C(MEMBER), If(is2, C(GLOBAL), C(FAIL))),
        If(o("MemberOfPointer"), If(some, C(FAIL), C(MEMBER)),
        If(o("Subscript"), If(some, C(MEMBER), C(FAIL)),
        If(o("FunctionCall"), C(MEMBER), C(GLOBAL)))))))))))
    ok = z3.And(op != bv(N["Op_Invalid"], 32), rt != 0, typ(rt) == bv(vs["CT_Typename"], 32)); unchecked = o("Indirection", "AddressOf", "New", "NewArray", "Delete", "DeleteArray")
    node = lambda x: z3.Or(x == 0, h.valid(st0, x))
    if have:
        for x in (ps, L.seq(bv(0))): cx.require("types of the parameters are nodes", z3.Implies(z3.Or(x == ps, n > 1), node(vt(x))))
    # a rejected declaration ends in the library's failure report (a trap in the debug build) or in the rejecting result
    cx.panics_if(z3.Or(z3.Not(ok), z3.And(some, z3.Not(isp), z3.Not(unchecked)), z3.And(some, z3.Not(isp), unchecked, n > 1), z3.And(z3.Implies(some, isp), rule == FAIL)))
    def post(px):
        r = px.ret
        px.ensure("no operator, no return type, or not a type: rejected", z3.Implies(z3.Not(ok), r == FAIL))
        px.ensure("parameters of the wrong kind: rejected", z3.Implies(z3.And(ok, some, z3.Not(isp), z3.Not(unchecked)), r == FAIL))
        px.ensure("accepted and placed exactly by the operator's rule", z3.Implies(z3.And(ok, z3.Implies(some, isp)), r == rule))
    return post
