"""AST nodes: specifier sets (C15)."""
from spec import *
from lib import *
import sym
U = dict(Specs=16, NextSpecs=56, NamePtr=64, NameLen=72, Prev=80, Front=80, Last=80, Next=88, Back=88, Token=96, Parent=104, Type=112, ModuleFlags=116, Num=120)
def node(cx, name, nullable=False):
    """a node parameter (any contents)"""
    return cx.ptr(name, 128, nullable, align=16)
def fld(cx, p, k, n=None): return mem.bits(cx.cell(p.plus(U[k] if isinstance(k, str) else k), n or (4 if k in ("Type", "ModuleFlags", "Num") else 8)))
def rd4(st, p, off): return mem.bits(mem.read(st.mem[p.obj], p.idx, add(p.off, off), 4))

# ------------------------------------------------------------------ C15: specifiers
P15 = ["C15"]
CAP = 14
def specs(cx, nullable=False):
    p = node(cx, "self", nullable)
    if is_null(p): return p, None, None
    n = fld(cx, p, "Num")
    cx.require("number of specifiers", z3.ULE(n, bv(CAP, 32)))
    st0 = cx.st.clone()
    return p, n, lambda i, st=None: rd4(st or st0, p, z3.ZeroExt(32, i) * 4)

@contract("specifiers_append", props=P15)
def _(cx):
    p, n, at = specs(cx, True); s = cx.i("spec")
    if is_null(p): cx.panics_if(T); return lambda px: px.ensure("not reached", F)
    cx.panics_if(n == bv(CAP, 32))
    cx.assigns(p.plus(z3.ZeroExt(32, n) * 4), 4); cx.assigns(p.plus(U["Num"]), 4)
    if not cx.verify: cx.require("room", z3.ULT(n, bv(CAP, 32)))
    def post(px):
        px.ensure("appended", px.bool())
        px.ensure("count", px.cell(p.plus(U["Num"]), 4) == n + 1)
        px.ensure("a full list is not appended to", n != bv(CAP, 32))
        px.ensure("added at the end", px.cell(p.plus(z3.ZeroExt(32, n) * 4), 4) == s)
        px.ensure("earlier specifiers kept", FA(lambda i: z3.Implies(z3.ULT(z3.Extract(31, 0, i), n), rd4(px.st, p, z3.ZeroExt(32, z3.Extract(31, 0, i)) * 4) == at(z3.Extract(31, 0, i)))))
    return post

@contract("specifiers_has", props=P15)
def _(cx):
    p, n, at = specs(cx); s = cx.i("spec")
    cx.template(lambda st, e: FA(lambda k: z3.Implies(z3.ULT(k, e), at(z3.Extract(31, 0, k)) != s)))
    if not cx.verify: return lambda px: None
    def post(px):
        px.ensure("true only when present", z3.Implies(px.bool(), z3.Or([z3.And(z3.ULT(bv(i, 32), n), at(bv(i, 32)) == s) for i in range(CAP)])))
        px.ensure("false only when absent", Or(px.bool(), FA(lambda k: z3.Implies(z3.ULT(k, z3.ZeroExt(32, n)), at(z3.Extract(31, 0, k)) != s))))
    return post

@contract("specifiers_index_of", props=P15)
def _(cx):
    p, n, at = specs(cx); s = cx.i("spec")
    if not cx.verify: return lambda px: None
    cx.template(lambda st, e: FA(lambda k: z3.Implies(z3.ULT(k, e), at(z3.Extract(31, 0, k)) != s)))
    def post(px):
        r = px.ret
        px.ensure("a position holding it, or -1", Or(r == bv(2**32 - 1, 32), And(z3.ULT(r, n), at(r) == s)))
        px.ensure("nothing before the position is equal", FA(lambda k: z3.Implies(And_(z3.ULT(k, z3.ZeroExt(32, n)), z3.ULT(k, z3.ZeroExt(32, r))), at(z3.Extract(31, 0, k)) != s)))
    return post
def And_(*a): return z3.And(*a)

@contract("specifiers_remove", props=P15, cost=60, opts={"loop_to": 5})
def _(cx):
    p, n, at = specs(cx, True); s = cx.i("to_remove")
    if is_null(p): cx.panics_if(T); return lambda px: px.ensure("not reached", F)
    if not cx.verify: return lambda px: None
    cx.assigns(p, CAP * 4); cx.assigns(p.plus(U["Num"]), 4)
    pos = sym._uf("kept_before", 64, 64)       # how many of the first k specifiers are kept
    x32 = lambda k: z3.Extract(31, 0, k)
    new = lambda st, k: rd4(st, p, k * 4)
    w = lambda e: z3.ZeroExt(32, e)
    M1 = bv(2**32 - 1, 32)
    cx.st.assume(pos(bv(0)) == 0)
    cx.st.assume(FA(lambda k: z3.Implies(z3.ULT(k, bv(CAP)), pos(k + 1) == pos(k) + z3.If(at(x32(k)) == s, bv(0), bv(1)))))
    def kept(st, lim, N): return FA(lambda k: z3.Implies(z3.And(z3.ULT(k, lim), at(x32(k)) != s), z3.And(z3.ULT(pos(k), N), new(st, pos(k)) == at(x32(k)))))
    cx.template(lambda st: rd4(st, p, bv(U["Num"])) == n, 0); cx.bound(n)
    cx.template(lambda st, e: z3.ULE(e, w(n)))
    cx.template(lambda st, v, x, e: z3.And(w(x) == pos(e), z3.ULE(w(x), e)) if x.size() == 32 else None, "varprog")
    cx.template(lambda st, v, x, e: kept(st, e, w(x)) if x.size() == 32 else None, "varprog")
    cx.template(lambda st, v, x, e: z3.Or(z3.And(x == M1, pos(e) == e), z3.And(z3.ULT(w(x), e), at(x) == s)) if x.size() == 32 else None, "varprog")
    def post(px):
        N = px.cell(p.plus(U["Num"]), 4)
        px.ensure("every other specifier is kept, in order", kept(px.st, w(n), w(N)))
        px.ensure("every occurrence is removed", w(N) == pos(w(n)))
        px.ensure("position held it, or -1", Or(px.ret == M1, And(z3.ULT(px.ret, n), at(px.ret) == s)))
        px.ensure("-1 only when absent", z3.Implies(px.ret == M1, N == n))
    return post

# ------------------------------------------------------------------ nodes addressed by identity (C13, C14)
class Heap: pass
def heap_of(cx):
    """all nodes of a context: node identities are addresses; distinct nodes do not overlap (what C24 establishes for make_code)"""
    h = Heap()
    if cx.verify:
        o = h.o = cx.ex.new_obj(cx.st, "nodes", 128, "heap", content=base_words("nodes"), align=16, family=True)
        o.mkbase = base_words
        live = sym._uf("is_node", 64, 1)
        o.elem = 128
        o.valid = lambda st, i: z3.And(z3.Or([live(i) == bv(1, 1)] + [i == x for x in st.ghost.get("new_nodes", ())]), z3.UGE(i, bv(4096)), z3.ULE(i, bv(1 << 47)))
        o.live = live
        o.cellty = {k: o for k in (0, 8, 16, 24, 32, 40, 48, 80, 88, 104)}
        o.cellfn = lambda q: None if is_const(q.off) else o
        cx.st.assume(live(bv(0)) != bv(1, 1))
        cx.st.ghost["nodes"] = o
    else: h.o = cx.st.ghost["nodes"]
    o = h.o
    h.word = lambda st, i, k, n=8: mem.bits(mem.read(st.mem[o], i, bv(U[k] if isinstance(k, str) else k), n))
    h.num = lambda st, i: h.word(st, i, "Num", 4)
    h.valid = lambda st, i: o.valid(st, i)
    return h
def code(cx, h, name, valid=True):
    """a Code argument: null or a node"""
    i = cx.nxt()
    if cx.verify:
        x = z3.BitVec(name, 64); cx.inputs.append((name, x))
        if valid: cx.st.assume(h.valid(cx.st, x))
        else: cx.st.assume(z3.Or(x == 0, h.valid(cx.st, x)))
        cx.args[i] = Ptr(h.o, 0, x); return x
    p = cx.args[i]
    p = cx.fix_ptr(i) if not isinstance(p, z3.ExprRef) else p
    if isinstance(p, Ptr) and p.obj is h.o and is_const(p.off) and cval(p.off) == 0: x = p.idx
    else: x = mem.bits(p)
    cx.require(name + " is a node", h.valid(cx.st, x) if valid else z3.Or(x == 0, h.valid(cx.st, x)))
    return x

@contract("make_code", props=[], callable=True)
def _(cx):
    """at calls: what make_code:pool (C24) establishes"""
    h = heap_of(cx)
    x = fresh("new_node", 64)
    cx.st.assume(z3.And(z3.UGE(x, bv(4096)), z3.ULE(x, bv(1 << 47)), z3.Not(h.valid(cx.st, x)), (x & bv(15)) == 0))
    cx.st.ghost["new_nodes"] = tuple(cx.st.ghost.get("new_nodes", ())) + (x,)
    cx.st.mem[h.o] = c_fill(cx.st.mem[h.o], x, bv(0), bv(128), bv(0, 8))
    def post(px): px.ret = Ptr(h.o, 0, x)
    return post

P13 = ["C13"]
class List: pass
def sequence(cx, h, s, name="entry"):
    """the children of node s: a ghost sequence of distinct nodes linked through Next and Prev"""
    L = List(); st0 = cx.st.clone(); L.n32 = h.num(st0, s); L.n = z3.ZeroExt(32, L.n32)
    L.seq, L.pos = sym._uf(name + "_at", 64, 64), sym._uf(name + "_position", 64, 64)
    cx.st.assume(L.n32 >= 0); cx.st.assume(L.n32 < bv(2**31 - 1, 32))
    for nm, f in linked(h, st0, s, L.n, L.seq, L.pos):
        cx.st.assume(f)
        if isinstance(f, FA): cx.st.assume(f.fn(L.n - 1))        # an instance
    return L
def linked(h, st, s, n, seq, pos):
    W = lambda i, k: h.word(st, i, k)
    return [("empty", z3.Implies(n == 0, z3.And(W(s, "Front") == 0, W(s, "Back") == 0))),
            ("first", z3.Implies(n != 0, W(s, "Front") == seq(bv(0)))), ("last", z3.Implies(n != 0, W(s, "Back") == seq(n - 1))),
            ("children are nodes", FA(lambda i: z3.Implies(z3.ULT(i, n), z3.And(h.valid(st, seq(i)), seq(i) != s, seq(i) != 0)))),
            ("children are distinct", FA(lambda i: z3.Implies(z3.ULT(i, n), pos(seq(i)) == i))),
            ("parent of the children", FA(lambda i: z3.Implies(z3.ULT(i, n), W(seq(i), "Parent") == s))),
            ("next", FA(lambda i: z3.Implies(z3.ULT(i, n), W(seq(i), "Next") == z3.If(i + 1 == n, bv(0), seq(i + 1))))),
            ("previous", FA(lambda i: z3.Implies(z3.ULT(i, n), W(seq(i), "Prev") == z3.If(i == 0, bv(0), seq(i - 1)))))]
WORDS = (0, 8, 16, 24, 32, 40, 48, 56, 64, 72, 96, 112)
@contract("code_append", props=P13, cost=40)
def _(cx):
    h = heap_of(cx); s, o = code(cx, h, "self", valid=False), code(cx, h, "other", valid=False)
    if not cx.verify: raise Unsupported("code_append at a call")
    cx.panics_if(z3.Or(s == 0, o == 0, s == o))
    L = sequence(cx, h, s); st0 = cx.st.clone()
    lone = h.word(st0, o, "Parent") == 0
    k = cx.choose(4); cx.st.assume(lone if k & 1 else z3.Not(lone)); cx.st.assume(L.n == 0 if k & 2 else L.n != 0)
    cx.require("a node without parent is in no list", z3.Implies(lone, z3.And(h.word(st0, o, "Next") == 0, h.word(st0, o, "Prev") == 0)))
    last = L.seq(L.n - 1); cx.hint(L.n - 1, L.n, s, o)
    N = Ptr(h.o, 0, s); O = Ptr(h.o, 0, o)
    for k, n in (("Front", 8), ("Back", 8), ("Num", 4)): cx.assigns(N.plus(U[k]), n)
    cx.assigns(Ptr(h.o, U["Next"], last), 8)
    for k in ("Parent", "Prev", "Next"): cx.assigns(O.plus(U[k]), 8)
    def post(px):
        st = px.st; b = h.word(st, s, "Back")
        fresh_ = px.st.ghost.get("new_nodes", ())
        px.ensure("the appended node: itself, or its copy when it already had a parent", z3.If(lone, b == o, z3.Or([b == x for x in fresh_] + [z3.BoolVal(False)])))
        px.ensure("kind, name and parts of the appended node", And(*[h.word(st, b, w) == h.word(st0, o, w) for w in WORDS]))
        px.ensure("count", h.num(st, s) == L.n32 + 1)
        seq2 = lambda i: z3.If(i == L.n, b, L.seq(i)); pos2 = lambda x: z3.If(x == b, L.n, L.pos(x))
        for nm, f in linked(h, st, s, L.n + 1, seq2, pos2): px.ensure("list: " + nm, f)
        px.ensure("other nodes untouched", FA(lambda y: z3.Implies(z3.And(h.valid(st0, y), y != s, z3.Implies(lone, y != o)), z3.And([h.word(st, y, w) == h.word(st0, y, w) for w in (0, 24, 40, 64, 80, 104, 112, 120)] + [z3.Implies(z3.Or(L.n == 0, y != last), h.word(st, y, "Next") == h.word(st0, y, "Next"))]))))
    return post

def rbits(px): return mem.bits(px.ret)
def simple(nm, props, f, other=False):
    """a query on a list: no write at all, result f"""
    @contract(nm, props=props)
    def _(cx):
        h = heap_of(cx); s = code(cx, h, "self", valid=False)
        if not cx.verify: raise Unsupported(nm + " at a call")
        L = None
        if other:
            e = code(cx, h, "entry", valid=False); cx.panics_if(z3.Or(s == 0, e == 0))
        else: e = None; cx.panics_if(s == 0)
        L = sequence(cx, h, s); st0 = cx.st.clone()
        def post(px): px.ensure("result", rbits(px) == f(h, st0, s, L, e))
        return post
simple("begin_CodeBody", P13, lambda h, st, s, L, e: z3.If(L.n == 0, bv(0), L.seq(bv(0))))
simple("end_CodeBody", P13, lambda h, st, s, L, e: bv(0))
simple("next_CodeBody", P13, lambda h, st, s, L, e: h.word(st, e, "Next"), other=True)
@contract("code_entry", props=P13)
def _(cx):
    h = heap_of(cx); s = code(cx, h, "self", valid=False); i = cx.i("idx")
    if not cx.verify: raise Unsupported("code_entry at a call")
    cx.panics_if(s == 0)
    L = sequence(cx, h, s); st0 = cx.st.clone(); W = z3.ZeroExt(32, i)
    cx.require("an existing child", z3.ULT(W, L.n))
    for nm, f in linked(h, st0, s, L.n, L.seq, L.pos):
        if isinstance(f, FA): cx.st.assume(f.fn(W)); cx.st.assume(f.fn(W - 1))       # instances
    cx.template(lambda st, e: z3.ULE(e, W))
    cx.template(lambda st, v, x, e: (x == z3.If(e == 0, s, L.seq(e - 1))) if x.size() == 64 else None, "varprog")
    cx.template(lambda st, v, x, e: (x == z3.If(e == 0, bv(U["Front"]), bv(U["Next"]))) if x.size() == 64 else None, "varprog")
    def post(px):
        p = px.ptr_ret()
        px.ensure("inside a node", T if isinstance(p, Ptr) and p.obj is h.o else F)
        px.ensure("a list reference of that node", p.off == z3.If(W == 0, bv(U["Front"]), bv(U["Next"])))
        px.ensure("refers to the child at the index", z3.If(W == 0, h.word(px.st, p.idx, "Front"), h.word(px.st, p.idx, "Next")) == L.seq(W))
    return post

# ------------------------------------------------------------------ C14: parameter lists; the head is the first parameter
P14 = ["C14"]
def plinked(h, st, s, m, seq, pos):
    """the parameters behind the head s: seq(0..m-1)"""
    W = lambda i, k: h.word(st, i, k)
    return [("alone", z3.Implies(m == 0, z3.And(W(s, "Next") == 0, W(s, "Last") == 0))),
            ("second", z3.Implies(m != 0, W(s, "Next") == seq(bv(0)))), ("last", z3.Implies(m != 0, W(s, "Last") == seq(m - 1))),
            ("parameters are nodes", FA(lambda i: z3.Implies(z3.ULT(i, m), z3.And(h.valid(st, seq(i)), seq(i) != s, seq(i) != 0)))),
            ("parameters are distinct", FA(lambda i: z3.Implies(z3.ULT(i, m), pos(seq(i)) == i))),
            ("parent", FA(lambda i: z3.Implies(z3.ULT(i, m), W(seq(i), "Parent") == s))),
            ("next", FA(lambda i: z3.Implies(z3.ULT(i, m), W(seq(i), "Next") == z3.If(i + 1 == m, bv(0), seq(i + 1)))))]
def plist(cx, h, s, at=()):
    L = List(); st0 = cx.st.clone(); L.n32 = h.num(st0, s); L.m = z3.ZeroExt(32, L.n32 - 1)
    L.seq, L.pos = sym._uf("param_at", 64, 64), sym._uf("param_position", 64, 64)
    cx.require("number of parameters", z3.And(L.n32 >= 1, L.n32 < bv(2**31 - 1, 32)))
    for nm, f in plinked(h, st0, s, L.m, L.seq, L.pos):
        cx.require("list: " + nm, f)
        if cx.verify and isinstance(f, FA):
            for i in (L.m - 1,) + tuple(at): cx.st.assume(f.fn(i))      # instances
    return L
def params_append(fn):
    @contract(fn, props=P14, cost=40, callable=False)
    def _(cx):
        h = heap_of(cx); s, o = code(cx, h, "appendee", valid=False), code(cx, h, "other", valid=False)
        if not cx.verify: raise Unsupported(fn + " at a call")
        cx.panics_if(z3.Or(s == 0, o == 0, s == o))
        L = plist(cx, h, s); st0 = cx.st.clone()
        lone = h.word(st0, o, "Parent") == 0
        k = cx.choose(4); cx.st.assume(lone if k & 1 else z3.Not(lone)); cx.st.assume(L.m == 0 if k & 2 else L.m != 0)
        cx.require("a single parameter", z3.Implies(lone, z3.And(h.word(st0, o, "Next") == 0, h.word(st0, o, "Last") == 0)))
        last = L.seq(L.m - 1); cx.hint(L.m - 1, L.m, s, o)
        N, O = Ptr(h.o, 0, s), Ptr(h.o, 0, o)
        for k, n in (("Last", 8), ("Next", 8), ("Num", 4)): cx.assigns(N.plus(U[k]), n)
        cx.assigns(Ptr(h.o, U["Next"], last), 8); cx.assigns(O.plus(U["Parent"]), 8)
        def post(px):
            st = px.st; b = h.word(st, s, "Last")
            fresh_ = px.st.ghost.get("new_nodes", ())
            px.ensure("the appended node: itself, or its copy when it already belongs to a list", z3.If(lone, b == o, z3.Or([b == x for x in fresh_] + [z3.BoolVal(False)])))
            px.ensure("kind, name and parts of the appended parameter", And(*[h.word(st, b, w) == h.word(st0, o, w) for w in WORDS]))
            px.ensure("count", h.num(st, s) == L.n32 + 1)
            seq2 = lambda i: z3.If(i == L.m, b, L.seq(i)); pos2 = lambda x: z3.If(x == b, L.m, L.pos(x))
            for nm, f in plinked(h, st, s, L.m + 1, seq2, pos2): px.ensure("list: " + nm, f)
            px.ensure("other nodes untouched", FA(lambda y: z3.Implies(z3.And(h.valid(st0, y), y != s, z3.Implies(lone, y != o)), z3.And([h.word(st, y, w) == h.word(st0, y, w) for w in (0, 24, 40, 64, 80, 104, 112, 120)] + [z3.Implies(z3.Or(L.m == 0, y != last), h.word(st, y, "Next") == h.word(st0, y, "Next"))]))))
        return post
params_append("params_append"); params_append("define_params_append")

def params_get(fn):
    @contract(fn, props=P14, opts={"loop_to": 3}, cost=60)
    def _(cx):
        h = heap_of(cx); s = code(cx, h, "self", valid=False); i = cx.i("idx")
        cx.panics_if(s == 0)
        W = z3.SignExt(32, i)
        if not cx.verify:
            L = plist(cx, h, s); M = L.m
            def post(px): px.ret = Ptr(h.o, 0, z3.If(i < 0, bv(0), z3.If(i == 0, s, z3.If(z3.ULE(W, M), L.seq(W - 1), bv(0)))))
            return post
        L = plist(cx, h, s, (W, W - 1, W - 2)); M = L.m
        at = lambda e: z3.If(e == 0, s, z3.If(z3.ULE(e, M), L.seq(e - 1), bv(0)))
        cx.template(lambda st, v, x, e: z3.And(x == at(e), z3.ULE(e, W), z3.ULE(e, M + 1)) if v.kind == "idx" else None, "varprog")
        def post(px):
            px.ensure("the member at the position, absent otherwise", rbits(px) == z3.If(i < 0, bv(0), z3.If(i == 0, s, z3.If(z3.ULE(W, M), L.seq(W - 1), bv(0)))))
        return post
params_get("params_get"); params_get("define_params_get")
def psimple(nm, f, other=False):
    @contract(nm, props=P14, callable=False)
    def _(cx):
        h = heap_of(cx); s = code(cx, h, "self", valid=False)
        if not cx.verify: raise Unsupported(nm + " at a call")
        e = code(cx, h, "entry", valid=False) if other else None
        if nm.endswith("has_entries") or other: cx.panics_if(z3.Or(s == 0, e == 0) if other else s == 0)
        st0 = cx.st.clone()
        def post(px): px.ensure("result", f(h, st0, s, e, px))
        return post
for pre in ("", "Define"):
    psimple("begin_Code%sParams" % pre, lambda h, st, s, e, px: rbits(px) == s)
    psimple("end_Code%sParams" % pre, lambda h, st, s, e, px: rbits(px) == 0)
    psimple("next_Code%sParams" % pre, lambda h, st, s, e, px: rbits(px) == h.word(st, e, "Next"), other=True)
psimple("params_has_entries", lambda h, st, s, e, px: px.bool() == (h.num(st, s) > 0))
psimple("define_params_has_entries", lambda h, st, s, e, px: px.bool() == (h.num(st, s) > 0))
