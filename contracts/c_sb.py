"""C02: string builders over the abstract allocator protocol."""
from spec import *
from lib import *
from alloc import *
P = ["C02"]
HDR = 32

class SB: pass
def builder(cx, name, al=None):
    """a well-formed builder: header (allocator, capacity, length) directly before the bytes, terminator after them"""
    al = al or install_alloc(cx, name + "_al")
    b = cx.obj(name, None, align=16); b.owner = al[0].obj
    cap, ln = z3.BitVec(name + "_capacity", 64), z3.BitVec(name + "_length", 64)
    cx.inputs += [(name + "_capacity", cap), (name + "_length", ln), (name, b)]
    c = cx.st.mem[b]
    for off, v in ((0, al[0]), (8, al[1]), (16, cap), (24, ln)): c = c_write(c, None, bv(off), 8, v)
    cx.st.mem[b] = c
    cx.st.assume(And(ln >= 0, ln <= cap, z3.ULT(cap, bv(1 << 30)), b.size >= cap + (HDR + 1)))
    s = SB(); s.obj, s.cap, s.len, s.al, s.ptr = b, cap, ln, al, Ptr(b, HDR)
    cx.require(name + " terminated", cx.byte(s.ptr, ln) == 0)
    s.at = lambda k: cx.byte(s.ptr, k)
    return s
def sb(cx, name, al=None):
    """StrBuilder by value"""
    i = cx.nxt(); s = builder(cx, name, al); cx.args[i] = s.ptr; return s
def sbp(cx, name, al=None):
    """StrBuilder*"""
    i = cx.nxt(); s = builder(cx, name, al)
    v = cx.obj(name + "_var", 8); cx.st.mem[v] = c_write(cx.st.mem[v], None, bv(0), 8, s.ptr)
    cx.args[i] = s.var = Ptr(v); return s

def wf(px, p, al, why=""):
    """p is a well-formed builder owned by allocator al; returns (length, capacity)"""
    if not isinstance(p, Ptr) or p.obj not in px.st.mem or p.obj.kind in ("null", "raw"):
        px.ensure("builder" + why, F); return None, None
    o = p.obj
    px.ensure("data follows the header" + why, And(p.off == bv(HDR), px.ex.valid(px.st, p, 1)))
    h = lambda k: Ptr(o, add(p.off, bv(k - HDR)))
    px.ensure("allocator kept" + why, And(px.cell(h(0)) == bits(al[0]), px.cell(h(8)) == bits(al[1])))
    cap, ln = px.cell(h(16)), px.cell(h(24))
    px.ensure("length within capacity" + why, And(ln >= 0, ln <= cap))
    px.ensure("capacity within the allocation" + why, And(cap >= 0, cap < bv(1 << 44), z3.ULE(cap + (HDR + 1), o.size)))
    px.ensure("terminated" + why, px.byte(p, ln) == 0)
    return ln, cap
def content(px, p, ln, n, f, why="content"):
    px.ensure(why + ": length", ln == n)
    px.ensure(why, FA(lambda k: z3.Implies(z3.ULT(k, n), px.byte(p, k) == f(k))))
def sb_ret(px):
    """builder returned in a register"""
    v = px.ret
    return px.pick(v if is_ptr(v) else from_bits(v))
def small(n): return z3.ULT(n, bv(1 << 30))

def make(nm):
    @contract(nm, props=P, callable=False)
    def _(cx):
        al = alloc_param(cx)
        if nm == "strbuilder_make_length":
            p = cx.ptr("str", nullable=True); n = cx.i("length")
            cx.require("range", And(n >= 0, small(n)))
            if not is_null(p): cx.require("readable", cx.readable(p, n))
        elif nm == "strbuilder_make_str":
            p, n = cx.strp("str", nullable=True); cx.require("range", small(n))
        else:
            p, n = cx.cstr("str", nullable=True); cx.require("range", small(n))
        src = cx.st.mem.get(p.obj)
        def post(px):
            r = sb_ret(px)
            if is_null(r): return      # allocation failed
            ln, cap = wf(px, r, al)
            if ln is None: return
            px.ensure("capacity", cap == n)
            content(px, r, ln, n, (lambda k: bv(0, 8)) if is_null(p) else (lambda k: rdc(src, p, k)))
        return post
for n_ in ("strbuilder_make_length", "strbuilder_make_str", "strbuilder_make_c_str"): make(n_)

@contract("strbuilder_make_reserve", props=P, callable=False)
def _(cx):
    al = alloc_param(cx); n = cx.i("capacity"); cx.require("range", And(n >= 0, small(n)))
    def post(px):
        r = sb_ret(px)
        if is_null(r): return
        ln, cap = wf(px, r, al)
        if ln is None: return
        px.ensure("empty with the requested capacity", And(ln == 0, cap == n))
    return post

@contract("strbuilder_make_space_for", props=P, callable=False)
def _(cx):
    s = sbp(cx, "str"); cx.nxt(); cx.args[1] = NULL; n = cx.i("add_len")
    cx.require("range", And(n >= 0, small(n)))
    cx.assigns(s.var, 8)
    def post(px):
        r = px.cell_ptr(s.var)
        if z3.is_false(z3.simplify(px.bool())) if z3.is_expr(px.bool()) else False:
            px.ensure("failure leaves the builder alone", T if same_ptr(r, s.ptr) else F); return
        ok = px.bool()
        if r.obj is not s.obj or True:
            ln, cap = wf_len(px, r, s.al)
            if ln is None: return
            content(px, r, ln, s.len, s.at)
            px.ensure("terminator kept", px.byte(r, s.len) == 0)
            px.ensure("room", z3.Implies(ok, cap - ln >= n))
            px.ensure("only failure leaves it short", z3.Or(ok, r.obj.addr == s.obj.addr))
    return post
def wf_len(px, r, al): return wf(px, r, al)

def append(nm):
    @contract(nm, props=P, callable=False)
    def _(cx):
        s = sbp(cx, "str")
        if nm == "strbuilder_append_c_str_len":
            p = cx.ptr("text", nullable=True); n = cx.i("append_length"); cx.require("range", And(n >= 0, small(n)))
            if not is_null(p): cx.require("readable", cx.readable(p, n))
            at = (lambda k: cx.byte(p, k)) if not is_null(p) else None
            isnull = is_null(p)
        elif nm == "strbuilder_append_str":
            p, n = cx.strp("text", nullable=True); cx.require("range", small(n)); isnull = is_null(p); at = lambda k: cx.byte(p, k)
        elif nm == "strbuilder_append_c_str":
            p, n = cx.cstr("text", nullable=True); cx.require("range", small(n)); isnull = is_null(p); at = lambda k: cx.byte(p, k)
        elif nm == "strbuilder_append_string":
            o = sb(cx, "other", s.al); cx.require("range", small(o.len)); n, isnull, at = o.len, False, o.at
        else:
            c = cx.i("c"); c = z3.Extract(7, 0, c) if c.size() > 8 else c
            n, isnull, at = bv(1), False, (lambda k: c)
        cx.assigns(s.var, 8); cx.assigns(Ptr(s.obj), s.obj.size)
        pre = cx.st.clone()
        def post(px):
            r = px.cell_ptr(s.var)
            ok = px.bool()
            ln, cap = wf(px, r, s.al)
            if ln is None: return
            if isnull:
                px.ensure("null text appends nothing", And(z3.Not(ok), r.obj.addr == s.obj.addr)); content(px, r, ln, s.len, s.at); return
            px.ensure("length", ln == z3.If(ok, s.len + n, s.len))
            px.ensure("earlier content kept", FA(lambda k: z3.Implies(z3.ULT(k, s.len), px.byte(r, k) == s.at(k))))
            px.ensure("appended", Imp(ok, FA(lambda k: z3.Implies(z3.ULT(k, n), px.byte(r, s.len + k) == at(k)))))
        return post
for n_ in ("c_str_len", "str", "c_str", "string", "char"): append("strbuilder_append_" + n_)

def query(nm, f, extra=None):
    @contract(nm, props=P, callable=False)
    def _(cx):
        s = sb(cx, "str")
        return lambda px: f(px, s)
query("strbuilder_length", lambda px, s: px.ensure("length", px.ret == s.len))
query("strbuilder_capacity", lambda px, s: px.ensure("capacity", px.ret == s.cap))
query("strbuilder_avail_space", lambda px, s: px.ensure("free space", px.ret == s.cap - s.len))
query("strbuilder_back", lambda px, s: px.ensure("last byte", ptr_eq(px, px.ptr_ret(), s.ptr.plus(s.len - 1))))
query("strbuilder_get_header", lambda px, s: px.ensure("header", ptr_eq(px, px.ptr_ret(), Ptr(s.obj, 0))))

@contract("strbuilder_to_str", props=P, callable=False)
def _(cx):
    cx.sret(16); s = sb(cx, "str")
    def post(px):
        v = px.str_ret(); px.ensure("views the content", And(ptr_eq(px, v.ptr, s.ptr), v.len == s.len))
    return post

@contract("strbuilder_clear", props=P, callable=False)
def _(cx):
    s = sb(cx, "str"); cx.assigns(Ptr(s.obj), s.obj.size)
    def post(px):
        ln, cap = wf(px, s.ptr, s.al)
        px.ensure("empty, capacity kept", And(ln == 0, cap == s.cap))
    return post

@contract("strbuilder_duplicate", props=P, callable=False)
def _(cx):
    s = sb(cx, "str"); al = alloc_param(cx, "other")
    def post(px):
        r = sb_ret(px)
        if is_null(r): return
        ln, cap = wf(px, r, al)
        if ln is None: return
        content(px, r, ln, s.len, s.at); px.ensure("own storage", F if r.obj is s.obj else T)
    return post

@contract("strbuilder_free", props=P, callable=False)
def _(cx):
    s = sbp(cx, "str"); cx.assigns(s.var, 8)
    return lambda px: px.ensure("storage released", T if s.obj in px.st.freed else F)

def equal(nm, str_rhs):
    @contract(nm, props=P, callable=False)
    def _(cx):
        s = sb(cx, "lhs")
        if str_rhs: p, n = cx.strp("rhs"); at = lambda k: cx.byte(p, k)
        else: o = sb(cx, "rhs"); n, at = o.len, o.at
        cx.template(lambda st, e: And(z3.ULE(e, n), FA(lambda k: z3.Implies(z3.ULT(k, e), s.at(k) == at(k)))))
        return lambda px: px.ensure("equal length and bytes", Iff(px.bool(), And(s.len == n, FA(lambda k: z3.Implies(z3.ULT(k, n), s.at(k) == at(k))))))
equal("strbuilder_are_equal_string", False); equal("strbuilder_are_equal_str", True)

def nonul(at, n): return FA(lambda k: z3.Implies(z3.ULT(k, n), at(k) != 0))
def starts(nm, str_rhs):
    @contract(nm, props=P, callable=False)
    def _(cx):
        s = sb(cx, "str")
        if str_rhs: p, n = cx.strp("sub"); at = lambda k: cx.byte(p, k)
        else: o = sb(cx, "sub"); n, at = o.len, o.at
        cx.require("no embedded NUL", nonul(at, n))
        return lambda px: px.ensure("prefix", Iff(px.bool(), And(n <= s.len, FA(lambda k: z3.Implies(z3.ULT(k, n), s.at(k) == at(k))))))
starts("strbuilder_starts_with_str", True); starts("strbuilder_starts_with_string", False)
def contains(nm, str_rhs):
    @contract(nm, props=P, callable=False)
    def _(cx):
        s = sb(cx, "str")
        if str_rhs: p, n = cx.strp("sub"); at = lambda k: cx.byte(p, k)
        else: o = sb(cx, "sub"); n, at = o.len, o.at
        cx.require("no embedded NUL", nonul(at, n))
        occurs = lambda i: And(i <= s.len - n, i >= 0, FA(lambda k: z3.Implies(z3.ULT(k, n), s.at(i + k) == at(k))))
        cx.template(lambda st, e: And(z3.Or(e == 0, e <= s.len - n + 1), FA(lambda i: Imp(z3.ULT(i, e), EX(lambda k: And(z3.ULT(k, n), s.at(i + k) != at(k)))))))
        def post(px):
            px.ensure("absent", Imp(z3.Not(px.bool()), Or(n > s.len, FA(lambda i: Imp(And(i >= 0, i <= s.len - n), EX(lambda k: And(z3.ULT(k, n), s.at(i + k) != at(k))))))))
            px.ensure("present", Imp(px.bool(), And(n <= s.len, EX(occurs))))
        return post
# contains: bounded (native driver)

def trim(nm):
    @contract(nm, props=P, callable=False)
    def _(cx):
        s = sb(cx, "str"); cx.assigns(Ptr(s.obj), s.obj.size)
        if nm == "strbuilder_trim":
            p, n = cx.cstr("cut_set")
            incut = lambda c: Or(c == 0, EX(lambda k: And(z3.ULT(k, n), cx.byte(p, k) == c)))
            ncut = lambda c: And(c != 0, FA(lambda k: z3.Implies(z3.ULT(k, n), cx.byte(p, k) != c)))
        else:
            incut = lambda c: z3.Or(c == 0, is_space(c)); ncut = lambda c: z3.Not(incut(c))
        # a: first byte that stays (length if none), b: last one; both exist for every content
        a, b = cx.ghost("first_kept"), cx.ghost("last_kept")
        cx.require("first kept", And(z3.ULE(a, s.len), FA(lambda k: Imp(z3.ULT(k, a), incut(s.at(k)))), Or(a == s.len, ncut(s.at(a)))))
        cx.require("last kept", Or(a == s.len, And(z3.ULE(a, b), z3.ULT(b, s.len), ncut(s.at(b)), FA(lambda k: Imp(And(z3.ULT(b, k), z3.ULT(k, s.len)), incut(s.at(k)))))))
        cx.template(lambda st, e: z3.ULE(e, a))
        cx.template(lambda st, e: z3.Or(a == s.len, And(e >= b)))
        cx.template(lambda st, e: z3.Or(a != s.len, e == s.len - 1))
        def post(px):
            ln, cap = wf(px, s.ptr, s.al)
            px.ensure("capacity kept", cap == s.cap)
            n = z3.If(a == s.len, bv(0), b - a + 1)
            content(px, s.ptr, ln, n, lambda k: s.at(a + k))
        return post
# trim: bounded (native driver)

