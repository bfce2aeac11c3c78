"""C03: dynamic arrays (header in front of the elements) over the abstract allocator protocol, at element sizes 1, 8 and 24."""
from spec import *
from lib import *
from alloc import *
P = ["C03"]
HDR = 32
TYPES = {"unsigned char": 1, "long long": 8, "gen::VerifRec": 24}
class AR: pass
def array(cx, name, S, al=None, maxcap=1 << 30):
    al = al or install_alloc(cx, name + "_al")
    b = cx.obj(name, None, align=16); b.owner = al[0].obj
    a = AR(); a.obj, a.al, a.S = b, al, S
    a.cap, a.num = z3.BitVec(name + "_capacity", 64), z3.BitVec(name + "_num", 64)
    cx.inputs += [(name + "_capacity", a.cap), (name + "_num", a.num)]
    c = cx.st.mem[b]
    for off, v in ((0, al[0]), (8, al[1]), (16, a.cap), (24, a.num)): c = c_write(c, None, bv(off), 8, v)
    cx.st.mem[b] = c
    cx.st.assume(And(z3.ULE(a.num, a.cap), z3.ULT(a.cap, bv(maxcap)), z3.UGE(b.size, a.cap * S + HDR)))
    a.ptr = Ptr(b, HDR); a.old = cx.st.mem[b]
    a.at = lambda k: rdc(a.old, a.ptr, k)      # byte k of the elements, before
    return a
def arr(cx, name, S, al=None):
    i = cx.nxt(); a = array(cx, name, S, al); cx.args[i] = a.ptr; return a
def arrp(cx, name, S, al=None):
    i = cx.nxt(); a = array(cx, name, S, al); v = cx.obj(name + "_var", 8)
    cx.st.mem[v] = c_write(cx.st.mem[v], None, bv(0), 8, a.ptr); cx.args[i] = a.var = Ptr(v); cx.assigns(a.var, 8); return a
def elem(cx, name, S):
    """element by value: byte function"""
    i = cx.nxt()
    if S == 24:
        o = cx.obj(name, 24, "stack", align=8); cx.args[i] = Ptr(o); c = cx.st.mem[o]
        return lambda k: rdc(c, Ptr(o), k)
    v = z3.BitVec(name, 8 * S); cx.args[i] = v; cx.inputs.append((name, v))
    w = z3.ZeroExt(64 - 8 * S, v) if S < 8 else v
    return lambda k: z3.Extract(7, 0, z3.LShR(w, k * 8))
def wf(px, r, a):
    if not isinstance(r, Ptr) or is_null(r) or r.obj not in px.st.mem: px.ensure("array", F); return None, None
    h = lambda k: px.cell(Ptr(r.obj, add(r.off, bv(k - HDR))))
    px.ensure("elements follow the header", And(r.off == bv(HDR), T if r.obj not in px.st.freed else F))
    px.ensure("allocator kept", And(h(0) == bits(a.al[0]), h(8) == bits(a.al[1])))
    cap, num = h(16), h(24)
    px.ensure("count within capacity within the allocation", And(z3.ULE(num, cap), z3.ULT(cap, bv(1 << 40)), z3.UGE(r.obj.size, cap * a.S + HDR)))
    if r.obj is not a.obj: px.ensure("old memory released", T if a.obj in px.st.freed and getattr(r.obj, "owner", None) is a.al[0].obj else F)
    return num, cap
def content(px, r, n, f, why="elements"):
    px.ensure(why, FA(lambda k: z3.Implies(z3.ULT(k, n), px.byte(r, k) == f(k))))
def same(px, a, r=None):
    """the array is exactly as before"""
    if r is not None and not (isinstance(r, Ptr) and r.obj is a.obj): px.ensure("array stays where it was", F); return
    px.ensure("header kept", And(px.cell(Ptr(a.obj, 16)) == a.cap, px.cell(Ptr(a.obj, 24)) == a.num, T if a.obj not in px.st.freed else F))
    content(px, a.ptr, a.num * a.S, a.at, "elements kept")
def small(n): return z3.ULT(n, bv(1 << 30))
def tern(c, a, b): return z3.If(c, a, b)

def growing(px, a, ok_post):
    """success/failure of an operation that may need memory"""
    r = px.cell_ptr(a.var)
    ok = z3.simplify(px.bool()) if z3.is_expr(px.bool()) else px.bool()
    if z3.is_false(ok) if z3.is_expr(ok) else not ok: same(px, a, r); return
    if not (z3.is_true(ok) if z3.is_expr(ok) else ok): px.ensure("result decided", F); return
    num, cap = wf(px, r, a)
    if num is not None: ok_post(r, num, cap)

def make(T_, S):
    def C(nm, **o):
        def d(f): contract("%s<%s>" % (nm, T_), fn="%s<%s>" % (nm, T_), props=P, callable=False, deep=S != 8, cost=9 if nm in ("array_fill", "array_append_items_at") else 0, **o)(f)
        return d
    # ---- creation
    for nm in ("array_init_reserve", "array_init"):
        @C(nm)
        def _(cx, nm=nm):
            al = alloc_param(cx); a = AR(); a.al, a.S, a.obj = al, S, None
            if nm == "array_init_reserve":
                n = cx.i("capacity"); cx.require("range", n < bv(1 << 30)); cx.panics_if(n <= 0)
            else: n = bv(8)
            def post(px):
                v = px.ret; r = px.pick(v if is_ptr(v) else from_bits(v))
                if is_null(r): return
                px.ensure("a capacity was asked for", n > 0)
                a.obj = r.obj; num, cap = wf(px, r, a)
                px.ensure("owned by the allocator", T if getattr(r.obj, "owner", None) is al[0].obj else F)
                if num is not None: px.ensure("empty with the requested capacity", And(num == 0, cap == n))
            return post
    # ---- reading
    @C("array_num")
    def _(cx):
        a = arr(cx, "array", S); return lambda px: px.ensure("count", px.ret == a.num)
    @C("array_get_header")
    def _(cx):
        a = arr(cx, "array", S); return lambda px: px.ensure("header", ptr_eq(px, px.ptr_ret(), Ptr(a.obj, 0)))
    @C("array_back")
    def _(cx):
        a = arr(cx, "array", S)
        def post(px):
            r = px.ptr_ret()
            if is_null(r): px.ensure("null only when empty", a.num == 0)
            else: px.ensure("last element", And(a.num != 0, ptr_eq(px, r, a.ptr.plus((a.num - 1) * S))))
        return post
    # ---- shrinking and filling
    @C("array_clear")
    def _(cx):
        a = arr(cx, "array", S); cx.assigns(Ptr(a.obj, 24), 8)
        def post(px):
            px.ensure("empty", px.cell(Ptr(a.obj, 24)) == 0); px.ensure("capacity kept", px.cell(Ptr(a.obj, 16)) == a.cap)
        return post
    @C("array_pop")
    def _(cx):
        a = arr(cx, "array", S); cx.assigns(Ptr(a.obj, 24), 8); cx.panics_if(a.num == 0)
        def post(px):
            px.ensure("one less", And(a.num != 0, px.cell(Ptr(a.obj, 24)) == a.num - 1, px.cell(Ptr(a.obj, 16)) == a.cap)); content(px, a.ptr, (a.num - 1) * S, a.at)
        return post
    @C("array_remove_at")
    def _(cx):
        a = arr(cx, "array", S); i = cx.i("idx"); cx.assigns(Ptr(a.obj, 24), 8); cx.assigns(a.ptr, a.cap * S); cx.panics_if(z3.UGE(i, a.num))
        def post(px):
            px.ensure("one less", And(z3.ULT(i, a.num), px.cell(Ptr(a.obj, 24)) == a.num - 1, px.cell(Ptr(a.obj, 16)) == a.cap))
            content(px, a.ptr, (a.num - 1) * S, lambda k: tern(z3.ULT(k, i * S), a.at(k), a.at(k + S)))
        return post
    def fill():
        @C("array_fill")
        def _(cx):
            a = arr(cx, "array", S); b, e = cx.i("begin"), cx.i("end"); v = elem(cx, "value", S); cx.assigns(a.ptr, a.cap * S); cx.panics_if(z3.UGT(b, e))
            new = lambda k, m: z3.If(z3.And(z3.UGE(k, b * S), z3.ULT(k, m * S)), v(z3.URem(k, bv(S)) if S > 1 else bv(0)), a.at(k))
            cx.template(lambda st, x: z3.And(z3.ULE(b, x), z3.ULE(x, e)))
            cx.template(lambda st, x: FA(lambda k: z3.Implies(z3.ULT(k, a.num * S), rd(cx, st, a.ptr, k) == new(k, x))))
            def post(px):
                r = z3.simplify(px.bool())
                if z3.is_false(r): px.ensure("refused only outside the elements", z3.UGT(e, a.num)); same(px, a); return
                px.ensure("accepted only inside", z3.ULE(e, a.num)); px.ensure("count kept", And(px.cell(Ptr(a.obj, 24)) == a.num, px.cell(Ptr(a.obj, 16)) == a.cap))
                px.ensure("filled, rest kept", FA(lambda k: z3.Implies(z3.ULT(k, a.num * S), px.byte(a.ptr, k) == new(k, e))))
            return post
    if S != 24: fill()
    @C("array_free")
    def _(cx):
        a = arrp(cx, "array", S)
        def post(px):
            px.ensure("memory released", T if a.obj in px.st.freed else F); px.ensure("no longer referred to", T if is_null(px.cell_ptr(a.var)) else F)
        return post
    # ---- growing
    def grows(nm, f, pan=None):
        @C(nm)
        def _(cx):
            a = arrp(cx, "array", S); cx.assigns(Ptr(a.obj, 24), 8); cx.assigns(a.ptr, a.cap * S)
            g = f(cx, a)
            return lambda px: growing(px, a, lambda r, num, cap: g(px, r, num, cap))
    @lambda f: grows("array_append", f)
    def _(cx, a):
        v = elem(cx, "value", S)
        def g(px, r, num, cap):
            px.ensure("one more", num == a.num + 1); content(px, r, a.num * S, a.at, "elements kept")
            px.ensure("value at the end", And(*[px.byte(r, a.num * S + bv(j)) == v(bv(j)) for j in range(S)]))
        return g
    def items(cx, nullable=True):
        p = cx.ptr("items", nullable=nullable, align=8); n = cx.i("item_num"); cx.require("range", z3.ULT(n, bv(1 << 28)))
        if not is_null(p): cx.require("readable", cx.readable(p, n * S))
        cx.panics_if(Or(T if is_null(p) else F, n == 0))
        return p, n
    @lambda f: grows("array_append_items", f)
    def _(cx, a):
        p, n = items(cx); src = cx.st.mem.get(p.obj)
        def g(px, r, num, cap):
            if is_null(p): px.ensure("no items", F); return
            px.ensure("that many more", And(n != 0, num == a.num + n)); content(px, r, a.num * S, a.at, "elements kept")
            px.ensure("items at the end", FA(lambda k: z3.Implies(z3.ULT(k, n * S), px.byte(r, a.num * S + k) == rdc(src, p, k))))
        return g
    @lambda f: grows("array_append_array", f)
    def _(cx, a):
        o = arr(cx, "other", S, a.al); cx.require("range", z3.ULT(o.num, bv(1 << 28))); cx.panics_if(o.num == 0); src = cx.st.mem[o.obj]
        def g(px, r, num, cap):
            px.ensure("that many more", num == a.num + o.num); content(px, r, a.num * S, a.at, "elements kept")
            px.ensure("other elements at the end", FA(lambda k: z3.Implies(z3.ULT(k, o.num * S), px.byte(r, a.num * S + k) == rdc(src, o.ptr, k))))
        return g
    @lambda f: grows("array_append_at", f)
    def _(cx, a):
        v = elem(cx, "item", S); i = cx.i("idx"); cx.require("range", z3.ULT(i, bv(1 << 40)))
        q = z3.If(z3.UGT(i, a.num), a.num, i)
        def g(px, r, num, cap):
            px.ensure("one more", num == a.num + 1)
            px.ensure("elements after moved up", FA(lambda k: z3.Implies(z3.And(z3.UGE(k, q * S), z3.ULT(k, a.num * S)), px.byte(r, k + S) == a.at(k))))
            content(px, r, q * S, a.at, "elements before kept")
            px.ensure("inserted", And(*[px.byte(r, q * S + bv(j)) == v(bv(j)) for j in range(S)]))
        return g
    @lambda f: grows("array_append_items_at", f)
    def _(cx, a):
        p, n = items(cx, False); i = cx.i("idx"); cx.require("range", z3.ULT(i, bv(1 << 40)))
        q = z3.If(z3.UGT(i, a.num), a.num, i)
        src = cx.st.mem.get(p.obj)
        def g(px, r, num, cap):
            if is_null(p): return
            px.ensure("that many more", num == a.num + n)
            px.ensure("elements after moved up", FA(lambda k: z3.Implies(z3.And(z3.UGE(k, q * S), z3.ULT(k, a.num * S)), px.byte(r, k + n * S) == a.at(k))))
            content(px, r, q * S, a.at, "elements before kept")
            px.ensure("inserted", FA(lambda k: z3.Implies(z3.ULT(k, n * S), px.byte(r, q * S + k) == rdc(src, p, k))))
        return g
    def kept(px, r, num, a):
        px.ensure("count kept", num == a.num); content(px, r, a.num * S, a.at, "elements kept")
    @lambda f: grows("array_grow", f)
    def _(cx, a):
        m = cx.i("min_capacity"); cx.require("range", small(m)); cx.panics_if(m == 0)
        def g(px, r, num, cap):
            kept(px, r, num, a); px.ensure("grown", And(z3.UGE(cap, m), z3.UGE(cap, 2 * a.cap + 8)))
        return g
    @lambda f: grows("array_reserve", f)
    def _(cx, a):
        m = cx.i("new_capacity"); cx.require("range", small(m))
        def g(px, r, num, cap):
            kept(px, r, num, a); px.ensure("room", z3.UGE(cap, m))
        return g
    @lambda f: grows("array_resize", f)
    def _(cx, a):
        m = cx.i("num"); cx.require("range", small(m))
        def g(px, r, num, cap):
            px.ensure("count", num == m); content(px, r, z3.If(z3.ULT(m, a.num), m, a.num) * S, a.at, "elements kept")
        return g
    @lambda f: grows("array_set_capacity", f)
    def _(cx, a):
        m = cx.i("new_capacity"); cx.require("range", small(m))
        def g(px, r, num, cap):
            n = z3.If(z3.ULT(m, a.num), m, a.num)
            px.ensure("count", num == n); content(px, r, n * S, a.at, "elements kept")
            px.ensure("capacity", z3.If(z3.ULT(m, a.num), cap == a.cap, cap == m))
        return g
for t_, s_ in TYPES.items(): make(t_, s_)

@contract("array_grow_formula", props=P, callable=False)
def _(cx):
    v = cx.i("value"); return lambda px: px.ensure("doubles", px.ret == 2 * v + 8)
