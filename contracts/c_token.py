"""C11: template expansion.  The variadic arguments are the caller's slots (Win64: one 8-byte slot each, views by reference): the
name and value of every token, then the template."""
from spec import *
from lib import *
from c_intern import override, raw_view
from c_ctx import put
P = ["C11"]
EQ = z3.Function("names_the_token", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64), z3.BoolSort())
def token_fmt(pairs):
    @contract("token_fmt_va/%d" % pairs, fn="token_fmt_va", props=P, callable=False, cost=150, opts=dict(no_frames=True))
    def _(cx):
        buf = cx.ptr("buf"); size = cx.i("buf_size"); i = cx.nxt(); cx.args[i] = bv(pairs + 1, 32)
        cx.require("buffer", And(size >= 0, z3.ULT(size, bv(1 << 40)), cx.readable(buf, size)))
        slots = cx.obj("arguments", 8 * (2 * pairs + 1), "stack", align=8); i = cx.nxt(); cx.args[i] = Ptr(slots)
        def text(nm):
            o = cx.obj(nm, None, align=1); n = z3.BitVec(nm + "_len", 64); cx.inputs.append((nm + "_len", n)); return o, n
        def term(o, n):
            p = Ptr(o); cx.st.assume(And(z3.ULT(n, o.size), z3.ULT(n, bv(1 << 40)), cx.byte(p, n) == 0, FA(lambda k: z3.Implies(z3.ULT(k, n), cx.byte(p, k) != 0))))
            cx.st.ghost[("clen", o.id, p.off.get_id())] = (cx.st.mem[o], n, p.off)
        for j in range(pairs):
            o, n = text("token%d" % j); term(o, n); put(cx, slots, 16 * j, Ptr(o))
            o, n = text("value%d" % j); cx.st.assume(z3.ULE(n, o.size)); v = cx.obj("value%d_view" % j, 16, "stack"); put(cx, v, 0, Ptr(o)); put(cx, v, 8, n); put(cx, slots, 16 * j + 8, Ptr(v))
        fo, n = text("template"); term(fo, n); put(cx, slots, 16 * pairs, Ptr(fo)); f = Ptr(fo)
        def eq(c):
            a, b = raw_view(c), raw_view(c)
            def post(px):
                r = px.ret; px.st.assume(z3.Or(r == 0, r == 1)); px.st.assume((r != 0) == EQ(a[0], a[1], b[0], b[1]))
            return post
        override(cx, "str_are_equal", eq)
        st0 = cx.st.clone(); want = z3.If(z3.ULT(n, size), n, size); cx.assigns(buf, size)
        cx.bound(n); cx.bound(size)
        cx.template(lambda st, e: z3.ULE(e, n))
        cx.template(lambda st, v, x, u, y: y == z3.If(x == n, bv(0, 8), cx.byte(f, x)) if v.kind == "ptr" and v.obj is fo and u.kind == "int" and u.n == 8 else None, "varvar")
        cx.template(lambda st, v, x, u, y: x + y == size if v.kind == "ptr" and v.obj is buf.obj and u.kind == "int" and u.n == 64 else None, "varvar")
        if pairs == 0:
            cx.template(lambda st, e: FA(lambda k: z3.Implies(z3.ULT(k, e), rd(cx, st, buf, k) == rd(cx, st0, f, k))))
            cx.template(lambda st, v, x, u, y: x == y if v.kind == "ptr" and u.kind == "ptr" and v.obj is not u.obj else None, "varvar")
        def post(px):
            px.ensure("as much as fits", And(px.ret >= 0, px.ret <= size))
            if pairs == 0:
                px.ensure("without tokens the template is copied, cut at the end of the buffer", px.ret == want)
                px.ensure("unchanged", FA(lambda k: z3.Implies(z3.ULT(k, want), px.byte(buf, k) == rd(cx, st0, f, k))))
        return post
token_fmt(0)
