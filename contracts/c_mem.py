"""C07: raw memory helpers."""
from spec import *
from lib import *
P = ["C07"]

@contract("is_power_of_two", props=P, callable=False)
def _(cx):
    x = cx.i("x")
    return lambda px: px.ensure("power of two", px.bool() == z3.Or([x == bv(1 << i) for i in range(63)]))

@contract("align_forward", props=P, callable=False)
def _(cx):
    p = cx.i("ptr"); a = cx.i("alignment")
    pow2 = z3.Or([a == bv(1 << i) for i in range(63)])
    cx.require("no wrap", z3.And(z3.ULT(p, bv(1 << 62))))
    cx.panics_if(z3.Not(pow2))
    def post(px):
        r = mem.bits(px.ret)
        px.ensure("power of two", pow2)
        for i in range(63):
            px.ensure("smallest multiple of 2^%d not below" % i, z3.Implies(a == bv(1 << i), z3.And((r & bv((1 << i) - 1)) == 0, z3.UGE(r, p), z3.ULT(r - p, a))))
    return post

def model_up(ex, st, a, ins):
    """(call) the smallest multiple, for a constant power of two; the definition otherwise"""
    from sym import Outcome
    v, n = bits(a[0]), bits(a[1])
    c = cval(n) if is_const(n) else 0
    if c > 0 and c & (c - 1) == 0:
        ex.obl(st, "pre:align_forward_s64:range", And(v >= 0, v < bv(1 << 61)), ins, "pre")
        if st.dead: return []
        return [Outcome(st, z3.simplify((v + bv(c - 1)) & bv(~(c - 1) & (2**64 - 1))))]
    return [Outcome(st, v + z3.SRem(n - z3.SRem(v, n), n))]
@contract("align_forward_s64", props=P, model=model_up)
def _(cx):
    v = cx.i("value"); a = cx.i("alignment")
    cx.require("range", z3.And(v >= 0, v < bv(1 << 61), a > 0, a < bv(1 << 61), z3.Or([a == bv(1 << i) for i in range(61)])))
    def post(px):
        r = px.ret
        for i in range(61):
            px.ensure("smallest multiple of 2^%d not below" % i, z3.Implies(a == bv(1 << i), z3.And((r & bv((1 << i) - 1)) == 0, r >= v, r - v < a)))
    return post

def padd(nm):
    @contract(nm, props=P, callable=False)
    def _(cx):
        p = cx.ptr("ptr"); n = cx.i("bytes")
        return lambda px: px.ensure("advanced by bytes", ptr_eq(px, px.ptr_ret(), p.plus(n)))
padd("pointer_add"); padd("pointer_add_const")

@contract("pointer_diff", props=P, callable=False)
def _(cx):
    a = cx.ptr("begin")
    i = cx.nxt(); d = z3.BitVec("d", 64)
    if cx.verify: cx.args[i] = a.plus(d)
    return lambda px: px.ensure("distance", px.ret == d)

def copyspec(nm, overlap):
    def case(tag, k):
        @contract(nm + tag, fn=nm, props=P, callable=False, opts={"max_paths": 20000})
        def _(cx):
            n = z3.BitVec("n", 64)
            if k == "null":
                cx.nxt(); cx.args[0] = NULL; s = cx.ptr("src"); n = cx.i("n")
                return lambda px: px.ensure("null destination gives null", T if is_null(px.ptr_ret()) else F)
            if k == "apart":
                d, s = cx.ptr("dest"), cx.ptr("src")
            else:
                o = cx.obj("buf", align=1); cx.inputs.append(("buf", o))
                x, y = z3.BitVec("dest_off", 64), z3.BitVec("src_off", 64)
                cx.inputs += [("dest_off", x), ("src_off", y)]
                cx.nxt(); cx.nxt()
                cx.args[0], cx.args[1] = d, s = Ptr(o, x), Ptr(o, y)
            n = cx.i("n")
            cx.require("ranges", And(n >= 0, cx.readable(d, n), cx.readable(s, n), z3.ULE(d.off, d.obj.size), z3.ULE(s.off, s.obj.size)))
            if k == "apart":
                a, b = d.obj.addr, s.obj.addr
                cx.st.assume(z3.Or(z3.And(z3.ULE(a + n, b), z3.ULT(a, b)), z3.And(z3.ULE(b + n, a), z3.ULT(b, a)), n == 0))
            aligned = z3.URem(mem.bits(d), bv(8)) == z3.URem(mem.bits(s), bv(8))
            if k == "same": cx.require("case", d.off == s.off)
            if "down" in k: cx.require("case", d.off < s.off)
            if "up" in k: cx.require("case", d.off > s.off)
            if "words" in k: cx.require("case", aligned)
            if "bytes" in k: cx.require("case", z3.Not(aligned))
            cx.assigns(d, n)
            oldd, olds = cx.st.mem[d.obj], cx.st.mem[s.obj]
            S = lambda k: rdc(olds, s, k); D = lambda k: rdc(oldd, d, k)
            if "down" in k:    # ascending copy: the first e bytes are done, everything else is as before
                cx.template(lambda st, e: And(z3.ULE(e, n), FA(lambda k: rd(cx, st, d, k) == z3.If(z3.ULT(k, e), S(k), D(k)))))
            if "up" in k:      # descending
                cx.template(lambda st, e: And(z3.ULE(e, n), FA(lambda k: rd(cx, st, d, k) == z3.If(z3.And(z3.ULT(k, n), z3.UGE(k, e)), S(k), D(k)))))
            def post(px):
                px.ensure("returns dest", ptr_eq(px, px.ptr_ret(lambda px: d), d))
                px.ensure("bytes moved", FA(lambda k: z3.Implies(z3.ULT(k, n), px.byte(d, k) == S(k))))
                px.ensure("rest unchanged", FA(lambda k: z3.Implies(z3.Not(z3.ULT(k, n)), px.byte(d, k) == D(k))))
            return post
    cs = ["null", "apart"] + (["same", "down bytes", "up bytes"] if overlap else [])    # overlapping moves with equal alignment (word loops): bounded, native driver
    for k in cs: case("/" + k.replace(" ", "-"), k)
copyspec("mem_copy", False); copyspec("mem_move", True)

# at call sites these are the exact effect the contracts below establish
def model_set(zero):
    def m(ex, st, a, ins):
        from sym import Outcome
        out = []
        for s, d in ex.resolve(st, ex.asptr(a[0])):
            if is_null(d): out.append(Outcome(s, None if zero else NULL)); continue
            n = bits(a[1 if zero else 2])
            ex.obl(s, "pre:%s:range" % ("zero_size" if zero else "mem_set"), n >= 0, ins, "pre")
            for x in ex.memset(s, d, bv(0, 8) if zero else a[1], n, ins): out.append(Outcome(x, None if zero else d))
        return out
    return m
def model_move(ex, st, a, ins):
    from sym import Outcome
    out = []
    for s, d in ex.resolve(st, ex.asptr(a[0])):
        if is_null(d): out.append(Outcome(s, NULL)); continue
        ex.obl(s, "pre:mem_move:range", bits(a[2]) >= 0, ins, "pre")
        out += [Outcome(x, d) for x in ex.memcpy(s, d, ex.asptr(a[1]), bits(a[2]), ins, True)]
    return out
contract("mem_move#call", fn="mem_move", props=[], model=model_move)(None)

def setspec(nm):
    @contract(nm, props=P, model=model_set(nm == "zero_size"))
    def _(cx):
        z = nm == "zero_size"
        if cx.choose(2) == 1:
            cx.nxt(); cx.args[0] = NULL
            if not z: cx.i("byte")
            cx.i("n")
            return (lambda px: None) if z else (lambda px: px.ensure("null destination gives null", T if is_null(px.ptr_ret()) else F))
        d = cx.ptr("dest"); b = bv(0, 8) if z else cx.i("byte"); n = cx.i("n")
        cx.require("range", And(n >= 0, cx.readable(d, n)))
        if not z:      # case split on the destination's alignment
            al = cx.choose(5)
            cx.require("case", n < 25 if al == 4 else And(n >= 25, (d.obj.addr & 3) == al))
        cx.assigns(d, n)
        old = cx.st.mem[d.obj]
        if b.size() > 8: cx.require("byte", z3.ULT(b, bv(256, b.size())))
        b8 = z3.Extract(7, 0, b) if b.size() > 8 else b
        # all bytes before the cursor and from 28 before the end of the remaining part are filled
        cx.template(lambda st, v, x, u, y: And(z3.ULE(x, n), z3.ULE(y, n - x), FA(lambda k: z3.Implies(z3.And(z3.ULT(k, n), z3.Or(z3.ULT(k, x), z3.UGE(k, x + y - 28))), rd(cx, st, d, k) == b8))) if v.kind == "ptr" and u.kind == "int" and u.n == 64 else None, "varvar")
        def post(px):
            if not z: px.ensure("returns dest", ptr_eq(px, px.ptr_ret(), d))
            px.ensure("filled", FA(lambda k: z3.Implies(z3.ULT(k, n), px.byte(d, k) == b8)))
            px.ensure("rest unchanged", FA(lambda k: z3.Implies(z3.Not(z3.ULT(k, n)), px.byte(d, k) == rdc(old, d, k))))
        return post
setspec("mem_set"); setspec("zero_size")

@contract("mem_find", props=P, callable=False)
def _(cx):
    d = cx.ptr("data"); c = cx.i("byte"); n = cx.i("n")
    cx.require("range", And(n >= 0, cx.readable(d, n)))
    B = lambda k: cx.byte(d, k)
    cx.template(lambda st, e: And(z3.ULE(e, n), FA(lambda k: z3.Implies(z3.ULT(k, e), B(k) != c))))
    def post(px):
        r = px.ptr_ret()
        if is_null(r): px.ensure("null only when absent", FA(lambda k: z3.Implies(z3.ULT(k, n), B(k) != c)))
        else:
            k = sub(r.off, d.off)
            px.ensure("first occurrence", And(T if r.obj is d.obj else F, z3.ULT(k, n), B(k) == c, FA(lambda j: z3.Implies(z3.ULT(j, k), B(j) != c))))
    return post
