"""C09: integers and their text.  V(k) is the value after k divisions by the base, n the number of digits; digit k (least significant
first) is V(k) mod base.  Reading is the Horner sum H over the digits up to the first character that is not one."""
import sym
from spec import *
from lib import *
P = ["C09"]
def dig(d):
    """the documented digit characters 0-9 A-Z a-z @ $"""
    d8 = z3.Extract(7, 0, d)
    return z3.If(z3.ULT(d, bv(10)), d8 + bv(48, 8), z3.If(z3.ULT(d, bv(36)), d8 + bv(55, 8), z3.If(z3.ULT(d, bv(62)), d8 + bv(61, 8), z3.If(d == bv(62), bv(64, 8), bv(36, 8)))))

def fmt(nm, sign, case):
    @contract("%s/%s" % (nm, case), fn=nm, props=P, callable=False, opts={"opaque_division": True})
    def _(cx):
        v = cx.i("value"); s = cx.ptr("string"); b32 = cx.i("base")
        base = z3.SignExt(32, b32) if b32.size() == 32 else b32
        cx.require("base", And(base >= 2, base <= 64))
        neg = v < 0 if sign else F
        cx.require("case", {"zero": v == 0, "positive": v > 0 if sign else v != 0, "negative": v < 0}[case])
        mag = -v if case == "negative" else v
        V = z3.Function("V", z3.BitVecSort(64), z3.BitVecSort(64)); n = cx.ghost("digits")
        D = z3.Function('D', z3.BitVecSort(64), z3.BitVecSort(64))
        if case == "zero": cx.require("n", n == 1)
        else:
            cx.require("repeated division", And(V(bv(0)) == mag, n >= 1, n <= 64, V(n) == 0, FA(lambda k: z3.Implies(z3.ULT(k, n), z3.And(V(k) != 0, V(k + 1) == sym._uf('udiv64', 64, 64, 64)(V(k), base), D(k) == sym._uf('urem64', 64, 64, 64)(V(k), base), z3.ULT(D(k), bv(64)), z3.Implies(V(k + 1) == 0, D(k) == V(k)))))))
        m = n + 1 if case == "negative" else n
        cx.hint(m)
        cx.require("room", z3.UGE(s.obj.size, m + 1))
        cx.assigns(s, m + 1)
        cx.template(lambda st, x, val, e: z3.And(val == V(e), z3.ULE(e, n)) if x.kind == "int" and x.n == 64 else None, "varprog")
        cx.template(lambda st, e: FA(lambda k: z3.Implies(z3.ULT(k, e), z3.And(rd(cx, st, s, k) == dig(D(k)), rd(cx, st, s, k) != 0))))
        def post(px):
            px.ensure("terminated", px.byte(s, m) == 0)
            if case == "zero": px.ensure("zero is 0", px.byte(s, 0) == ord("0")); return
            if case == "negative": px.ensure("minus sign", px.byte(s, 0) == ord("-"))
            px.ensure("digits, most significant first", FA(lambda k: z3.Implies(z3.ULT(k, n), px.byte(s, m - 1 - k) == dig(D(k)))))
            px.ensure("no superfluous zero", px.byte(s, m - n) != ord("0"))
        return post
for c_ in ("zero", "positive", "negative"): fmt("i64_to_str", True, c_)
for c_ in ("zero", "positive"): fmt("u64_to_str", False, c_)

def hexd(c): return z3.Or(is_digit(c), rng(c, "a", "f"), rng(c, "A", "F"))
def val(c): return z3.ZeroExt(56, z3.If(is_digit(c), c - 48, z3.If(rng(c, "a", "f"), c - 87, c - 55)))
def digits(cx, s, ln, hx, st0):
    """ghosts: H (Horner sum) and n (number of digits) of the text at s+st0; a caller that has them hands them on"""
    B = lambda k: cx.byte(s, k)
    isd = hexd if hx else is_digit
    rad = bv(16 if hx else 10)
    if cx.verify:
        H = z3.Function("H", z3.BitVecSort(64), z3.BitVecSort(64)); n = cx.ghost("digits")
        cx.st.ghost["scan"] = (H, n)
    else: H, n = cx.st.ghost["scan"]
    ch = lambda k: B(st0 + k)
    cx.require("digits", And(z3.ULE(n, ln), FA(lambda k: z3.Implies(z3.ULT(k, n), isd(ch(k)))), Not(isd(ch(n)))))
    cx.require("Horner", And(H(bv(0)) == 0, FA(lambda k: z3.Implies(z3.ULT(k, n), H(k + 1) == H(k) * rad + val(ch(k))))))
    return H, n
def start(cx, s, ln, hx, pre):
    B = lambda k: cx.byte(s, k)
    neg = B(0) == ord("-"); o = z3.If(neg, bv(1), bv(0))
    return neg, o, z3.And(B(o) == ord("0"), B(o + 1) == ord("x"))

@contract("_scan_zpl_i64", props=P, cost=9)
def _(cx):
    s, ln = cx.cstr("text"); i = cx.nxt()
    if cx.verify: k = cx.choose(3); base = 10 if k == 0 else 16; cx.args[i] = bv(base, 32)
    else:
        if not is_const(cx.args[i]) or cval(cx.args[i]) not in (10, 16): raise Unsupported("base of _scan_zpl_i64")
        base = cval(cx.args[i])
    hx = base == 16
    if cx.verify: out = cx.ptr("value", 8, nullable=True)
    else: out = cx.fix_ptr(cx.nxt())
    neg, o, p = start(cx, s, ln, hx, None)
    if not hx: pre = False
    elif cx.verify: pre = k == 2; cx.require("case", p if pre else z3.Not(p))
    else: pre = cx.choose([z3.Not(p), p]) == 1
    st0 = o + 2 if pre else o
    H, n = digits(cx, s, ln, hx, st0)
    if not is_null(out): cx.assigns(out, 8)
    cx.template(lambda st, v, x, u, y: z3.And(y == H(x - s.off - st0), z3.ULE(x - s.off - st0, n), z3.UGE(x - s.off, st0)) if v.kind == "ptr" and u.kind == "int" and u.n == 64 else None, "varvar")
    def post(px):
        px.ensure("position after the last digit", px.ret == st0 + n)
        if not is_null(out): px.ensure("value", px.cell(out) == z3.If(neg, -H(n), H(n)))
    return post

def parse(base):
    for pre in (False, True):
        if base == 10 and pre: continue
        @contract("c_str_to_i64/base%d%s" % (base, "/prefixed" if pre else ""), fn="c_str_to_i64", props=P, callable=False)
        def _(cx, pre=pre):
            s, ln = cx.cstr("text")
            out = cx.ptr("end_ptr", 8, nullable=True)
            i = cx.nxt(); cx.args[i] = bv(base, 32)
            hx = base == 16 or (base == 0 and pre)
            neg, o, p = start(cx, s, ln, hx, pre)
            if base == 0: p = And(cx.byte(s, 0) == ord("0"), cx.byte(s, bv(1)) == ord("x"), z3.UGT(ln, bv(2)))
            if base != 10: cx.require("case", p if pre else Not(p))
            H, n = digits(cx, s, ln, hx, o + 2 if pre else o)
            if not is_null(out): cx.assigns(out, 8)
            def post(px):
                px.ensure("value", px.ret == z3.If(neg, -H(n), H(n)))
                if not is_null(out): px.ensure("position after the last digit", px.cell(out) == bits(s.plus((o + 2 if pre else o) + n)))
            return post
for b_ in (0, 10, 16): parse(b_)
