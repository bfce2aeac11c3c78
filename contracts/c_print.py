"""C10: the parts of the formatter.  A conversion writes exactly its text inside [text, text+max_len): the characters (at most the
precision), then or first the padding to the width.  Which characters these are is compared by the driver."""
from spec import *
from lib import *
P = ["C10"]
MINUS, ZERO, LOWER, UPPER, WIDTH = 1, 1 << 4, 1 << 13, 1 << 14, 1 << 15

def info_of(cx):
    """(flags, width, precision) or None when there is no format information"""
    p = cx.ptr("info", 16, nullable=True) if cx.verify else cx.fix_ptr(cx.nxt())
    if is_null(p): return p, None
    if not cx.verify: cx.require("format information", cx.ex.valid(cx.st, p, 16))
    f, w, q = (mem.bits(cx.ex.read(cx.st, p.plus(o), 4)) for o in (4, 8, 12))
    if cx.verify: cx.inputs += [("flags", f), ("width", w), ("precision", q)]
    return p, (f, z3.SignExt(32, w), z3.SignExt(32, q))
def has(f, bit): return (f & bv(bit, 32)) != 0
def room(cx):
    t = cx.ptr("text"); n = cx.i("max_len")
    cx.require("room", And(n >= 0, z3.ULT(n, bv(1 << 45)), cx.readable(t, n)))
    return t, n
def smin(a, b): return z3.If(a < b, a, b)
def smax(a, b): return z3.If(a > b, a, b)
def length(I, n, room_):
    """how many characters a text of n characters takes"""
    if I is None: return z3.If(n > room_, bv(0), n)
    f, w, q = I
    pad = smax(w - n, bv(0)); rp = smin(pad, room_)
    lt = z3.If(n > room_, bv(0), n + smin(pad, room_ - n))
    rt = z3.If(n > room_ - rp, rp, rp + n)
    return z3.If(z3.And(w == 0, has(f, WIDTH)), bv(0), z3.If(z3.Or(w == 0, has(f, MINUS)), lt, rt))
def cases(cx, I):
    """(verify) nothing, left aligned or right aligned"""
    if I is None: return None
    f, w, q = I
    hid = z3.And(w == 0, has(f, WIDTH)); left = z3.Or(w == 0, has(f, MINUS))
    ks = [hid, z3.And(z3.Not(hid), left), z3.And(z3.Not(hid), z3.Not(left))]
    cx.require("case", ks[cx.choose(3)])

@contract("_print_repeated_char", props=P)
def _(cx):
    t, n = room(cx); p, I = info_of(cx); c = cx.i("arg")
    want = z3.If(I[1] > 0, I[1], bv(1)) if I else bv(1)
    tot = smin(want, n)
    cx.assigns(t, n)
    cx.template(lambda st, e: FA(lambda k: z3.Implies(z3.ULT(k, e), rd(cx, st, t, k) == c)))
    cx.template(lambda st, e: z3.ULE(e, tot))
    def post(px):
        px.ensure("as many as the width, bounded by the room", px.ret == tot)
        px.ensure("the character", FA(lambda k: z3.Implies(z3.ULT(k, tot), px.byte(t, k) == c)))
    return post

@contract("_print_string", props=P, cost=60, opts=dict(no_frames=True, stride_only=True, lengths_only=True))
def _(cx):
    t, room_ = room(cx); p, I = info_of(cx)
    s = cx.ptr("str", nullable=True) if cx.verify else cx.fix_ptr(cx.nxt())
    cx.assigns(t, room_)
    if cx.verify: cases(cx, I)
    if is_null(s):
        empty = (I[2] == 0) if I else F
        tot = z3.If(empty, length(I, bv(0), room_), z3.If(room_ >= 6, bv(6), bv(0)))
    else:
        n = cx.ghost("len")
        B = lambda k: cx.byte(s, k)
        q = I[2] if I else bv(-1)
        if cx.verify and I: cx.require("precision", [q < 0, q >= 0][cx.choose(2)])
        isend = lambda n: And(n >= 0, z3.ULE(n, cx.size(s)), Or(z3.And(q >= 0, n == q), z3.And(z3.ULT(n, cx.size(s)), B(n) == 0, z3.Or(q < 0, n < q))),
                              FA(lambda k: z3.Implies(z3.ULT(k, n), B(k) != 0)))
        if not cx.verify: cx.require("text readable up to its end or the precision", EX(lambda m: isend(m)))
        cx.st.assume(isend(n))
        cx.hint(n)
        tot = length(I, n, room_)
        cx.template(lambda st, e: z3.ULE(e, n)); cx.bound(n)
    if I: cx.template(lambda st, e: z3.ULE(e, tot)); cx.bound(tot)
    def post(px):
        px.ensure("characters written: the text up to its precision, padded to the width, inside the room", px.ret == tot)
    return post

@contract("_print_char", props=P, callable=False)
def _(cx):
    t, room_ = room(cx); p, I = info_of(cx); c = cx.i("arg")
    cx.assigns(t, room_)
    cx.hint(bv(0), bv(1))
    n = z3.If(z3.Or(c == 0, I[2] == 0) if I else c == 0, bv(0), bv(1))
    return lambda px: px.ensure("one character padded to the width, inside the room", px.ret == length(I, n, room_))
