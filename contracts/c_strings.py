"""C01: C-string, character and Str primitives (dependencies/string_ops.hpp, strings.hpp) against their mathematical definition."""
from spec import *
from lib import *

P = ["C01"]

# ---------------------------------------------------------------- characters
def char_pred(name, f):
    @contract(name, props=P)
    def _(cx):
        c = cx.i("c")
        return lambda px: px.ensure("classification", px.ret == z3.If(f(c), bv(1, px.ret.size()), bv(0, px.ret.size())))
char_pred("char_is_alpha", lambda c: z3.Or(is_upper(c), is_lower(c)))
char_pred("char_is_digit", is_digit)
char_pred("char_is_alphanumeric", lambda c: z3.Or(is_upper(c), is_lower(c), is_digit(c)))
char_pred("char_is_hex_digit", lambda c: z3.Or(is_digit(c), rng(c, "a", "f"), rng(c, "A", "F")))
char_pred("char_is_space", is_space)
@contract("char_to_lower", props=P)
def _(cx):
    c = cx.i("c")
    return lambda px: px.ensure("lower case", px.ret == z3.If(is_upper(c), c + bv(32, 8), c))
@contract("char_to_upper", props=P)
def _(cx):
    c = cx.i("c")
    return lambda px: px.ensure("upper case", px.ret == z3.If(is_lower(c), c - bv(32, 8), c))
@contract("hex_digit_to_int", props=P)
def _(cx):
    c = cx.i("c")
    w = z3.ZeroExt(24, c)
    return lambda px: px.ensure("digit value", px.ret == z3.If(is_digit(c), w - 48, z3.If(rng(c, "a", "f"), w - 87, z3.If(rng(c, "A", "F"), w - 55, bv(-1, 32)))))

# ---------------------------------------------------------------- C strings
@contract("c_str_len", props=P)
def _(cx):
    s, n = cx.cstr("s", nullable=True)
    def post(px):
        px.ensure("length is the index of the first NUL", px.ret == n)
    if s is not NULL:
        cx.template(lambda st, e: z3.ULE(e, n))
    return post

@contract("c_str_compare", props=P)
def _(cx):
    a, n = cx.cstr("a"); b, m = cx.cstr("b")
    cx.template(lambda st, e: And(z3.ULE(e, n), z3.ULE(e, m)))
    cx.template(lambda st, e: FA(lambda k: z3.Implies(z3.ULT(k, e), rd(cx, st, a, k) == rd(cx, st, b, k))))
    def post(px):
        A = lambda k: px.byte(a, k); B = lambda k: px.byte(b, k)
        eq = And(n == m, FA(lambda k: z3.Implies(z3.ULT(k, n), A(k) == B(k))))
        px.ensure("zero iff equal", Iff(px.ret == 0, eq))
        # first differing position decides the sign
        px.ensure("sign is the sign of the first difference", FA(lambda k: Imp(
            And(z3.ULE(k, n), z3.ULE(k, m), A(k) != B(k), FA(lambda j: z3.Implies(z3.ULT(j, k), A(j) == B(j)))),
            z3.And((px.ret < 0) == z3.ULT(A(k), B(k)), (px.ret > 0) == z3.UGT(A(k), B(k))))))
    return post

@contract("c_str_compare_len", props=P)
def _(cx):
    """bounded comparison of two buffers; stops at a common NUL"""
    a = cx.ptr("a"); b = cx.ptr("b"); n = cx.i("len")
    A = lambda k: cx.byte(a, k); B = lambda k: cx.byte(b, k)
    # each buffer is readable up to len, or up to where it is NUL terminated
    def ok(p):
        X = lambda k: cx.byte(p, k)
        return Or(n <= 0, cx.ex.valid(cx.st, p, n), EX(lambda z: And(cx.ex.valid(cx.st, p.plus(z), 1), z >= 0, z <= n, X(z) == 0)))
    if cx.verify:
        for p in (a, b):
            z = cx.ghost("z_" + p.obj.name)
            cx.st.assume(Or(n <= 0, z3.ULE(n, p.obj.size), And(z3.ULT(z, p.obj.size), cx.byte(p, z) == 0)))
    else:
        cx.require("readable a", ok(a)); cx.require("readable b", ok(b))
    cx.template(lambda st, e: And(z3.Or(e == 0, e <= n), FA(lambda k: z3.Implies(z3.ULT(k, e), z3.And(A(k) == B(k), A(k) != 0)))))
    def post(px):
        r = px.ret
        d = lambda k: z3.Or(A(k) != B(k), A(k) == 0)      # comparison ends here
        px.ensure("decided by the first position that differs or is NUL", FA(lambda k: Imp(
            And(k >= 0, k < n, d(k), FA(lambda j: z3.Implies(z3.ULT(j, k), z3.Not(d(j))))),
            z3.And((r < 0) == z3.ULT(A(k), B(k)), (r > 0) == z3.UGT(A(k), B(k))))))
        px.ensure("zero when nothing differs", Imp(FA(lambda k: z3.Implies(z3.And(k >= 0, k < n), z3.Not(d(k)))), r == 0))
        px.ensure("equal prefixes give zero", Imp(FA(lambda k: z3.Implies(z3.And(k >= 0, k < n), A(k) == B(k))), r == 0))
        px.ensure("zero means equal up to the first NUL", Imp(r == 0, FA(lambda k: Imp(And(k >= 0, k < n, A(k) != B(k)), EX(lambda j: And(z3.ULT(j, k), A(j) == 0, B(j) == 0))))))
    return post

def copy_spec(nm, nulpad):
    @contract(nm, props=P)
    def _(cx):
        d = cx.ptr("dest")
        s = cx.ptr("src", nullable=True)
        ln = cx.i("len")
        cx.require("dest has len bytes", Or(ln <= 0, cx.ex.valid(cx.st, d, ln)))
        if s is not NULL:
            n = cstr_len_of(cx, s) if not cx.verify and s.obj.const else cx.ghost("n")
            # the source is readable up to its NUL or len
            src = lambda n: And(z3.ULE(n, cx.size(s)), Or(z3.And(z3.ULT(n, cx.size(s)), cx.byte(s, n) == 0), n >= ln), FA(lambda k: z3.Implies(z3.ULT(k, n), cx.byte(s, k) != 0)))
            if not cx.verify and not s.obj.const: cx.require("src readable", EX(src)); cx.st.assume(src(n))
            else: cx.require("src readable", src(n))
            cx.assigns(d, z3.If(ln > 0, ln, bv(0)))
            cx.template(lambda st, e: z3.ULE(e, z3.If(ln > 0, ln, bv(0))))
            cx.template(lambda st, e: z3.ULE(e, n))
            cx.template(lambda st, e: FA(lambda k: z3.Implies(z3.ULT(k, e), rd(cx, st, d, k) == z3.If(z3.ULT(k, n), cx.byte(s, k), bv(0, 8)))))
        def post(px):
            if nulpad: px.ensure("number of characters copied", px.ret == (bv(0) if s is NULL else z3.If(ln <= 0, bv(0), z3.If(z3.ULT(n, ln), n, ln))))
            else: px.ensure("returns dest", ptr_eq(px, px.ptr_ret(lambda px: d), d))
            if not cx.verify and cx.ex.opts.get("lengths_only"): return      # the caller's contract says nothing about content
            if s is not NULL:
                px.ensure("copied then NUL padded", FA(lambda k: z3.Implies(z3.And(k >= 0, k < ln), px.byte(d, k) == z3.If(z3.ULT(k, n), px.obyte(s, k), bv(0, 8)))))
            px.ensure("rest unchanged", FA(lambda k: z3.Implies(z3.Not(z3.And(k >= 0, k < ln)), px.byte(d, k) == px.obyte(d, k))))
        return post
copy_spec("c_str_copy", False)
copy_spec("c_str_copy_nulpad", True)

@contract("c_str_reverse", props=P)
def _(cx):
    s, n = cx.cstr("s")
    cx.assigns(s, n)
    old = cx.st.mem[s.obj]
    cx.template(lambda st, e: FA(lambda k: z3.Implies(z3.And(z3.ULT(k, n), z3.Or(z3.ULT(k, e), z3.UGE(k, n - e))), rd(cx, st, s, k) == rdc(old, s, n - 1 - k))))
    cx.template(lambda st, e: FA(lambda k: z3.Implies(z3.And(z3.UGE(k, e), z3.ULT(k, n - e)), rd(cx, st, s, k) == rdc(old, s, k))))
    def post(px):
        px.ensure("returns its argument", ptr_eq(px, px.ptr_ret(lambda px: s), s))
        px.ensure("reversed", FA(lambda k: z3.Implies(z3.ULT(k, n), px.byte(s, k) == px.obyte(s, n - 1 - k))))
        px.ensure("rest unchanged", FA(lambda k: z3.Implies(z3.UGE(k, n), px.byte(s, k) == px.obyte(s, k))))
    return post

@contract("c_str_len_capped", props=P)
def _(cx):
    s = cx.ptr("s"); n = cx.i("max_len")
    cx.require("readable", And(n >= 0, cx.readable(s, n)))
    B = lambda k: cx.byte(s, k)
    cx.template(lambda st, e: And(e >= 0, FA(lambda k: z3.Implies(z3.ULT(k, e), B(k) != 0))))
    def post(px):
        r = px.ret
        px.ensure("at most max_len", z3.And(r >= 0, r <= n))
        px.ensure("no NUL before", FA(lambda k: z3.Implies(z3.ULT(k, r), B(k) != 0)))
        px.ensure("stops at a NUL", z3.Or(r == n, B(r) == 0))
    return post

def inside(px, p, mk):
    """pointer result into the object of p (call mode: fresh offset)"""
    r = px.ptr_ret(mk)
    return r

@contract("char_first_occurence", props=P)
def _(cx):
    s, n = cx.cstr("s"); c = cx.i("c")
    B = lambda k: cx.byte(s, k)
    cx.template(lambda st, e: And(z3.ULE(e, n), FA(lambda k: z3.Implies(z3.ULT(k, e), B(k) != c))))
    if not cx.verify: found = cx.choose([EX(lambda k: And(z3.ULE(k, n), B(k) == c)), FA(lambda k: z3.Implies(z3.ULE(k, n), B(k) != c))])
    def post(px):
        if px.verify:
            r = px.ptr_ret()
            if is_null(r): px.ensure("null only if absent", FA(lambda k: z3.Implies(z3.ULE(k, n), B(k) != c)))
            else:
                k = r.off
                px.ensure("first occurrence", And(T if r.obj is s.obj else F, z3.ULE(k, n), B(k) == c, FA(lambda j: z3.Implies(z3.ULT(j, k), B(j) != c))))
        elif found == 0:
            o = fresh("cfo"); px.ret = s.plus(o)
            px.ensure("", And(z3.ULE(o, n), B(o) == c, FA(lambda j: z3.Implies(z3.ULT(j, o), B(j) != c))))
        else: px.ret = NULL
    return post

@contract("c_str_skip", props=P)
def _(cx):
    s, n = cx.cstr("s"); c = cx.i("c")
    B = lambda k: cx.byte(s, k)
    cx.template(lambda st, e: And(z3.ULE(e, n), FA(lambda k: z3.Implies(z3.ULT(k, e), B(k) != c))))
    def post(px):
        r = px.ptr_ret(lambda px: s.plus(fresh("skip")))
        k = sub(r.off, s.off)
        px.ensure("in the string", And(T if r.obj is s.obj else F, z3.ULE(k, n)))
        px.ensure("at the character or the end", z3.Or(k == n, B(k) == c))
        px.ensure("nothing skipped matched", FA(lambda j: z3.Implies(z3.ULT(j, k), B(j) != c)))
    return post

@contract("c_str_skip_any", props=P)
def _(cx):
    s, n = cx.cstr("s"); l, m = cx.cstr("list")
    B = lambda k: cx.byte(s, k); L = lambda k: cx.byte(l, k)
    # every char of the list before e was not found before the closest position
    cx.template(lambda st, e: z3.ULE(e, m))
    def t(st, v, x, e):
        if v.kind != "ptr": return T
        return And(z3.ULE(x, n), FA(lambda i, j: z3.Implies(z3.And(z3.ULT(i, e), z3.ULT(j, x)), B(j) != L(i)), 2), Or(x == n, EX(lambda i: And(z3.ULT(i, m), B(x) == L(i)))))
    cx.template(t, "varprog")
    def post(px):
        r = px.ptr_ret(lambda px: s.plus(fresh("skip")))
        k = sub(r.off, s.off)
        px.ensure("in the string", And(T if r.obj is s.obj else F, z3.ULE(k, n)))
        px.ensure("at a listed character or the end", Or(k == n, EX(lambda i: And(z3.ULT(i, m), B(k) == L(i)))))
        px.ensure("nothing skipped is listed", FA(lambda j, i: z3.Implies(z3.And(z3.ULT(j, k), z3.ULT(i, m)), B(j) != L(i)), 2))
    return post

@contract("c_str_trim", props=P)
def _(cx):
    s, n = cx.cstr("s"); nl = cx.i("catch_newline")
    B = lambda k: cx.byte(s, k)
    sp = lambda c: z3.And(is_space(c), z3.Or(nl == 0, c != 10))
    cx.template(lambda st, e: And(z3.ULE(e, n), FA(lambda k: z3.Implies(z3.ULT(k, e), sp(B(k))))))
    def post(px):
        r = px.ptr_ret(lambda px: s.plus(fresh("trim")))
        k = sub(r.off, s.off)
        px.ensure("in the string", And(T if r.obj is s.obj else F, z3.ULE(k, n)))
        px.ensure("stops at the first non-space", z3.Not(sp(B(k))))
        px.ensure("only spaces skipped", FA(lambda j: z3.Implies(z3.ULT(j, k), sp(B(j)))))
    return post

def case_spec(nm, f):
    @contract(nm, props=P)
    def _(cx):
        s, n = cx.cstr("s", nullable=True)
        if s is NULL: return None
        old = cx.st.mem[s.obj]
        cx.assigns(s, n)
        cx.template(lambda st, e: And(z3.ULE(e, n), FA(lambda k: z3.Implies(z3.ULT(k, e), rd(cx, st, s, k) == f(rdc(old, s, k)))), FA(lambda k: z3.Implies(z3.UGE(k, e), rd(cx, st, s, k) == rdc(old, s, k)))))
        def post(px):
            px.ensure("mapped", FA(lambda k: z3.Implies(z3.ULT(k, n), px.byte(s, k) == f(px.obyte(s, k)))))
            px.ensure("rest unchanged", FA(lambda k: z3.Implies(z3.UGE(k, n), px.byte(s, k) == px.obyte(s, k))))
        return post
case_spec("c_str_to_lower", lambda c: z3.If(is_upper(c), c + bv(32, 8), c))
case_spec("c_str_to_upper", lambda c: z3.If(is_lower(c), c - bv(32, 8), c))

# ---------------------------------------------------------------- Str
@contract("str_are_equal", props=P)
def _(cx):
    a, n = cx.strp("lhs"); b, m = cx.strp("rhs")
    if is_null(a) or is_null(b): eq = lambda px: n == m
    A = lambda k: cx.byte(a, k); B = lambda k: cx.byte(b, k)
    cx.template(lambda st, e: And(z3.Or(e == 0, e <= n), FA(lambda k: z3.Implies(z3.ULT(k, e), A(k) == B(k)))))
    def post(px):
        bool_ensure(px, "equal iff same length and bytes", And(n == m, FA(lambda k: z3.Implies(z3.ULT(k, n), A(k) == B(k)))))
    return post

@contract("str_starts_with", props=P)
def _(cx):
    """for text without embedded NUL"""
    a, n = cx.strp("str"); b, m = cx.strp("sub")
    A = lambda k: cx.byte(a, k); B = lambda k: cx.byte(b, k)
    cx.require("no embedded NUL", FA(lambda k: z3.Implies(z3.ULT(k, m), B(k) != 0)))
    def post(px):
        bool_ensure(px, "prefix", And(m <= n, FA(lambda k: z3.Implies(z3.ULT(k, m), A(k) == B(k)))))
    return post

@contract("str_contains", props=P)
def _(cx):
    a, n = cx.strp("str"); b, m = cx.strp("sub")
    A = lambda k: cx.byte(a, k); B = lambda k: cx.byte(b, k)
    cx.require("no embedded NUL", FA(lambda k: z3.Implies(z3.ULT(k, m), B(k) != 0)))
    occ = lambda i: FA(lambda k: z3.Implies(z3.ULT(k, m), A(i + k) == B(k)))
    cx.template(lambda st, e: And(z3.Or(e == 0, e <= n - m + 1), FA(lambda i: Imp(z3.ULT(i, e), Not(occ(i))))))
    def post(px):
        px.ensure("true means it occurs", Imp(px.bool(), EX(lambda i: And(i >= 0, m <= n, i <= n - m, occ(i)))))
        px.ensure("false means it does not", Imp(Not(px.bool()), FA(lambda i: Imp(And(i >= 0, m <= n, i <= n - m), Not(occ(i))))))
    return post

@contract("to_str_from_c_str", props=P)
def _(cx):
    cx.sret(16)
    s, n = cx.cstr("s", nullable=True)
    def post(px):
        v = px.str_ret(lambda px: s)
        px.ensure("views the string", And(ptr_eq(px, v.ptr, s), v.len == n))
    return post
