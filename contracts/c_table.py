"""C04: hash tables.  Entries are numbered in insertion order; the chain of a bucket visits its entries in increasing order and
misses none.  The bucket of a key (remainder of a division) is uninterpreted: nothing depends on how keys spread."""
import sym
from spec import *
from lib import *
from alloc import *
P = ["C04"]
OD = {"opaque_division": True}
M1 = bv(2**64 - 1)
def urem(k, n): return sym._uf('urem64', 64, 64, 64)(k, n)
class TB: pass
def table_objs(cx, ES):
    """a table's two arrays"""
    t = TB(); t.ES = ES; al = t.al = install_alloc(cx, "al", fail=False)
    t.n, t.m, t.hc, t.ec = [z3.BitVec(x, 64) for x in ("buckets", "entries", "bucket_cap", "entry_cap")]
    cx.inputs += [("buckets", t.n), ("entries", t.m)]
    for nm, cap, num, s in (("hashes", t.hc, t.n, 8), ("entry_list", t.ec, t.m, ES)):
        o = cx.obj(nm, None, align=16, content=mem.base_hdr(nm, {0: al[0], 8: al[1], 16: cap, 24: num})); o.mkbase = mem.base_words1; o.owner = al[0].obj
        cx.st.assume(And(z3.ULE(num, cap), z3.ULT(cap, bv(1 << 30)), z3.UGE(o.size, cap * s + 32)))
        setattr(t, nm, o)
    cx.st.assume(z3.UGE(t.n, 1))
    t.H, t.E = Ptr(t.hashes, 32), Ptr(t.entry_list, 32)
    return t
def hold(cx, t, name="table"):
    v = cx.obj(name, 16); cx.st.mem[v] = c_write(c_write(cx.st.mem[v], None, bv(0), 8, t.H), None, bv(8), 8, t.E); t.var = Ptr(v); cx.args[cx.nxt()] = t.var
def load(cx, t, i):
    """(call) the table behind a HashTable passed by value or by pointer"""
    p = t.var = cx.fix_ptr(i)
    t.H, t.E = cx.cell_ptr(p), cx.cell_ptr(p.plus(8))
    t.hashes, t.entry_list = t.H.obj, t.E.obj
    W = lambda q, k: mem.bits(cx.cell(q.plus(k)))
    t.hc, t.n, t.ec, t.m = W(t.H, -16), W(t.H, -8), W(t.E, -16), W(t.E, -8)
def word(st, p, off): return mem.bits(mem.read(st.mem[p.obj], None, add(p.off, off), 8))
def key(t, st, e): return word(st, t.E, e * t.ES)
def nxt(t, st, e): return word(st, t.E, e * t.ES + 8)
def head(t, st, b): return word(st, t.H, b * 8)
def bkt(t, st, e): return urem(key(t, st, e), t.n)
def chains(t, st, m, s=None):
    """the linking of the first s (default: all m) entries"""
    s = m if s is None else s
    A, I, lt, le = z3.And, z3.Implies, z3.ULT, z3.ULE
    return [("heads", FA(lambda b: I(lt(b, t.n), z3.Or(head(t, st, b) == M1, A(lt(head(t, st, b), s), bkt(t, st, head(t, st, b)) == b))))),
            ("every bucket starts at its first entry", FA(lambda e: I(lt(e, s), le(head(t, st, bkt(t, st, e)), e)))),
            ("links", FA(lambda e: I(lt(e, s), z3.Or(nxt(t, st, e) == M1, A(lt(nxt(t, st, e), s), lt(e, nxt(t, st, e)), bkt(t, st, nxt(t, st, e)) == bkt(t, st, e)))))),
            ("links skip no entry of the bucket", FA(lambda e, j: I(A(lt(e, j), lt(j, s), bkt(t, st, e) == bkt(t, st, j)), le(nxt(t, st, e), j)), n=2))]
KPOS = z3.Function("entry_of_key", z3.BitVecSort(64), z3.BitVecSort(64))
def distinct(t, st, m): return ("keys are distinct", FA(lambda e: z3.Implies(z3.ULT(e, m), KPOS(key(t, st, e)) == e)))      # an inverse of key()
def kept(t, st, st0, m):
    """keys and values of the first m entries are those of st0"""
    return FA(lambda e: z3.Implies(z3.ULT(e, m), z3.And([word(st, t.E, e * t.ES + o) == word(st0, t.E, e * t.ES + o) for o in [0] + list(range(16, t.ES, 8))])))
def tab(cx, t, ES, wf=True, linked=None, byref=False):
    if cx.verify: t2 = table_objs(cx, ES); t.__dict__.update(t2.__dict__); hold(cx, t)
    else: t.ES = ES; load(cx, t, cx.nxt())
    cx.st.assume(FA(lambda k: z3.ULT(urem(k, t.n), t.n)))       # a remainder is below its (positive) divisor
    if not cx.verify: cx.require("buckets", z3.UGE(t.n, 1))
    if wf:
        for nm, f in chains(t, cx.st.clone(), t.m, linked): cx.require(nm, f)
def key_index(t, st, k):
    """(call) x, when the argument is the key of entry x of this table"""
    if not z3.is_app(k) or k.num_args() != 1: return None
    l, c = lin(k.arg(0))
    for x in [v for v, _ in l.values()]:
        if len(l) == 1 and key(t, st, x).eq(k): return x
    return None

def make(T_, VS):
    ES = 16 + VS
    def C(nm, **o):
        def d(f): contract("%s<%s>" % (nm, T_), fn="%s<%s>" % (nm, T_), props=P, **dict(dict(opts=OD), **o))(f)
        return d
    @C("hashtable__find", cost=80)
    def _(cx):
        r = cx.sret(24); t = TB()
        if cx.verify:
            tab(cx, t, ES, False); k = cx.i("key"); s = z3.BitVec("linked_entries", 64); cx.st.assume(z3.ULE(s, t.m))
        else:
            tab(cx, t, ES, False); k = cx.i("key"); s = key_index(t, cx.st, k)
            s = t.m if s is None else s; cx.require("linked entries", z3.ULE(s, t.m))
        for nm, f in chains(t, cx.st.clone(), t.m, s): cx.require(nm, f)
        b = urem(k, t.n); cx.st.assume(z3.ULT(b, t.n))
        cx.assigns(r, 24)
        R = lambda st, j: word(st, r, bv(8 * j))
        st0 = cx.st.clone()
        def inv(st):
            h, p, i = R(st, 0), R(st, 1), R(st, 2)
            return [h == b, z3.Or(i == M1, z3.And(z3.ULT(i, s), bkt(t, st0, i) == b)),
                    z3.Or(z3.And(p == M1, i == head(t, st0, b)), z3.And(z3.ULT(p, s), bkt(t, st0, p) == b, nxt(t, st0, p) == i)),
                    FA(lambda j: z3.Implies(z3.And(z3.ULT(j, s), z3.ULT(j, i)), key(t, st0, j) != k))]
        for q in range(4): cx.template(lambda st, q=q: inv(st)[q], 0)
        cx.measure("remaining entries", lambda st: z3.If(R(st, 2) == M1, bv(0), t.m - R(st, 2)))
        def post(px):
            h, p, i = (R(px.st, j) for j in range(3))
            px.ensure("bucket", h == b)
            px.ensure("found entry has the key", z3.Or(i == M1, z3.And(z3.ULT(i, s), key(t, st0, i) == k)))
            px.ensure("no earlier entry has the key", FA(lambda j: z3.Implies(z3.And(z3.ULT(j, s), z3.ULT(j, i)), key(t, st0, j) != k)))
            px.ensure("predecessor", z3.Or(z3.And(p == M1, i == head(t, st0, b)), z3.And(z3.ULT(p, s), bkt(t, st0, p) == b, nxt(t, st0, p) == i)))
        return post
    @C("hashtable_get")
    def _(cx):
        t = TB(); tab(cx, t, ES); k = cx.i("key")
        if not cx.verify: raise Unsupported("hashtable_get at a call")
        def post(px):
            r = px.ptr_ret()
            if is_null(r): px.ensure("absent only when no entry has the key", FA(lambda j: z3.Implies(z3.ULT(j, t.m), key(t, px.st, j) != k))); return
            e = z3.UDiv(sub(r.off, bv(48)), bv(ES)) if ES == 32 else None
            px.ensure("the value of the entry with the key", And(T if r.obj is t.entry_list else F, r.off == 48 + e * ES, z3.ULT(e, t.m), key(t, px.st, e) == k))
        return post
    @C("hashtable_clear", callable=False)
    def _(cx):
        t = TB(); tab(cx, t, ES, False); cx.assigns(Ptr(t.hashes, 32), t.n * 8); cx.assigns(Ptr(t.entry_list, 24), 8)
        cx.template(lambda st, e: FA(lambda b: z3.Implies(z3.And(z3.ULT(b, e), z3.ULT(b, t.n)), head(t, st, b) == M1)))
        cx.template(lambda st, e: z3.ULE(e, t.n))
        def post(px):
            px.ensure("no entries", px.cell(Ptr(t.entry_list, 24)) == 0)
            px.ensure("every bucket is empty", FA(lambda b: z3.Implies(z3.ULT(b, t.n), head(t, px.st, b) == M1)))
        return post
make("gen::Str", 16)
