"""C12, C19: interning and the macro registry.  Both keep a finite map from keys to records and settle colliding names by probing
the keys from the hash of the name on.  At this level the map is abstract (C04 decides the map itself): P(k) says whether key k is
present, its record is an element of a family indexed by the key; equality of two views is an unspecified relation on their words
(C01 decides it) and the hash an unspecified function of the view (C08)."""
from spec import *
from lib import *
from alloc import *
from c_ctx import context, off, put
import sym, ir
B64 = z3.BitVecSort(64)
SAME = z3.Function("same_text", B64, B64, B64, B64, z3.BoolSort())
HASH = z3.Function("hash_of", B64, B64, z3.BitVecSort(32))
AT = z3.Function("record_at", B64, B64)       # where the record of a key lies, 0 when there is none
def P_(k): return AT(k) != 0
def override(cx, base, spec):
    """(verify) what the function stands for in this argument"""
    m = cx.ex.mod
    cx.ex.contracts[base] = Contract(base, spec, props=[])
    for n in list(cx.ex.contracts):
        if n != base and cx.ex.base(n) == base: del cx.ex.contracts[n]
def view(cx, i=None):
    v = cx.str("view") if i is None else i
    return mem.bits(v.ptr), v.len
def raw_view(cx):
    """the two words of a view argument; its text is not looked at"""
    p = cx.fix_ptr(cx.nxt()); cx.require("view", cx.ex.valid(cx.st, p, 16))
    return mem.bits(cx.ex.read(cx.st, p, 8)), mem.bits(cx.ex.read(cx.st, p.plus(8), 8))

def table(cx, ctx, field, rec, T_):
    """the abstract map in a field of the context"""
    a, b = z3.BitVec(field + "_hashes", 64), z3.BitVec(field + "_entries", 64)
    put(cx, ctx, off(cx, field), a); put(cx, ctx, off(cx, field) + 8, b)
    E = Obj(field + "_entry", rec, "heap"); E.family = True
    E.valid = lambda st, idx: idx != 0; E.inb = lambda st, idx, off, n: z3.And(z3.ULE(off, bv(rec)), z3.ULE(n, bv(rec) - off)); E.elem = rec
    cx.st.mem[E] = base_uf(field + "_entry")
    def is_table(c):
        p = c.fix_ptr(c.nxt()); c.require("table of the context", c.ex.valid(c.st, p, 16))
        c.require("the " + field + " table", And(mem.bits(c.ex.read(c.st, p, 8)) == a, mem.bits(c.ex.read(c.st, p.plus(8), 8)) == b))
    def get(c):
        is_table(c); k = c.i("key")
        if c.st.ghost.get("sets"): raise Unsupported("lookup after an insertion")
        return lambda px: px.ptr_ret(lambda px: Ptr(E, 0, AT(k)))
    def set_(c):
        is_table(c); k = c.i("key"); p = c.fix_ptr(c.nxt()); c.require("record", c.ex.valid(c.st, p, rec))
        if c.st.ghost.get("sets"): raise Unsupported("two insertions")
        ws = tuple(c.ex.read(c.st, p.plus(o), 8) for o in range(0, rec, 8))
        def post(px): px.st.ghost["sets"] = ((k, ws),)
        return post
    override(cx, "hashtable_get<%s>" % T_, get); override(cx, "hashtable_set<%s>" % T_, set_)
    return E
def common(cx):
    def h(c):
        p = c.fix_ptr(c.nxt()); n = c.i("len"); c.require("readable", And(n >= 0, c.readable(p, n)))
        def post(px): px.ret = HASH(mem.bits(p), n)
        return post
    override(cx, "crc32", h)
    def eq(c):
        a, b = raw_view(c), raw_view(c)
        def post(px):
            r = px.ret; px.st.assume(z3.Or(r == 0, r == 1)); px.st.assume((r != 0) == SAME(a[0], a[1], b[0], b[1]))
        return post
    override(cx, "str_are_equal", eq)
def same(e, s): return z3.Or(SAME(e[0], e[1], s[0], s[1]), SAME(s[0], s[1], e[0], e[1]))
def entry(cx, E, st, k, o=0): return mem.bits(mem.read(st.mem[E], AT(k), bv(o), 8)), mem.bits(mem.read(st.mem[E], AT(k), bv(o + 8), 8))
def probing(cx, E, s, o=0):
    """s has its place at the first key from its hash on that is free or holds an equal text; there is a free key"""
    st = cx.st.clone(); K = z3.ZeroExt(32, HASH(s[0], s[1])); d = cx.ghost("probes")
    stop = lambda j: z3.Or(z3.Not(P_(K + j)), SAME(*(entry(cx, E, st, K + j, o) + tuple(s))))
    passed = lambda n: FA(lambda j: z3.Implies(z3.ULT(j, n), z3.Not(stop(j))))
    cx.st.assume(And(z3.ULT(d, bv(1 << 32)), stop(d), passed(d)))
    cx.hint(d)
    return K, d, st

@contract("cache_str", props=["C12"], callable=False)
def _(cx):
    r = cx.sret(16); ctx = context(cx); v = cx.str("str"); s = (mem.bits(v.ptr), v.len)
    src = cx.st.mem[v.ptr.obj]
    mx = z3.BitVec("Max_StrCacheLength", 32); cx.inputs.append(("Max_StrCacheLength", mx)); put(cx, ctx, off(cx, "Max_StrCacheLength"), mx, 4)
    cx.require("text", And(v.len >= 0, v.len < bv(1 << 31), cx.readable(v.ptr, v.len)))
    al = install_alloc(cx, "string_arena", fail=False)
    def arena(c):
        q = c.fix_ptr(c.nxt()); c.require("result", c.ex.valid(c.st, q, 16)); n = c.i("str_length"); c.require("room for the text", n == z3.Extract(31, 0, v.len))
        c.assigns(q, 16)
        def post(px): px.set_cell(q, al[0]); px.set_cell(q.plus(8), al[1])
        return post
    override(cx, "get_cached_str_allocator", arena)
    common(cx)
    E = table(cx, ctx, "StrCache", 16, "gen::Str")
    K, d, st0 = probing(cx, E, s)
    cx.assigns(r, 16)
    cx.template(lambda st, e: z3.And(z3.UGE(e, K), z3.ULE(e - K, d)))
    cx.template(lambda st, v, x, u, y: x == AT(y) if v.kind == "idx" and u.kind == "int" and u.n == 64 else None, "varvar")
    cx.bound(K + d)
    shared = v.len <= z3.ZeroExt(32, mx)
    def post(px):
        x = px.cell_raw(r); ln = px.cell(r.plus(8)); sets = px.st.ghost.get("sets") or ()
        p = x if is_ptr(x) else None
        fresh_ = isinstance(p, Ptr) and getattr(p.obj, "owner", None) is al[0].obj and p.obj.id > px.ex.assigns_base and p.obj not in px.st.freed
        if fresh_:
            px.ensure("length", ln == v.len)
            px.ensure("same bytes", FA(lambda k: z3.Implies(z3.ULT(k, v.len), px.byte(p, k) == rdc(src, v.ptr, k))))
            px.ensure("terminated", px.byte(p, v.len) == 0)
            px.ensure("new storage only for texts not interned yet", z3.Or(z3.Not(shared), z3.Not(P_(K + d))))
            px.ensure("remembered exactly when shared", shared if sets else z3.Not(shared))
            for k, w in sets:
                px.ensure("remembered at its key", And(k == K + d, mem.bits(w[0]) == mem.bits(p), mem.bits(w[1]) == v.len))
        else:
            px.ensure("nothing is remembered twice", F if sets else T)
            e = entry(cx, E, st0, K + d)
            px.ensure("the storage of the equal text interned before", And(shared, P_(K + d), mem.bits(x) == e[0], ln == e[1], SAME(*(e + s))))
    return post

def loop_hints(cx, K, d):
    cx.template(lambda st, e: z3.And(z3.UGE(e, K), z3.ULE(e - K, d)))
    cx.template(lambda st, v, x, u, y: x == AT(y) if v.kind == "idx" and u.kind == "int" and u.n == 64 else None, "varvar")
    cx.bound(K + d)
def registry(cx):
    ctx = context(cx); common(cx); return ctx, table(cx, ctx, "Macros", 24, "gen::Macro")
@contract("lookup_macro", props=["C19"], callable=False)
def _(cx):
    ctx, E = registry(cx); v = cx.str("name"); s = (mem.bits(v.ptr), v.len)
    cx.require("name", And(v.len >= 0, cx.readable(v.ptr, v.len)))
    K, d, st0 = probing(cx, E, s); loop_hints(cx, K, d)
    def post(px):
        r = mem.bits(px.ret)
        px.ensure("nothing registers the name, or the record of that name", z3.If(P_(K + d), r == AT(K + d), r == 0))
        px.ensure("the registry is not changed", F if px.st.ghost.get("sets") else T)
    return post
@contract("register_macro", props=["C19"], callable=False)
def _(cx):
    ctx, E = registry(cx); t = cx.nxt(); o = cx.obj("macro", 24, "stack"); nm = cx.obj("name", None, align=1); n = z3.BitVec("name_len", 64)
    null = cx.choose(2); p = NULL if null else Ptr(nm); rest = z3.BitVec("kind_and_flags", 64)
    for k, w in ((0, p), (8, n), (16, rest)): put(cx, o, k, w)
    cx.args[t] = Ptr(o); cx.inputs += [("name_len", n), ("kind_and_flags", rest)]
    cx.panics_if(Or(T if null else F, n <= 0))
    if not null: cx.require("name", z3.Implies(n > 0, z3.ULE(n, nm.size)))
    s = (mem.bits(p), n); c0, c1 = z3.BitVec("interned", 64), z3.BitVec("interned_len", 64)
    K, d, st0 = probing(cx, E, s); loop_hints(cx, K, d)
    cx.assigns(Ptr(o), 24)
    # interning (C12): an equal text with the same hash, standing in the same relation to every text
    cx.st.assume(And(HASH(c0, c1) == HASH(*s), SAME(c0, c1, *s), SAME(*(s + (c0, c1))), c1 == n, c0 != 0, FA(lambda a, b: z3.And(SAME(a, b, c0, c1) == SAME(a, b, *s)), n=2)))
    def intern(c):
        q = c.fix_ptr(c.nxt()); c.require("result", c.ex.valid(c.st, q, 16)); w = raw_view(c); c.require("the name is interned", And(w[0] == s[0], w[1] == s[1])); c.assigns(q, 16)
        def post(px): px.set_cell(q, c0); px.set_cell(q.plus(8), c1)
        return post
    override(cx, "cache_str", intern)
    def post(px):
        sets = px.st.ghost.get("sets") or ()
        px.ensure("one record is stored", T if len(sets) == 1 else F)
        for k, w in sets:
            px.ensure("at the key of its name", k == K + d)
            px.ensure("under the interned name", And(mem.bits(w[0]) == c0, mem.bits(w[1]) == c1))
            px.ensure("with the kind and flags given", mem.bits(w[2]) == rest)
    return post

@contract("get_cached_str_allocator", props=["C12"], callable=False)
def _(cx):
    """every shared text gets its storage from an arena that has room for it; arenas already in use stay as they are"""
    r = cx.sret(16); ctx = context(cx); at = off(cx, "StringArenas")
    al = install_alloc(cx, "array_al"); arr = cx.obj("arenas", None, align=16); arr.owner = al[0].obj
    cap, num = z3.BitVec("arenas_capacity", 64), z3.BitVec("arenas", 64); cx.inputs += [("arenas", num)]
    cx.st.assume(And(z3.ULE(num, cap), z3.UGE(num, 1), z3.ULT(cap, bv(1 << 24)), z3.UGE(arr.size, cap * 48 + 32)))
    for o, v in ((0, al[0]), (8, al[1]), (16, cap), (24, num)): put(cx, arr, o, v)
    put(cx, ctx, at, Ptr(arr, 32))
    last = Ptr(arr, bv(32) + (num - 1) * 48)
    total, used = z3.BitVec("TotalSize", 64), z3.BitVec("TotalUsed", 64); cx.inputs += [("TotalSize", total), ("TotalUsed", used)]
    put(cx, arr, last.off + 24, total); put(cx, arr, last.off + 32, used)
    cx.st.assume(And(total >= 0, total < bv(1 << 40), used >= 0, used <= total))
    sal = install_alloc(cx, "string_al", fail=False); f = off(cx, "Allocator_StrCache"); put(cx, ctx, f, sal[0]); put(cx, ctx, f + 8, sal[1])
    per = z3.BitVec("SizePer_StringArena", 32); cx.inputs.append(("SizePer_StringArena", per)); put(cx, ctx, off(cx, "SizePer_StringArena"), per, 4)
    n = cx.i("str_length"); need = z3.SignExt(32, n) + 32 + 8
    cx.require("a text that fits an empty arena", And(n >= 0, z3.ULE(need, z3.ZeroExt(32, per)), z3.ULT(per, bv(1 << 31, 32))))
    old = cx.st.mem[arr]; fits = used + need <= total
    cx.assigns(r, 16); cx.assigns(Ptr(ctx, at), 8); cx.assigns(Ptr(arr), arr.size)
    cx.panics_if(And(num == cap, z3.Not(fits)))
    def post(px):
        a2 = px.cell_ptr(Ptr(ctx, at)); d = px.cell_ptr(r.plus(8)); st = px.st
        if not isinstance(a2, Ptr) or a2.obj not in st.mem or a2.obj in st.freed: px.ensure("array of arenas", F); return
        h = lambda k: px.cell(Ptr(a2.obj, k)); m = z3.If(fits, num, num + 1)
        px.ensure("an arena more only when the last one has no room", And(a2.off == 32, h(24) == m, z3.ULE(m, h(16)), z3.UGE(a2.obj.size, h(16) * 48 + 32)))
        px.ensure("the last arena", And(T if isinstance(d, Ptr) and d.obj is a2.obj else F, d.off == 32 + (m - 1) * 48 if isinstance(d, Ptr) else F))
        if not (isinstance(d, Ptr) and d.obj is a2.obj): return
        px.ensure("it has room", px.cell(d.plus(32)) + need <= px.cell(d.plus(24)))
        px.ensure("the arenas in use are kept", FA(lambda k: z3.Implies(z3.ULT(k, num * 48), px.byte(a2, k) == mem.bits(mem.read(old, None, k + 32, 1)))))
        px.ensure("a new arena is empty", z3.Or(fits, z3.And(px.cell(d.plus(32)) == 0, px.cell(d.plus(24)) == z3.ZeroExt(32, per))))
    return post
