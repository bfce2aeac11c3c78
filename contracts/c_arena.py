"""C05: arenas.  An arena is (memory object, capacity, fill level); a block handed out lies between the old and the new fill level,
so blocks handed out since the last reset are disjoint (the fill level never decreases otherwise)."""
from spec import *
from lib import *
from alloc import *
P = ["C05"]
PW = 21      # alignments 2^0 .. 2^20

class AR: pass
def arena(cx, name="arena", backing=None):
    """Arena* parameter: memory of any address and size, any consistent fill level"""
    i = cx.nxt()
    a = AR(); a.mem = cx.obj(name + "_mem", None, align=1); a.cap = a.mem.size
    a.used, a.tmp = z3.BitVec(name + "_used", 64), z3.BitVec(name + "_temp", 64)
    cx.inputs += [(name + "_size", a.cap), (name + "_used", a.used), (name + "_addr", a.mem.addr)]
    v = cx.obj(name, 48); a.var = Ptr(v); a.base = Ptr(a.mem)
    a.back = backing or (NULL, NULL)
    c = cx.st.mem[v]
    for off, x in ((0, a.back[0]), (8, a.back[1]), (16, a.base), (24, a.cap), (32, a.used), (40, a.tmp)): c = c_write(c, None, bv(off), 8, x)
    cx.st.mem[v] = c
    cx.st.assume(And(a.cap >= 0, z3.ULT(a.cap, bv(1 << 44)), a.used >= 0, a.used <= a.cap))
    cx.args[i] = a.var
    return a
def kept(px, a, why=""):
    c = lambda k: px.cell(a.var.plus(k))
    px.ensure("backing, memory and capacity kept" + why, And(c(0) == bits(a.back[0]), c(8) == bits(a.back[1]), c(16) == bits(a.base), c(24) == a.cap, c(40) == a.tmp))
def used(px, a): return px.cell(a.var.plus(32))
def up(x, n): return (x + bv(n - 1)) & bv(~(n - 1) & (2**64 - 1))
def need(a, size, n):
    end = a.mem.addr + a.used
    return (up(end, n) - end) + up(size, n)
def block(px, a, r, size, n, why=""):
    if not isinstance(r, Ptr) or r.obj is not a.mem:
        px.ensure("block inside the arena" + why, F); return
    px.ensure("aligned" + why, (a.mem.addr + r.off) & bv(n - 1) == 0)
    px.ensure("block starts at or after the old fill level" + why, And(r.off >= a.used, r.off < a.used + n))
    px.ensure("block inside the arena and below the new fill level" + why, And(r.off + size <= used(px, a), used(px, a) <= a.cap))
    px.ensure("fill level grows by the block and its alignment only" + why, used(px, a) - a.used == need(a, size, n))

def proc(kind, name, body):
    for k in range(3):
        @contract("arena_allocator_proc/%s%d" % (name, k) if name in ("alloc", "resize") else "arena_allocator_proc/" + name, fn="arena_allocator_proc", props=P, callable=False)
        def _(cx, k=k):
            a = arena(cx); t = cx.nxt(); cx.args[t] = bv(kind, cx.f.params[t][0].a)
            return body(cx, a, k)
        if name not in ("alloc", "resize"): break
def args(cx, a, k):
    size = cx.i("size"); n = 1
    i = cx.nxt(); n = 1 << (cx.choose(7) + 7 * k); cx.args[i] = bv(n)
    cx.require("range", And(size >= 0, z3.ULT(size, bv(1 << 44))))
    return size, n
def alloc_body(cx, a, k):
    size, n = args(cx, a, k); cx.i("old_memory"); cx.i("old_size"); fl = cx.nxt(); z = cx.choose(2); cx.args[fl] = bv(z)
    cx.panics_if(need(a, size, n) > a.cap - a.used)
    cx.assigns(a.var.plus(32), 8); cx.assigns(Ptr(a.mem, a.used), a.cap - a.used)
    old = cx.st.mem[a.mem]
    def post(px):
        r = px.ptr_ret(); kept(px, a); block(px, a, r, size, n)
        px.ensure("fits", need(a, size, n) <= a.cap - a.used)
        if z and isinstance(r, Ptr) and r.obj is a.mem: px.ensure("zeroed", FA(lambda k: z3.Implies(z3.ULT(k, size), px.byte(r, k) == 0)))
        px.ensure("memory below the old fill level untouched", FA(lambda k: z3.Implies(z3.ULT(k, a.used), px.byte(a.base, k) == rdc(old, a.base, k))))
    return post
proc(0, "alloc", alloc_body)
def free_body(cx, a, k):
    cx.i("size"); cx.i("alignment"); cx.i("old_memory"); cx.i("old_size"); cx.i("flags")
    return lambda px: (kept(px, a), px.ensure("fill level kept", used(px, a) == a.used))
proc(1, "free", free_body)
def free_all_body(cx, a, k):
    cx.i("size"); cx.i("alignment"); cx.i("old_memory"); cx.i("old_size"); cx.i("flags"); cx.assigns(a.var.plus(32), 8)
    return lambda px: (kept(px, a), px.ensure("empty", used(px, a) == 0))
proc(2, "free_all", free_all_body)
def resize_body(cx, a, k):
    size, n = args(cx, a, k); i = cx.nxt(); off = z3.BitVec("old_off", 64); isnull = cx.choose(2) == 1
    cx.args[i] = NULL if isnull else Ptr(a.mem, off)
    osz = cx.i("old_size"); cx.i("flags")
    if not isnull: cx.require("old block is one of the arena's", And(off >= 0, osz >= 0, off <= a.used, osz <= a.used - off))
    grow = T if isnull else And(size != 0, size > osz)
    cx.panics_if(And(grow, need(a, size, n) > a.cap - a.used))
    cx.assigns(a.var.plus(32), 8); cx.assigns(Ptr(a.mem, a.used), a.cap - a.used)
    old = cx.st.mem[a.mem]
    def post(px):
        r = px.ptr_ret(); kept(px, a)
        if is_null(r):
            px.ensure("null only for size zero", F if isnull else size == 0); px.ensure("fill level kept", used(px, a) == a.used)
            return
        if not isnull and isinstance(r, Ptr) and r.obj is a.mem and px.ex.decide(px.st, grow) is False:
            px.ensure("not growing keeps the block", And(r.off == off, used(px, a) == a.used)); return
        px.ensure("a fresh block only when growing", grow)
        block(px, a, r, size, n)
        if not isnull and isinstance(r, Ptr) and r.obj is a.mem:
            px.ensure("contents kept", FA(lambda k: z3.Implies(z3.ULT(k, osz), px.byte(r, k) == rdc(old, Ptr(a.mem, off), k))))
        px.ensure("memory below the old fill level untouched", FA(lambda k: z3.Implies(z3.ULT(k, a.used), px.byte(a.base, k) == rdc(old, a.base, k))))
    return post
proc(3, "resize", resize_body)

@contract("arena_allocator_info", props=P, callable=False)
def _(cx):
    p = cx.sret(16); a = arena(cx)
    def post(px):
        px.ensure("allocator data is the arena", px.cell(p.plus(8)) == bits(a.var))
        f = px.ex.conv_load(px.st, p, px.ex.read(px.st, p, 8), ir.PTR)
        px.ensure("allocator procedure", T if isinstance(f, Ptr) and f.obj.kind == "fn" and px.ex.base(f.obj.fn) == "arena_allocator_proc" else F)
    return post

def fields(px, p, *vs):
    for off, v, nm in zip(range(0, 48, 8), vs, ("backing procedure", "backing data", "start", "size", "fill level", "temporary scopes")):
        if v is not None: px.ensure(nm, px.cell(p.plus(off)) == bits(v))
@contract("arena_init_from_memory", props=P, callable=False)
def _(cx):
    p = cx.sret(48); m = cx.i("start"); n = cx.i("size")
    return lambda px: fields(px, p, bv(0), bv(0), m, n, bv(0), bv(0))
def init_al(nm):
    @contract(nm, props=P, callable=False)
    def _(cx):
        p = cx.sret(48)
        if nm == "arena_init_sub":
            al = install_alloc(cx, fail=True); par = arena(cx, backing=al)
        else: al = alloc_param(cx)
        n = cx.i("size"); cx.require("range", And(n >= 0, z3.ULT(n, bv(1 << 40))))
        def post(px):
            fields(px, p, al[0], al[1], None, n, bv(0), bv(0))
            b = px.cell_ptr(p.plus(16))
            if not is_null(b): px.ensure("memory of its own", And(T if getattr(b.obj, "owner", None) is al[0].obj else F, b.off == bv(0), b.obj.size == n))
        return post
init_al("arena_init_from_allocator"); init_al("arena_init_sub")

@contract("arena_alignment_of", props=P, callable=False)
def _(cx):
    a = arena(cx); i = cx.i("alignment"); pw = z3.Or([i == bv(1 << k) for k in range(40)])
    cx.require("range", z3.And(i < bv(1 << 39)))
    cx.panics_if(z3.Not(pw))
    end = a.mem.addr + a.used
    def post(px):
        px.ensure("power of two", pw)
        for k in range(39): px.ensure("padding to 2^%d" % k, z3.Implies(i == bv(1 << k), px.ret == up(end, 1 << k) - end))
    return post
@contract("arena_size_remaining", props=P, callable=False)
def _(cx):
    a = arena(cx); i = cx.i("alignment"); pw = z3.Or([i == bv(1 << k) for k in range(40)])
    cx.require("range", z3.And(i < bv(1 << 39)))
    cx.panics_if(z3.Not(pw))
    end = a.mem.addr + a.used
    def post(px):
        for k in range(39): px.ensure("remaining at 2^%d" % k, z3.Implies(i == bv(1 << k), px.ret == a.cap - a.used - (up(end, 1 << k) - end)))
    return post
@contract("arena_check", props=P, callable=False)
def _(cx):
    a = arena(cx); cx.panics_if(a.tmp != 0)
    return lambda px: px.ensure("no temporary scope open", a.tmp == 0)
def afree(tag, k):
    @contract("arena_free/" + tag, fn="arena_free", props=P, callable=False)
    def _(cx):
        if k == 0: a = arena(cx)
        else:
            al = install_alloc(cx); a = arena(cx, backing=al); a.mem.owner = al[0].obj; cx.assigns(a.var.plus(16), 8)
        def post(px):
            if k == 0: kept(px, a); px.ensure("fill level kept", used(px, a) == a.used)
            else:
                px.ensure("memory returned to the backing allocator", T if a.mem in px.st.freed else F)
                px.ensure("no dangling memory", px.cell(a.var.plus(16)) == 0)
        return post
afree("none", 0); afree("backed", 1)
