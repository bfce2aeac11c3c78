"""C06: pools.  The free list is a ghost stack F(0..n-1) of block offsets: the word in block F(i) points to block F(i-1), the head is
F(n-1), blocks are pairwise disjoint.  Allocation pops, release pushes, clearing rebuilds the stack of all blocks."""
from spec import *
from lib import *
from alloc import *
P = ["C06"]

class PL: pass
FLD = ("backing procedure", "backing data", "start", "free list", "block size", "block alignment", "in use", "blocks")
def pool(cx, n0=True, align=None):
    i = cx.nxt(); p = PL(); p.mem = cx.obj("pool_mem", None, align=align or 1); p.base = Ptr(p.mem)
    p.bs, p.ba, p.used, p.num = [z3.BitVec(x, 64) for x in ("BlockSize", "BlockAlign", "TotalSize", "NumBlocks")]
    if align: p.ba = bv(align)
    cx.inputs += [("BlockSize", p.bs), ("BlockAlign", p.ba), ("TotalSize", p.used), ("NumBlocks", p.num)]
    v = cx.obj("pool", 64); p.var = Ptr(v); p.back = (NULL, NULL)
    p.F = z3.Function("free_block", z3.BitVecSort(64), z3.BitVecSort(64)); p.n = z3.BitVec("free_count", 64)
    p.head = Ptr(p.mem, p.F(p.n - 1)) if n0 else NULL
    p.word = lambda st, off: mem.bits(mem.read(st.mem[p.mem], None, off, 8))
    cx.st.assume(And(p.bs >= 8, p.bs < bv(1 << 40), p.used >= 0, p.used < bv(1 << 60), p.num >= 1, p.num < bv(1 << 40), p.n >= 0, p.n <= p.num, p.n != 0 if n0 else p.n == 0))
    c = cx.st.mem[v]
    for off, x in zip(range(0, 64, 8), (p.back[0], p.back[1], p.base, p.head, p.bs, p.ba, p.used, p.num)): c = c_write(c, None, bv(off), 8, x)
    cx.st.mem[v] = c
    cx.args[i] = p.var
    return p
def apart(a, b, n): return z3.Or(z3.And(a <= b, b - a >= n), z3.And(b <= a, a - b >= n))
def chain(p, st, i): return p.word(st, p.F(i)) == z3.If(i == 0, bv(0), p.mem.addr + p.F(i - 1))
def wf(cx, p):
    st = cx.st
    cx.require("free blocks lie in the pool", FA(lambda i: z3.Implies(z3.ULT(i, p.n), z3.And(p.F(i) >= 0, p.F(i) <= p.mem.size - p.bs, p.mem.size >= p.bs))))
    if not is_null(p.head): cx.require("head", chain(p, st, p.n - 1))
    cx.require("free list", FA(lambda i: z3.Implies(z3.ULT(i, p.n), chain(p, st, i))))
def fld(px, p, k): return px.cell(p.var.plus(8 * k))
def kept(px, p, ks=(0, 1, 2, 4, 5, 7)):
    vals = (p.back[0], p.back[1], p.base, p.head, p.bs, p.ba, p.used, p.num)
    for k in ks: px.ensure(FLD[k] + " kept", fld(px, p, k) == bits(vals[k]))

def alloc_case(tag, n0):
    @contract("pool_allocator_proc/alloc" + tag, fn="pool_allocator_proc", props=P, callable=False)
    def _(cx):
        p = pool(cx, n0); t = cx.nxt(); cx.args[t] = bv(0, cx.f.params[t][0].a)
        size, al = cx.i("size"), cx.i("alignment"); cx.i("old_memory"); cx.i("old_size"); i = cx.nxt(); z = cx.choose(2); cx.args[i] = bv(z)
        cx.panics_if(Or(size != p.bs, al != p.ba, F if n0 else T))
        if n0:
            wf(cx, p)
            cx.require("free blocks are disjoint", FA(lambda i: z3.Implies(z3.ULT(i, p.n - 1), apart(p.F(i), p.F(p.n - 1), p.bs))))
            cx.assigns(p.var.plus(24), 8); cx.assigns(p.var.plus(48), 8)
            if z: cx.assigns(p.head, p.bs)
        old = cx.st.mem[p.mem]
        def post(px):
            if not n0: px.ensure("an exhausted pool refuses", F); return
            r = px.ptr_ret()
            px.ensure("size and alignment match", And(size == p.bs, al == p.ba))
            px.ensure("the head of the free list is handed out", ptr_eq(px, r, p.head))
            px.ensure("it leaves the free list", fld(px, p, 3) == z3.If(p.n == 1, bv(0), p.mem.addr + p.F(p.n - 2)))
            px.ensure("the other free blocks stay linked", FA(lambda i: z3.Implies(z3.ULT(i, p.n - 1), chain(p, px.st, i))))
            px.ensure("accounting", fld(px, p, 6) == p.used + p.bs)
            if z: px.ensure("zeroed", FA(lambda k: z3.Implies(z3.ULT(k, p.bs), px.byte(r, k) == 0)))
            kept(px, p)
        return post
alloc_case("", True); alloc_case("/empty", False)

def free_case(tag, n0, null):
    @contract("pool_allocator_proc/free" + tag, fn="pool_allocator_proc", props=P, callable=False)
    def _(cx):
        p = pool(cx, n0); t = cx.nxt(); cx.args[t] = bv(1, cx.f.params[t][0].a)
        cx.i("size"); cx.i("alignment"); i = cx.nxt(); b = z3.BitVec("block_off", 64); cx.args[i] = NULL if null else Ptr(p.mem, b); cx.i("old_size"); cx.i("flags")
        if n0: wf(cx, p)
        if not null:
            cx.require("the block is the pool's and owned", And(b >= 0, b <= p.mem.size - p.bs, p.mem.size >= p.bs, FA(lambda i: z3.Implies(z3.ULT(i, p.n), apart(p.F(i), b, p.bs)))))
            cx.assigns(p.var.plus(24), 8); cx.assigns(p.var.plus(48), 8); cx.assigns(Ptr(p.mem, b), 8)
        def post(px):
            if null:
                px.ensure("nothing to release", T if is_null(px.ptr_ret()) else F); kept(px, p, range(8)); return
            px.ensure("the block is the new head", fld(px, p, 3) == p.mem.addr + b)
            px.ensure("linked to the old head", p.word(px.st, b) == bits(p.head))
            px.ensure("the other free blocks stay linked", FA(lambda i: z3.Implies(z3.ULT(i, p.n), chain(p, px.st, i))))
            px.ensure("accounting", fld(px, p, 6) == p.used - p.bs); kept(px, p)
        return post
free_case("", True, False); free_case("/first", False, False); free_case("/null", True, True)

@contract("pool_allocator_proc/resize", fn="pool_allocator_proc", props=P, callable=False)
def _(cx):
    p = pool(cx); t = cx.nxt(); cx.args[t] = bv(3, cx.f.params[t][0].a)
    for x in ("size", "alignment", "old", "old_size", "flags"): cx.i(x)
    cx.panics_if(T)
    return lambda px: px.ensure("resizing is refused", F)

def lemma(cx, name, f):
    cx.ex.obl(cx.st, "lemma:" + name, f, None, "lemma"); cx.st.assume(f)
def stride(bs, n): return ((bs + bv(n - 1)) & bv(~(n - 1) & (2**64 - 1))) + bv(n)
def ladder(cx, p, n, sd):
    """O(k) = k * stride"""
    lemma(cx, "stride", z3.And(sd & bv(n - 1) == 0, sd >= p.bs, sd < bv(1 << 42), sd >= 8))
    O = p.O = z3.Function("block_offset", z3.BitVecSort(64), z3.BitVecSort(64))
    cx.require("multiples of the stride", And(O(bv(0)) == 0, FA(lambda k: z3.Implies(z3.ULT(k, p.num), z3.And(O(k + 1) == O(k) + sd, O(k) >= 0, O(k) <= p.mem.size - sd, p.mem.size >= sd)))))
    p.wd = lambda st, j: p.word(st, O(j))
    ok = lambda v, u: v.kind == "ptr" and u.kind == "int" and u.n == 64
    cx.template(lambda st, v, x, u, y: z3.And(x == O(y), y >= 0, y < p.num, x & bv(n - 1) == 0) if ok(v, u) else None, "varvar")
    cx.template(lambda st, v, x, u, y: FA(lambda j: z3.Implies(z3.ULT(j, y), z3.And(O(j) <= x - sd, x >= sd, O(j) & bv(n - 1) == 0))) if ok(v, u) else None, "varvar")
    cx.template(lambda st, v, x, u, y: FA(lambda j: z3.Implies(z3.ULT(j, y), p.wd(st, j) == p.mem.addr + O(j + 1))) if ok(v, u) else None, "varvar")
def rebuilt(px, p, n):
    O = p.O
    px.ensure("every block is linked to the next", FA(lambda j: z3.Implies(z3.ULT(j, p.num - 1), p.wd(px.st, j) == p.mem.addr + O(j + 1))))
    px.ensure("the last block ends the list", p.wd(px.st, p.num - 1) == 0)
    px.ensure("every block is aligned", FA(lambda j: z3.Implies(z3.ULT(j, p.num), (p.mem.addr + O(j)) & bv(n - 1) == 0)))
    px.ensure("blocks do not overlap", stride(p.bs, n) >= p.bs)

def clear_case(fn, tag, n):
    @contract("%s/%s%d" % (fn, tag, n), fn=fn, props=P, callable=False, opts={"loop_to": 40.0}, deep=(fn, n) not in (("pool_clear", 8), ("pool_allocator_proc", 16)))
    def _(cx):
        p = pool(cx, True, n)
        if fn == "pool_allocator_proc":
            t = cx.nxt(); cx.args[t] = bv(2, cx.f.params[t][0].a)
            for x in ("size", "alignment", "old", "old_size", "flags"): cx.i(x)
        ladder(cx, p, n, stride(p.bs, n))
        cx.assigns(p.var.plus(24), 8); cx.assigns(p.var.plus(48), 8); cx.assigns(p.base, p.mem.size)
        def post(px):
            rebuilt(px, p, n); px.ensure("first block first", fld(px, p, 3) == p.mem.addr); px.ensure("nothing in use", fld(px, p, 6) == 0); kept(px, p)
        return post
for n_ in (1, 8, 16, 64):
    clear_case("pool_clear", "align", n_); clear_case("pool_allocator_proc", "free_all", n_)

def init_call(cx, r, n):
    """a call of pool_init with a backing allocator that succeeds"""
    t = cx.fix_ptr(cx.nxt()); proc, data = cx.cell_ptr(t), cx.cell_ptr(t.plus(8))
    num, bs = cx.i("num_blocks"), cx.i("block_size")
    cx.require("range", And(num >= 1, num < bv(1 << 20), bs >= 8, bs < bv(1 << 18)))
    sd = stride(bs, n)
    b = cx.ex.new_obj(cx.st, "pool_memory", num * sd, align=n); b.owner = proc.obj
    O = b.blocks_at = z3.Function("block_offset_%d" % b.id, z3.BitVecSort(64), z3.BitVecSort(64))
    wd = lambda st, j: mem.bits(mem.read(st.mem[b], None, O(j), 8))
    def post(px):
        for k, v in ((0, proc), (1, data), (2, Ptr(b)), (3, Ptr(b)), (4, bs), (5, bv(n)), (6, bv(0)), (7, num)): px.set_cell(r.plus(8 * k), v)
        px.ensure("multiples of the stride", And(O(bv(0)) == 0, O(bv(1)) == sd, b.size >= sd, FA(lambda k: z3.Implies(z3.ULT(k, num), z3.And(O(k + 1) == O(k) + sd, O(k) >= 0, O(k) <= b.size - sd, z3.Implies(z3.UGE(k, 1), O(k) >= sd))))))
        px.ensure("every block is linked to the next", FA(lambda j: z3.Implies(z3.ULT(j, num - 1), wd(px.st, j) == b.addr + O(j + 1))))
        px.ensure("the last block ends the list", wd(px.st, num - 1) == 0)
        px.ensure("every block is aligned", FA(lambda j: z3.Implies(z3.ULT(j, num), (b.addr + O(j)) & bv(n - 1) == 0)))
    return post

def init_case(fn, n):
    @contract("%s/align%d" % (fn, n), fn=fn, props=P, callable=fn == "pool_init", opts={"loop_to": 40.0}, deep=n not in (16, 64))
    def _(cx):
        p = PL(); r = cx.sret(64)
        if not cx.verify: return init_call(cx, r, n)
        p.al = alloc_param(cx, fail=False)
        p.num, p.bs = cx.i("num_blocks"), cx.i("block_size")
        if fn == "pool_init_align": i = cx.nxt(); cx.args[i] = bv(n)
        cx.require("range", And(p.num >= 1, p.num < bv(1 << 20), p.bs >= 8, p.bs < bv(1 << 18)))
        sd = stride(p.bs, n); total = p.num * sd
        lemma(cx, "stride", z3.And(sd & bv(n - 1) == 0, sd >= p.bs, sd >= 8, sd < bv(1 << 19)))
        O = z3.Function("block_offset", z3.BitVecSort(64), z3.BitVecSort(64))
        cx.require("multiples of the stride", And(O(bv(0)) == 0, total >= sd, total < bv(1 << 40), FA(lambda k: z3.Implies(z3.ULT(k, p.num), z3.And(O(k + 1) == O(k) + sd, O(k) >= 0, O(k) <= total - sd)))))
        wd = lambda st, o, j: mem.bits(mem.read(st.mem[o], None, O(j), 8))
        ok = lambda st, v, u: v.kind == "ptr" and u.kind == "int" and u.n == 64 and getattr(v.obj, "owner", None) is p.al[0].obj and v.obj in st.mem
        cx.template(lambda st, v, x, u, y: z3.And(x == O(y), y >= 0, y < p.num, x & bv(n - 1) == 0) if ok(st, v, u) else None, "varvar")
        cx.template(lambda st, v, x, u, y: FA(lambda j: z3.Implies(z3.ULT(j, y), z3.And(O(j) <= x - sd, x >= sd, O(j) & bv(n - 1) == 0))) if ok(st, v, u) else None, "varvar")
        cx.template(lambda st, v, x, u, y: FA(lambda j: z3.Implies(z3.ULT(j, y), wd(st, v.obj, j) == v.obj.addr + O(j + 1))) if ok(st, v, u) else None, "varvar")
        def post(px):
            b = px.cell_ptr(r.plus(16))
            if is_null(b) or getattr(b.obj, "owner", None) is not p.al[0].obj: px.ensure("memory from the backing allocator", F); return
            px.ensure("start of a block large enough", And(b.off == 0, b.obj.size == total))
            for k, v in ((0, p.al[0]), (1, p.al[1]), (3, b), (4, p.bs), (5, bv(n)), (6, bv(0)), (7, p.num)): px.ensure(FLD[k], px.cell(r.plus(8 * k)) == bits(v))
            px.ensure("every block is linked to the next", FA(lambda j: z3.Implies(z3.ULT(j, p.num - 1), wd(px.st, b.obj, j) == b.obj.addr + O(j + 1))))
            px.ensure("the last block ends the list", wd(px.st, b.obj, p.num - 1) == 0)
            px.ensure("every block is aligned", FA(lambda j: z3.Implies(z3.ULT(j, p.num), (b.obj.addr + O(j)) & bv(n - 1) == 0)))
        return post
for n_ in (1, 8, 64): init_case("pool_init_align", n_)
init_case("pool_init", 16)

@contract("pool_free", props=P, callable=False)
def _(cx):
    al = install_alloc(cx); p = pool(cx); p.mem.owner = al[0].obj
    cx.st.mem[p.var.obj] = c_write(c_write(cx.st.mem[p.var.obj], None, bv(0), 8, al[0]), None, bv(8), 8, al[1])
    return lambda px: px.ensure("memory returned to the backing allocator", T if p.mem in px.st.freed else F)
@contract("pool_allocator_info", props=P, callable=False)
def _(cx):
    r = cx.sret(16); p = pool(cx)
    def post(px):
        px.ensure("allocator data is the pool", px.cell(r.plus(8)) == bits(p.var))
        f = px.ex.conv_load(px.st, r, px.ex.read(px.st, r, 8), ir.PTR)
        px.ensure("allocator procedure", T if isinstance(f, Ptr) and f.obj.kind == "fn" and px.ex.base(f.obj.fn) == "pool_allocator_proc" else F)
    return post
