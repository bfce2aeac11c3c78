"""The library context: new nodes (C24)."""
from spec import *
from lib import *
from alloc import *
import sym, ir
from c_pool import chain, apart, FLD
P24 = ["C24"]
def off(cx, n):
    """offset of a field of the context (a constant compiled from the current sources)"""
    for g in cx.ex.mod.globals_raw:
        if ("verif_off_" + n + "E") in g: return cx.ex.mod.glob(g)[1].v
    raise Unsupported("layout of the context: " + n)
def context(cx):
    x = cx.obj("context", off_total(cx)); g = [n for n in cx.ex.mod.globals_raw if n.strip('@"') == "_ZN3gen4_ctxE"]
    if not g: raise Unsupported("no active context")
    p = cx.ex.global_ptr(cx.st, g[0]); cx.st.mem[p.obj] = c_write(cx.st.mem[p.obj], None, bv(0), 8, Ptr(x))
    return x
def off_total(cx):
    for g in cx.ex.mod.globals_raw:
        if "verif_off_ContextE" in g: return cx.ex.mod.glob(g)[1].v
    raise Unsupported("layout of the context")
def put(cx, o, k, v, n=8): cx.st.mem[o] = c_write(cx.st.mem[o], None, k if isinstance(k, z3.ExprRef) else bv(k), n, v)
AST, AL = 128, 16       # node size, alignment handed to every pool of nodes

@contract("make_code:pool", fn="make_code", props=P24, callable=False)
def _(cx):
    ctx = context(cx); fresh_pool = cx.choose(2)
    at = off(cx, "CodePools")
    # the array of pools; the last one is in use
    al = install_alloc(cx, "array_al"); arr = cx.obj("pools", None, align=16); arr.owner = al[0].obj
    cap, num = z3.BitVec("pools_capacity", 64), z3.BitVec("pools", 64); cx.inputs += [("pools", num)]
    cx.st.assume(And(z3.ULE(num, cap), z3.UGE(num, 1), z3.ULT(cap, bv(1 << 24)), z3.UGE(arr.size, cap * 64 + 32)))
    for o, v in ((0, al[0]), (8, al[1]), (16, cap), (24, num)): put(cx, arr, o, v)
    put(cx, ctx, at, Ptr(arr, 32))
    last = Ptr(arr, bv(32) + (num - 1) * 64)
    m = cx.obj("pool_mem", None, align=AL)
    F = z3.Function("free_block", z3.BitVecSort(64), z3.BitVecSort(64)); n = z3.BitVec("free_count", 64)
    cx.st.assume(And(n >= 0, n < bv(1 << 40), (n == 0) if fresh_pool else n != 0))
    used, nb = z3.BitVec("TotalSize", 64), z3.BitVec("NumBlocks", 64); cx.st.assume(And(used >= 0, used < bv(1 << 60)))
    head = NULL if fresh_pool else Ptr(m, F(n - 1))
    for k, v in zip(range(0, 64, 8), (NULL, NULL, Ptr(m), head, bv(AST), bv(AL), used, nb)): put(cx, arr, last.off + k, v)
    word = lambda st, o, x: mem.bits(mem.read(st.mem[o], None, x, 8))
    class p_: pass
    p_.F, p_.mem, p_.word = F, m, lambda st, x: word(st, m, x)
    if not fresh_pool:
        cx.require("free blocks lie in the pool, aligned", FA(lambda i: z3.Implies(z3.ULT(i, n), z3.And(F(i) >= 0, F(i) <= m.size - AST, m.size >= AST, (m.addr + F(i)) & bv(AL - 1) == 0))))
        cx.require("head", chain(p_, cx.st, n - 1))
        cx.require("free list", FA(lambda i: z3.Implies(z3.ULT(i, n), chain(p_, cx.st, i))))
        cx.require("free blocks are disjoint", FA(lambda i: z3.Implies(z3.ULT(i, n - 1), apart(F(i), F(n - 1), bv(AST)))))
        cx.st.assume(And(F(n - 1) >= 0, F(n - 1) <= m.size - AST, m.size >= AST, (m.addr + F(n - 1)) & bv(AL - 1) == 0))       # an instance
        cx.assigns(last.plus(24), 8); cx.assigns(last.plus(48), 8); cx.assigns(head, AST)
    else:
        pal = install_alloc(cx, "pool_al", fail=False)
        for k, v in ((0, pal[0]), (8, pal[1])): put(cx, ctx, off(cx, "Allocator_Pool") + k, v)
        nn = z3.BitVec("CodePool_NumBlocks", 32); cx.inputs.append(("CodePool_NumBlocks", nn)); put(cx, ctx, off(cx, "CodePool_NumBlocks"), nn, 4)
        cx.require("blocks per pool", And(z3.UGE(nn, 1), z3.ULT(nn, bv(1 << 20, 32))))
        cx.assigns(Ptr(ctx, at), 8); cx.assigns(Ptr(arr), arr.size)
        cx.panics_if(num == cap)        # only when the array cannot grow
    old = cx.st.mem[arr]
    def post(px):
        v = px.ret; r = px.pick(v if is_ptr(v) else from_bits(v)); st = px.st
        if not isinstance(r, Ptr) or is_null(r) or r.obj not in st.mem: px.ensure("a node", F); return
        o = r.obj
        px.ensure("blank", FA(lambda k: z3.Implies(z3.ULT(k, bv(AST)), px.byte(r, k) == 0)))
        px.ensure("aligned", (o.addr + r.off) & bv(AL - 1) == 0)
        a2 = px.cell_ptr(Ptr(ctx, at))
        if not fresh_pool:
            px.ensure("a free block of the pool", ptr_eq(px, r, head))
            px.ensure("taken off the free list", px.cell(last.plus(24)) == z3.If(n == 1, bv(0), m.addr + F(n - 2)))
            px.ensure("the other free blocks stay free and linked", FA(lambda i: z3.Implies(z3.ULT(i, n - 1), z3.And(chain(p_, st, i), apart(F(i), r.off, bv(AST))))))
            px.ensure("pools kept", And(ptr_eq(px, a2, Ptr(arr, 32)), px.cell(Ptr(arr, 24)) == num))
            for k in (2, 4, 5): px.ensure(FLD[k], px.cell(last.plus(8 * k)) == word_of(old, last.off + 8 * k))
            return
        px.ensure("fresh memory of the context's allocator", T if getattr(o, "owner", None) is pal[0].obj and o not in st.freed and o.id > px.ex.assigns_base else F)
        px.ensure("start of it", r.off == 0)
        if not isinstance(a2, Ptr) or a2.obj not in st.mem or a2.obj in st.freed: px.ensure("array of pools", F); return
        h = lambda k: px.cell(Ptr(a2.obj, k))
        px.ensure("one pool more", And(a2.off == 32, h(24) == num + 1, z3.ULE(num + 1, h(16)), z3.UGE(a2.obj.size, h(16) * 64 + 32)))
        new = Ptr(a2.obj, bv(32) + num * 64)
        for k, v in ((2, o.addr), (4, bv(AST)), (5, bv(AL)), (6, bv(AST)), (7, z3.ZeroExt(32, nn))): px.ensure("new pool: " + FLD[k], px.cell(new.plus(8 * k)) == v)
        O = o.blocks_at
        px.ensure("its other blocks are free", And(px.cell(new.plus(24)) == z3.If(nn == 1, bv(0, 64), o.addr + O(bv(1))), FA(lambda j: z3.Implies(z3.And(z3.UGE(j, 1), z3.ULT(j, z3.ZeroExt(32, nn) - 1)), word(st, o, O(j)) == o.addr + O(j + 1)))))
        px.ensure("and apart from the node", FA(lambda j: z3.Implies(z3.And(z3.UGE(j, 1), z3.ULT(j, z3.ZeroExt(32, nn))), z3.And(O(j) >= AST, O(j) <= o.size - AST))))
        px.ensure("earlier pools kept", FA(lambda k: z3.Implies(z3.ULT(k, num * 64), px.byte(a2, k) == mem.bits(mem.read(old, None, k + 32, 1)))))
    return post
def word_of(c, o): return mem.bits(mem.read(c, None, o, 8))
