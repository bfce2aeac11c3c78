"""C08: crc32/crc64 equal the table-free bitwise definition for every byte sequence."""
import re
import mem
from spec import *
from lib import *
P = ["C08"]

def step8(x, poly, w):
    for _ in range(8):
        x = z3.LShR(x, 1) ^ z3.If(z3.Extract(0, 0, x) == 1, bv(poly, w), bv(0, w))
    return x
def step8_int(x, poly):
    for _ in range(8): x = (x >> 1) ^ (poly if x & 1 else 0)
    return x

def crc_tables(cx, poly, w):
    """constant 256-entry tables of the module that hold this polynomial's byte steps: each entry is an obligation; then every
    lookup T(i) is rewritten to the bitwise definition"""
    ex = cx.ex
    for g, raw in ex.mod.globals_raw.items():
        if "[256 x i%d]" % w not in raw[:120] or "constant" not in raw[:60]: continue
        ty, init, const, tl = ex.mod.glob(g)
        if init is None or init.k != "agg": continue
        data = [x.v & ((1 << w) - 1) for x in init.v]
        if sum(data[i] == step8_int(i, poly) for i in range(256)) < 128: continue
        for i in range(256):
            if data[i] != step8_int(i, poly): ex.obl(cx.st, "crc table entry %d (0x%x) is not the polynomial step of %d (0x%x)" % (i, data[i], i, step8_int(i, poly)), F)
            else: ex.trivial = getattr(ex, "trivial", 0) + 1
        p = ex.global_ptr(cx.st, g)
        f = cx.st.mem[p.obj].v
        def facts(a, poly=poly, w=w):
            i = a.arg(0)
            j = z3.simplify(z3.Extract(w - 1, 0, i)) if w < 64 else i
            return [z3.Implies(z3.ULT(i, bv(256)), a == step8(j, poly, w))]
        mem.GAPP[f.name()] = facts

def crc_spec(nm, poly, w, init, fin):
    @contract(nm, props=P, callable=False)
    def _(cx):
        d = cx.ptr("data"); n = cx.i("len")
        cx.require("readable", And(n >= 0, cx.readable(d, n)))
        crc_tables(cx, poly, w)
        R = z3.Function("%s_def" % nm, z3.BitVecSort(64), z3.BitVecSort(w))
        B = lambda k: cx.byte(d, k)
        # definition: register after k bytes
        cx.st.assume(R(bv(0)) == bv(init, w))
        cx.st.assume(FA(lambda k: R(k + 1) == step8(R(k) ^ z3.ZeroExt(w - 8, B(k)), poly, w)))
        cx.template(lambda st, v, x, e: (x == R(e)) if x.size() == w else None, "varprog")
        cx.template(lambda st, e: z3.And(e >= 0, e <= n))
        def post(px):
            px.ensure("equals the bitwise definition", px.ret == (R(n) ^ bv(fin, w)))
        return post
crc_spec("crc32", 0xEDB88320, 32, 0xFFFFFFFF, 0xFFFFFFFF)
crc_spec("crc64", 0x95AC9329AC4BC9B5, 64, 0, 0)

@contract("crc32#fn", fn="crc32", props=[], trusted=False)
def _(cx):
    """at calls: the hash is a function of the bytes; callers may rely on nothing else"""
    d = cx.ptr("data"); n = cx.i("len")
    cx.require("readable", And(n >= 0, cx.readable(d, n)))
    def post(px): pass
    return post
