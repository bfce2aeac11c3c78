"""The allocator protocol (AllocatorProc): what callers may rely on and must respect.
ALLOC gives a fresh block of the requested size (zeroed when asked for) or null; FREE and RESIZE take the start of a live block
of this allocator; RESIZE preserves the common prefix.  The library's own allocators are verified against their side of this
protocol separately (C05, C06)."""
import z3
import mem
from logic import *
from mem import *

def install_alloc(cx, name="allocator", fail=True):
    """an AllocatorInfo argument's two words (Proc, Data)"""
    from sym import Outcome
    data = Obj(name + "_data", 0, "abs")
    proc = Obj(name + "_proc", 1, "fn")
    live = set()
    def fn(ex, s, a, ins):
        ty, size, align, old, osize, flags = bits(a[1]), bits(a[2]), bits(a[3]), a[4], bits(a[5]), bits(a[6])
        ty = z3.simplify(z3.Extract(1, 0, ty))
        if not is_const(ty): raise_unsupported("allocation kind is not a constant")
        k = cval(ty)
        if not (isinstance(a[0], Ptr) and a[0].obj is data): ex.obl(s, "allocator-data", bits(a[0]) == bits(Ptr(data)), ins, "mem")
        if k == 2: raise_unsupported("free-all through an abstract allocator")
        fl = z3.simplify(z3.Extract(0, 0, flags))
        zero = is_const(fl) and cval(fl) == 1
        def check_old(s):
            p = ex.asptr(old)
            r = []
            for s2, q in ex.resolve(s, p):
                if is_null(q): r.append((s2, None)); continue
                ok = getattr(q.obj, "owner", None) is proc and q.obj not in s2.freed
                ex.obl(s2, "free-live-block", q.off == bv(0) if ok else F, ins, "mem")
                if not s2.dead: r.append((s2, q.obj))
            return r
        def block(s, size):
            ex.obl(s, "alloc-size", And(size >= 0, size < bv(1 << 40)), ins, "mem")
            o = ex.new_obj(s, "block", size, content=base_zero() if zero else None, align=cval(align) if is_const(align) and 0 < cval(align) <= 4096 else 1)
            o.owner = proc
            return o
        if k == 0:
            outs = []
            if fail:
                s2 = s.clone(); outs.append(Outcome(s2, NULL))
            o = block(s, size)
            if not s.dead: outs.append(Outcome(s, Ptr(o)))
            return outs
        if k == 1:
            outs = []
            for s2, o in check_old(s):
                if o is not None: s2.freed = s2.freed | {o}
                outs.append(Outcome(s2, NULL))
            return outs
        outs = []
        for s2, o in check_old(s):
            if fail:
                s3 = s2.clone(); outs.append(Outcome(s3, NULL))
            if o is not None:
                ex.obl(s2, "resize-old-size", And(osize >= 0, z3.ULE(osize, o.size)), ins, "mem")
                if s2.dead: continue
            b = block(s2, size)
            if s2.dead: continue
            if o is not None:
                n = z3.If(osize < size, osize, size)
                s2.mem[b] = c_copy(s2.mem[b], None, bv(0), n, s2.mem[o], None, bv(0))
                s2.freed = s2.freed | {o}
            outs.append(Outcome(s2, Ptr(b)))
        return outs
    proc.absfn = fn
    cx.st.mem[data] = base_uf("adata")
    return Ptr(proc), Ptr(data)

def raise_unsupported(m):
    from sym import Unsupported
    raise Unsupported(m)

def alloc_param(cx, name="allocator", fail=True, al=None):
    """AllocatorInfo passed by value (pointer to a temporary)"""
    i = cx.nxt()
    proc, data = al or install_alloc(cx, name, fail)
    t = cx.obj(name + "_tmp", 16, "stack")
    cx.st.mem[t] = c_write(c_write(cx.st.mem[t], None, bv(0), 8, proc), None, bv(8), 8, data)
    cx.args[i] = Ptr(t)
    return proc, data

def wstr(cx, c, off, v, n=8): return c_write(c, None, bv(off), n, v)
