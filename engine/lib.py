"""helpers for contracts"""
import z3
from logic import *
from mem import *
import mem
from spec import *

def rd(cx, st, p, k):
    return mem.bits(mem.read(st.mem[p.obj], p.idx, add(p.off, k if not isinstance(k, int) else bv(k)), 1))
def rdc(content, p, k):
    return mem.bits(mem.read(content, p.idx, add(p.off, k if not isinstance(k, int) else bv(k)), 1))
def ptr_eq(px, a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
        c = a.off == b.off
        if a.idx is not None: c = z3.And(c, a.idx == b.idx)
        return z3.simplify(c)
    return mem.bits(a) == mem.bits(b)

def _cstr(self, name, nullable=False):
    """NUL-terminated string parameter: (pointer, length)"""
    p = self.ptr(name, nullable=nullable) if self.verify else self.fix_ptr(self.nxt())
    if is_null(p):
        return p, bv(0)
    if self.verify:
        n = z3.BitVec(name + "_len", 64)
        self.inputs.append((name + "_len", n))
        self.st.assume(And(z3.ULT(n, p.obj.size), self.byte(p, n) == 0, FA(lambda k: z3.Implies(z3.ULT(k, n), self.byte(p, k) != 0))))
        self.st.ghost[("clen", p.obj.id, p.off.get_id())] = (self.st.mem[p.obj], n, p.off)
        return p, n
    n = cstr_len_of(self, p)
    return p, n
Ctx.cstr = _cstr
def cstr_len_of(cx, p):
    """(call) the length of a NUL-terminated string"""
    o = p.obj
    if o.const and is_const(p.off) and is_const(o.size):
        c = cx.st.mem[o]
        for i in range(cval(p.off), cval(o.size)):
            b = mem.read(c, None, bv(i), 1)
            if is_const(b) and cval(b) == 0: return bv(i - cval(p.off))
    g = cx.st.ghost.get(("clen", o.id, p.off.get_id()))
    if g is not None and g[0] is cx.st.mem[o]: return g[1]
    n = fresh("clen")
    cx.require("NUL-terminated", EX(lambda m: And(cx.ex.valid(cx.st, p.plus(m), 1), z3.ULT(m, bv(1 << 45)), cx.byte(p, m) == 0, FA(lambda k: z3.Implies(z3.ULT(k, m), z3.And(cx.byte(p, k) != 0))))))
    cx.st.assume(And(z3.ULT(n, bv(1 << 45)), cx.byte(p, n) == 0, FA(lambda k: z3.Implies(z3.ULT(k, n), cx.byte(p, k) != 0)), cx.ex.valid(cx.st, p.plus(n), 1)))
    cx.st.ghost[("clen", o.id, p.off.get_id())] = (cx.st.mem[o], n, p.off)
    return n
def _size(self, p):
    """bytes from p to the end of its object"""
    if p.obj.family: raise Unsupported("size of family element")
    return sub(p.obj.size, p.off)
Ctx.size = _size
def _ghost(self, name, bits_=64):
    v = z3.BitVec(name, bits_)
    if self.verify: self.inputs.append((name, v)); return v
    return fresh("gh_" + name, bits_)
Ctx.ghost = _ghost
def _strp(self, name, nullable=False):
    """Str parameter whose bytes are readable: (pointer, length)"""
    v = self.str(name, nullable)
    self.require("%s.Len >= 0" % name, v.len >= 0)
    if self.verify:
        if is_null(v.ptr): self.st.assume(v.len == 0)
        else: self.st.assume(z3.ULE(v.len, sub(v.ptr.obj.size, v.ptr.off)))
    else: self.require("%s readable" % name, self.readable(v.ptr, v.len))
    return v.ptr, v.len
Ctx.strp = _strp
def bool_ensure(px, name, f):
    px.ensure(name, Iff(px.bool(), f))
def u8(px, v): return v
def is_ch(c, s):
    return z3.Or([c == bv(ord(x), 8) for x in s])
def rng(c, a, b): return z3.And(z3.UGE(c, bv(ord(a), 8)), z3.ULE(c, bv(ord(b), 8)))
def is_space(c): return is_ch(c, " \t\n\r\f\v")
def is_upper(c): return rng(c, "A", "Z")
def is_lower(c): return rng(c, "a", "z")
def is_digit(c): return rng(c, "0", "9")
