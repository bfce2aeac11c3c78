"""Object memory model.

A pointer is (object, byte offset); a *family* is an object whose elements are addressed by a 64-bit address `idx`
(AST nodes, interned strings).  Contents are persistent chains of updates over an uninterpreted (or constant) base, so a
read is an exact, byte-precise function of every earlier write.
"""
import itertools
import z3
from logic import *

_oid = itertools.count()
ADDR = {}          # id of address symbol -> (symbol, object)

class Obj:
    def __init__(self, name, size, kind="heap", const=False, family=False, align=8, lazy_addr=True):
        self.id = next(_oid)
        self.name, self.kind, self.const, self.family, self.align = name, kind, const, family, align
        self.size = bv(size) if isinstance(size, int) else size
        self._addr = None
        self.cellty = {}          # constant offset -> family object (what a raw value loaded from there points into)
        self.cellfn = None        # or a function (idx, off) -> family object or None
        self.valid = None         # family: function(state, idx) -> formula
        self.elem = None          # family: element size
        self.fn = None            # function object: IR name
        self.absfn = None         # abstract function: python contract
        self.fresh_in = None
        self.parent = None
        self.wr = None            # optional write hook
    @property
    def addr(self):
        if self.family: return bv(0)
        if self._addr is None:
            self._addr = z3.BitVec("addr_%s_%d" % (self.name, self.id), 64)
            ADDR[self._addr.get_id()] = (self._addr, self)
        return self._addr
    def addr_facts(self):
        a = self.addr
        fs = [z3.UGE(a, bv(0x10000)), z3.ULE(a, bv(1 << 46)), z3.ULE(self.size, bv(1 << 45))]
        if self.align > 1: fs.append((a & bv(self.align - 1)) == 0)
        return fs
    def __repr__(self): return "<%s#%d>" % (self.name, self.id)

NULLOBJ = Obj("null", 0, "null"); NULLOBJ._addr = bv(0)
RAW = Obj("raw", 0, "raw"); RAW._addr = bv(0)

class Ptr:
    __slots__ = ("obj", "off", "idx")
    def __init__(self, obj, off=None, idx=None):
        self.obj = obj
        self.off = bv(0) if off is None else (bv(off) if isinstance(off, int) else off)
        self.idx = idx
    def __repr__(self):
        return "Ptr(%r%s+%s)" % (self.obj, "" if self.idx is None else "[%s]" % self.idx, self.off)
    def plus(self, d):
        if isinstance(d, int): d = bv(d)
        return Ptr(self.obj, add(self.off, d), self.idx)
NULL = Ptr(NULLOBJ)

class PtrIte:
    __slots__ = ("c", "a", "b")
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def __repr__(self): return "PtrIte(%s,%r,%r)" % (self.c, self.a, self.b)
    def plus(self, d): return PtrIte(self.c, self.a.plus(d), self.b.plus(d))

def is_ptr(v): return isinstance(v, (Ptr, PtrIte))
def is_null(p): return isinstance(p, Ptr) and (p.obj is NULLOBJ) and is_const(p.off) and cval(p.off) == 0
def bits(v):
    """64-bit address value of a pointer (identity on bit-vectors)"""
    if isinstance(v, PtrIte): return z3.If(v.c, bits(v.a), bits(v.b))
    if isinstance(v, Ptr):
        if v.obj.family: return add(v.idx, v.off)
        return add(v.obj.addr, v.off)
    return v
def same_ptr(a, b):
    return isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.off.eq(b.off) and \
        ((a.idx is None) == (b.idx is None)) and (a.idx is None or a.idx.eq(b.idx))
def from_bits(e, fam=None):
    """64-bit value -> pointer, recovering provenance when the value visibly is address-of-object + offset"""
    if is_ptr(e): return e
    if is_const(e) and cval(e) == 0: return NULL if fam is None else Ptr(fam, 0, bv(0))
    if fam is not None: return Ptr(fam, 0, e)
    l, c = lin(e)
    hit = [i for i in l if i in ADDR and l[i][1] == 1]
    if len(hit) == 1:
        o = ADDR[hit[0]][1]
        acc = dict(l); del acc[hit[0]]
        return Ptr(o, unlin(acc, c, 64))
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return PtrIte(e.arg(0), from_bits(e.arg(1)), from_bits(e.arg(2)))
    return Ptr(RAW, e)

# ----------------------------------------------------------------------------- contents
class C:
    __slots__ = ("k", "prev", "idx", "off", "n", "v", "src", "sidx", "soff", "cache", "depth", "pred", "base", "lo")
    def __init__(self, k, prev=None, **kw):
        self.k, self.prev = k, prev
        self.cache = {}; self.lo = 0
        self.depth = prev.depth + 1 if prev is not None else 0
        for a in ("idx", "off", "n", "v", "src", "sidx", "soff", "pred", "base"): setattr(self, a, kw.get(a))

GFACTS = {}       # uninterpreted function name -> ground facts about it
GAPP = {}         # uninterpreted function name -> facts about one application (replaces GFACTS)

def base_uf(name):
    """fresh byte contents"""
    f = z3.Function("%s!%d" % (name, next(_oid)), z3.BitVecSort(64), z3.BitVecSort(8))
    return C("base", base=lambda idx, off, n: _uf_read(f, off, n), v=f)
def _uf_read(f, off, n):
    if n == 1: return f(off)
    return z3.Concat([f(add(off, bv(i))) for i in reversed(range(n))])

def base_words(name):
    """family contents: 8-byte words addressed by (idx, word index); reads must be at constant offsets or word aligned"""
    f = z3.Function("%s!%d" % (name, next(_oid)), z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
    def rd(idx, off, n):
        if is_const(off):
            o = cval(off)
            if o % 8 == 0 and n == 8: return f(idx, bv(o // 8))
            if o // 8 == (o + n - 1) // 8:
                s = (o % 8) * 8
                return z3.Extract(s + 8 * n - 1, s, f(idx, bv(o // 8)))
            return z3.Concat([rd(idx, bv(o + i), 1) for i in reversed(range(n))])
        w = f(idx, z3.LShR(off, bv(3)))
        if n == 8:
            l, c = lin(off)
            if c % 8 == 0 and all(k % 8 == 0 for (_, k) in l.values()): return w
        if n in (1, 2, 4):
            l, c = lin(off)
            if c % n == 0 and all(k % n == 0 for (_, k) in l.values()):
                sh = (off & bv(7)) << 3
                return z3.Extract(8 * n - 1, 0, z3.LShR(w, sh))
        if n > 1: return z3.Concat([rd(idx, add(off, bv(i)), 1) for i in reversed(range(n))])
        raise AssertionError
    return C("base", base=rd, v=f)

def base_words1(name):
    """contents of one object as 8-byte words: the word at byte offset 8g is f(g)"""
    f = z3.Function("%s!%d" % (name, next(_oid)), z3.BitVecSort(64), z3.BitVecSort(64))
    sg = lambda k: k - (1 << 64) if k >> 63 else k
    def rd(idx, off, n):
        l, c = lin(off)
        c = sg(c)
        if all(k % 8 == 0 for (_, k) in l.values()) and c % 8 + n <= 8:
            w = f(unlin({i: (t, (sg(k) // 8) & (2**64 - 1)) for i, (t, k) in l.items()}, (c // 8) & (2**64 - 1), 64))
            s = (c % 8) * 8
            return w if n == 8 else z3.Extract(s + 8 * n - 1, s, w)
        if n in (1, 2, 4) and c % n == 0 and all(k % n == 0 for (_, k) in l.values()):
            return z3.Extract(8 * n - 1, 0, z3.LShR(f(z3.LShR(off, bv(3))), (off & bv(7)) << 3))
        return z3.Concat([rd(idx, add(off, bv(i)), 1) for i in reversed(range(n))])
    return C("base", base=rd, v=f)

def base_hdr(name, cells):
    """words of an array object whose first bytes are a header of known words (offset -> value).  A read at a symbolic offset yields the
    element word: an index that wraps into the header yields an unconstrained word (more behaviours, never fewer)"""
    b = base_words1(name)
    def rd(idx, off, n):
        if is_const(off):
            o = cval(off)
            if o in cells and n == 8: return cells[o]
            for a, v in cells.items():
                if a <= o and o + n <= a + 8: return z3.simplify(z3.Extract(8 * (o - a + n) - 1, 8 * (o - a), bits(v)))
        return b.base(idx, off, n)
    c = C("base", base=rd, v=b.v); c.src = dict(cells); return c
def residue_apart(a, b, n, m):
    """(n bytes at a, m bytes at b) never overlap, by their offsets modulo a power of two"""
    l, c = lin(sub(a, b))
    if not l: return False
    g = 1 << 12
    for (_, k) in l.values(): g = min(g, k & -k)
    if g < 16: return False
    r = c % g
    return r >= m and r + n <= g

def base_words_ro(name, f):
    return C("base", base=None, v=f)

def base_bytes2(name):
    """family of byte strings: (idx, off) -> byte"""
    f = z3.Function("%s!%d" % (name, next(_oid)), z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8))
    def rd(idx, off, n):
        if n == 1: return f(idx, off)
        return z3.Concat([f(idx, add(off, bv(i))) for i in reversed(range(n))])
    return C("base", base=rd, v=f)

def base_zero():
    return C("base", base=lambda idx, off, n: bv(0, 8 * n))

def base_const(name, data, elem=1):
    """constant bytes; symbolic reads become an uninterpreted function with one ground fact per element"""
    n_el = len(data) // elem
    f = z3.Function("%s!%d" % (name, next(_oid)), z3.BitVecSort(64), z3.BitVecSort(8 * elem))
    state = {"done": False}
    def facts():
        if not state["done"]:
            state["done"] = True
            GFACTS[f.name()] = [f(bv(i)) == bv(int.from_bytes(data[i*elem:(i+1)*elem], "little"), 8 * elem) for i in range(n_el)]
    def rd(idx, off, n):
        if is_const(off):
            o = cval(off)
            if o + n <= len(data): return bv(int.from_bytes(data[o:o+n], "little"), 8 * n)
            return fresh("oob", 8 * n)
        facts()
        if n == elem:
            if elem == 1: return f(off)
            l, c = lin(off)
            if c % elem == 0 and all(k % elem == 0 and not (k >> 63) for (_, k) in l.values()):
                return f(unlin({i: (t, k // elem) for i, (t, k) in l.items()}, c // elem, 64))
        if elem == 1: return z3.Concat([f(add(off, bv(i))) for i in reversed(range(n))])
        q = z3.UDiv(off, bv(elem))
        if n == 1:
            w = f(q)
            return z3.Extract(7, 0, z3.LShR(w, z3.Extract(8*elem-1, 0, z3.URem(off, bv(elem)) * 8) if elem < 8 else z3.URem(off, bv(elem)) * 8))
        return z3.Concat([rd(idx, add(off, bv(i)), 1) for i in reversed(range(n))])
    return C("base", base=rd, v=f)

def idx_same(a, b):
    if a is None or b is None: return True
    if a.eq(b): return True
    d = diff_const(a, b)
    if d is not None: return d == 0
    return None

def c_write(prev, idx, off, n, v): return C("w", prev, idx=idx, off=off, n=n, v=v)
def c_fill(prev, idx, off, ln, byte): return C("f", prev, idx=idx, off=off, n=ln, v=byte)
def c_copy(prev, idx, off, ln, src, sidx, soff): return C("c", prev, idx=idx, off=off, n=ln, src=src, sidx=sidx, soff=soff)
def c_havoc(prev, pred, new): return C("h", prev, pred=pred, src=new)

def _ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if is_ptr(a) or is_ptr(b):
        if is_ptr(a) and is_ptr(b):
            if same_ptr(a, b): return a
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.obj is not RAW:
                if a.obj.family:
                    if a.off.eq(b.off): return Ptr(a.obj, a.off, z3.If(c, a.idx, b.idx))
                else: return Ptr(a.obj, z3.If(c, a.off, b.off))
            return PtrIte(c, a, b)
        a2 = a if is_ptr(a) else from_bits(a); b2 = b if is_ptr(b) else from_bits(b)
        return PtrIte(c, a2, b2)
    if a.eq(b): return a
    return z3.If(c, a, b)

def _multiple(off, n):
    l, c = lin(off)
    return c % n == 0 and all(k % n == 0 for (_, k) in l.values())

_bi = {}
def bytes_of(w):
    k = w.get_id()
    r = _bi.get(k)
    if r is None:
        r = ([z3.simplify(z3.Extract(8 * i + 7, 8 * i, w)) for i in range(w.size() // 8)], w); _bi[k] = r
    return r[0]
def byte_in(w, n, dd):
    """byte dd (< n) of the n-byte value w"""
    bs = bytes_of(w)[:n]
    if all(b.eq(bs[0]) for b in bs): return bs[0]
    r = bs[-1]
    for i in reversed(range(n - 1)): r = z3.If(dd == bv(i), bs[i], r)
    return r

def read(c, idx, off, n):
    """value of n bytes: a bit-vector of 8n bits, or a pointer"""
    key = (None if idx is None else idx.get_id(), off.get_id(), n)
    # walk down without recursion while updates are irrelevant
    stack = []
    while True:
        r = c.cache.get(key)
        if r is not None: r = r[0]; break
        stack.append(c)
        if c.k == "base":
            r = c.base(idx, off, n); break
        if c.k == "w":
            si = idx_same(idx, c.idx)
            if si is False: c = c.prev; continue
            d = diff_const(off, c.off)
            if d is not None and (d >= c.n or d + n <= 0): c = c.prev; continue
            if d is None and residue_apart(off, c.off, n, c.n): c = c.prev; continue
            if d == 0 and n == c.n:
                if si: r = c.v; break
                r = _ite(idx == c.idx, c.v, read(c.prev, idx, off, n)); break
            if d is not None and 0 <= d and d + n <= c.n:
                v = bits(c.v)
                x = z3.simplify(z3.Extract(8 * (d + n) - 1, 8 * d, v))
                r = x if si else _ite(idx == c.idx, x, read(c.prev, idx, off, n)); break
            if d is None and n == c.n and (n == 1 or (_multiple(off, n) and _multiple(c.off, n))):
                cond = off == c.off
                if not si: cond = z3.And(idx == c.idx, cond)
                r = _ite(cond, c.v, read(c.prev, idx, off, n)); break
            if n == 1 and d is None:
                # byte inside a wider write
                dd = sub(off, c.off)
                cond = z3.ULT(dd, bv(c.n))
                if not si: cond = z3.And(idx == c.idx, cond)
                x = byte_in(bits(c.v), c.n, dd)
                r = _ite(cond, x, read(c.prev, idx, off, 1)); break
            if n == 1: # d known but inside handled above
                raise AssertionError
            r = _bytewise(c, idx, off, n); break
        if c.k == "f":
            si = idx_same(idx, c.idx)
            if si is False: c = c.prev; continue
            d = diff_const(off, c.off)
            if d is not None and is_const(c.n):
                L = cval(c.n)
                if d >= L or d + n <= 0: c = c.prev; continue
                if 0 <= d and d + n <= L:
                    x = z3.Concat([c.v] * n) if n > 1 else c.v
                    if is_const(c.v): x = bv(int.from_bytes(bytes([cval(c.v)]) * n, "little"), 8 * n)
                    r = x if si else _ite(idx == c.idx, x, read(c.prev, idx, off, n)); break
            if d is not None and -(1 << 40) < d and d + n <= 0: c = c.prev; continue      # in front of a range inside an object
            if n == 1:
                cond = z3.ULT(sub(off, c.off), c.n)
                if not si: cond = z3.And(idx == c.idx, cond)
                r = _ite(cond, c.v, read(c.prev, idx, off, 1)); break
            r = _bytewise(c, idx, off, n); break
        if c.k == "c":
            si = idx_same(idx, c.idx)
            if si is False: c = c.prev; continue
            d = diff_const(off, c.off)
            if d is not None and is_const(c.n):
                L = cval(c.n)
                if d >= L or d + n <= 0: c = c.prev; continue
                if 0 <= d and d + n <= L:
                    x = read(c.src, c.sidx, add(c.soff, bv(d)), n)
                    r = x if si else _ite(idx == c.idx, x, read(c.prev, idx, off, n)); break
            if d is not None and 0 <= d and d + n <= c.lo:      # within the part known to be copied
                x = read(c.src, c.sidx, add(c.soff, bv(d)), n)
                r = x if si else _ite(idx == c.idx, x, read(c.prev, idx, off, n)); break
            if d is not None and -(1 << 40) < d and d + n <= 0: c = c.prev; continue
            if n == 1:
                dd = sub(off, c.off)
                cond = z3.ULT(dd, c.n)
                if not si: cond = z3.And(idx == c.idx, cond)
                r = _ite(cond, read(c.src, c.sidx, add(c.soff, dd), 1), read(c.prev, idx, off, 1)); break
            r = _bytewise(c, idx, off, n); break
        if c.k == "h":
            if n == 1 or c.n is not None:
                p = z3.simplify(c.pred(idx, off))
                if z3.is_false(p): c = c.prev; continue
                r = _ite(p, read(c.src, idx, off, n), read(c.prev, idx, off, n)); break
            ps = [z3.simplify(c.pred(idx, add(off, bv(i)))) for i in range(n)]
            if all(z3.is_false(p) for p in ps): c = c.prev; continue
            if all(z3.is_true(p) for p in ps): r = read(c.src, idx, off, n); break
            if all(p.eq(ps[0]) for p in ps):
                r = _ite(ps[0], read(c.src, idx, off, n), read(c.prev, idx, off, n)); break
            r = _bytewise(c, idx, off, n); break
        raise AssertionError(c.k)
    for s in stack: s.cache[key] = (r, idx, off)
    return r

def _bytewise(c, idx, off, n):
    bs = [bits_n(read(c, idx, add(off, bv(i)), 1), 1) for i in reversed(range(n))]
    return z3.simplify(z3.Concat(bs)) if n > 1 else bs[0]
def bits_n(v, n):
    return bits(v)
