"""Contracts: a spec function runs against a context that either *verifies* a body (assume pre, run, prove post, check frame) or
stands for the function at a *call* (prove pre, havoc frame, assume post)."""
import itertools, time, traceback
import z3
import ir, logic, mem
from logic import *
from mem import *
from sym import *

REG = {}

class Contract:
    def __init__(self, name, spec, **o):
        self.name, self.spec, self.o = name, spec, o
        self.callable = o.get("callable", True)
        self.recursive_only = False
        self.props = o.get("props", [])
        self.trusted = o.get("trusted", False)

    # -- at a call site
    def call(self, ex, st, irname, args, ins):
        if self.o.get("model"): return self.o["model"](ex, st, args, ins)
        f = ex.mod.func(irname)
        outs = []
        pend = [(st, ())]
        while pend:
            s, choice = pend.pop()
            cx = Ctx(ex, s, "call", self, f, args, ins)
            cx.choice = list(choice)
            try:
                post = self.spec(cx)
            except Fork as fk:
                # a case distinction could not be decided: split the state
                for i, c in enumerate(fk.conds):
                    s2 = s.clone()
                    if not ex.feasible(s2, c): continue
                    s2.assume(c)
                    pend.append((s2, fk.prefix + (i,)))
                continue
            except Diverge:
                continue
            if s.dead: continue
            if cx.panics:           # the callee may stop the program
                pc_ = Or(*cx.panics)
                if isinstance(pc_, z3.ExprRef) and not z3.is_false(z3.simplify(pc_)) and ex.feasible(s, pc_):
                    s3 = s.clone(); s3.assume(pc_)
                    outs.append(Outcome(s3, None, "panic", "callee " + self.name))
                    s.assume(z3.Not(pc_))
                    if s.dead: continue
            cx.st = s.clone()  # quantified facts are evaluated lazily: bind them to the memory before the call
            for kind in (cx.outcomes or ["ret"]):
                s2 = s.clone() if len(cx.outcomes or []) > 1 else s
                px = Post(cx, s2, None, kind, pre=None)
                px.pre = s.clone()
                px.apply_havoc()
                r = post(px) if post else None
                px.st = s2.clone()     # and the callee's promises to the memory after it
                if s2.dead: continue
                if kind == "panic": outs.append(Outcome(s2, None, "panic", "callee"))
                else: outs.append(Outcome(s2, px.finish()))
        return outs

    # -- against the body
    def verify(self, ex, irname, choice=(), enum=False):
        """verify one case; returns list of further choice prefixes to explore"""
        f = ex.mod.func(irname)
        st = State()
        cx = Ctx(ex, st, "verify", self, f, [None] * len(f.params), None)
        cx.choice = list(choice)
        more = []
        cx.more = more
        ex.frame_fn = [ex.base(irname)]
        ex.assigns = None
        post = self.spec(cx)
        if enum or cx.pruned: return more
        ex.cover.append((self.name, tuple(cx.choice), ex.ps.query(st.pc, T) != z3.unsat))
        ex.assigns = cx.assign_list
        ex.assigns_base = next(mem._oid)
        ex.templates = list(cx.templates)
        ex.measures = list(cx.measures)
        ex.bound_terms = list(cx.bound_terms)
        pre = st.clone()
        cx.pre_state = pre
        cx.st = pre            # quantified facts are evaluated lazily: bind them to the initial memory
        if any(a is None for a in cx.args): raise Unsupported("contract for %s does not describe all parameters (signature changed?)" % irname)
        ex.frame_fn = []
        outs = ex.run_function(st, irname, cx.args)
        ex.frame_fn = [ex.base(irname)]
        ex.assigns = None
        nret = 0
        for o in outs:
            if o.st.dead: continue
            if o.kind == "unreachable": continue
            px = Post(cx, o.st, o.val, o.kind, pre)
            if o.kind == "panic":
                px.ensure("no-panic", Or(*cx.panics) if cx.panics else F)
                if cx.on_panic: cx.on_panic(px)
                continue
            nret += 1
            if post:
                for s2 in px.each(post): pass
        cx.nret = nret
        return more

class Fork(Exception):
    def __init__(self, conds, prefix): self.conds, self.prefix = conds, prefix
class Diverge(Exception): pass

class StrV:
    """a Str value: data pointer and length"""
    def __init__(self, ptr, ln): self.ptr, self.len = ptr, ln

class Ctx:
    def __init__(self, ex, st, mode, c, f, args, ins):
        self.ex, self.st, self.mode, self.c, self.f, self.args, self.ins = ex, st, mode, c, f, args, ins
        self.cur = 0
        self.assign_list = []
        self.templates, self.measures, self.bound_terms = [], [], []
        self.choice, self.nch = [], 0
        self.more = None
        self.havocs = []
        self.outcomes = None
        self.panics = []
        self.on_panic = None
        self.pruned = False
        self.retshape = None
        self.env = {}
        self.inputs = []       # (name, term/obj) reported with counterexamples
    verify = property(lambda self: self.mode == "verify")

    # ---- case distinctions
    def choose(self, conds_or_n):
        """pick a case.  verify: every case is explored.  call: conds (list of formulas, or a function building them lazily)
        select the case from the arguments"""
        i = self.nch; self.nch += 1
        if self.verify:
            n = conds_or_n if isinstance(conds_or_n, int) else len(conds_or_n)
            if i < len(self.choice): return self.choice[i]
            for k in range(1, n): self.more.append(tuple(self.choice[:i]) + (k,))
            self.choice.append(0)
            return 0
        if i < len(self.choice): return self.choice[i]
        conds = conds_or_n
        for k, c in enumerate(conds):
            if self.ex.decide(self.st, c) is True:
                self.choice.append(k); return k
        raise Fork(list(conds), tuple(self.choice))

    # ---- parameters
    def nxt(self):
        i = self.cur; self.cur += 1
        if i >= len(self.f.params): raise Unsupported("contract of %s expects more parameters than the function has" % self.c.name)
        return i
    def has_sret(self): return bool(self.f.params) and "sret" in self.f.params[0][2]
    def sret(self, size):
        i = self.nxt()
        if self.verify:
            o = self.ex.new_obj(self.st, "sret", size, "stack")
            self.args[i] = Ptr(o)
        self.sret_ptr = self.ex.asptr(self.args[i])
        return self.sret_ptr
    def i(self, name, bits_=None):
        i = self.nxt()
        n = bits_ or (64 if self.f.params[i][0].k == "ptr" else self.f.params[i][0].a)
        if self.verify:
            self.args[i] = z3.BitVec(name, n)
            self.inputs.append((name, self.args[i]))
        v = self.args[i]
        return mem.bits(v)
    def raw(self):
        i = self.nxt()
        return self.args[i], i
    def obj(self, name, size=None, kind="heap", align=8, content=None):
        """(verify) a caller object of symbolic or constant size"""
        if size is None: size = z3.BitVec(name + "_size", 64)
        o = self.ex.new_obj(self.st, name, size, kind, content=content, align=align)
        return o
    def ptr(self, name, size=None, nullable=False, align=1):
        """pointer parameter to the start of an object; call mode: the actual pointer (forks on choices)"""
        i = self.nxt()
        if self.verify:
            if nullable and self.choose(2) == 1:
                self.args[i] = NULL
            else:
                o = self.obj(name, size, align=align)
                self.args[i] = Ptr(o)
                self.inputs.append((name, o))
            return self.args[i]
        return self.fix_ptr(i)
    def fix_ptr(self, i):
        p = self.ex.asptr(self.args[i])
        if isinstance(p, PtrIte):
            p = self.pick(p); self.args[i] = p
        return p
    def pick(self, p):
        """resolve a pointer choice by forking the call"""
        while isinstance(p, PtrIte):
            k = self.choose([p.c, z3.Not(p.c)])
            p = p.a if k == 0 else p.b
        return p
    def str(self, name, nullable=False):
        i = self.nxt()
        if self.verify:
            tmp = self.obj(name + "_s", 16, "stack")
            ln = z3.BitVec(name + "_len", 64)
            if nullable and self.choose(2) == 1: d = NULL
            else:
                o = self.obj(name, None, align=1); d = Ptr(o)
            self.st.mem[tmp] = c_write(c_write(self.st.mem[tmp], None, bv(0), 8, d), None, bv(8), 8, ln)
            self.args[i] = Ptr(tmp)
            self.inputs.append((name + "_len", ln))
            if d is not NULL: self.inputs.append((name, d.obj))
            return StrV(d, ln)
        p = self.fix_ptr(i)
        self.ex.obl(self.st, "str-arg", self.ex.valid(self.st, p, 16), self.ins, "pre")
        if self.st.dead or p.obj not in self.st.mem: raise Diverge()
        d = self.ex.read(self.st, p, 8)
        d = self.ex.conv_load(self.st, p, d, ir.PTR)
        d = self.pick(d)
        ln = mem.bits(self.ex.read(self.st, p.plus(8), 8))
        return StrV(d, ln)
    def cell(self, p, n=8):
        """value of a memory cell in the pre-state"""
        v = self.ex.read(self.st, p, n)
        return v
    def cell_ptr(self, p):
        v = self.ex.conv_load(self.st, p, self.ex.read(self.st, p, 8), ir.PTR)
        return self.pick(v)
    def byte(self, p, k=0):
        return mem.bits(self.ex.read(self.st, p.plus(k) if not (isinstance(k, int) and k == 0) else p, 1))

    # ---- clauses
    def require(self, name, f):
        if self.verify: self.st.assume(f)
        else:
            self.ex.obl(self.st, "pre:%s:%s" % (self.c.name, name), f, self.ins, "pre")
            if self.st.dead: raise Diverge()
    def readable(self, p, n):
        """n bytes readable at p (n may be 0 with any pointer)"""
        nn = bv(n) if isinstance(n, int) else n
        return Or(nn == bv(0), self.ex.valid(self.st, p, n))
    def template(self, f, arity=1):
        f.arity = arity
        self.templates.append(f)
    def hint(self, *t):
        if self.verify: self.ex.hints = self.ex.hints + list(t)
    def bound(self, t): self.bound_terms.append(t)      # an upper bound a loop counts towards
    def measure(self, name, f): self.measures.append((name, f))
    def assigns(self, p, n=None):
        """the function may write n bytes at p"""
        if n is None: n = p.obj.size
        nn = bv(n) if isinstance(n, int) else n
        if p.obj.family:
            self.assign_list.append((p.obj, p.idx, p.off, nn))
        else: self.assign_list.append((p.obj, None, p.off, nn))
        self.havocs.append((p, n))
    def panics_if(self, f):
        """the only circumstances in which the function may stop the program"""
        self.panics.append(f)

class Post:
    def __init__(self, cx, st, ret, kind, pre):
        self.cx, self.st, self.ret, self.kind, self.pre = cx, st, ret, kind, pre
        self.ex, self.verify = cx.ex, cx.mode == "verify"
        self.made = False
        f = cx.f
        if not self.verify and f.ret.k == "int":
            self.ret = fresh("ret_" + cx.c.name, f.ret.a)
        elif not self.verify and f.ret.k in ("double", "float"):
            self.ret = fresh("ret_" + cx.c.name, 64 if f.ret.k == "double" else 32)
    def each(self, post):
        """run post, forking the (final) state on pointer choices"""
        pend = [self]
        while pend:
            px = pend.pop()
            try: post(px)
            except Fork as fk:
                for i, c in enumerate(fk.conds):
                    s2 = fk.st.clone()
                    if not self.ex.feasible(s2, c): continue
                    s2.assume(c)
                    n = Post(self.cx, s2, px.ret, px.kind, px.pre); n.picks = getattr(px, "picks", ()) + (i,)
                    pend.append(n)
        return []
    picks = ()
    def pick(self, p):
        while isinstance(p, PtrIte):
            d = self.ex.decide(self.st, p.c)
            if d is True: p = p.a
            elif d is False: p = p.b
            else:
                fk = Fork([p.c, z3.Not(p.c)], ()); fk.st = self.st
                raise fk
        return p
    def apply_havoc(self):
        ex = self.ex
        for (p, n) in self.cx.havocs:
            nn = bv(n) if isinstance(n, int) else n
            if ex.assigns is not None:
                pass
            q = self.st
            ex.check_frame(q, p, nn, self.cx.ins) if not (is_const(nn) and cval(nn) == 0) else None
            ex._logw(q, p.obj, p.idx, p.off, cval(nn) if is_const(nn) else nn)
            if is_const(nn) and cval(nn) in (1, 2, 4, 8) and p.obj in q.mem:
                q.mem[p.obj] = c_write(q.mem[p.obj], p.idx, p.off, cval(nn), fresh("hv", 8 * cval(nn)))
                continue
            if p.obj.family:
                new = p.obj.mkbase("hv")
                def pred(idx, off, p=p, nn=nn):
                    d = diff_const(off, p.off)
                    c = T if (d is not None and is_const(nn) and 0 <= d < cval(nn)) else F if (d is not None and is_const(nn)) else z3.ULT(sub(off, p.off), nn)
                    return z3.And(c, idx == p.idx)
                q.mem[p.obj] = c_havoc(q.mem[p.obj], pred, new)
            else:
                new = (getattr(p.obj, "mkbase", None) or base_uf)("hv")
                def pred(idx, off, p=p, nn=nn):
                    d = diff_const(off, p.off)
                    if d is not None and is_const(nn): return T if 0 <= d < cval(nn) else F
                    if d is not None and d < 0 and is_const(p.off) and cval(p.off) + d >= 0: return F
                    return z3.ULT(sub(off, p.off), nn)
                q.mem[p.obj] = c_havoc(q.mem[p.obj], pred, new)
    # reading
    def byte(self, p, k=0):
        return mem.bits(self.ex.read(self.st, p.plus(k) if not (isinstance(k, int) and k == 0) else p, 1))
    def obyte(self, p, k=0):
        return mem.bits(self.ex.read(self.pre, p.plus(k) if not (isinstance(k, int) and k == 0) else p, 1))
    def cell(self, p, n=8): return mem.bits(self.ex.read(self.st, p, n))
    def cell_raw(self, p, n=8): return self.ex.read(self.st, p, n)
    def cell_ptr(self, p):
        v = self.ex.conv_load(self.st, p, self.ex.read(self.st, p, 8), ir.PTR)
        return self.pick(v)
    def set_cell(self, p, v, n=8):
        """(call mode) define a cell"""
        assert not self.verify
        self.ex.write(self.st, p, v, n)
    def ensure(self, name, f):
        if self.verify:
            if self.st.dead: return
            self.ex.obl(self.st, name, f, None, "post")
        else: self.st.assume(f)
    def finish(self):
        return self.ret
    def str_ret(self, shape=None):
        """the Str written to the sret slot. call mode: shape(px) creates the pointer"""
        p = self.cx.sret_ptr
        if not self.verify:
            d = shape(self)
            ln = fresh("rlen")
            self.ex.write(self.st, p, d, 8); self.ex.write(self.st, p.plus(8), ln, 8)
            return StrV(d, ln)
        d = self.ex.conv_load(self.st, p, self.ex.read(self.st, p, 8), ir.PTR)
        return StrV(self.pick(d), mem.bits(self.ex.read(self.st, p.plus(8), 8)))
    def ptr_ret(self, shape=None):
        if not self.verify:
            self.ret = shape(self)
            return self.ret
        return self.pick(self.ex.asptr(self.ret))
    def bool(self):
        r = self.ret
        return (r == bv(1, 1)) if r.size() == 1 else r != bv(0, r.size())

def contract(name, **o):
    def d(f):
        REG[name] = Contract(name, f, **o)
        return f
    return d

# ----------------------------------------------------------------------------- running
def discharge(ex, timeout, log=None):
    """decide all recorded obligations; returns list of failures"""
    fails = []
    seen = {}
    n = 0
    for o in ex.obls:
        g = nnf(o.goal)
        key = None
        if isinstance(g, z3.ExprRef):
            g2 = z3.simplify(g)
            if z3.is_true(g2):
                o.status, o.backend, o.t = "proved", "simplifier", 0.0; continue
            key = (g2.get_id(), tuple(h.get_id() if isinstance(h, z3.ExprRef) else id(h) for h in o.hyps))
            if key in seen:
                o.status, o.backend, o.t = seen[key].status, seen[key].backend, 0.0
                continue
        t0 = time.time()
        r = logic.prove_unsat(o.hyps + [Not(o.goal)], pool=o.pool, timeout=timeout)
        o.t = time.time() - t0
        o.backend = r.backend
        if r.status == "unsat": o.status = "proved"
        elif r.status == "sat": o.status = "refuted"; o.model = r.model
        else: o.status = "unknown"
        if key is not None: seen[key] = o
        if o.status != "proved":
            fails.append(o)
            if log: log("   FAILED %s %s:%d [%s] %.1fs" % (o.name, o.fn, o.line, o.status, o.t))
            if len(fails) >= 6: break
    return fails

def model_inputs(o, inputs):
    """readable counterexample values"""
    m = o.model
    if m is None: return {}
    out = {}
    for name, t in inputs:
        try:
            if isinstance(t, z3.ExprRef):
                v = m.eval(t, model_completion=True)
                out[name] = sval(v)
        except Exception: pass
    return out
