"""Forward symbolic execution of LLVM IR with contracts at calls and inferred inductive invariants at loop headers."""
import itertools, sys, time
import z3
import ir
from logic import *
import logic
from mem import *
import mem

sys.setrecursionlimit(20000)

class Unsupported(Exception):
    pass

class Budget(Exception):
    pass

_fid = itertools.count(1)

class State:
    __slots__ = ("pc", "mem", "freed", "regs", "ghost", "pool", "wlog", "dead", "trail", "depth")
    def __init__(self):
        self.pc, self.mem, self.freed, self.regs = [], {}, frozenset(), {}
        self.ghost, self.pool, self.wlog, self.dead, self.trail, self.depth = {}, [], None, False, (), 0
    def clone(self):
        s = State.__new__(State)
        s.pc, s.mem, s.freed, s.regs = list(self.pc), dict(self.mem), self.freed, dict(self.regs)
        s.ghost, s.pool = dict(self.ghost), list(self.pool)
        s.wlog = self.wlog          # shared log on purpose
        s.dead, s.trail, s.depth = self.dead, self.trail, self.depth
        return s
    def assume(self, f):
        if f is True: return self
        f = nnf(f)
        st = [f]
        while st:
            x = st.pop()
            if isinstance(x, And_): st.extend(reversed(x.fs)); continue
            if isinstance(x, z3.ExprRef):
                y = z3.simplify(x)
                if z3.is_true(y): continue
                if z3.is_false(y): self.dead = True
                x = y if z3.is_false(y) else x
            self.pc.append(x)
        return self

def only_family(v, fam):
    """a choice between elements of one family, null and plain values"""
    if isinstance(v, PtrIte): return only_family(v.a, fam) and only_family(v.b, fam)
    return v.obj in (RAW, NULLOBJ) or (v.obj is fam and is_const(v.off) and cval(v.off) == 0)

class Outcome:
    __slots__ = ("st", "val", "kind", "why")
    def __init__(self, st, val, kind="ret", why=None):
        self.st, self.val, self.kind, self.why = st, val, kind, why

class Obl:
    __slots__ = ("name", "fn", "line", "hyps", "goal", "pool", "kind", "status", "t", "backend", "model", "trail")
    def __init__(self, name, fn, line, hyps, goal, pool, kind, trail=()):
        self.name, self.fn, self.line, self.hyps, self.goal, self.pool, self.kind = name, fn, line, hyps, goal, pool, kind
        self.status = self.t = self.backend = self.model = None
        self.trail = trail

class PathSolver:
    """incremental feasibility checks along a depth-first path"""
    def __init__(self, timeout_ms=400):
        self.s = z3.Solver(); self.s.set("timeout", timeout_ms)
        self.stack = []; self.facts = set(); self.n = 0; self.t = 0
        self.memo = {}
    def query(self, pc, cond):
        t0 = time.time()
        fs = [f for f in pc if isinstance(f, z3.ExprRef)]
        key = (tuple(f.get_id() for f in fs), cond.get_id())
        r = self.memo.get(key)
        if r is not None: return r[0]
        i = 0
        while i < len(fs) and i < len(self.stack) and fs[i].eq(self.stack[i]): i += 1
        while len(self.stack) > i:
            self.s.pop(); self.stack.pop()
        for f in fs[i:]:
            self.s.push(); self.s.add(f); self.stack.append(f)
            for g in _gfacts(f): self.s.add(g)
        self.s.push(); self.s.add(cond)
        for g in _gfacts(cond): self.s.add(g)
        r = self.s.check()
        self.s.pop()
        self.n += 1; self.t += time.time() - t0
        self.memo[key] = (r, fs, cond)
        return r

def _gfacts(f):
    out = []
    for a in logic.apps(f).values():
        n = a.decl().name()
        if n in GAPP: out.extend(GAPP[n](a)); continue
        g = GFACTS.get(n)
        if g: out.extend(g)
    return out

# ----------------------------------------------------------------------------- CFG info
class FnInfo:
    def __init__(self, f):
        f.parse()
        self.f = f
        self.succ = {}
        for b, ins in f.blocks.items():
            t = ins[-1]
            if t.op == "br": s = t.x
            elif t.op == "switch": s = [t.x[0]] + [l for _, l in t.x[1]]
            else: s = []
            self.succ[b] = list(dict.fromkeys(s))
        self.pred = {b: [] for b in f.blocks}
        for b, ss in self.succ.items():
            for s in ss: self.pred[s].append(b)
        # dominators (iterative)
        order = self._rpo(f.entry)
        idx = {b: i for i, b in enumerate(order)}
        idom = {f.entry: f.entry}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a, c = n, p
                    while a != c:
                        while idx[a] > idx[c]: a = idom[a]
                        while idx[c] > idx[a]: c = idom[c]
                    n = a
                if idom.get(b) != n: idom[b] = n; ch = True
        self.idom = idom
        def dom(a, b):
            while True:
                if a == b: return True
                if b == f.entry: return False
                b = idom[b]
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if dom(s, b):
                    L = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in L: continue
                        L.add(x); st.extend(self.pred[x])
                elif idx[s] <= idx[b]:
                    raise Unsupported("irreducible control flow in " + f.name)
    def _rpo(self, e):
        seen, out = set(), []
        st = [(e, iter(self.succ[e]))]; seen.add(e)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else:
                out.append(b); st.pop()
        return out[::-1]

class Executor:
    def __init__(self, mod, demangle, contracts=None, opts=None):
        self.mod, self.dem = mod, demangle
        self.contracts = contracts or {}
        self.opts = opts or {}
        self.info = {}
        self.ps = PathSolver()
        self.obls = []
        self.fobj = {}
        self.gobj = {}
        self.frame_fn = []              # stack of function names (for reporting)
        self.assigns = None             # frame of the function under verification: list of permitted locations
        self.assigns_base = None        # ids of objects that existed at entry
        self.cmps = None
        self.hints = []      # terms worth instantiating quantifiers with
        self.stats = {"paths": 0, "loops": 0, "inv": 0, "inlined": set(), "contracted": set(), "trusted": set()}
        self.max_paths = self.opts.get("max_paths", 4000)
        self.deadline = None
        self.templates = []             # contract-supplied invariant templates
        self.var_templates = []
        self.natives = {}
        self.verbose = self.opts.get("verbose", 0)
        self.term_check = self.opts.get("termination", True)
        self.loopmemo = {}
        import models
        models.install(self)

    # ------------------------------------------------------------------ helpers
    def fninfo(self, name):
        if name not in self.info:
            self.info[name] = FnInfo(self.mod.func(name))
        return self.info[name]
    def base(self, name):
        """unqualified base name of an IR function"""
        return self.dem.get(name, (name, name))[1]
    def sig(self, name):
        return self.dem.get(name, (name, name))[0]
    def line(self, ins):
        return self.mod.locs.get(ins.line, 0)

    def obl(self, st, name, goal, ins=None, kind="post"):
        """prove goal in st (recorded, decided later); then assume it"""
        if st.dead: return
        if isinstance(goal, bool): goal = T if goal else F
        if isinstance(goal, z3.ExprRef):
            goal = z3.simplify(goal) if not z3.is_true(goal) else goal
            if z3.is_true(goal):
                self.trivial = getattr(self, "trivial", 0) + 1
                return
        fn = self.frame_fn[-1] if self.frame_fn else "?"
        self.obls.append(Obl(name, fn, self.line(ins) if ins is not None else 0, list(st.pc), goal, list(st.pool[-16:]) + self.hints, kind, st.trail))
        st.assume(goal)

    def feasible(self, st, cond=None):
        if st.dead: return False
        c = T if cond is None else cond
        if not isinstance(c, z3.ExprRef):
            g = nnf(c)
            if not isinstance(g, z3.ExprRef):
                import logic
                return logic.prove_unsat(st.pc + [c], pool=st.pool[-8:] + self.hints, timeout=2).status != "unsat"
            c = g
        c = z3.simplify(c)
        if z3.is_false(c): return False
        if z3.is_true(c) and cond is not None: return True
        return self.ps.query(st.pc, c) != z3.unsat

    def decide(self, st, cond):
        """True/False if cond is determined by st, None otherwise"""
        if not isinstance(cond, z3.ExprRef):
            import logic
            g = nnf(cond)
            if isinstance(g, z3.ExprRef): cond = g
            else:
                if logic.prove_unsat(st.pc + [Not(cond)], pool=st.pool[-8:] + self.hints, timeout=3).status == "unsat": return True
                if logic.prove_unsat(st.pc + [cond], pool=st.pool[-8:] + self.hints, timeout=3).status == "unsat": return False
                return None
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.ps.query(st.pc, c) == z3.unsat: return False
        if self.ps.query(st.pc, z3.Not(c)) == z3.unsat: return True
        return None

    def fork(self, st, cond):
        """[(state, bool)] for the feasible truth values of cond"""
        c = z3.simplify(cond)
        if z3.is_true(c): return [(st, True)]
        if z3.is_false(c): return [(st, False)]
        t = self.ps.query(st.pc, c) != z3.unsat
        f = self.ps.query(st.pc, z3.Not(c)) != z3.unsat
        out = []
        if t and f:
            s2 = st.clone()
            st.pc.append(c); s2.pc.append(z3.simplify(z3.Not(c)))
            self.stats["paths"] += 1
            if self.stats["paths"] > self.max_paths: raise Budget("path budget exceeded")
            return [(st, True), (s2, False)]
        if t: st.pc.append(c); return [(st, True)]
        if f: st.pc.append(z3.simplify(z3.Not(c))); return [(st, False)]
        return []

    # ------------------------------------------------------------------ objects
    def new_obj(self, st, name, size, kind="heap", content=None, align=8, fresh=True, family=False):
        o = Obj(name, size, kind, family=family, align=align)
        st.mem[o] = content if content is not None else base_uf(name)
        if not family:
            if not is_const(o.size):
                st.assume(z3.ULE(o.size, bv(1 << 45)))
            for f in o.addr_facts()[:2 if align <= 1 else 4]: st.assume(f)
        return o
    def func_ptr(self, name):
        if name not in self.fobj:
            o = Obj("fn:" + name, 1, "fn"); o.fn = name
            self.fobj[name] = o
        return Ptr(self.fobj[name])
    def global_ptr(self, st, name):
        if name in self.mod.funcs: return self.func_ptr(name)
        o = self.gobj.get(name)
        if o is None:
            g = self.mod.glob(name)
            if g is None: raise Unsupported("global " + name)
            ty, init, const, tl = g
            o = Obj(name.strip('@"'), ir.size_of(ty), "global", const=const, align=ir.align_of(ty))
            o.gname = name
            self.gobj[name] = o
        if o not in st.mem:
            ty, init, const, tl = self.mod.glob(name)
            for f in o.addr_facts(): st.assume(f)
            if init is not None and (const or self.mod.never_written(name)): st.mem[o] = self.init_content(st, o, ty, init)
            else: st.mem[o] = base_uf("g_" + o.name.split("@")[-1])
        return Ptr(o)
    def global_init(self, st, name):
        """give a mutable global its initial (program start) contents"""
        p = self.global_ptr(st, name)
        ty, init, const, tl = self.mod.glob(name)
        st.mem[p.obj] = self.init_content(st, p.obj, ty, init)
        return p
    def init_content(self, st, o, ty, init):
        if init.k == "zero": return base_zero()
        if ty.k == "arr" and init.k == "bytes" and ty.b.k == "int":
            return base_const(o.name, init.v, 1)
        if ty.k == "arr" and ty.b.k == "int" and init.k == "agg" and ty.b.a in (8, 16, 32, 64):
            w = ty.b.a // 8
            data = b"".join((x.v & ((1 << (8*w)) - 1)).to_bytes(w, "little") if x.k == "int" else bytes(w) for x in init.v)
            return base_const(o.name, data, w)
        c = base_zero()
        def put(c, off, ty, op):
            if op.k in ("zero",): return c
            if op.k == "undef": return c
            if op.k == "agg":
                if ty.k == "struct":
                    offs = ir.layout(ty)[0]
                    for f, fo, x in zip(ty.a, offs, op.v): c = put(c, off + fo, x.ty, x)
                else:
                    es = ir.size_of(ty.b)
                    for i, x in enumerate(op.v): c = put(c, off + i * es, ty.b, x)
                return c
            if op.k == "bytes":
                for i, b in enumerate(op.v): c = c_write(c, None, bv(off + i), 1, bv(b, 8))
                return c
            v = self.const(st, op)
            if is_ptr(v): return c_write(c, None, bv(off), 8, v)
            return c_write(c, None, bv(off), v.size() // 8, v)
        return put(c, 0, ty, init)

    def const(self, st, op):
        k = op.k
        if k == "int": return bv(op.v, op.ty.a)
        if k == "null": return NULL
        if k == "undef":
            return self.undef(op.ty)
        if k == "zero":
            return self.zero(op.ty)
        if k == "global": return self.global_ptr(st, op.v)
        if k == "fp": return fpbits(op)
        if k == "agg": return [self.const(st, x) for x in op.v]
        if k == "expr":
            if op.v == "gep":
                sty, args = op.x
                p = self.const(st, args[0])
                ins = ir.Ins("gep", None, sty, args)
                return self.gep(st, p, sty, [self.const(st, a) for a in args[1:]], args[1:])
            if op.v in ("ptrtoint", "inttoptr", "bitcast"):
                return self.const(st, op.x)
            if op.v in ("trunc", "zext", "sext"):
                return self.cast(op.v, self.const(st, op.x), op.x.ty, op.ty)
            if op.v in ir.BINOPS:
                return self.binop(op.v, self.const(st, op.x[0]), self.const(st, op.x[1]), op.ty)
        raise Unsupported("constant %r" % op)
    def undef(self, ty):
        if ty.k == "int": return fresh("undef", ty.a)
        if ty.k == "ptr": return Ptr(RAW, fresh("undefp"))
        if ty.k == "double": return fresh("undef", 64)
        if ty.k == "float": return fresh("undef", 32)
        if ty.k == "struct": return [self.undef(f) for f in ty.a]
        if ty.k == "arr": return [self.undef(ty.b) for _ in range(ty.a)]
        raise Unsupported("undef %r" % ty)
    def zero(self, ty):
        if ty.k == "int": return bv(0, ty.a)
        if ty.k == "ptr": return NULL
        if ty.k == "double": return bv(0, 64)
        if ty.k == "float": return bv(0, 32)
        if ty.k == "struct": return [self.zero(f) for f in ty.a]
        if ty.k == "arr": return [self.zero(ty.b) for _ in range(ty.a)]
        raise Unsupported("zero %r" % ty)

    def val(self, st, op):
        if op.k == "reg":
            try: return st.regs[op.v]
            except KeyError: raise Unsupported("undefined register %s" % op.v)
        return self.const(st, op)

    def gep(self, st, p, sty, idxs, ops):
        off = bv(0)
        t = None
        for n, (i, o) in enumerate(zip(idxs, ops)):
            if is_ptr(i): i = bits(i)
            if n == 0:
                es = ir.size_of(sty); t = sty
                off = add(off, self._scale(i, es))
            elif t.k == "struct":
                j = cval(z3.simplify(i))
                off = add(off, bv(ir.layout(t)[0][j])); t = t.a[j]
            else:
                t = t.b
                off = add(off, self._scale(i, ir.size_of(t)))
        return p.plus(off)
    def _scale(self, i, es):
        n = i.size()
        if n < 64: i = bv(sval(i), 64) if is_const(i) else z3.SignExt(64 - n, i)
        if is_const(i): return bv(cval(i) * es)
        if es == 1: return i
        return norm(bv(es) * i)

    # ------------------------------------------------------------------ memory access
    def resolve(self, st, p):
        """[(state, Ptr)] forking on pointer choices"""
        if isinstance(p, PtrIte):
            out = []
            for s, v in self.fork(st, p.c):
                out += self.resolve(s, p.a if v else p.b)
            return out
        if not is_ptr(p): p = from_bits(p)
        if isinstance(p, PtrIte): return self.resolve(st, p)
        return [(st, p)]

    def valid(self, st, p, n):
        """formula: n (int or BV64) bytes at p are accessible"""
        o = p.obj
        if o is NULLOBJ or o is RAW or o.kind == "fn": return F
        if o in st.freed: return F
        nn = bv(n) if isinstance(n, int) else n
        if o.family:
            v = o.valid(st, p.idx)
            if o.elem is not None:
                inb = z3.And(z3.ULE(nn, bv(o.elem)), z3.ULE(p.off, bv(o.elem) - nn))
                return And(v, z3.simplify(inb))
            return And(v, o.inb(st, p.idx, p.off, nn))
        if isinstance(n, int) and is_const(p.off) and is_const(o.size):
            return T if cval(p.off) + n <= cval(o.size) else F
        if isinstance(n, int) and n == 1: return z3.ULT(p.off, o.size)
        return z3.And(z3.ULE(nn, o.size), z3.ULE(p.off, o.size - nn))

    def load(self, st, p, ty, ins=None):
        """[(state, value)]"""
        if ty.k in ("struct", "arr"):
            res = [(st, [])]
            if ty.k == "struct": parts = list(zip(ty.a, ir.layout(ty)[0]))
            else: parts = [(ty.b, i * ir.size_of(ty.b)) for i in range(ty.a)]
            for ft, fo in parts:
                nr = []
                for s, acc in res:
                    for s2, v in self.load(s, p.plus(fo), ft, ins): nr.append((s2, acc + [v]))
                res = nr
            return res
        n = ir.size_of(ty)
        out = []
        for s, q in self.resolve(st, p):
            self.obl(s, "load-valid", self.valid(s, q, n), ins, "mem")
            if s.dead or q.obj not in s.mem: continue
            v = self.read(s, q, n)
            v = self.conv_load(s, q, v, ty)
            out.append((s, v))
        return out
    def read(self, st, p, n):
        if p.obj.kind == "abs": raise Unsupported("access to abstract object")
        v = mem.read(st.mem[p.obj], p.idx, p.off, n)
        if n == 8 and is_const(p.off) and not p.obj.family: v = self.settle(st, v)
        return v
    def settle(self, st, v):
        """a word at a fixed offset, after writes at symbolic offsets: decide which one it is"""
        for _ in range(40):
            if isinstance(v, PtrIte): c, a, b = v.c, v.a, v.b
            elif isinstance(v, z3.ExprRef) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE: c, a, b = v.arg(0), v.arg(1), v.arg(2)
            else: break
            if not (z3.is_eq(c) and c.arg(0).sort_kind() == z3.Z3_BV_SORT and (is_const(c.arg(0)) or is_const(c.arg(1)))): break
            d = self.decide(st, c)
            if d is None: break
            v = a if d else b
        return v
    def conv_load(self, st, q, v, ty):
        o = q.obj
        if ty.k == "ptr" or (ty.k == "int" and ty.a == 64):
            if not is_ptr(v):
                fam = None
                if is_const(q.off): fam = o.cellty.get(cval(q.off))
                if fam is None and o.cellfn: fam = o.cellfn(q)
                if fam is not None:
                    v = self.fam_ptr(st, fam, v)
                elif ty.k == "ptr": v = from_bits(v)
            elif isinstance(v, PtrIte) and is_const(q.off) and o.cellty.get(cval(q.off)) is not None and only_family(v, o.cellty[cval(q.off)]):
                v = self.fam_ptr(st, o.cellty[cval(q.off)], bits(v))
            elif ty.k == "ptr" and isinstance(v, Ptr) and v.obj is RAW:
                v = from_bits(v.off)
            return v
        if is_ptr(v): v = bits(v)
        if ty.k == "int" and v.size() != ty.a: v = z3.Extract(ty.a - 1, 0, v)
        return v
    def fam_ptr(self, st, fam, v):
        if getattr(fam, "on_load", None): fam.on_load(st, v)
        if isinstance(v, z3.ExprRef) and z3.is_const(v) and is_const(v) and cval(v) == 0: return Ptr(fam, 0, bv(0))
        return Ptr(fam, 0, v)

    def _logw(self, st, o, idx, off, n):
        if st.wlog is not None: st.wlog.append((o, idx, off, n))

    def check_write(self, st, p, n, ins):
        self.obl(st, "store-valid", self.valid(st, p, n), ins, "mem")
        if st.dead: return
        if p.obj.const: self.obl(st, "store-const", F, ins, "mem")
        self.check_frame(st, p, n, ins)
    def check_frame(self, st, p, n, ins):
        if self.assigns is None: return
        if p.obj.kind == "stack" : return
        if p.obj.id > self.assigns_base and not p.obj.family: return
        nn = bv(n) if isinstance(n, int) else n
        alts = []
        for loc in self.assigns:
            if loc[0] is not p.obj: continue
            _, idx, lo, ln = loc
            c = T
            if callable(idx): c = idx(st, p)        # predicate form
            elif idx is not None and not idx_same(idx, p.idx): c = p.idx == idx
            if lo is not None:
                d = sub(p.off, lo)
                c = z3.And(c, z3.ULE(d, ln), z3.ULE(nn, ln - d))
            alts.append(z3.simplify(c))
        if p.obj.family:      # elements created by the function itself
            alts += [z3.simplify(p.idx == x) for x in st.ghost.get("new_nodes", ())]
        g = z3.Or(alts) if alts else F
        self.obl(st, "frame", z3.simplify(z3.Or(g, nn == 0)), ins, "frame")

    def store(self, st, p, v, n, ins=None):
        """[state]"""
        out = []
        for s, q in self.resolve(st, p):
            self.check_write(s, q, n, ins)
            if s.dead or q.obj not in s.mem: continue
            self.write(s, q, v, n)
            out.append(s)
        return out
    def write(self, st, p, v, n):
        o = p.obj
        if o.wr: v = o.wr(st, p, v, n)
        self._logw(st, o, p.idx, p.off, n)
        c = st.mem[o]
        # overwrite of the very same cell: drop the old update (keeps chains short)
        if c.k == "w" and c.n == n and c.off.eq(p.off) and (c.idx is p.idx or (c.idx is not None and c.idx.eq(p.idx))): c = c.prev
        st.mem[o] = c_write(c, p.idx, p.off, n, v)
    def store_ty(self, st, p, v, ty, ins=None):
        if isinstance(v, list):
            sts = [st]
            if ty.k == "struct": parts = list(zip(ty.a, ir.layout(ty)[0]))
            else: parts = [(ty.b, i * ir.size_of(ty.b)) for i in range(ty.a)]
            for (ft, fo), x in zip(parts, v):
                sts = [s2 for s in sts for s2 in self.store_ty(s, p.plus(fo), x, ft, ins)]
            return sts
        n = ir.size_of(ty)
        if not is_ptr(v) and v.size() != 8 * n: v = z3.ZeroExt(8 * n - v.size(), v)
        return self.store(st, p, v, n, ins)
    def fill(self, st, p, byte, ln):
        self._logw(st, p.obj, p.idx, p.off, ln)
        st.mem[p.obj] = c_fill(st.mem[p.obj], p.idx, p.off, ln, byte)
    def copy(self, st, d, s, ln):
        self._logw(st, d.obj, d.idx, d.off, ln)
        if is_const(ln) and cval(ln) == 8 and is_const(s.off) and cval(s.off) in s.obj.cellty:     # a copied node reference stays one
            st.mem[d.obj] = c_write(st.mem[d.obj], d.idx, d.off, 8, self.conv_load(st, s, self.read(st, s, 8), ir.PTR)); return
        if is_const(ln) and not is_const(d.off) and 8 < cval(ln) <= 64 and cval(ln) % 8 == 0 and mem._multiple(d.off, 8) and not s.obj.family and not d.obj.family:
            vs = [self.read(st, s.plus(k), 8) for k in range(0, cval(ln), 8)]          # a record of words
            for k, v in zip(range(0, cval(ln), 8), vs): st.mem[d.obj] = c_write(st.mem[d.obj], d.idx, add(d.off, bv(k)), 8, v)
            return
        st.mem[d.obj] = c = c_copy(st.mem[d.obj], d.idx, d.off, ln, st.mem[s.obj], s.idx, s.off)
        if not is_const(ln) and lin(ln)[1] in range(8, 129) and self.decide(st, z3.UGE(ln, bv(lin(ln)[1]))): c.lo = lin(ln)[1]     # a fixed header in front

    # ------------------------------------------------------------------ scalar ops
    def binop(self, op, a, b, ty):
        if is_ptr(a) or is_ptr(b):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and not a.obj.family: return sub(a.off, b.off)
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.idx.eq(b.idx): return sub(a.off, b.off)
            if op == "add" and isinstance(a, Ptr) and not is_ptr(b): return a.plus(b)
            if op == "add" and isinstance(b, Ptr) and not is_ptr(a): return b.plus(a)
            if op == "sub" and isinstance(a, Ptr) and not is_ptr(b): return a.plus(sub(bv(0), b))
            if op == "and" and isinstance(b, Ptr) and not is_ptr(a): a, b = b, a
            if op == "and" and isinstance(a, Ptr) and not is_ptr(b) and a.obj.kind not in ("null", "raw") and is_const(b):
                low = (~cval(b)) & (2**64 - 1)
                if low & (low + 1) == 0: return a.plus(sub(bv(0), z3.simplify(bits(a) & bv(low))))     # rounding an address down
            a, b = bits(a), bits(b)
        n = ty.a if ty.k == "int" else None
        ca, cb = (is_const(a), is_const(b))
        if op == "add": return add(a, b)
        if op == "sub": return sub(a, b)
        if op == "mul":
            if ca or cb:
                c, x = (a, b) if ca else (b, a)
                # repeating a byte: 0x0101.. * zext(byte)
                if n in (16, 32, 64) and cval(c) == int("01" * (n // 8), 16):
                    x = z3.simplify(x)
                    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_CONCAT and is_const(x.arg(0)) and cval(x.arg(0)) == 0 and x.arg(x.num_args() - 1).size() == 8:
                        return z3.Concat([x.arg(x.num_args() - 1)] * (n // 8))
                return norm(a * b)
            return a * b
        if op == "and": r = a & b
        elif op == "or": r = a | b
        elif op == "xor": r = a ^ b
        elif op == "shl":
            if cb and cval(b) < n:
                k = cval(b)
                if n == 64 and k == 32 and z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_ZERO_EXT,) and a.arg(0).size() == 32 and a.arg(0).decl().kind() == z3.Z3_OP_CONCAT:
                    return z3.Concat(a.arg(0), bv(0, 32))
                return norm(bv(1 << k, n) * a)
            r = a << b
        elif op == "lshr": r = z3.LShR(a, b)
        elif op == "ashr": r = a >> b
        elif op in ("udiv", "urem") and not cb and self.opts.get("opaque_division"):
            # an uninterpreted function; the contract states the facts about division it needs
            return _uf(op + str(n), n, n, n)(a, b)
        elif op == "udiv": r = z3.UDiv(a, b)
        elif op == "sdiv": r = a / b
        elif op == "urem": r = z3.URem(a, b)
        elif op == "srem": r = z3.SRem(a, b)
        elif op[0] == "f":
            w = 64 if ty.k == "double" else 32
            return _uf(op + str(w), w, w, w)(a, b)
        else: raise Unsupported(op)
        return z3.simplify(r) if (ca or cb) else r

    def cast(self, op, v, t1, t2):
        if op in ("ptrtoint",):
            if t2.a == 64: return v
            return z3.Extract(t2.a - 1, 0, bits(v))
        if op == "inttoptr":
            if is_ptr(v): return v
            if v.size() < 64: v = z3.ZeroExt(64 - v.size(), v)
            return from_bits(v)
        if op == "bitcast":
            return v
        if op == "trunc":
            v = bits(v)
            if is_const(v): return bv(cval(v), t2.a)
            return z3.simplify(z3.Extract(t2.a - 1, 0, v))
        if op == "zext":
            v = bits(v)
            return bv(cval(v), t2.a) if is_const(v) else z3.ZeroExt(t2.a - v.size(), v)
        if op == "sext":
            v = bits(v)
            return bv(sval(v), t2.a) if is_const(v) else z3.SignExt(t2.a - v.size(), v)
        w = lambda t: 64 if t.k == "double" else 32 if t.k == "float" else t.a
        return _uf("%s_%d_%d" % (op, w(t1), w(t2)), w(t1), w(t2))(bits(v))

    def icmp(self, pred, a, b):
        """z3 Bool"""
        if is_ptr(a) or is_ptr(b):
            if not is_ptr(a): a = from_bits(a)
            if not is_ptr(b): b = from_bits(b)
            return self.pcmp(pred, a, b)
        if self.cmps is not None: self.cmps.append((pred, a, b))
        f = {"eq": lambda: a == b, "ne": lambda: a != b, "slt": lambda: a < b, "sle": lambda: a <= b, "sgt": lambda: a > b,
             "sge": lambda: a >= b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "ugt": lambda: z3.UGT(a, b),
             "uge": lambda: z3.UGE(a, b)}[pred]
        if pred in ("eq", "ne") and a.size() > 1:
            d = diff_const(a, b)
            if d is not None: return T if (d == 0) == (pred == "eq") else F
        return f()
    def pcmp(self, pred, a, b):
        if isinstance(a, PtrIte): return z3.If(a.c, self.pcmp(pred, a.a, b), self.pcmp(pred, a.b, b))
        if isinstance(b, PtrIte): return z3.If(b.c, self.pcmp(pred, a, b.a), self.pcmp(pred, a, b.b))
        if a.obj is b.obj and a.obj is not RAW:
            o = a.obj
            if o.family:
                if a.idx.eq(b.idx): pass
                elif diff_const(a.off, b.off) == 0:
                    return self.icmp(pred, a.idx, b.idx)
                else: return self.icmp(pred, bits(a), bits(b))
            # same object: offsets stand for addresses (pointer arithmetic stays near its object)
            pred2 = {"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}.get(pred, pred)
            return self.icmp(pred2, a.off, b.off)
        # null tests
        for x, y in ((a, b), (b, a)):
            if is_null(y) and x.obj is not RAW and x.obj is not NULLOBJ:
                if x.obj.family:
                    if is_const(x.off) and cval(x.off) == 0: t = x.idx == bv(0)
                    else: t = bits(x) == bv(0)
                else: t = F
                if pred == "eq": return t
                if pred == "ne": return z3.Not(t)
                if t is F and pred in ("ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"):
                    gt = pred in ("ugt", "uge", "sgt", "sge")
                    return T if gt == (x is a) else F
        if a.obj is not RAW and b.obj is not RAW and not a.obj.family and not b.obj.family and a.obj is not b.obj \
           and a.obj.kind != "null" and b.obj.kind != "null" and pred in ("eq", "ne"):
            if a.obj.kind == "fn" or b.obj.kind == "fn": return T if pred == "ne" else F
            ina = z3.simplify(z3.ULT(a.off, a.obj.size)); inb = z3.simplify(z3.ULT(b.off, b.obj.size))
            # distinct live objects do not overlap
            t = z3.And(bits(a) == bits(b), z3.Not(z3.And(ina, inb)))
            t = z3.simplify(t)
            return t if pred == "eq" else z3.Not(t)
        return self.icmp(pred, bits(a), bits(b))

    # ------------------------------------------------------------------ execution
    def run_function(self, st, name, args, depth=0):
        """execute the body; returns list of Outcome"""
        if depth > 60: raise Budget("inline depth")
        f = self.mod.func(name)
        if f.body is None: raise Unsupported("external function " + self.sig(name))
        info = self.fninfo(name)
        saved = st.regs
        st.regs = {}
        for (ty, nm, at), a in zip(f.params, args): st.regs[nm] = a
        if f.vararg: st.regs["%va"] = args[len(f.params):]
        self.frame_fn.append(self.base(name))
        od = st.depth
        st.depth = depth
        try:
            r = self.region(st, info, f.entry, None, None, None)
        finally:
            self.frame_fn.pop()
        for o in r["outs"]: o.st.regs = saved if len(r["outs"]) == 1 else dict(saved); o.st.depth = od
        return r["outs"]

    def region(self, st, info, start, prev, scope, header):
        """run from block `start` until leaving `scope` (None = whole function)"""
        res = {"exits": [], "backs": [], "outs": []}
        work = [(st, start, prev)]
        while work:
            s, b, p = work.pop()
            if s.dead: continue
            if self.deadline and time.time() > self.deadline: raise Budget("time budget")
            if scope is not None:
                if b == header and p is not None and p != "ENTER":
                    res["backs"].append((s, p)); continue
                if b not in scope:
                    res["exits"].append((s, b, p)); continue
            if b in info.loops and b != header:
                for (s2, b2, p2) in self.loop(s, info, b, p, res): work.append((s2, b2, p2))
                continue
            for item in self.block(s, info, b, p if p != "ENTER" else None, res): work.append(item)
        return res

    def phis(self, st, info, b, prev):
        new = {}
        for ins in info.f.blocks[b]:
            if ins.op != "phi": break
            for l, v in ins.x:
                if l == prev:
                    new[ins.dst] = self.val(st, v); break
            else: raise Unsupported("phi without edge %s %s" % (b, prev))
        st.regs.update(new)

    def block(self, st, info, b, prev, res):
        """execute one block; returns successor work items"""
        if prev is not None: self.phis(st, info, b, prev)
        sts = [st]
        ins_list = info.f.blocks[b]
        i = 0
        while ins_list[i].op == "phi": i += 1
        cur = [(st, i)]
        out = []
        while cur:
            s, i = cur.pop()
            if s.dead: continue
            ins = ins_list[i]
            op = ins.op
            if op == "br":
                if not ins.args: out.append((s, ins.x[0], b)); continue
                c = self.val(s, ins.args[0])
                c = self.tobool(c)
                for s2, v in self.fork(s, c):
                    ln = self.line(ins)
                    if ln: s2.trail = s2.trail + ((ln, v),)
                    out.append((s2, ins.x[0] if v else ins.x[1], b))
                continue
            if op == "switch":
                v = bits(self.val(s, ins.args[0]))
                dflt, cases = ins.x
                by = {}
                for k, l in cases: by.setdefault(l, []).append(k)
                n = v.size()
                rest = s
                items = []
                for l, ks in by.items():
                    c = z3.Or([v == bv(k, n) for k in ks])
                    items.append((l, c))
                nd = z3.And([v != bv(k, n) for k, _ in cases]) if cases else T
                items.append((dflt, nd))
                feas = [(l, z3.simplify(c)) for l, c in items]
                feas = [(l, c) for l, c in feas if not z3.is_false(c) and (z3.is_true(c) or self.ps.query(s.pc, c) != z3.unsat)]
                for j, (l, c) in enumerate(feas):
                    s2 = s.clone() if j < len(feas) - 1 else s
                    if j: self.stats["paths"] += 1
                    if self.stats["paths"] > self.max_paths: raise Budget("path budget exceeded")
                    s2.assume(c)
                    out.append((s2, l, b))
                continue
            if op == "ret":
                v = self.val(s, ins.args[0]) if ins.args else None
                res["outs"].append(Outcome(s, v)); continue
            if op == "unreachable":
                res["outs"].append(Outcome(s, None, "unreachable")); continue
            if op == "call":
                for o in self.call(s, ins):
                    if o.kind == "ret":
                        if ins.dst: o.st.regs[ins.dst] = o.val
                        cur.append((o.st, i + 1))
                    else: res["outs"].append(o)
                continue
            if op == "load":
                for s2, v in self.load(s, self.asptr(self.val(s, ins.args[0])), ins.ty, ins):
                    s2.regs[ins.dst] = v; cur.append((s2, i + 1))
                continue
            if op == "store":
                v = self.val(s, ins.args[0]); p = self.asptr(self.val(s, ins.args[1]))
                for s2 in self.store_ty(s, p, v, ins.ty, ins): cur.append((s2, i + 1))
                continue
            self.simple(s, ins)
            cur.append((s, i + 1))
        return out

    def asptr(self, v):
        return v if is_ptr(v) else from_bits(v)
    def tobool(self, c):
        if z3.is_bool(c): return c
        return c == bv(1, 1)
    def frombool(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return bv(1, 1)
        if z3.is_false(c): return bv(0, 1)
        return z3.If(c, bv(1, 1), bv(0, 1))

    def simple(self, s, ins):
        op = ins.op
        V = lambda k: self.val(s, ins.args[k])
        if op == "alloca":
            n = 1
            if ins.args:
                k = V(0)
                if not is_const(k): raise Unsupported("variable alloca")
                n = cval(k)
            o = Obj("st" + ins.dst, ir.size_of(ins.ty) * n, "stack", align=max(1, ir.align_of(ins.ty)))
            s.mem[o] = base_uf("st")
            r = Ptr(o)
        elif op == "gep":
            r = self.gep(s, self.asptr(V(0)), ins.ty, [self.val(s, a) for a in ins.args[1:]], ins.args[1:])
        elif op in ir.BINOPS:
            a, b = V(0), V(1)
            if op in ("udiv", "sdiv", "urem", "srem"):
                self.obl(s, "div-by-zero", bits(b) != bv(0, ins.ty.a), ins, "arith")
            if op in ("sdiv", "srem") and is_const(bits(b)) and 0 < cval(bits(b)) < (1 << (ins.ty.a - 1)) and not is_const(bits(a)):
                # signed division of a value known to be non-negative by a positive constant is unsigned division
                A = bits(a); k = cval(bits(b)); n = ins.ty.a
                if self.decide(s, A >= 0) is True:
                    if k & (k - 1) == 0:
                        sh = k.bit_length() - 1
                        s.regs[ins.dst] = z3.simplify(z3.LShR(A, bv(sh, n)) if op == "sdiv" else A & bv(k - 1, n))
                        return
                    op = "u" + op[1:]
            if op in ("udiv", "urem") and is_const(bits(b)):
                k = cval(bits(b)); n = ins.ty.a
                if k and k & (k - 1) == 0:
                    sh = k.bit_length() - 1
                    s.regs[ins.dst] = z3.simplify(z3.LShR(bits(a), bv(sh, n)) if op == "udiv" else bits(a) & bv(k - 1, n))
                    return
            r = self.binop(op, a, b, ins.ty)
            if "nsw" in ins.x and self.opts.get("overflow") and op in ("add", "sub", "mul"):
                A, B = bits(a), bits(b)
                if not (is_const(A) and is_const(B)) and not is_ptr(a) and not is_ptr(b):
                    if op == "add": g = z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B))
                    elif op == "sub": g = z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))
                    else: g = z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))
                    self.obl(s, "signed-overflow", g, ins, "arith")
        elif op == "icmp":
            r = self.frombool(self.icmp(ins.x, V(0), V(1)))
        elif op == "fcmp":
            w = 64 if ins.ty.k == "double" else 32
            r = self.frombool(z3.Function("fcmp_%s%d" % (ins.x, w), z3.BitVecSort(w), z3.BitVecSort(w), z3.BoolSort())(V(0), V(1)))
        elif op in ir.CASTS: r = self.cast(op, V(0), ins.args[0].ty, ins.ty)
        elif op == "fneg":
            w = 64 if ins.ty.k == "double" else 32
            r = V(0) ^ bv(1 << (w - 1), w)
        elif op == "freeze": r = V(0)
        elif op == "select":
            c = self.tobool(V(0)); a, b = V(1), V(2)
            r = mem._ite(z3.simplify(c), a, b)
        elif op == "extractvalue":
            r = V(0)
            for k in ins.x: r = r[k]
        elif op == "insertvalue":
            import copy as cp
            r = cp.deepcopy(V(0)) if False else _ins(V(0), ins.x, V(1))
        else: raise Unsupported("instruction " + op)
        s.regs[ins.dst] = r

    # ------------------------------------------------------------------ calls
    def call(self, s, ins):
        callee = ins.x
        if callee.k == "inlineasm": return self.natives_asm(s, ins)
        if any(a.k == "meta" for a in ins.args): return [Outcome(s, None)]
        args = [self.val(s, a) for a in ins.args]
        if callee.k == "global": return self.call_named(s, callee.v, args, ins)
        fp = self.asptr(self.val(s, callee))
        out = []
        for s2, p in self.resolve(s, fp):
            if p.obj.fn: out += self.call_named(s2, p.obj.fn, args, ins)
            elif p.obj.absfn: out += p.obj.absfn(self, s2, args, ins)
            else:
                self.obl(s2, "call-unknown-function", F, ins, "mem")
        return out
    def natives_asm(self, s, ins):
        # only the empty/`int3` debug trap appears
        return [Outcome(s, None)]

    def call_named(self, s, name, args, ins):
        if name.startswith("@llvm."):
            return self.intrinsic(s, name, args, ins)
        b = self.base(name)
        c = self.contracts.get(name)
        if c is None: c = self.contracts.get(self.sig(name))
        if c is None: c = self.contracts.get(b)
        if c is not None and c.callable and not (c.recursive_only and not any(self.base(x) == b for x in ())):
            self.stats["contracted"].add(b)
            return c.call(self, s, name, args, ins)
        n = self.natives.get(b)
        if n is not None:
            self.stats["trusted"].add(b)
            return n(self, s, args, ins)
        f = self.mod.func(name)
        if f.body is None: raise Unsupported("call to external %s" % self.sig(name))
        if self.frame_fn.count(b) > 2: raise Unsupported("recursive call to %s needs a contract" % b)
        self.stats["inlined"].add(b)
        return self.run_function(s, name, args, s.depth + 1)

    def intrinsic(self, s, name, args, ins):
        n = name[6:]
        if n.startswith(("dbg.", "lifetime.", "assume", "donothing", "prefetch", "experimental.noalias", "va_end")): return [Outcome(s, None)]
        if n.startswith(("trap", "debugtrap")):
            return self.on_trap(s, ins)
        if n.startswith("threadlocal.address"): return [Outcome(s, args[0])]
        if n.startswith(("memcpy", "memmove")):
            return [Outcome(x, None) for x in self.memcpy(s, self.asptr(args[0]), self.asptr(args[1]), bits(args[2]), ins, n.startswith("memmove"))]
        if n.startswith("memset"):
            return [Outcome(x, None) for x in self.memset(s, self.asptr(args[0]), args[1], bits(args[2]), ins)]
        if n.startswith("va_start"):
            return self.va_start(s, args, ins)
        if n.startswith("va_copy"):
            out = []
            for s2, v in self.load(s, self.asptr(args[1]), ir.PTR, ins):
                out += [Outcome(x, None) for x in self.store(s2, self.asptr(args[0]), v, 8, ins)]
            return out
        raise Unsupported("intrinsic " + n)

    def on_trap(self, s, ins):
        return [Outcome(s, None, "panic", "trap")]


    def va_start(self, s, args, ins):
        va = s.regs.get("%va")
        o = Obj("va", max(8, 8 * len(va)), "stack")
        c = base_uf("va")
        for i, a in enumerate(va):
            if isinstance(a, z3.ExprRef) and a.size() < 64: a = z3.Concat(fresh("vahi", 64 - a.size()), a)
            c = c_write(c, None, bv(8 * i), 8, a)
        s.mem[o] = c
        return [Outcome(x, None) for x in self.store(s, self.asptr(args[0]), Ptr(o), 8, ins)]

    def memcpy(self, st, d, sr, n, ins, move=False):
        out = []
        if is_const(n) and cval(n) == 0: return [st]
        for s1, dd in self.resolve(st, d):
            for s2, ss in self.resolve(s1, sr):
                nz = n == bv(0)
                self.obl(s2, "memcpy-src", Or(nz, self.valid(s2, ss, cval(n) if is_const(n) else n)), ins, "mem")
                self.obl(s2, "memcpy-dst", Or(nz, self.valid(s2, dd, cval(n) if is_const(n) else n)), ins, "mem")
                if s2.dead: continue
                if dd.obj not in s2.mem or ss.obj not in s2.mem:
                    # null/raw pointer with n == 0
                    out.append(s2); continue
                if dd.obj.const: self.obl(s2, "store-const", nz, ins, "mem")
                if not move and dd.obj is ss.obj and not same_ptr(dd, ss):
                    x, y = bits(dd), bits(ss)
                    if not dd.obj.family: x, y = dd.off, ss.off
                    # elements of a family occupy disjoint storage
                    apart = dd.idx != ss.idx if dd.obj.family and dd.obj.elem is not None else z3.BoolVal(False)
                    self.obl(s2, "memcpy-overlap", z3.Or(nz, apart, z3.ULE(n, x - y) & z3.ULE(n, y - x) if False else z3.Or(z3.And(z3.ULE(y, x), z3.ULE(n, x - y)), z3.And(z3.ULE(x, y), z3.ULE(n, y - x)))), ins, "mem")
                self.check_frame(s2, dd, n, ins)
                self.copy(s2, dd, ss, n)
                out.append(s2)
        return out
    def memset(self, st, d, byte, n, ins):
        out = []
        byte = bits(byte)
        if byte.size() > 8: byte = z3.simplify(z3.Extract(7, 0, byte))
        if is_const(n) and cval(n) == 0: return [st]
        for s1, dd in self.resolve(st, d):
            self.obl(s1, "memset-dst", Or(n == bv(0), self.valid(s1, dd, cval(n) if is_const(n) else n)), ins, "mem")
            if s1.dead: continue
            if dd.obj not in s1.mem: out.append(s1); continue
            if dd.obj.const: self.obl(s1, "store-const", F, ins, "mem")
            self.check_frame(s1, dd, n, ins)
            self.fill(s1, dd, byte, n)
            out.append(s1)
        return out

    # ------------------------------------------------------------------ loops
    def loop(self, st, info, H, prev, res):
        import loops
        return loops.handle(self, st, info, H, prev, res)

_ufc = {}
def _uf(name, *ws):
    f = _ufc.get(name)
    if f is None:
        f = z3.Function(name, *[z3.BitVecSort(w) for w in ws]); _ufc[name] = f
    return f
def _ins(agg, path, v):
    agg = list(agg)
    if len(path) == 1: agg[path[0]] = v
    else: agg[path[0]] = _ins(agg[path[0]], path[1:], v)
    return agg

def fpbits(op):
    import struct
    s = op.v
    if s.startswith("0x"):
        u = int(s[2:], 16)
        if op.ty.k == "double": return bv(u, 64)
        d = struct.unpack("<d", struct.pack("<Q", u))[0]
        return bv(struct.unpack("<I", struct.pack("<f", d))[0], 32)
    d = float(s)
    if op.ty.k == "double": return bv(struct.unpack("<Q", struct.pack("<d", d))[0], 64)
    return bv(struct.unpack("<I", struct.pack("<f", d))[0], 32)
