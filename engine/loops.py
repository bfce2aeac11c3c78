"""Loop cutting: modified state is havocked at the header and described by the largest inductive subset of a set of candidate
invariants (Houdini).  Candidates come from generic shapes over whatever variables, pointers and writes the loop has, plus
templates supplied by the contract; no candidate depends on a variable name.  A candidate is only ever assumed after it
was proved to hold on entry and to be preserved by every back edge, so guessing is not part of the trusted base."""
import time
import z3
import ir, logic, mem
from logic import *
from mem import *

UNROLL = 140
TO = 6.0

class Var:
    __slots__ = ("key", "kind", "e", "x", "n", "delta", "obj", "cell")
    def __init__(self, key, kind, e, x, n):
        self.key, self.kind, self.e, self.x, self.n = key, kind, e, x, n
        self.delta = None; self.obj = None; self.cell = None

def leaves(p):
    if isinstance(p, PtrIte): return leaves(p.a) + leaves(p.b)
    return [p]

def handle(ex, st, info, H, prev, res):
    ex.stats["loops"] += 1
    L = info.loops[H]
    r = try_unroll(ex, st, info, H, prev, L, res)
    if r is not None: return r
    return Houdini(ex, st, info, H, prev, L, res).run()

def try_unroll(ex, st, info, H, prev, L, res):
    mark = len(ex.obls)
    exits, outs = [], []
    cur = [(st.clone(), prev)]
    paths0 = ex.stats["paths"]
    for it in range(UNROLL):
        nxt = []
        for s, p in cur:
            s2 = s
            ex.phis(s2, info, H, p)
            r = region1(ex, s2, info, H, L)
            if r["backs"] and (r["exits"] or r["outs"]) or len(r["backs"]) > 1:
                # undecided: give up, use invariants
                del ex.obls[mark:]
                return None
            exits += r["exits"]; outs += r["outs"]; nxt += r["backs"]
        cur = nxt
        if not cur: break
        if len(cur) > 8: break
    if cur:
        del ex.obls[mark:]
        return None
    res["outs"] += outs
    return exits

def region1(ex, s, info, H, L):
    """one iteration starting at H with phis already set"""
    return ex.region(s, info, H, "ENTER", L, H)

class Houdini:
    def __init__(self, ex, st, info, H, prev, L, res):
        self.ex, self.st, self.info, self.H, self.prev, self.L, self.res = ex, st, info, H, prev, L, res
        self.phi = [i for i in info.f.blocks[H] if i.op == "phi"]
        s = st.clone()
        ex.phis(s, info, H, prev)
        self.entry = s
        self.ev = {i.dst: s.regs[i.dst] for i in self.phi}
        self.W = {}           # obj -> {"cells": {(off,n)}, "all": bool, "idx": set or None}
        self.palts = {}       # phi -> list of extra pointer leaves (objects)
        self.unpres = set()   # preserved pointer cells that turned out not to be preserved
        self.widen = set()    # pointer vars whose offset/idx must be havocked fully (family offs)
        self.cands = None
        self.cmps = []
        self.shaped = {}      # typed cells
        self.derive = {}      # var key -> (primary key, ratio)
        self.noderive = set()
        self.prim = {}        # primary key -> symbol of the current header
        self.entry_of = {}    # var key -> entry value

    # -- building the header state
    def hsym(self, key, nm, n):
        """header symbol of a modified variable: fresh, or (exact constant strides) a linear function of another one"""
        d = self.derive.get(key)
        if d is None:
            x = self.prim.get(key)
            if x is None: x = fresh(nm, n); self.prim[key] = x
            return x
        pk, ratio = d
        px = self.prim.get(pk)
        if px is None: px = fresh("lp", n); self.prim[pk] = px
        e0, p0 = self.entry_of[key], self.entry_of[pk]
        return norm(e0 + bv(ratio, n) * (px - p0))
    def set_derive(self, backs_all):
        """choose primaries among the variables whose stride is a constant on every back edge"""
        by = {}
        for v in self.vars:
            if v.delta and v.key not in self.noderive and v.n >= 16: by.setdefault(v.n, []).append(v)
        ch = False
        for n, vs in by.items():
            vs = sorted(vs, key=lambda v: (abs(v.delta), v.delta < 0, not is_const(v.e)))
            p = vs[0]
            if p.key in self.derive: continue
            for v in vs[1:]:
                if v.key not in self.derive and v.delta % p.delta == 0:
                    self.derive[v.key] = (p.key, v.delta // p.delta); ch = True
        return ch
    def havoc_ptr(self, name, p, alts):
        ls = leaves(p) + alts
        objs, seen = [], set()
        for l in ls:
            k = l.obj.id
            if k in seen: continue
            seen.add(k); objs.append(l)
        def mk(l):
            if l.obj is NULLOBJ: return NULL
            if l.obj.kind == "fn": return l
            if l.obj.family:
                same_off = all(diff_const(l.off, m.off) == 0 for m in ls if m.obj is l.obj)
                same_idx = name in self.fixidx and all(m.idx.eq(l.idx) for m in ls if m.obj is l.obj)
                return Ptr(l.obj, l.off if same_off and name not in self.widen else fresh("lo"), l.idx if same_idx else fresh("li"))
            if l.obj is RAW: return Ptr(RAW, fresh("lr"))
            return Ptr(l.obj, self.hsym(name, "lo", 64) if len(objs) == 1 else fresh("lo"))
        r = mk(objs[0])
        for l in objs[1:]:
            r = PtrIte(fresh_bool("lp"), mk(l), r)
        return r

    def header(self):
        ex = self.ex
        s = self.entry.clone()
        s.wlog = []
        self.vars = []
        self.prim = {}
        self.fixidx = set()
        for i in self.phi:
            e = self.ev[i.dst]
            if is_ptr(e):
                # a family pointer that only moves inside one element keeps its index
                x = self.havoc_ptr(i.dst, e, self.palts.get(i.dst, []))
                if isinstance(x, Ptr) and isinstance(e, Ptr) and x.obj is e.obj and x.obj.kind not in ("null", "raw", "fn"):
                    if x.obj.family:
                        if x.idx is not e.idx:
                            self.vars.append(Var(i.dst + ".idx", "idx", e.idx, x.idx, 64)); self.vars[-1].obj = x.obj
                        if not x.off.eq(e.off):
                            self.vars.append(Var(i.dst, "ptr", e.off, x.off, 64)); self.vars[-1].obj = x.obj
                    else:
                        v = Var(i.dst, "ptr", e.off, x.off, 64); v.obj = x.obj
                        self.vars.append(v)
            elif isinstance(e, list): raise_unsupported("aggregate phi")
            else:
                x = self.hsym(i.dst, "l" + i.dst[1:], e.size())
                self.vars.append(Var(i.dst, "int", e, x, e.size()))
            s.regs[i.dst] = x
        for o, w in self.W.items():
            if o not in self.entry.mem: continue
            old = self.entry.mem[o]
            if w["all"] and not o.family:
                # keep pointer cells and headers (checked at the back edge like any other candidate)
                kept = [(off, n, mem.read(old, None, bv(off), 8)) for (off, n, v) in ptr_cells(old) if (o.id, off) not in self.unpres]
                if has_header(old): new = mem.base_hdr("h_" + o.name, {off: now for (off, n, now) in kept})
                else:
                    new = (getattr(o, "mkbase", None) or base_uf)("h_" + o.name)
                    for (off, n, now) in kept: new = c_write(new, None, bv(off), n, now)
                s.mem[o] = new
                for (off, n) in sorted(w["cells"]):
                    pass
            elif o.family:
                new = o.mkbase("h_" + o.name) if o.mkbase else base_words("h_" + o.name)
                cells = None if w["all"] else sorted(w["cells"])
                def pred(idx, off, cells=cells, w=w):
                    c = T
                    if cells is not None:
                        cs = []
                        for (a, n) in cells:
                            d = diff_const(off, bv(a))
                            if d is not None: cs.append(T if 0 <= d < n else F)
                            else: cs.append(z3.ULT(off - bv(a), bv(n)))
                        c = z3.Or(cs)
                    if w["idx"] is not None:
                        c = z3.And(c, z3.Or([idx == k for k in w["idx"].values()]))
                    return c
                h = c_havoc(old, pred, new); h.n = None
                s.mem[o] = h
            else:
                c = old
                for (off, n) in sorted(w["cells"]):
                    e = mem.read(old, None, bv(off), n)
                    key = ("cell", o.id, off, n)
                    if is_ptr(e):
                        x = self.havoc_ptr(key, e, self.palts.get(key, []))
                        if isinstance(x, Ptr) and isinstance(e, Ptr) and x.obj is e.obj and x.obj.kind not in ("null", "raw", "fn"):
                            if x.obj.family:
                                if x.idx is not e.idx:
                                    v = Var(key + ("idx",), "idx", e.idx, x.idx, 64); v.obj = x.obj; v.cell = (o, off, n); self.vars.append(v)
                                if not x.off.eq(e.off):
                                    v = Var(key, "ptr", e.off, x.off, 64); v.obj = x.obj; v.cell = (o, off, n); self.vars.append(v)
                            else:
                                v = Var(key, "ptr", e.off, x.off, 64); v.obj = x.obj; v.cell = (o, off, n); self.vars.append(v)
                    else:
                        x = self.hsym(key, "m%d" % off, 8 * n)
                        v = Var(key, "int", e, x, 8 * n); v.cell = (o, off, n); self.vars.append(v)
                    c = c_write(c, None, bv(off), n, x)
                s.mem[o] = c
        hk = getattr(self.ex, "loop_shape_hook", None)
        if hk: hk(self, s)
        for v in self.vars: self.entry_of[v.key] = v.e
        return s
    def check_derive(self, r):
        """strides must be exactly the constants assumed; otherwise give the relation up"""
        bad = False
        dl = {}
        for s, latch in r["backs"]:
            b, _ = self.vals_back(s, latch)
            if b is None: continue
            for v in self.vars: dl.setdefault(v.key, set()).add(diff_const(b[v.key], v.x))
        for v in self.vars:
            d = self.derive.get(v.key)
            if d is None: continue
            a, p = dl.get(v.key, {None}), dl.get(d[0], {None})
            if len(a) == 1 and len(p) == 1 and None not in a and None not in p and next(iter(a)) == d[1] * next(iter(p)): continue
            del self.derive[v.key]; self.noderive.add(v.key); bad = True
        return bad

    def vals_entry(self): return {v.key: v.e for v in self.vars}
    def vals_head(self): return {v.key: v.x for v in self.vars}
    def vals_back(self, s, latch):
        """values at a back edge; None if a pointer left its object"""
        ex = self.ex
        s2 = s.clone(); ex.phis(s2, self.info, self.H, latch)
        out = {}
        for v in self.vars:
            if v.cell:
                o, off, n = v.cell
                b = mem.read(s2.mem[o], None, bv(off), n)
            else:
                b = s2.regs[v.key[:-4] if isinstance(v.key, str) and v.key.endswith(".idx") else v.key]
            if v.kind == "int": out[v.key] = bits(b)
            else:
                if not isinstance(b, Ptr) or b.obj is not v.obj: return None, s2
                out[v.key] = b.idx if v.kind == "idx" else b.off
        return out, s2

    # -- growing the set of modified locations
    def absorb(self, r):
        """update W / pointer alternatives from the trial run; True if anything grew"""
        grew = False
        ent = self.entry
        for s, latch in r["backs"]:
            for (o, idx, off, n) in s.wlog:
                if o not in ent.mem: continue
                w = self.W.get(o)
                if w is None:
                    w = {"cells": set(), "all": False, "idx": {} if o.family else None}; self.W[o] = w; grew = True
                if w["all"] and (not o.family or w["idx"] is None): continue
                if off is not None and not isinstance(n, int) and is_const(n): n = cval(n)
                if off is None or not is_const(off) or not isinstance(n, int):
                    if not w["all"]: w["all"] = True; grew = True
                elif not w["all"]:
                    a = cval(off)
                    # merge overlapping cells conservatively
                    if (a, n) not in w["cells"]:
                        over = [(x, m) for (x, m) in w["cells"] if x < a + n and a < x + m]
                        if over:
                            lo = min([x for x, _ in over] + [a]); hi = max([x + m for x, m in over] + [a + n])
                            for c in over: w["cells"].discard(c)
                            c = (lo, hi - lo)
                            if c[1] > 8 and not o.family:
                                w["all"] = True
                            w["cells"].add(c)
                            if over != [c]: grew = True
                        else: 
                            if n > 8 and not o.family:
                                for q in range(a, a + n, 8): w["cells"].add((q, min(8, a + n - q)))
                            else: w["cells"].add((a, n))
                            grew = True
                if o.family and w["idx"] is not None:
                    if idx is None or not self.invariant_expr(idx):
                        w["idx"] = None; grew = True
                    elif idx.get_id() not in w["idx"]:
                        w["idx"][idx.get_id()] = idx; grew = True
            # pointers
            s2 = s.clone(); self.ex.phis(s2, self.info, self.H, latch)
            for i in self.phi:
                grew |= self.absorb_ptr(i.dst, self.ev[i.dst], s2.regs[i.dst])
            for o, w in self.W.items():
                if o.family or w["all"] or o not in ent.mem: continue
                for (off, n) in w["cells"]:
                    if n == 8:
                        e = mem.read(ent.mem[o], None, bv(off), n)
                        grew |= self.absorb_ptr(("cell", o.id, off, n), e, mem.read(s2.mem[o], None, bv(off), n))
        return grew
    def absorb_ptr(self, key, e, b):
        if not is_ptr(b) and not is_ptr(e): return False
        if not is_ptr(e):
            return False
        if not is_ptr(b): b = from_bits(b)
        have = {l.obj.id for l in leaves(e)} | {l.obj.id for l in self.palts.get(key, [])}
        grew = False
        for l in leaves(b):
            if l.obj.id not in have:
                if l.obj not in self.entry.mem and l.obj.kind not in ("null", "raw", "fn"):
                    raise_unsupported("loop-carried pointer to an object created in the loop (%s)" % (key,))
                self.palts.setdefault(key, []).append(l); have.add(l.obj.id); grew = True
            elif l.obj.family:
                for m in leaves(e) + self.palts.get(key, []):
                    if m.obj is l.obj and diff_const(m.off, l.off) != 0 and key not in self.widen:
                        self.widen.add(key); grew = True
        return grew
    def invariant_expr(self, e):
        """no symbol introduced since the header"""
        return not (symbols(e) - self.entry_syms)

    # -- candidates
    def gen_cands(self, trial):
        ex = self.ex
        C_ = []
        V = self.vars
        hv = self.vals_head()
        ids = {v.x.get_id(): v for v in V if v.key not in self.derive}
        backs = []
        for s, latch in trial["backs"]:
            b, s2 = self.vals_back(s, latch)
            if b is None: continue
            backs.append(b)
        for v in V:
            ds = {diff_const(b[v.key], v.x) for b in backs}
            if len(ds) == 1: v.delta = ds.pop()
        # loop-invariant bounds seen in comparisons
        syms = set(ids)
        bounds = {}
        self.entry_cut = self.entry_syms
        for pred, a, b in self.cmps:
            for x in (a, b):
                if not is_const(x) and not (symbols(x) - self.entry_syms):
                    bounds.setdefault(x.size(), {})[norm(x).get_id()] = norm(x)
                elif is_const(x) and x.size() >= 16:
                    bounds.setdefault(x.size(), {})[x.get_id()] = x
            # difference form: a - phi
            if a.size() >= 16 and not is_const(a) and not is_const(b):
                for p, q in ((a, b), (b, a)):
                    lp, cp = lin(p)
                    for v in V:
                        if v.n == p.size() and v.x.get_id() in lp and lp[v.x.get_id()][1] == 1 and not (symbols(q) - self.entry_syms):
                            t = norm(q - p + v.x)
                            if not (symbols(t) - self.entry_syms): bounds.setdefault(v.n, {})[t.get_id()] = t
        for v in V:
            if v.kind == "ptr" and not v.obj.family:
                t = v.obj.size
                bounds.setdefault(64, {})[t.get_id()] = t
        def cand(name, f): C_.append((name, f))
        for v in V:
            k, e = v.key, v.e
            cand("same:%s" % (k,), lambda d, s, k=k, e=e: d[k] == e)
            if v.kind == "idx":
                cand("nz:%s" % (k,), lambda d, s, k=k, e=e: d[k] != bv(0))
                fam = v.obj
                if getattr(fam, "valid", None):
                    cand("alive0:%s" % (k,), lambda d, s, k=k, fam=fam: Or(d[k] == bv(0), fam.valid(s, d[k])))
                    cand("alive:%s" % (k,), lambda d, s, k=k, fam=fam: fam.valid(s, d[k]))
                continue
            if v.n == 1: continue
            cand("sge0:%s" % (k,), lambda d, s, k=k, e=e: e <= d[k])
            cand("sle0:%s" % (k,), lambda d, s, k=k, e=e: d[k] <= e)
            cand("uge0:%s" % (k,), lambda d, s, k=k, e=e: z3.UGE(d[k], e))
            cand("ule0:%s" % (k,), lambda d, s, k=k, e=e: z3.ULE(d[k], e))
            cand("nonneg:%s" % (k,), lambda d, s, k=k, e=e: d[k] >= 0)
            if v.n >= 16:
                bs = list(bounds.get(v.n, {}).values())[:14]
                # neighbours of bounds
                ext = {}
                for b in bs:
                    ext[b.get_id()] = b
                    if not is_const(b):
                        for dlt in ((-1, 1) if v.delta in (None, 1, -1) else (v.delta, -v.delta, -1, 1)):
                            t = add(b, bv(dlt, v.n)); ext[t.get_id()] = t
                for b in ext.values():
                    cand("sle:%s:%s" % (k, b), lambda d, s, k=k, e=e, b=b: z3.Or(d[k] == e, d[k] <= b))
                    cand("ule:%s:%s" % (k, b), lambda d, s, k=k, e=e, b=b: z3.Or(d[k] == e, z3.ULE(d[k], b)))
                    cand("sge:%s:%s" % (k, b), lambda d, s, k=k, e=e, b=b: z3.Or(d[k] == e, d[k] >= b))
                    cand("Sle:%s:%s" % (k, b), lambda d, s, k=k, e=e, b=b: d[k] <= b)
                    cand("Ule:%s:%s" % (k, b), lambda d, s, k=k, e=e, b=b: z3.ULE(d[k], b))
                if v.delta and v.delta % 2 == 0:
                    tz = (v.delta & -v.delta)
                    cand("mod:%s" % (k,), lambda d, s, k=k, e=e, tz=tz, n=v.n: ((d[k] - e) & bv(tz - 1, n)) == 0)
        P = [v for v in V if v.kind != "idx" and v.n >= 16]
        for i in range(len(P)):
            for j in range(i + 1, len(P)):
                a, b = P[i], P[j]
                if a.delta and b.delta:
                    n = max(a.n, b.n)
                    cand("lin:%s:%s" % (a.key, b.key), lambda d, s, a=a, b=b, n=n: sx(d[a.key] - a.e, n) * bv(b.delta, n) == sx(d[b.key] - b.e, n) * bv(a.delta, n))
                elif a.n == b.n and (a.delta is None or b.delta is None):
                    for x, y in ((a, b), (b, a)):
                        cand("prog:%s:%s" % (x.key, y.key), lambda d, s, x=x, y=y: (d[x.key] - x.e) <= (d[y.key] - y.e))
                    cand("sum:%s:%s" % (a.key, b.key), lambda d, s, a=a, b=b: d[a.key] + d[b.key] == a.e + b.e)
                    cand("dif:%s:%s" % (a.key, b.key), lambda d, s, a=a, b=b: d[a.key] - d[b.key] == a.e - b.e)
                if a.n == b.n:
                    for x, y in ((a, b), (b, a)):
                        cand("ord:%s:%s" % (x.key, y.key), lambda d, s, x=x, y=y: d[x.key] <= d[y.key])
        # frames of havocked objects
        for o, w in self.W.items():
            if o.family or not w["all"] or o not in self.entry.mem: continue
            old = self.entry.mem[o]
            ranges = []
            seen = set()
            bad = False
            for s, latch in trial["backs"]:
                b, _ = self.vals_back(s, latch)
                for (oo, idx, off, n) in s.wlog:
                    if oo is not o: continue
                    if off is None: bad = True; continue
                    nn = bv(n) if isinstance(n, int) else n
                    if (off.get_id(), nn.get_id()) in seen: continue
                    seen.add((off.get_id(), nn.get_id()))
                    loose = (symbols(off) | symbols(nn)) - self.entry_syms - syms
                    if symbols(off) - self.entry_syms - syms: bad = True; continue
                    w0 = self.subst(off, hv, self.vals_entry())
                    wb = self.subst(off, hv, b) if b is not None else None
                    dd = diff_const(wb, off) if wb is not None else None
                    desc = dd is not None and dd < 0
                    if not (symbols(off) & syms):
                        # fixed location: always the same range
                        if loose: bad = True; continue
                        ranges.append((off, nn, "fix"))
                    else: ranges.append((off, nn, "desc" if desc else "asc", w0, dd if dd and dd > 0 and is_const(nn) else None))
            if ranges:
                def inr(k, d, ranges=ranges):
                    cs = []
                    for rg in ranges:
                        off, nn = rg[0], rg[1]
                        cur = self.subst(off, hv, d)
                        if rg[2] == "fix": cs.append(z3.ULT(k - off, nn))
                        elif rg[2] == "asc":
                            gap = rg[4] - cval(nn) if len(rg) > 4 and rg[4] is not None else 0
                            if gap == 0: cs.append(z3.ULT(sub(k, rg[3]), sub(cur, rg[3])))
                            else: cs.append(z3.And(cur != rg[3], z3.ULT(sub(k, rg[3]), sub(sub(cur, rg[3]), bv(gap)))))
                        else: cs.append(z3.And(z3.ULT(rg[3] + nn - 1 - k, rg[3] - cur)))
                    return z3.Or(cs)
                def fr(d, s, o=o, old=old, inr=inr):
                    now = s.mem[o]
                    return FA(lambda k: z3.Or(inr(k, d), bits(mem.read(now, None, k, 1)) == bits(mem.read(old, None, k, 1))))
                if not ex.opts.get("no_frames"): cand("frame:%s" % o.name, fr)
                lows = [rg[3] for rg in ranges if rg[2] == "asc"] + [rg[0] for rg in ranges if rg[2] == "fix"]
            for lb in self.low_bounds(o, ranges, bounds):
                def fl(d, s, o=o, old=old, lb=lb):
                    now = s.mem[o]
                    return FA(lambda k: z3.Or(z3.UGE(k, lb), bits(mem.read(now, None, k, 1)) == bits(mem.read(old, None, k, 1))))
                if not ex.opts.get("no_frames"): cand("low:%s:%s" % (o.name, lb), fl)
        # contract templates
        progs = {}
        pseen = {}
        for v in sorted(V, key=lambda v: v.key in self.derive):
            if v.kind == "idx" or v.n not in (32, 64): continue
            if ex.opts.get("stride_only") and v.delta is None: continue
            x = v.key
            for nm, f in (("+", lambda d, v=v: sx(sub(d[v.key], v.e), 64)), ("-", lambda d, v=v: sx(sub(v.e, d[v.key]), 64)),
                          ("=", lambda d, v=v: sx(d[v.key], 64))):
                if nm == "+" and v.delta is not None and v.delta < 0: continue
                if nm == "-" and (v.delta is None or v.delta > 0): continue
                if nm == "=" and is_const(v.e) and cval(v.e) == 0: continue
                t = norm(f(hv))
                if t.get_id() in pseen: continue
                pseen[t.get_id()] = t
                progs["%s%s" % (nm, x)] = f
                if v.delta and abs(v.delta) in (2, 4, 8, 16) and nm != "=":
                    sh = abs(v.delta).bit_length() - 1
                    progs["%s/%s" % (nm, x)] = lambda d, f=f, sh=sh: z3.LShR(f(d), bv(sh))
        self.progs = progs
        for ti, tm in enumerate(ex.templates):
            ar = getattr(tm, "arity", 1)
            if ar == 0:
                cand("T%d" % ti, lambda d, s, tm=tm: tm(s))
            elif ar == 1:
                for pn, f in progs.items():
                    cand("T%d:%s" % (ti, pn), lambda d, s, tm=tm, f=f: tm(s, f(d)))
            elif ar == "var":
                for v in V:
                    cand("T%d:v%s" % (ti, v.key), lambda d, s, tm=tm, v=v: tm(s, v, d[v.key]))
            elif ar == "varprog":
                for v in V:
                    for pn, f in progs.items():
                        cand("T%d:v%s:%s" % (ti, v.key, pn), lambda d, s, tm=tm, v=v, f=f: tm(s, v, d[v.key], f(d)))
            elif ar == "varvar":
                for v in V:
                    for u in V:
                        if u is v: continue
                        cand("T%d:v%s:%s" % (ti, v.key, u.key), lambda d, s, tm=tm, v=v, u=u: tm(s, v, d[v.key], u, d[u.key]))
        # lazily computed pointers that stayed in the same cell
        out = []
        for n, f in C_:
            out.append([n, f])
        return out
    def low_bounds(self, o, ranges, bounds):
        r = {}
        for rg in ranges:
            t = rg[3] if rg[2] != "fix" else rg[0]
            r[t.get_id()] = t
        return list(r.values())[:4]
    def subst(self, e, a, b):
        return norm(z3.substitute(e, [(a[k], b[k]) for k in a if k not in self.derive and not a[k].eq(b[k])])) if e.size() > 1 else e

    def holds(self, st, f, timeout=None):
        timeout = timeout or TO
        if f is None: return False
        g = nnf(f)
        if isinstance(g, z3.ExprRef):
            g = z3.simplify(g)
            if z3.is_true(g): return True
        r = logic.prove_unsat(st.pc + [Not(f)], pool=st.pool[-12:] + self.ex.hints, timeout=timeout, rounds=3, portfolio=False)
        return r.status == "unsat"

    def filter(self, st, items):
        """items: list of (cand, formula): returns those provable in st. Ground ones together first."""
        keep = []
        ground, quant = [], []
        for c, f in items:
            if f is None: continue
            if f is True: keep.append(c); continue
            g = nnf(f)
            if isinstance(g, z3.ExprRef):
                g = z3.simplify(g)
                if z3.is_true(g): keep.append(c)
                elif z3.is_false(g): pass
                else: ground.append((c, g))
            elif contains_q(g): quant.append((c, f))
            else: ground.append((c, Enc().enc(g)))
        base = [x for x in st.pc if isinstance(x, z3.ExprRef)]
        hasq = len(base) < len(st.pc)
        maybe = []
        if ground:
            ok = set(logic.prove_each(base, [g for _, g in ground], timeout=TO))
            for i, (c, g) in enumerate(ground):
                (keep if i in ok else maybe).append(c if i in ok else (c, g))
        todo = [(c, f) for c, f in quant]
        if hasq: todo += [(c, g) for c, g in maybe if c[0].startswith(("T", "frame", "low", "shape", "nz", "alive"))]
        if todo:
            for i in logic.prove_each(st.pc, [f for _, f in todo], pool=st.pool[-12:] + self.ex.hints, timeout=TO): keep.append(todo[i][0])
        ks = {id(c) for c in keep}
        return [c for c, _ in items if id(c) in ks]

    def trial(self, mark, cands):
        ex = self.ex
        del ex.obls[mark:]
        ex.cmps = self.cmps = []
        h = self.h = self.header()
        hv = self.vals_head()
        hz = h.clone()      # quantified facts are evaluated lazily: bind them to the memory at the head
        for c in cands: h.assume(self.ev_c(c, hv, hz))
        if h.dead: raise_unsupported("contradictory loop head")
        for p in getattr(self, "progs", {}).values():
            h.pool.append(p(hv))
        return region1(ex, h, self.info, self.H, self.L)
    def settle(self, mark):
        for it in range(12):
            self.progs = {}
            r = self.trial(mark, [])
            del self.ex.obls[mark:]
            if not self.absorb(r): return r
        raise_unsupported("modified set does not stabilise")
    def deltas(self, r):
        backs = []
        for s, latch in r["backs"]:
            b, _ = self.vals_back(s, latch)
            if b is not None: backs.append(b)
        for v in self.vars:
            ds = {diff_const(b[v.key], v.x) for b in backs}
            v.delta = ds.pop() if len(ds) == 1 else None
    def fix(self, mark, base, cands, dbg, last):
        """largest subset of cands inductive together with base (base is inductive by itself)"""
        ex = self.ex
        rnd = 0
        while True:
            rnd += 1
            if rnd > 25: raise_unsupported("invariant inference does not converge")
            r = self.trial(mark, base + cands)
            if self.absorb(r) or self.check_derive(r):
                self.settle_r = None
                r2 = self.settle(mark)
                return r2, cands, True
            before = len(cands)
            changed = False
            for s, latch in r["backs"]:
                b, s2 = self.vals_back(s, latch)
                if b is None: raise_unsupported("loop-carried pointer changes object")
                if last:
                    for o, w in self.W.items():
                        if o.family or not w["all"] or o not in self.entry.mem: continue
                        for (off, n, v) in ptr_cells(self.entry.mem[o]):
                            if (o.id, off) in self.unpres: continue
                            now = mem.read(s2.mem[o], None, bv(off), 8)
                            old = mem.read(self.entry.mem[o], None, bv(off), 8)
                            if same_ptr(now, old): continue
                            if not self.holds(s2, bits(now) == bits(old)):
                                if dbg: print("   unpreserved pointer cell", o, off)
                                self.unpres.add((o.id, off)); changed = True
                    if not self.shape_check(s2, b): changed = True
                cands = self.filter(s2, [(c, self.ev_c(c, b, s2)) for c in cands])
            if changed: return self.settle(mark), cands, True
            if dbg: print("   round %d: %d -> %d" % (rnd, before, len(cands)), [c[0] for c in cands] if ex.verbose>2 else "")
            if len(cands) == before: return r, cands, False
    def minimise(self, G):
        """drop ground invariants implied by the others"""
        if len(G) < 3: return G
        hv = self.vals_head()
        fs = []
        seen = set()
        base = [f for f in self.entry.pc if isinstance(f, z3.ExprRef)]
        for c in G:
            f = self.ev_c(c, hv, self.h)
            g = Enc().enc(nnf(f)) if not isinstance(f, z3.ExprRef) else f
            g = z3.simplify(g)
            if z3.is_true(g) or g.get_id() in seen: continue
            seen.add(g.get_id()); fs.append((c, g))
        s = z3.Solver(); s.set("timeout", 300)
        for x in base: s.add(x)
        ps = []
        for c, g in fs:
            p = fresh_bool("mi"); s.add(z3.Implies(p, g)); ps.append(p)
        keep = set(range(len(fs)))
        rank = lambda i: (0 if fs[i][0][0].startswith(("same", "nz", "alive")) else 1 if fs[i][0][0].startswith(("S", "U", "nonneg", "lin", "T")) else 2)
        for i in sorted(keep, key=lambda i: (-rank(i), -len(fs[i][0][0]))):
            if fs[i][0][0].startswith(("nz", "alive")): continue
            r = s.check([ps[j] for j in keep if j != i] + [z3.Not(fs[i][1])])
            if r == z3.unsat: keep.discard(i)
        return [fs[i][0] for i in sorted(keep)]

    def run(self):
        ex = self.ex
        mark = len(ex.obls)
        saved_cmps = ex.cmps
        self.entry_syms = entry_symbols(self.entry)
        outer_wlog = self.entry.wlog
        # 1. trial runs until the modified set is stable
        r = self.settle(mark)
        if not r["backs"]:
            # cannot iterate: execute from the entry state directly
            ex.cmps = saved_cmps
            s = self.entry.clone()
            r = region1(ex, s, self.info, self.H, self.L)
            if r["backs"]:
                raise_unsupported("loop analysis: unexpected back edge")
            self.res["outs"] += r["outs"]
            return r["exits"]
        dbg = ex.verbose >= 2
        while True:
            # exact strides -> fewer symbols
            for _ in range(3):
                self.deltas(r)
                if not self.set_derive(None): break
                r = self.trial(mark, [])
                if self.absorb(r): r = self.settle(mark)
                if self.check_derive(r): r = self.trial(mark, [])
            cands = self.gen_cands(r)
            if dbg: print("   loop %s:%s vars=%s cands=%d derive=%d W=%s" % (ex.frame_fn[-1], self.H, [(v.key, v.delta) for v in self.vars], len(cands), len(self.derive), {o.name: ("all" if w["all"] else w["cells"]) for o, w in self.W.items()}))
            ve = self.vals_entry()
            gq = [(c, self.ev_c(c, ve, self.entry)) for c in cands]
            isq = lambda f: f is not None and not isinstance(f, bool) and not isinstance(f, z3.ExprRef) and contains_q(nnf(f))
            G = [c for c, f in gq if f is not None and not isq(f)]
            Q = [c for c, f in gq if f is not None and isq(f)]
            fs = {id(c): f for c, f in gq}
            G0 = G = self.filter(self.entry, [(c, fs[id(c)]) for c in G])
            if dbg: print("   initial ground: %d" % len(G))
            r, G, again = self.fix(mark, [], G, dbg, False)
            if again: continue
            G = self.minimise(G)
            if dbg: print("   minimal: %d %s" % (len(G), [c[0] for c in G]))
            gi = {id(c) for c in G}
            T0 = [c for c in G0 if id(c) not in gi and c[0].startswith(("T", "alive", "nz"))]
            Q = self.filter(self.entry, [(c, fs[id(c)]) for c in Q])
            if dbg: print("   quantified: %d (+%d)" % (len(Q), len(T0)))
            r, Q, again = self.fix(mark, G, Q + T0, dbg, True)
            if again: continue
            break
        cands = G + Q
        h, hv = self.h, self.vals_head()
        ex.stats["inv"] += len(cands)
        if dbg: print("   invariants:", [c[0] for c in cands])
        if ex.term_check: self.termination(r, hv, h, cands)
        # tell the enclosing loop what was written
        ex.cmps = saved_cmps
        if saved_cmps is not None: saved_cmps.extend(self.cmps)
        if outer_wlog is not None:
            summary = []
            for o, w in self.W.items():
                if w["all"] and o.family: summary.append((o, None, None, None))
                elif w["all"]:
                    lo, done = None, False
                    for (nm, f) in cands:
                        if nm.startswith("low:%s:" % o.name): lo = nm
                    summary.append((o, None, None, None))
                else:
                    for (off, n) in w["cells"]:
                        if o.family:
                            if w["idx"] is None: summary.append((o, None, bv(off), n))
                            else: summary += [(o, k, bv(off), n) for k in w["idx"].values()]
                        else: summary.append((o, None, bv(off), n))
        else: summary = None
        for s, b, p in r["exits"]:
            s.wlog = None if outer_wlog is None else outer_wlog + summary + [x for x in s.wlog]
        for o in r["outs"]:
            o.st.wlog = None if outer_wlog is None else outer_wlog + summary + [x for x in o.st.wlog]
        self.res["outs"] += r["outs"]
        return r["exits"]

    def shape_check(self, s, b):
        hk = getattr(self.ex, "loop_shape_check", None)
        return hk(self, s, b) if hk else True

    def ev_c(self, c, d, s):
        try: return c[1](d, s)
        except KeyError: return None

    def termination(self, r, hv, h, cands):
        """a measure that decreases (unsigned) on every back edge"""
        ex = self.ex
        backs = [(s, self.vals_back(s, l)) for s, l in r["backs"]]
        ms = []
        bs = {}
        for pred, a, b in self.cmps:
            for x in (a, b):
                if not (symbols(x) - self.entry_syms) and x.size() >= 16: bs.setdefault(x.size(), {})[x.get_id()] = x
        for x in getattr(ex, "bound_terms", []): bs.setdefault(x.size(), {})[x.get_id()] = x
        for v in self.vars:
            if v.kind == "ptr" and not v.obj.family: bs.setdefault(64, {})[v.obj.size.get_id()] = v.obj.size
        for v in self.vars:
            if v.kind == "idx" or v.n < 8: continue
            ms.append(("%s" % (v.key,), lambda d, k=v.key: d[k]))
            ms.append(("-%s" % (v.key,), lambda d, k=v.key: -d[k]))
            for b in list(bs.get(v.n, {}).values()):
                ms.append(("%s-%s" % (b, v.key), lambda d, k=v.key, b=b: b - d[k]))
                ms.append(("%s+1-%s" % (b, v.key), lambda d, k=v.key, b=b: b + 1 - d[k]))
        ms += [(n, f) for n, f in getattr(ex, "measures", [])]      # of the state
        for nm, m in ms:
            ok = True
            for s, (b, s2) in backs:
                if b is None: ok = False; break
                try: lt = z3.ULT(m(s2), m(h)) if (nm, m) in getattr(ex, "measures", []) else z3.ULT(m(b), m(hv))
                except KeyError: ok = False; break
                if not self.holds(s2, lt, 6.0): ok = False; break
            if ok:
                if ex.verbose >= 2: print("   variant:", nm)
                ex.stats["variants"] = ex.stats.get("variants", 0) + 1
                return
        ex.obl(h, "termination", F, self.info.f.blocks[self.H][-1], "term")

def sx(e, n):
    if e.size() < n: return bv(sval(e), n) if is_const(e) else z3.SignExt(n - e.size(), e)
    return e
def raise_unsupported(m):
    from sym import Unsupported
    raise Unsupported(m)
def contains_q(f):
    if isinstance(f, (FA, EX)): return True
    if isinstance(f, (And_, Or_)): return any(contains_q(x) for x in f.fs)
    return False
def ptr_cells(c):
    """constant-offset cells currently holding pointers (latest first wins)"""
    out, seen = [], set()
    while c is not None:
        if c.k == "w" and is_const(c.off):
            k = cval(c.off)
            if k not in seen:
                seen.add(k)
                if is_ptr(c.v): out.append((k, c.n, c.v))
        if c.k == "base" and c.src:
            for k, v in c.src.items():
                if k not in seen: seen.add(k); out.append((k, 8, v))
        c = c.prev
    return out
def has_header(c):
    while c.prev is not None: c = c.prev
    return bool(c.src)

_sy = {}
def symbols(e):
    """ids of free constants"""
    k = e.get_id()
    r = _sy.get(k)
    if r is None:
        out = set(); st = [e]; seen = set()
        while st:
            x = st.pop(); i = x.get_id()
            if i in seen: continue
            seen.add(i)
            c = _sy.get(i)
            if c is not None: out |= c[0]; continue
            if z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(i)
            else:
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(("f", x.decl().name()))
                st.extend(x.children())
        r = (frozenset(out), e); _sy[k] = r
    return r[0]
def entry_symbols(st):
    out = set()
    for f in st.pc:
        if isinstance(f, z3.ExprRef): out |= symbols(f)
    for v in st.regs.values():
        for x in (v if isinstance(v, list) else [v]):
            for y in valterms(x): out |= symbols(y)
    for o, c in st.mem.items():
        out |= symbols(o.size)
        if not o.family and o._addr is not None: out |= symbols(o._addr)
        while c is not None:
            if c.k == "w":
                for t in (c.off, c.idx): 
                    if t is not None: out |= symbols(t)
                for y in valterms(c.v): out |= symbols(y)
            elif c.k == "base" and c.v is not None and hasattr(c.v, "name"): out.add(("f", c.v.name()))
            elif c.k in ("f", "c"):
                out |= symbols(c.off) | symbols(c.n)
                q = c.src
                while q is not None:
                    if q.k == "base" and q.v is not None and hasattr(q.v, "name"): out.add(("f", q.v.name()))
                    q = q.prev
            elif c.k == "h":
                q = c.src
                while q is not None:
                    if q.k == "base" and q.v is not None and hasattr(q.v, "name"): out.add(("f", q.v.name()))
                    q = q.prev
            c = c.prev
    return out
def valterms(v):
    if isinstance(v, list): return [t for x in v for t in valterms(x)]
    if isinstance(v, PtrIte): return valterms(v.a) + valterms(v.b) + [v.c]
    if isinstance(v, Ptr):
        return [v.off] + ([v.idx] if v.idx is not None else [])
    return [v] if isinstance(v, z3.ExprRef) else []
