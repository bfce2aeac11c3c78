"""Formulas with explicit quantifiers over z3 ground terms, instantiation, and the solver portfolio.

The solvers only ever see quantifier-free QF_UFBV problems: existentials are skolemised and universals are instantiated
at terms found by matching the arguments of uninterpreted-function applications (modulo linear offsets).  Dropping
instances can only make a proof fail, never succeed, so instantiation is not part of the trusted base.
"""
import itertools, os, subprocess, tempfile, time
import z3

M64 = (1 << 64) - 1
_cnt = itertools.count()
_keep = []

def fresh(name, bits=64):
    return z3.BitVec("%s!%d" % (name, next(_cnt)), bits)
def fresh_bool(name):
    return z3.Bool("%s!%d" % (name, next(_cnt)))
_bvc = {}
def bv(v, bits=64):
    v &= (1 << bits) - 1
    r = _bvc.get((v, bits))
    if r is None:
        r = z3.BitVecVal(v, bits); _bvc[(v, bits)] = r
    return r
T, F = z3.BoolVal(True), z3.BoolVal(False)

def is_const(e):
    return z3.is_bv_value(e)
def cval(e):
    return e.as_long()
def sval(e):
    v = e.as_long(); n = e.size()
    return v - (1 << n) if v >> (n - 1) else v

# ----------------------------------------------------------------------------- linear normal form for bit-vectors
_lin = {}
def lin(e):
    """e == const + sum coef*term (mod 2^n); returns (dict id->(term,coef), const)"""
    k = e.get_id()
    r = _lin.get(k)
    if r is not None: return r[0]
    n = e.size(); m = (1 << n) - 1
    d = e.decl().kind()
    if z3.is_bv_value(e): r = ({}, e.as_long())
    elif d == z3.Z3_OP_BADD:
        acc, c = {}, 0
        for ch in e.children():
            a, cc = lin(ch); c = (c + cc) & m
            _acc(acc, a, 1, m)
        r = (acc, c)
    elif d == z3.Z3_OP_BSUB:
        ch = e.children(); acc = {}
        a, c = lin(ch[0]); _acc(acc, a, 1, m)
        for x in ch[1:]:
            a, cc = lin(x); c = (c - cc) & m; _acc(acc, a, -1, m)
        r = (acc, c)
    elif d == z3.Z3_OP_BNEG:
        a, c = lin(e.arg(0)); acc = {}; _acc(acc, a, -1, m); r = (acc, (-c) & m)
    elif d == z3.Z3_OP_BMUL and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
        f = e.arg(0).as_long(); a, c = lin(e.arg(1)); acc = {}; _acc(acc, a, f, m); r = (acc, (c * f) & m)
    elif d == z3.Z3_OP_BMUL and e.num_args() == 2 and z3.is_bv_value(e.arg(1)):
        f = e.arg(1).as_long(); a, c = lin(e.arg(0)); acc = {}; _acc(acc, a, f, m); r = (acc, (c * f) & m)
    else: r = ({k: (e, 1)}, 0)
    _lin[k] = (r, e)
    return r
def _acc(acc, a, f, m):
    for i, (t, c) in a.items():
        o = acc.get(i)
        n = ((o[1] if o else 0) + c * f) & m
        if n == 0:
            if o: del acc[i]
        else: acc[i] = (t, n)
def unlin(acc, c, n):
    if not acc: return bv(c, n)
    ts = []
    m = (1 << n) - 1
    for i in sorted(acc):
        t, k = acc[i]
        if k == 1: ts.append(t)
        elif k == m: ts.append(-t)
        else: ts.append(bv(k, n) * t)
    r = ts[0]
    for t in ts[1:]: r = r + t
    if c: r = r + bv(c, n)
    return r
def norm(e):
    a, c = lin(e)
    r = unlin(a, c, e.size())
    _lin.setdefault(r.get_id(), ((a, c), r))
    return r
def add(a, b):
    if is_const(a) and is_const(b): return bv(cval(a) + cval(b), a.size())
    if is_const(b) and cval(b) == 0: return a
    if is_const(a) and cval(a) == 0: return b
    return norm(a + b)
def sub(a, b):
    if is_const(b) and cval(b) == 0: return a
    return norm(a - b)
def diff_const(a, b):
    """constant a-b (signed) if syntactically known else None"""
    if a.eq(b): return 0
    x, c = lin(a); y, d = lin(b)
    if len(x) != len(y): return None
    for i, (t, k) in x.items():
        o = y.get(i)
        if o is None or o[1] != k: return None
    n = a.size(); v = (c - d) & ((1 << n) - 1)
    return v - (1 << n) if v >> (n - 1) else v

# ----------------------------------------------------------------------------- formulas
class FA:
    """for all n bit-vector variables (64 bit by default): fn(*vars) -> formula"""
    def __init__(self, fn, n=1, bits=64, extra=None):
        self.fn, self.n, self.extra = fn, n, extra
        self.bits = [bits] * n if isinstance(bits, int) else list(bits)
class EX:
    def __init__(self, fn, n=1, bits=64, wit=None):
        self.fn, self.n, self.wit = fn, n, wit
        self.bits = [bits] * n if isinstance(bits, int) else list(bits)
class And_:
    def __init__(self, fs): self.fs = fs
class Or_:
    def __init__(self, fs): self.fs = fs
class Not_:
    def __init__(self, f): self.f = f

def isz(f): return isinstance(f, z3.ExprRef) or isinstance(f, bool)
def And(*fs):
    if len(fs) == 1 and isinstance(fs[0], (list, tuple)): fs = fs[0]
    fs = [f for f in fs if f is not True and not (isz(f) and not isinstance(f, bool) and z3.is_true(f))]
    if not fs: return T
    if len(fs) == 1: return fs[0]
    return And_(list(fs))
def Or(*fs):
    if len(fs) == 1 and isinstance(fs[0], (list, tuple)): fs = fs[0]
    fs = list(fs)
    if not fs: return F
    if len(fs) == 1: return fs[0]
    return Or_(fs)
def Not(f): return Not_(f)
def Imp(a, b): return Or(Not(a), b)
def Iff(a, b):
    return And(Imp(a, b), Imp(b, a))

def nnf(f, pos=True):
    if isinstance(f, bool): f = T if f else F
    if isinstance(f, z3.ExprRef): return f if pos else z3.Not(f)
    if isinstance(f, And_):
        return (And_ if pos else Or_)([nnf(x, pos) for x in f.fs])
    if isinstance(f, Or_):
        return (Or_ if pos else And_)([nnf(x, pos) for x in f.fs])
    if isinstance(f, Not_): return nnf(f.f, not pos)
    if isinstance(f, FA):
        if pos: return FA(lambda *v: nnf(f.fn(*v)), f.n, f.bits)
        return EX(lambda *v: nnf(f.fn(*v), False), f.n, f.bits)
    if isinstance(f, EX):
        if pos: return EX(lambda *v: nnf(f.fn(*v)), f.n, f.bits)
        w = f.wit
        return FA(lambda *v: nnf(f.fn(*v), False), f.n, f.bits, extra=w)
    raise TypeError("formula %r" % (f,))

class Enc:
    """turns formulas into ground z3 + guarded universal quantifiers"""
    def __init__(self):
        self.ground, self.quants, self.skolems = [], [], []
        self.seen = set()
    def assert_(self, f):
        f = nnf(f)
        self._assert(f)
    def _assert(self, f):
        if isinstance(f, And_):
            for x in f.fs: self._assert(x)
        elif isinstance(f, FA): self.quants.append((None, f, []))
        elif isinstance(f, EX): self._assert(f.fn(*self._sk(f)))
        else: self.ground.append(self.enc(f))
    def _sk(self, f):
        vs = [fresh("sk", b) for b in f.bits]
        self.skolems += vs
        return vs
    def enc(self, f):
        if isinstance(f, z3.ExprRef): return f
        if isinstance(f, And_): return z3.And([self.enc(x) for x in f.fs])
        if isinstance(f, Or_):
            return z3.Or([self.enc(x) for x in f.fs])
        if isinstance(f, EX): return self.enc(f.fn(*self._sk(f)))
        if isinstance(f, FA):
            p = fresh_bool("q"); self.quants.append((p, f, []))
            return p
        raise TypeError("enc %r" % (f,))

# apps of uninterpreted functions reachable from an expression
_apps = {}
def apps(e):
    k = e.get_id()
    r = _apps.get(k)
    if r is not None: return r[0]
    out = {}
    st = [e]; seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        c = _apps.get(i)
        if c is not None:
            out.update(c[0]); continue
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[i] = x
            for ch in x.children(): st.append(ch)
    _apps[k] = (out, e)
    return out
_hv = {}
def has_var(e, vid):
    k = (e.get_id(), vid)
    r = _hv.get(k)
    if r is None:
        v = False
        st = [e]; seen = set()
        while st:
            x = st.pop(); i = x.get_id()
            if i == vid: v = True; break
            if i in seen: continue
            seen.add(i)
            st.extend(x.children())
        r = (v, e); _hv[k] = r
    return r[0]

class Quant:
    def __init__(self, guard, fa):
        self.guard, self.fa, self.done = guard, fa, set()
        self.vars = [fresh("v", b) for b in fa.bits]
        en = Enc()
        body = fa.fn(*self.vars)
        g = en.enc(nnf(body)) if not isinstance(body, FA) else None
        leaves = [] if g is None else [g]
        for (_, q, _) in en.quants:
            vs = [fresh("v", b) for b in q.bits]
            try: leaves.append(Enc().enc(nnf(q.fn(*vs))))
            except Exception: pass
        self.pats = []          # per var: list of (decl, argidx, coef, rest linear, const)
        for v in self.vars:
            vid = v.get_id(); ps = []
            seen = set()
            for lf in leaves:
                for a in apps(lf).values():
                    for ai in range(a.num_args()):
                        arg = a.arg(ai)
                        if not z3.is_bv(arg) or not has_var(arg, vid): continue
                        l, c = lin(arg)
                        if vid not in l: continue
                        coef = l[vid][1]
                        rest = {i: tc for i, tc in l.items() if i != vid}
                        if any(has_var(t, vid) for (t, _) in rest.values()): continue
                        if any(any(has_var(t, o.get_id()) for (t, _) in rest.values()) for o in self.vars): continue
                        key = (a.decl().name(), ai, coef, tuple(sorted((i, tc[1]) for i, tc in rest.items())), c)
                        if key in seen: continue
                        seen.add(key)
                        ps.append((a.decl(), ai, coef, rest, c, arg.size()))
            self.pats.append(ps)
    def cands(self, vi, table):
        out = {}
        v = self.vars[vi]
        for (d, ai, coef, rest, c, n) in self.pats[vi]:
            m = (1 << n) - 1
            for a in table.get(d.name(), ()):
                l, k = lin(a.arg(ai))
                acc = dict(l)
                _acc(acc, rest, -1, m)
                cc = (k - c) & m
                # acc + cc == coef * v
                if coef == 1: t = unlin(acc, cc, n)
                elif coef == m:
                    a2 = {}; _acc(a2, acc, -1, m); t = unlin(a2, (-cc) & m, n)
                else:
                    if coef >> (n - 1): continue
                    if cc % coef: continue
                    ok = True; a2 = {}
                    for i, (tt, q) in acc.items():
                        if q >> (n-1):
                            q2 = (1 << n) - q
                            if q2 % coef: ok = False; break
                            a2[i] = (tt, (-(q2 // coef)) & m)
                        else:
                            if q % coef: ok = False; break
                            a2[i] = (tt, q // coef)
                    if not ok: continue
                    t = unlin(a2, cc // coef, n)
                if any(has_var(t, x.get_id()) for x in self.vars): continue
                out[t.get_id()] = t
        return out

STATS = {"queries": 0, "z3": 0, "cvc5": 0, "z3-new": 0, "solver_s": 0.0, "unknown": 0, "insts": 0}

class Result:
    def __init__(self, status, model=None, backend=None, t=0.0, text=None):
        self.status, self.model, self.backend, self.t, self.text = status, model, backend, t, text

def to_text(fs, values=()):
    s2 = z3.Solver()
    for f in fs: s2.add(f)
    t = s2.to_smt2().replace("(set-info :status unknown)", "")
    txt = "(set-logic QF_UFBV)\n" + t
    if values: txt = "(set-option :produce-models true)\n" + txt + "\n(get-value (%s))\n" % " ".join(v.sexpr() for v in values)
    return txt

RACE = (("cvc5-int", ["cvc5", "--lang=smt2", "--solve-bv-as-int=iand"], 0.0), ("z3-4.8", ["z3", "-in"], 0.05), ("z3-new", ["z3-new", "-in"], 1.0), ("cvc5", ["cvc5", "--lang=smt2"], 4.0))
def race(txt, timeout, values=False):
    """run the external solvers side by side; the first conclusive answer wins.  The limit is on each solver's processor time,
    so that a busy machine does not change the answers; the wall clock only backs it up."""
    import select, resource, math
    cpu = math.ceil(timeout); timeout = 4 * timeout
    t0 = time.time()
    procs = {}
    pend = list(RACE)
    f = tempfile.TemporaryFile("w+"); f.write(txt); f.flush()
    ans = None
    try:
        while True:
            now = time.time() - t0
            while pend and (pend[0][2] <= now or not procs and len(pend) < len(RACE)):
                name, cmd, _ = pend.pop(0)
                f2 = os.open("/proc/self/fd/%d" % f.fileno(), os.O_RDONLY)
                p = subprocess.Popen(cmd, stdin=f2, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                os.close(f2)
                try: resource.prlimit(p.pid, resource.RLIMIT_CPU, (cpu, cpu + 1))
                except OSError: pass
                procs[p.stdout] = (name, p)
            if now > timeout: return ("unknown", None, "")
            if not procs and not pend: return ("unknown", None, "")
            nxt = min([timeout - now] + [d - now for _, _, d in pend[:1]])
            r, _, _ = select.select(list(procs), [], [], max(0.01, nxt))
            for fd in r:
                name, p = procs.pop(fd)
                out = p.stdout.read(); p.wait()
                p.stdout.close()
                a = out.strip().split("\n")[0]
                if a in ("sat", "unsat"): return (a, name, out)
    finally:
        for name, p in procs.values():
            p.kill(); p.wait(); p.stdout.close()
        f.close()

def gfacts_of(fs):
    import mem
    out, seen = [], set()
    for f in fs:
        for a in apps(f).values():
            n = a.decl().name()
            if n in mem.GAPP:
                if a.get_id() not in seen: seen.add(a.get_id()); out += mem.GAPP[n](a)
            elif n in mem.GFACTS and n not in seen:
                seen.add(n); out += mem.GFACTS[n]
    return out

FIRST = 0.3
def ground_check(fs, timeout, want_model=False, portfolio=True):
    """decide a list of ground z3 formulas"""
    t0 = time.time()
    STATS["queries"] += 1
    fs = fs + gfacts_of(fs)
    s = z3.SolverFor("QF_UFBV")
    s.set("timeout", int(min(timeout, FIRST) * 1000))
    for f in fs: s.add(f)
    try: r = s.check()
    except z3.Z3Exception: r = z3.unknown
    dt = time.time() - t0
    if r == z3.unsat:
        STATS["solver_s"] += dt
        STATS["z3"] += 1
        return Result("unsat", backend="z3", t=dt)
    if r == z3.sat:
        STATS["solver_s"] += dt
        return Result("sat", s.model(), "z3", dt)
    a, name, out = race(to_text(fs), timeout)
    STATS["solver_s"] += time.time() - t0
    if a == "unsat":
        STATS[name] = STATS.get(name, 0) + 1
        return Result("unsat", backend=name, t=time.time() - t0)
    if a == "sat": return Result("sat", None, name, time.time() - t0)
    STATS["unknown"] += 1
    return Result("unknown", None, None, time.time() - t0)

class Inst:
    """instantiation engine over a set of formulas"""
    def __init__(self, pool=(), max_inst=4000):
        self.en = Enc(); self.quants = []; self.gi = self.qi = 0
        self.table = {}; self.known = set(); self.ninst = 0
        self.pool = {t.get_id(): t for t in pool}
        self.max_inst = max_inst
    def collect(self):
        en = self.en
        while self.qi < len(en.quants):
            g, fa, _ = en.quants[self.qi]; self.qi += 1
            self.quants.append(Quant(g, fa))
        for f in en.ground[self.gi:]:
            for i, a in apps(f).items():
                if i not in self.known:
                    self.known.add(i); self.table.setdefault(a.decl().name(), []).append(a)
        self.gi = len(en.ground)
    def round(self):
        """one round; number of new instances"""
        self.collect()
        en = self.en
        new = 0
        for q in self.quants:
            cs = []
            for vi in range(len(q.vars)):
                c = q.cands(vi, self.table)
                b = q.vars[vi].size()
                for s_ in en.skolems:
                    if s_.size() == b: c.setdefault(s_.get_id(), s_)
                for t in self.pool.values():
                    if t.size() == b: c.setdefault(t.get_id(), t)
                if q.fa.extra:
                    for t in q.fa.extra: c.setdefault(t.get_id(), t)
                cs.append(list(c.values()))
            if len(cs) > 1:
                lim = 40 if len(cs) == 2 else 14
                cs = [c[:lim] for c in cs]
            for tup in itertools.product(*cs):
                key = tuple(t.get_id() for t in tup)
                if key in q.done: continue
                q.done.add(key); _keep.append(tup)
                inst = nnf(q.fa.fn(*tup))
                if q.guard is None: en._assert(inst)
                else: en.ground.append(z3.Or(z3.Not(q.guard), en.enc(inst)))
                new += 1; self.ninst += 1
                if self.ninst > self.max_inst: break
            if self.ninst > self.max_inst: break
        STATS["insts"] += new
        return new

def prove_unsat(fs, pool=(), timeout=20, rounds=4, max_inst=4000, portfolio=True, trace=None):
    """fs: list of formulas; is their conjunction unsatisfiable?"""
    ii = Inst(pool, max_inst)
    for f in fs: ii.en.assert_(f)
    rd = 0
    ii.collect()
    while ii.quants and rd < rounds and ii.ninst <= max_inst:
        new = ii.round(); rd += 1
        ii.collect()
        if new == 0: break
        if rd < rounds and rd >= 1:
            res = ground_check(ii.en.ground, min(timeout, 1.5))
            if res.status == "unsat": return res
    res = ground_check(ii.en.ground, timeout)
    if trace is not None: trace["ground"] = ii.en.ground
    return res

def quick(fs, timeout):
    t0 = time.time()
    STATS["queries"] += 1
    s = z3.SolverFor("QF_UFBV"); s.set("timeout", int(FIRST * 1000))
    for f in fs: s.add(f)
    try: r = str(s.check())
    except z3.Z3Exception: r = "unknown"
    if r == "unknown": r = race(to_text(fs), timeout)[0]
    STATS["solver_s"] += time.time() - t0
    return r

def prove_each(hyps, goals, pool=(), timeout=6, rounds=3, max_inst=4000):
    """which of the goals follow from hyps (each on its own)?  model-driven: one query usually settles many"""
    ii = Inst(pool, max_inst)
    for f in hyps: ii.en.assert_(f)
    flags = []
    for g in goals:
        b = fresh_bool("ng")
        ii.en.ground.append(b == ii.en.enc(nnf(Not(g))))
        flags.append(b)
    rd = 0
    ii.collect()
    live = list(range(len(goals)))
    proved = []
    while ii.quants and rd < rounds and ii.ninst <= max_inst and live:
        new = ii.round(); rd += 1
        ii.collect()
        if new == 0: break
        if rd < rounds:
            # early rounds are small: settle what they already settle
            fs = ii.en.ground + gfacts_of(ii.en.ground)
            r = quick(fs + [z3.Or([flags[i] for i in live])], timeout=1.5)
            if r == "unsat": proved += live; live = []; break
            if len(live) > 1:
                won = [i for i in live if quick(fs + [flags[i]], timeout=0.7) == "unsat"]
                proved += won; live = [i for i in live if i not in won]
    if not live: return sorted(proved)
    fs = ii.en.ground
    fs = fs + gfacts_of(fs)
    t0 = time.time()
    while live:
        STATS["queries"] += 1
        q = fs + [z3.Or([flags[i] for i in live])]
        a, out = None, None
        s = z3.SolverFor("QF_UFBV"); s.set("timeout", int(FIRST * 1000)); 
        for f in q: s.add(f)
        try: r = s.check()
        except z3.Z3Exception: r = z3.unknown
        if r == z3.unsat: proved += live; break
        if r == z3.sat:
            m = s.model()
            bad = {i for i in live if z3.is_true(m.eval(flags[i], model_completion=True))}
        else:
            a, name, out = race(to_text(q, [flags[i] for i in live]), timeout)
            if a == "unsat": proved += live; break
            if a != "sat":
                # one by one
                for i in live:
                    a, name, out = race(to_text(fs + [flags[i]]), timeout)
                    if a == "unsat": proved.append(i)
                break
            bad = {i for i in live if ("%s true" % flags[i].sexpr()) in out}
        if not bad: break
        live = [i for i in live if i not in bad]
    STATS["solver_s"] += time.time() - t0
    return sorted(proved)
