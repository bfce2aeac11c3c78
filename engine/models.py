"""Trusted models of what lies outside the repository: libc memory functions, the debug trap."""
import z3
import ir, mem
from logic import *
from mem import *

def install(ex):
    from sym import Outcome
    N = ex.natives
    def memcpy(ex, s, a, ins, move=False):
        return [Outcome(x, a[0]) for x in ex.memcpy(s, ex.asptr(a[0]), ex.asptr(a[1]), bits(a[2]), ins, move)]
    N["memcpy"] = memcpy
    N["memmove"] = lambda ex, s, a, ins: memcpy(ex, s, a, ins, True)
    def memset(ex, s, a, ins):
        return [Outcome(x, a[0]) for x in ex.memset(s, ex.asptr(a[0]), a[1], bits(a[2]), ins)]
    N["memset"] = memset
    # diagnostics: print only (their own formatting is the subject of C10); the arguments are not inspected
    def nop(ex, s, a, ins):
        f = ex.mod.func(ins.x.v)
        return [Outcome(s, None if f.ret.k == "void" else fresh("diag", f.ret.a if f.ret.k == "int" else 64))]
    for n in ("assert_handler", "log_fmt", "_printf_err", "_printf_err_va", "c_str_fmt_out_err", "c_str_fmt_out"):
        N[n] = nop
    # formatting into a caller buffer: writes only inside the first n bytes (C10), contents unspecified
    def c_str_fmt(ex, s, a, ins):
        out = []
        for s1, d in ex.resolve(s, ex.asptr(a[0])):
            n = bits(a[1])
            ex.obl(s1, "fmt-buffer", Or(n <= 0, ex.valid(s1, d, cval(n) if is_const(n) else n)), ins, "mem")
            if s1.dead or d.obj not in s1.mem: continue
            ex.check_frame(s1, d, n, ins)
            ex._logw(s1, d.obj, d.idx, d.off, n)
            def pred(idx, off, d=d, n=n): return z3.ULT(sub(off, d.off), n)
            s1.mem[d.obj] = c_havoc(s1.mem[d.obj], pred, base_uf("fmt"))
            out.append(Outcome(s1, fresh("fmtlen")))
        return out
    N["c_str_fmt"] = c_str_fmt
