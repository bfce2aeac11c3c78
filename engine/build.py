"""Compile /repo's current sources to LLVM IR (the flags of the repository's own build) and load them."""
import hashlib, os, re, subprocess, sys
import ir

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = ["--target=x86_64-w64-mingw32", "-fms-extensions", "-fdelayed-template-parsing"]
FLAGS = ["-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-Xclang", "-femit-all-decls", "-Dforceinline=inline", "-D__AMXINTRIN_H", "-D__AMX_FP16INTRIN_H", "-D__AMX_COMPLEXINTRIN_H", "-fno-exceptions", "-w", "-gline-tables-only", "-DGEN_TIME", "-DGEN_BUILD_DEBUG=1"]

class BuildError(Exception): pass

def compile_ir(tu, out):
    try: return compile_ir1(tu, out, ["-DVERIF_INST", "-I" + os.path.dirname(tu)])
    except BuildError as e:
        return compile_ir1(tu, out, [])
def compile_ir1(tu, out, extra):
    os.makedirs(out, exist_ok=True)
    ll = os.path.join(out, "tu.ll"); m = os.path.join(out, "tu.m.ll")
    cmd = ["clang++"] + TARGET + FLAGS + ["-S", "-emit-llvm", "-I%s/base" % REPO] + extra + [tu, "-o", ll]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise BuildError(p.stderr[-4000:])
    p = subprocess.run(["opt", "-S", "-passes=mem2reg", ll, "-o", m], capture_output=True, text=True)
    if p.returncode: raise BuildError(p.stderr[-4000:])
    return m, " ".join(cmd)

def demangle(names):
    raw = [n[1:].strip('"') for n in names]
    p = subprocess.run(["c++filt"], input="\n".join(raw), capture_output=True, text=True)
    out = {}
    for n, d in zip(names, p.stdout.split("\n")):
        s = d
        base = re.sub(r"\s*\[.*?\]$", "", s)
        # cut the parameter list at the matching parenthesis
        if base.endswith(")") or base.endswith(" const"):
            e = base.rfind(")")
            dep = 0
            for i in range(e, -1, -1):
                if base[i] == ")": dep += 1
                elif base[i] == "(":
                    dep -= 1
                    if dep == 0: base = base[:i]; break
        # return type prefix of templates
        dep = 0; cut = 0
        for i, ch in enumerate(base):
            if ch in "<(": dep += 1
            elif ch in ">)": dep -= 1
            elif ch == " " and dep == 0 and "operator" not in base[:i]: cut = i + 1
        base = base[cut:]
        base = re.sub(r"^gen::", "", base)
        out[n] = (s, base)
    return out

def load(path):
    mod = ir.Module(open(path).read())
    dem = demangle(list(mod.funcs))
    by = {}
    for n in mod.funcs:
        by.setdefault(dem[n][1], []).append(n)
    mod.by_base = by
    return mod, dem
