"""C18: the spelling of every enumerator.  harness/spellings.inc holds the documented pairs; the enumerators' values are compiled
from the current sources (verif_val_*), so nothing depends on their numbering."""
import os, re
from spec import *
from lib import *
P = ["C18"]
_inc = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "spellings.inc")).read()
SETS = {}
for t, k, v in re.findall(r'^SPELL_(\w+)\((\w+), "(.*)"\)$', _inc, re.M): SETS.setdefault(t, []).append((k, v.encode().decode("unicode_escape").encode("latin1")))
def values(cx, t):
    for g in cx.ex.mod.globals_raw:
        if ("verif_val_%sE" % t) in g: return [x.v for x in cx.ex.mod.glob(g)[1].v]
    raise Unsupported("values of " + t)
def spelled(px, what, want):
    s = px.str_ret() if hasattr(px, "str_ret") else None
    px.ensure("length of '%s'" % want.decode("latin1"), s.len == len(want))
    px.ensure("text '%s'" % want.decode("latin1"), And(*[px.byte(s.ptr, bv(i)) == want[i] for i in range(len(want))]) if want else T)
def table(fn, t, other=None, w=32):
    """fn(enumerator) is its documented spelling"""
    @contract(fn, props=P, callable=False)
    def _(cx):
        r = cx.sret(16); k = cx.i("kind"); vs = values(cx, t); cx.assigns(r, 16)
        n = len(SETS[t]); c = cx.choose(n + (1 if other is not None else 0))
        if c < n: cx.st.assume(k == bv(vs[c], w)); want = SETS[t][c][1]
        else: cx.st.assume(z3.And([k != bv(v, w) for v in vs])); want = other
        return lambda px: spelled(px, fn, want)
table("operator_to_str", "OPS"); table("spec_to_str", "SPECS"); table("toktype_to_str", "TOKS"); table("codetype_to_keyword_str", "CODES"); table("codetype_to_str", "KIND")
table("access_spec_to_str", "ACCESS", b"Invalid"); table("module_flag_to_str", "MODFLAG", b"invalid"); table("macrotype_to_str", "MACRO", w=16)
TRAILING = ("Spec_Const", "Spec_Final", "Spec_NoExceptions", "Spec_Override", "Spec_Pure", "Spec_Delete", "Spec_Volatile")
@contract("spec_is_trailing", props=P, callable=False)
def _(cx):
    k = cx.i("specifier"); vs = dict(zip([n for n, _ in SETS["SPECS"]], values(cx, "SPECS")))
    return lambda px: px.ensure("exactly the specifiers written behind a declaration", px.bool() == z3.Or([k == bv(vs[n], 32) for n in TRAILING]))
