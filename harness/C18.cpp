// the documented spellings (the enumeration tables the repository documents, written out here as the oracle)
#include "ast.hpp"
#define SPELL_OPS(k, s) { k, s },
static struct { int k; const char* s; } OPS[] = {
#include "spellings.inc"
};
#define SPELL_SPECS(k, s) { k, s },
static struct { int k; const char* s; } SPECS[] = {
#include "spellings.inc"
};
#define SPELL_TOKS(k, s) { k, s },
static struct { int k; const char* s; } TOKS[] = {
#include "spellings.inc"
};
#define SPELL_CODES(k, s) { k, s },
static struct { int k; const char* s; } CODES[] = {
#include "spellings.inc"
};

template <class T, class E, class F> static void table(T& t, const char* fn, F f, E last) {
	int n = 0; for (auto& e : t) { CASE(fn, "%d", e.k); CHECK(str(f((E)e.k)) == e.s, fn, "kind %d spelled %s, documented %s", e.k, show(str(f((E)e.k))).c_str(), e.s); CHECK(e.k == n, fn, "enumerator %d at position %d", e.k, n); ++n; }
	(void)last;
}
template <class T, class E, class F> static void back(T& t, const char* fn, F f, E inv) {
	std::set<std::string> done; for (auto& e : t) { if (!done.insert(e.s).second) continue; CASE(fn, "%s", e.s); SBuf b(e.s); CHECK((int)f(b.str()) == e.k, fn, "%s looked up as %d, not %d", e.s, (int)f(b.str()), e.k); }
	auto unknown = [&](std::string const& s) { if (done.count(s)) return; CASE(fn, "%s", show(s).c_str()); SBuf b(s); CHECK(f(b.str()) == inv, fn, "unknown text %s looked up as %d", show(s).c_str(), (int)f(b.str())); };
	for (int i = 0; i < 30; ++i) { auto& e = t[below(sizeof t / sizeof *t)]; std::string s = e.s; if (coin()) s += (char)(33 + below(90)); else if (s.size()) s[below(s.size())] ^= 1 << below(7); unknown(s); unknown(s.substr(0, s.size() / 2)); unknown(ident()); }
	// texts with the same CRC-32 as a spelling
	auto& e = t[below(sizeof t / sizeof *t)]; u32 want = crc(e.s); std::string p = ident(); u32 reg = ~crc(p); u32 TT[256]; for (u32 i = 0; i < 256; ++i) { u32 c = i; for (int k = 0; k < 8; ++k) c = c & 1 ? c >> 1 ^ 0xEDB88320u : c >> 1; TT[i] = c; }
	u32 end = ~want; u8 idx[4]; for (int k = 3; k >= 0; --k) { int j = 0; while (TT[j] >> 24 != end >> 24) ++j; idx[k] = (u8)j; end = (end ^ TT[j]) << 8; }
	for (int k = 0; k < 4; ++k) { u8 c = (u8)(idx[k] ^ (reg & 0xff)); p += (char)c; reg = TT[idx[k]] ^ reg >> 8; } CHECK(crc(p) == want, "test", "collision construction"); unknown(p);
}
static void once() {
	start();
	table(OPS, "operator_to_str", operator_to_str, Op_Invalid); CHECK(sizeof OPS / sizeof *OPS == Op_NumOps, "operator_to_str", "number of operators");
	table(SPECS, "spec_to_str", spec_to_str, Spec_Invalid); CHECK(sizeof SPECS / sizeof *SPECS == Spec_NumSpecifiers, "spec_to_str", "number of specifiers");
	table(TOKS, "toktype_to_str", toktype_to_str, Tok_Invalid); CHECK(sizeof TOKS / sizeof *TOKS + 1 == Tok_NumTokens, "toktype_to_str", "number of tokens"); CHECK(str(toktype_to_str(Tok___Attributes_Start)) == "__attrib_start__", "toktype_to_str", "attributes start"); CHECK(str(toktype_to_str((TokType)(Tok_NumTokens - 1))) == "GEN_API", "toktype_to_str", "attribute GEN_API");
	table(CODES, "codetype_to_keyword_str", codetype_to_keyword_str, CT_Invalid); CHECK(sizeof CODES / sizeof *CODES == CT_NumTypes, "codetype_to_keyword_str", "number of kinds");
	static const char* CN[] = { "Invalid", "Untyped", "NewLine", "Comment", "Access_Private", "Access_Protected", "Access_Public", "PlatformAttributes", "Class", "Class_Fwd", "Class_Body", "Constructor", "Constructor_Fwd", "Destructor", "Destructor_Fwd", "Enum", "Enum_Fwd", "Enum_Body", "Enum_Class", "Enum_Class_Fwd", "Execution", "Export_Body", "Extern_Linkage", "Extern_Linkage_Body", "Friend", "Function", "Function_Fwd", "Function_Body", "Global_Body", "Module", "Namespace", "Namespace_Body", "Operator", "Operator_Fwd", "Operator_Member", "Operator_Member_Fwd", "Operator_Cast", "Operator_Cast_Fwd", "Parameters", "Parameters_Define", "Preprocess_Define", "Preprocess_Include", "Preprocess_If", "Preprocess_IfDef", "Preprocess_IfNotDef", "Preprocess_ElIf", "Preprocess_Else", "Preprocess_EndIf", "Preprocess_Pragma", "Specifiers", "Struct", "Struct_Fwd", "Struct_Body", "Template", "Typedef", "Typename", "Union", "Union_Fwd", "Union_Body", "Using", "Using_Namespace", "Variable" };
	for (int i = 0; i < CT_NumTypes; ++i) { CASE("codetype_to_str", "%d", i); CHECK(str(codetype_to_str((CodeType)i)) == CN[i], "codetype_to_str", "kind %d spelled %s", i, str(codetype_to_str((CodeType)i)).c_str()); }
	static const char* AN[] = { "", "private", "protected", "public" }; for (int i = 0; i < 8; ++i) { CASE("access_spec_to_str", "%d", i); CHECK(str(access_spec_to_str((AccessSpec)i)) == (i < 4 ? AN[i] : "Invalid"), "access_spec_to_str", "%d spelled %s", i, show(str(access_spec_to_str((AccessSpec)i))).c_str()); }
	static const char* MN[] = { "__none__", "export", "import" }; for (int i = 0; i < 8; ++i) { CASE("module_flag_to_str", "%d", i); CHECK(str(module_flag_to_str((ModuleFlag)i)) == (i < 3 ? MN[i] : "invalid"), "module_flag_to_str", "%d spelled %s", i, show(str(module_flag_to_str((ModuleFlag)i))).c_str()); }
	struct { MacroType t; const char* n; TokType k; } MT[] = { { MT_Expression, "Expression", Tok_Preprocess_Macro_Expr }, { MT_Statement, "Statement", Tok_Preprocess_Macro_Stmt }, { MT_Typename, "Typename", Tok_Preprocess_Macro_Typename }, { MT_Block_Start, "Block_Start", Tok_Invalid }, { MT_Block_End, "Block_End", Tok_Invalid }, { MT_Case_Statement, "Case_Statement", Tok_Invalid }, { (MacroType)6, "Invalid", Tok_Invalid }, { MT_UnderlyingType, "Invalid", Tok_Invalid } };
	for (auto& m : MT) { CASE("macrotype_to_str", "%d", m.t); CHECK(str(macrotype_to_str(m.t)) == m.n, "macrotype_to_str", "%d spelled %s", m.t, show(str(macrotype_to_str(m.t))).c_str()); CHECK(macrotype_to_toktype(m.t) == m.k, "macrotype_to_toktype", "%d", m.t); }
	std::set<int> tr = { Spec_Const, Spec_Final, Spec_NoExceptions, Spec_Override, Spec_Pure, Spec_Delete, Spec_Volatile }; for (int i = 0; i < Spec_NumSpecifiers; ++i) { CASE("spec_is_trailing", "%d", i); CHECK(spec_is_trailing((Specifier)i) == (tr.count(i) > 0), "spec_is_trailing", "specifier %d", i); }
}
TEST(str_to_specifier_) { back(SPECS, "str_to_specifier", [](Str s) { return str_to_specifier(s); }, Spec_Invalid); }
TEST(str_to_toktype_) { if (coin(4)) back(TOKS, "str_to_toktype", [](Str s) { return str_to_toktype(s); }, Tok_Invalid); }
