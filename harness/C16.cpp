#include "ast.hpp"
static void once() {}
static Code blank(CodeType t) { Code c = make_code(); c->Type = t; return c; }
static const CodeType kinds[] = { CT_Untyped, CT_Typename, CT_PlatformAttributes, CT_Specifiers, CT_Parameters, CT_Function_Body, CT_Class_Body, CT_Struct_Body, CT_Namespace_Body, CT_Enum_Body, CT_Union_Body, CT_Extern_Linkage_Body, CT_Class, CT_Class_Fwd, CT_Struct, CT_Struct_Fwd, CT_Function, CT_Function_Fwd, CT_Operator, CT_Operator_Fwd, CT_Enum, CT_Enum_Fwd, CT_Enum_Class, CT_Enum_Class_Fwd, CT_Union, CT_Variable, CT_Using, CT_Comment, CT_Execution };
static const CodeType none = (CodeType)-1;
// a part: mostly of the kind asked for (none: no part), sometimes of any kind; optional parts are often left out
static Code any(CodeType want, bool optional = true) {
	if (optional && coin(2)) return Code{ 0 };
	if (coin(40)) return Code{ 0 };
	Code c = blank(coin(8) ? kinds[below(sizeof kinds / sizeof *kinds)] : want);
	if (coin(4)) c->Parent = Code_Global; return c;
}
typedef std::initializer_list<CodeType> Ks;
static bool isk(Code c, Ks ks) { return c.ast && std::find(ks.begin(), ks.end(), c->Type) != ks.end(); }
static bool opt(Code c, Ks ks) { return !c.ast || isk(c, ks); }
struct Part { int at, size; u64 v; };
static void* W(Code c) { return c.ast; }
static void built(const char* fn, bool ok, std::function<Code()> make, CodeType type, std::vector<Part> parts, std::string name = "", std::vector<int> texts = {}) {
	CASE(fn, "name %s, expected %s of kind %d", show(name).c_str(), ok ? "a node" : "a refusal", (int)type);
	Code r = { 0 }; std::vector<std::pair<AST*, std::string>> before; for (auto& p : parts) if (p.size == 8 && p.v) before.push_back({ (AST*)p.v, std::string((char*)p.v, sizeof(AST)) });
	bool rejected = traps([&] { r = make(); }) || !r.ast || r->Type == CT_Invalid || r.ast == Code_Invalid.ast;
	CHECK(rejected == !ok, rejected ? "rejected" : "accepted", "%s", rejected ? "refused although the arguments are of the documented kinds" : "accepted although an argument is missing or of the wrong kind");
	if (rejected || !ok) return;
	std::string e(sizeof(AST), 0); unsigned char* g = (unsigned char*)r.ast;
	auto put = [&](int at, int n, u64 v) { memcpy(&e[at], &v, n); }; put(offsetof(AST, Type), 4, type); for (auto& p : parts) put(p.at, p.size, p.v);
	for (int t : texts) { Str s; memcpy(&s, g + t, sizeof s); CHECK(str(s) == name, "text", "at %d: %s", t, show(str(s)).c_str()); memcpy(&e[t], &s, sizeof s); }
	for (size_t i = 0; i < sizeof(AST); ++i) CHECK(g[i] == (unsigned char)e[i], "parts", "byte %zu of the node is %02x, expected %02x", i, g[i], (unsigned char)e[i]);
	for (auto& b : before) CHECK(std::string((char*)b.first, sizeof(AST)) == b.second, "parts", "an argument was changed");
}
enum { A_ = 8, S_ = 16, T_ = 24, P_ = 32, B_ = 40, N_ = 64, M_ = 116, C_ = 120 };
#define PTR(at, c) Part{ at, 8, (u64)(c).ast }
template <class T> static T as(Code c) { T t; memcpy(&t, &c, sizeof c); return t; }
TEST(constructors) {
	start(); for (int k = 0; k < 6; ++k) {
	std::string n = coin(10) ? "" : ident(); CStr f(n); Str s = { coin(15) ? nullptr : f.p, (ssize)n.size() }; bool ns = s.Ptr && s.Len; ModuleFlag mf = (ModuleFlag)below(4); CodeAttributes at = as<CodeAttributes>(any(CT_PlatformAttributes)); CodeSpecifiers sp = as<CodeSpecifiers>(any(CT_Specifiers)); bool ao = opt(as<Code>(Code{ (AST*)at.ast }), { CT_PlatformAttributes }), so = opt(Code{ (AST*)sp.ast }, { CT_Specifiers });
	switch (below(22)) {
	case 0: built("def_attributes", ns, [&] { return (Code)def_attributes(s); }, CT_PlatformAttributes, {}, n, { 0, N_ }); break;
	case 1: built("def_execution", ns, [&] { return (Code)def_execution(s); }, CT_Execution, {}, n, { 0 }); break;
	case 2: built("def_pragma", ns, [&] { return (Code)def_pragma(s); }, CT_Preprocess_Pragma, {}, n, { 0 }); break;
	case 3: built("def_using_namespace", ns, [&] { return (Code)def_using_namespace(s); }, CT_Using_Namespace, {}, n, { N_ }); break;
	case 4: { Code b = any(CT_Extern_Linkage_Body, false); built("def_extern_link", ns && isk(b, { CT_Extern_Linkage_Body, CT_Untyped }), [&] { return (Code)def_extern_link(s, as<CodeBody>(b)); }, CT_Extern_Linkage, { PTR(B_, b) }, n, { N_ }); break; }
	case 5: { Code d = any(kinds[below(29)], false); built("def_friend", isk(d, { CT_Class_Fwd, CT_Function_Fwd, CT_Operator_Fwd, CT_Struct_Fwd, CT_Class, CT_Function, CT_Operator, CT_Struct }), [&] { return (Code)def_friend(d); }, CT_Friend, { PTR(B_, d) }); break; }
	case 6: { Opts_def_module o; o.mflags = mf; built("def_module", ns, [&] { return (Code)def_module(s, o); }, CT_Module, { { M_, 4, mf } }, n, { N_ }); break; }
	case 7: { Code b = any(CT_Namespace_Body, false); Opts_def_namespace o; o.mflags = mf; built("def_namespace", ns && isk(b, { CT_Namespace_Body, CT_Untyped }), [&] { return (Code)def_namespace(s, as<CodeBody>(b), o); }, CT_Namespace, { PTR(B_, b), { M_, 4, mf } }, n, { N_ }); break; }
	case 8: { Code t = any(CT_Typename, false); Opts_def_param o; o.value = any(CT_Untyped); built("def_param", ns && isk(t, { CT_Typename }) && opt(o.value, { CT_Untyped }), [&] { return (Code)def_param(as<CodeTypename>(t), s, o); }, CT_Parameters, { PTR(T_, t), PTR(B_, o.value), { C_, 4, 1 } }, n, { N_ }); break; }
	case 9: { Code p = any(CT_Parameters), d = any(kinds[below(29)], false); Opts_def_template o; o.mflags = mf; built("def_template", opt(p, { CT_Parameters }) && isk(d, { CT_Class, CT_Function, CT_Struct, CT_Variable, CT_Using }), [&] { return (Code)def_template(as<CodeParams>(p), d, o); }, CT_Template, { PTR(P_, p), PTR(B_, d), { M_, 4, mf } }); break; }
	case 10: { Opts_def_type o; memset(&o, 0, sizeof o); o.type_tag = (ETypenameTag)below(5); o.array_expr = any(CT_Untyped); o.specifiers = sp; o.attributes = at; built("def_type", ns && ao && so && opt(o.array_expr, { CT_Untyped }), [&] { return (Code)def_type(s, o); }, CT_Typename, { PTR(A_, at), PTR(S_, sp), PTR(B_, o.array_expr), { 122, 2, (u64)o.type_tag } }, n, { N_ }); break; }
	case 11: { Opts_def_constructor o; Code p = any(CT_Parameters); o.params = as<CodeParams>(p); o.initializer_list = any(CT_Untyped); o.body = any(coin() ? CT_Function_Body : CT_Untyped); built("def_constructor", opt(p, { CT_Parameters }) && opt(o.body, { CT_Function_Body, CT_Untyped }), [&] { return (Code)def_constructor(o); }, o.body.ast ? CT_Constructor : CT_Constructor_Fwd, { PTR(P_, p), PTR(T_, o.initializer_list), PTR(B_, o.body) }); break; }
	case 12: { Opts_def_destructor o; o.specifiers = sp; o.body = any(coin() ? CT_Function_Body : CT_Untyped); built("def_destructor", so && opt(o.body, { CT_Function_Body, CT_Untyped }), [&] { return (Code)def_destructor(o); }, o.body.ast ? CT_Destructor : CT_Destructor_Fwd, { PTR(S_, sp), PTR(B_, o.body) }); break; }
	case 13: case 14: { Opts_def_enum o; memset(&o, 0, sizeof o); Code b = any(coin() ? CT_Enum_Body : CT_Untyped), t = any(CT_Typename); o.body = as<CodeBody>(b); o.type = as<CodeTypename>(t); o.specifier = coin() ? EnumDecl_Class : EnumDecl_Regular; o.attributes = at; o.mflags = mf; o.type_macro = any(CT_Untyped); bool cl = o.specifier == EnumDecl_Class; Code tm = t.ast ? Code{ 0 } : o.type_macro;
		built("def_enum", ns && ao && opt(t, { CT_Typename }) && opt(b, { CT_Enum_Body, CT_Untyped }) && (b.ast || cl || t.ast || tm.ast), [&] { return (Code)def_enum(s, o); }, b.ast ? (cl ? CT_Enum_Class : CT_Enum) : (cl ? CT_Enum_Class_Fwd : CT_Enum_Fwd), { PTR(A_, at), PTR(T_, t), PTR(P_, tm), PTR(B_, b), { M_, 4, mf } }, n, { N_ }); break; }
	case 15: { Code t = any(CT_Typename, false); Opts_def_variable o; memset(&o, 0, sizeof o); o.value = any(CT_Untyped); o.specifiers = sp; o.attributes = at; o.mflags = mf; built("def_variable", ns && isk(t, { CT_Typename }) && ao && so && opt(o.value, { CT_Untyped }), [&] { return (Code)def_variable(as<CodeTypename>(t), s, o); }, CT_Variable, { PTR(A_, at), PTR(S_, sp), PTR(T_, t), PTR(B_, o.value), { M_, 4, mf } }, n, { N_ }); break; }
	case 16: { Code t = coin(6) ? Code{ 0 } : blank(CT_Typename); Opts_def_using o; memset(&o, 0, sizeof o); o.attributes = at; o.mflags = mf; built("def_using", ns && t.ast && ao, [&] { return (Code)def_using(s, as<CodeTypename>(t), o); }, CT_Using, { PTR(A_, at), PTR(T_, t), { M_, 4, mf } }, n, { N_ }); break; }
	case 17: { Code t = any(kinds[below(29)], false); Opts_def_typedef o; memset(&o, 0, sizeof o); o.attributes = at; o.mflags = mf; built("def_typedef", ns && ao && isk(t, { CT_Class, CT_Class_Fwd, CT_Enum, CT_Enum_Fwd, CT_Enum_Class, CT_Enum_Class_Fwd, CT_Function_Fwd, CT_Struct, CT_Struct_Fwd, CT_Union, CT_Typename }), [&] { return (Code)def_typedef(s, t, o); }, CT_Typedef, { PTR(T_, t), { M_, 4, mf } }, n, { N_ }); break; }
	case 19: case 20: {   // classes and structs; interfaces follow the parent in order, the first one takes its place when there is none
		bool st = coin(); Opts_def_struct o; memset(&o, 0, sizeof o); Code b = any(st ? CT_Struct_Body : CT_Class_Body), par = any(CT_Typename); int ni = coin() ? 0 : below(4); std::vector<CodeTypename> is; for (int i = 0; i < ni; ++i) is.push_back(as<CodeTypename>(blank(CT_Typename))); if (ni && par.ast && par->Type != CT_Typename) par = Code{ 0 }; if (b.ast && !st) b->Parent = Code{ 0 };
		o.body = as<CodeBody>(b); o.parent = as<CodeTypename>(par); o.parent_access = (AccessSpec)below(3); o.attributes = at; o.interfaces = is.data(); o.num_interfaces = ni; o.specifiers = sp; o.mflags = mf; Str un = st && !ns ? Str{ 0, 0 } : s;
		bool ok = ao && (st ? opt(par, { CT_Typename }) && opt(b, { CT_Struct_Body }) : ns && opt(par, { CT_Class, CT_Struct, CT_Typename, CT_Untyped }) && opt(b, { CT_Class_Body, CT_Untyped })); Code r = { 0 };
		Code first = par.ast ? par : ni ? Code{ (AST*)is[0].ast } : par; std::vector<Part> parts = { PTR(A_, at), PTR(S_, sp), PTR(T_, first), { M_, 4, mf }, { C_, 4, (u64)(!par.ast && ni ? AccessSpec_Public : o.parent_access) } };
		if (b.ast && ok && !st) { CASE("def_class", "name %s with a body", show(n).c_str()); AST* ba = b.ast; CodeClass c = { 0 }; CHECK(!traps([&] { c = def_class(s, o); }) && c.ast && c->Type == CT_Class && c->Body.ast == (AST_Body*)ba && ba->Parent.ast == (AST*)c.ast && c->ParentType.ast == (AST_Typename*)first.ast && c->Specs.ast == sp.ast && c->Attributes.ast == at.ast && str(c->Name) == n, "class", "not the arguments"); r = Code{ (AST*)c.ast }; }
		else if (!ni) { parts.push_back(PTR(B_, b)); built(st ? "def_struct" : "def_class", ok, [&] { return r = st ? (Code)def_struct(un, o) : (Code)def_class(s, o); }, st ? (b.ast ? CT_Struct : CT_Struct_Fwd) : (b.ast ? CT_Class : CT_Class_Fwd), parts, st && !ns ? "" : n, { N_ }); }
		else { CASE(st ? "def_struct" : "def_class", "%d interfaces, %s", ni, par.ast ? "a parent" : "no parent"); bool t = traps([&] { r = st ? (Code)def_struct(un, o) : (Code)def_class(s, o); }); CHECK(t == !ok, "interfaces", ok ? "refused" : "accepted"); if (t) break; CHECK(r->ParentType.ast == first.ast && r->ParentAccess == (!par.ast ? AccessSpec_Public : o.parent_access), "interfaces", "parent or its access differ"); }
		if (ni && ok && r.ast) { Code c = r->ParentType; if (par.ast) c = c->Next; for (auto& i : is) { CHECK(c.ast == (AST*)i.ast, "interfaces", "not in order"); c = c->Next; } CHECK(!c.ast, "interfaces", "a stray one"); }
		break; }
	case 21: if (coin()) { Code t = any(CT_Typename, false), b = any(coin() ? CT_Function_Body : CT_Execution); Opts_def_operator_cast o; memset(&o, 0, sizeof o); o.body = as<CodeBody>(b); o.specs = sp; built("def_operator_cast", isk(t, { CT_Typename }) && opt(b, { CT_Function_Body, CT_Execution }), [&] { return (Code)def_operator_cast(as<CodeTypename>(t), o); }, b.ast ? CT_Operator_Cast : CT_Operator_Cast_Fwd, { PTR(T_, t), PTR(S_, sp), PTR(B_, b) }); }
		else { Code p = any(CT_Parameters), rt = any(CT_Typename), b = any(coin() ? CT_Function_Body : CT_Untyped); Opts_def_function o; memset(&o, 0, sizeof o); o.params = as<CodeParams>(p); o.ret_type = as<CodeTypename>(rt); o.body = as<CodeBody>(b); o.specs = sp; o.attrs = at; o.mflags = mf;
			built("def_function", ns && ao && so && opt(p, { CT_Parameters }) && opt(rt, { CT_Typename }) && opt(b, { CT_Function_Body, CT_Execution, CT_Untyped }), [&] { return (Code)def_function(s, o); }, b.ast ? CT_Function : CT_Function_Fwd, { PTR(P_, p), PTR(T_, rt.ast ? rt : Code{ (AST*)t_void.ast }), PTR(B_, b), PTR(S_, sp), PTR(A_, at), { M_, 4, mf } }, n, { N_ }); } break;
	default: { Code b = any(CT_Union_Body, false); Opts_def_union o; memset(&o, 0, sizeof o); o.attributes = at; o.mflags = mf; Str un = ns ? s : Str{ 0, 0 }; built("def_union", isk(b, { CT_Union_Body }) && ao, [&] { return (Code)def_union(un, as<CodeBody>(b), o); }, CT_Union, { PTR(A_, at), PTR(B_, b), { M_, 4, mf } }, ns ? n : "", { N_ }); break; }
	} }
	stop();
}
