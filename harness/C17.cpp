#include "ast.hpp"
static void once() {}
enum { No, Member, Free };
// the arity and placement rules of the language, with the additional typing rules the library states in its messages
static int rule(int op, int n, bool eq, bool firstInt, bool secondInt, bool retBool) {
	auto in = [&](std::initializer_list<int> l) { return std::find(l.begin(), l.end(), op) != l.end(); };
	if (op == Op_Assign) return n == 1 ? Member : No;
	if (op >= Op_Assign_Add && op <= Op_Assign_RShift) return n == 1 ? Member : n == 2 && eq ? Free : No;
	if (in({ Op_Increment, Op_Decrement })) return n == 0 ? Member : n == 1 ? (firstInt ? Member : eq ? Free : No) : n == 2 ? (eq && secondInt ? Free : No) : No;
	if (in({ Op_Unary_Plus, Op_Unary_Minus })) return n == 0 ? Member : n == 1 && eq ? Free : No;
	if (op == Op_UnaryNot) return !retBool ? No : n == 0 ? Member : n == 1 ? Free : No;
	if (in({ Op_BNot, Op_Indirection, Op_AddressOf })) return n == 0 ? Member : n == 1 ? Free : No;
	if (in({ Op_Add, Op_Subtract, Op_Multiply, Op_Divide, Op_Modulo, Op_BAnd, Op_BOr, Op_BXOr, Op_LShift, Op_RShift, Op_LAnd, Op_LOr, Op_LEqual, Op_LNot, Op_Lesser, Op_Greater, Op_LesserEqual, Op_GreaterEqual, Op_PtrToMemOfPtr, Op_Comma })) return n == 1 ? Member : n == 2 ? Free : No;
	if (op == Op_MemberOfPointer) return n == 0 ? Member : No;
	if (op == Op_Subscript) return n >= 1 ? Member : No;
	if (op == Op_FunctionCall) return Member;
	return Free;   // new and delete are not validated
}
TEST(operators) {
	start(); auto ty = [](std::string const& s) { return def_type(keep(s)); };
	for (int op = 0; op <= Op_NumOps; ++op) for (int n = 0; n <= 4; ++n) {
		std::string A = coin(3) ? "int" : coin(3) ? "bool" : "Vec" + ident(), R = coin(3) ? "bool" : coin() ? A : "Res" + ident(), Bn = coin() ? "int" : "Oth" + ident();
		std::string names[4] = { A, Bn, "Third", "Fourth" }; CodeParams ps = { 0 }; for (int i = 0; i < n; ++i) { Opts_def_param o; memset(&o, 0, sizeof o); CodeParams p = def_param(ty(names[i]), keep(ident()), o); if (i) params_append(ps, p); else ps = p; }
		Opts_def_operator o; memset(&o, 0, sizeof o); o.params = ps; o.ret_type = ty(R); bool body = coin(); if (body) { int k = below(3); o.body = k == 0 ? (Code)def_function_body(1, untyped_str(mk("x;"))) : k == 1 ? untyped_str(mk("{}")) : (Code)def_execution(mk("return;")); }
		if (coin()) o.specifiers = def_specifier(Spec_Inline); if (coin(4)) o.attributes = def_attributes(mk("[[nodiscard]]")); o.mflags = coin(4) ? ModuleFlag_Export : ModuleFlag_None;
		std::string ns = coin(3) ? ident() + "::" : ""; CASE("def_operator", "op %d '%s' params %d (%s, %s) return %s body %d", op, op < Op_NumOps ? str(operator_to_str((Operator)op)).c_str() : "-", n, A.c_str(), Bn.c_str(), R.c_str(), body);
		int want = op == Op_Invalid ? No : rule(op, n, A == R, A == "int", Bn == "int", R == "bool"); CodeOperator r = { 0 }; if (op == Op_NumOps) continue;
		bool t = traps([&] { r = def_operator((Operator)op, mk(ns), o); }); bool rejected = t || !r.ast || r->Type == CT_Invalid || r.ast == (AST_Operator*)Code_Invalid.ast;
		CHECK(rejected == (want == No), rejected ? "rejected" : "accepted", "operator %s with %d parameters %s", str(operator_to_str((Operator)op)).c_str(), n, rejected ? "rejected although permitted" : "accepted although not permitted");
		if (rejected || want == No) continue;
		CHECK(r->Type == (body ? (want == Member ? CT_Operator_Member : CT_Operator) : (want == Member ? CT_Operator_Member_Fwd : CT_Operator_Fwd)), "kind", "operator %s with %d parameters: %s", str(operator_to_str((Operator)op)).c_str(), n, str(codetype_to_str(r->Type)).c_str());
		CHECK(r->Op == (Operator)op && str(r->Name) == ns + "operator " + str(operator_to_str((Operator)op)) && r->Params.ast == ps.ast && r->ReturnType.ast == o.ret_type.ast && r->Body.ast == o.body.ast && r->Specs.ast == o.specifiers.ast && r->Attributes.ast == o.attributes.ast && r->ModuleFlags == o.mflags, "parts", "not the arguments");
		CHECK(!((AST*)r.ast)->Parent.ast && !((AST*)r.ast)->Next.ast && !((AST*)r.ast)->Prev.ast && !((AST*)r.ast)->InlineCmt.ast, "parts", "stray parts");
	}
	for (int k = 0; k < 4; ++k) { Opts_def_operator o; memset(&o, 0, sizeof o); o.ret_type = t_bool; Opts_def_param po; memset(&po, 0, sizeof po); o.params = def_param(t_int, mk("a"), po); const char* w[] = { "params", "return type", "body", "specifiers" };
		if (k == 0) o.params = cast(CodeParams, (Code)t_int); if (k == 1) o.ret_type = cast(CodeTypename, (Code)spec_const); if (k == 2) o.body = (Code)t_int; if (k == 3) o.specifiers = cast(CodeSpecifiers, (Code)t_int);
		for (int op : { Op_Assign, Op_Add, Op_LEqual, Op_Subscript, Op_Assign_Add, Op_Comma, Op_FunctionCall }) { CASE("def_operator", "op %d, %s of the wrong kind", op, w[k]); CodeOperator r = { 0 }; CHECK(traps([&] { r = def_operator((Operator)op, mk(""), o); }) || !r.ast || r->Type == CT_Invalid, "wrong kind", "%s of the wrong kind stored", w[k]); } }
	stop();
}
