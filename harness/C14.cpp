#include "ast.hpp"
static void once() {}
static CodeParams param() { CodeTypename t = def_type(mk(ident())); Opts_def_param o; memset(&o, 0, sizeof o); if (coin()) o.value = untyped_str(mk(ident())); return def_param(t, keep(ident()), o); }
static std::string bare(CodeParams p) { AST t = *(AST*)p.ast; t.Last = t.Next = t.Parent = Code{ 0 }; t.NumEntries = 0; return std::string((char*)&t, sizeof t); }
static void check(CodeParams l, std::vector<std::string> const& w, std::vector<AST*> const& who) {
	size_t n = w.size(), i = 0; CHECK((size_t)l->NumEntries == n, "count", "%d, expected %zu", l->NumEntries, n); CHECK(params_has_entries(l) == (n > 0), "params_has_entries", "wrong");
	std::set<void*> seen; AST* last = 0;
	for (CodeParams p = begin_CodeParams(l); p.ast != end_CodeParams(l).ast; p = next_CodeParams(l, p), ++i) { CHECK(i < n, "members", "more than %zu", n); if (i >= n) break; CHECK(seen.insert(p.ast).second, "members", "linked twice"); CHECK(bare(p) == w[i], "member", "position %zu of %zu has other content", i, n); CHECK(!who[i] || who[i] == (AST*)p.ast, "order", "position %zu is another node", i);
		if (i) CHECK(((AST*)p.ast)->Parent.ast == (AST*)l.ast, "parent", "position %zu", i); last = (AST*)p.ast; CHECK(params_get(l, (s32)i).ast == p.ast, "params_get", "position %zu of %zu", i, n); }
	CHECK(i == n, "members", "%zu, expected %zu", i, n);
	if (n > 1) CHECK(((AST*)l.ast)->Last.ast == last, "last", "wrong");
	for (s32 k : { (s32)n, (s32)n + 1, (s32)n + 7, -1, -2147483647 - 1 }) CHECK(!params_get(l, k).ast, "params_get", "absent position %d of %zu present", k, n);
	size_t k = 0; for (CodeParams p : l) { (void)p; if (++k > n) break; } CHECK(k == n, "iteration", "%zu of %zu", k, n);
}
TEST(lists) {
	start(); struct L { CodeParams l; std::vector<std::string> w; std::vector<AST*> who; }; std::vector<L> ls(1 + below(3)); for (auto& l : ls) { l.l = param(); l.w = { bare(l.l) }; l.who = { (AST*)l.l.ast }; }
	std::vector<CodeParams> nodes; std::string log;
	for (int s = 0, n = 1 + below(25); s < n; ++s) { auto& l = ls[below(ls.size())]; int op = below(6); log += " " + std::to_string(op) + "@" + std::to_string(&l - &ls[0]); CASE("params_append", "%s", log.c_str());
		if (op < 3 || nodes.empty()) { CodeParams p = param(); nodes.push_back(p); l.w.push_back(bare(p)); l.who.push_back((AST*)p.ast); params_append(l.l, p); }
		else if (op < 5) { CodeParams p = nodes[below(nodes.size())]; std::string before = snap((Code)p); bool last = ((AST*)l.l.ast)->Last.ast == (AST*)p.ast; l.w.push_back(bare(p)); params_append(l.l, p); if (!last) CHECK(snap((Code)p) == before, "copied not moved", "the original changed"); l.who.push_back(((AST*)l.l.ast)->Last.ast); CHECK(l.who.back() != (AST*)p.ast, "copied not moved", "linked again"); }
		else { l.w.push_back(bare(param_varadic)); params_append(l.l, param_varadic); l.who.push_back(((AST*)l.l.ast)->Last.ast); }
		for (auto& q : ls) check(q.l, q.w, q.who); if (nfail > 20) break; }
	stop();
}
TEST(build) {
	start(); int n = 1 + below(6); std::vector<CodeParams> a; std::vector<std::string> w; for (int i = 0; i < n; ++i) { a.push_back(param()); w.push_back(bare(a.back())); } std::vector<AST*> who(n, nullptr);
	CASE("def_params_arr", "%d", n); { Buf b(a.data(), n * sizeof(CodeParams)); CodeParams r = def_params_arr(n, (CodeParams*)b.p); check(r, w, who); CHECK(r.ast != a[0].ast && !((AST*)a[0].ast)->Next.ast, "def_params_arr", "the first argument was changed"); }
	std::vector<CodeParams> c; std::vector<std::string> v; for (int i = 0; i < 3; ++i) { c.push_back(param()); v.push_back(bare(c.back())); }
	CASE("def_params", "3"); check(def_params(3, c[0], c[1], c[2]), v, { nullptr, (AST*)c[1].ast, (AST*)c[2].ast }); CASE("def_params", "1"); check(def_params(1, a[0]), { w[0] }, { nullptr });
	CASE("params_append", "itself"); CHECK(traps([&] { params_append(c[0], c[0]); }), "self append", "accepted"); stop();
}
TEST(defines) { start(); int n = 1 + below(5); std::vector<CodeDefineParams> a; std::vector<std::string> nm; for (int i = 0; i < n; ++i) { CodeDefineParams p = (CodeDefineParams)make_code(); p->Type = CT_Parameters_Define; std::string s = ident(); p->Name = cache_str(mk(s)); p->NumEntries = 1; nm.push_back(s); a.push_back(p); }
	CASE("def_define_params_arr", "%d", n); Buf b(a.data(), n * sizeof(CodeDefineParams)); CodeDefineParams r = def_define_params_arr(n, (CodeDefineParams*)b.p); int i = 0; for (CodeDefineParams p = begin_CodeDefineParams(r); p.ast; p = next_CodeDefineParams(r, p), ++i) { if (i >= n) break; CHECK(str(p->Name) == nm[i], "define parameters", "position %d", i); CHECK(define_params_get(r, i).ast == p.ast, "define_params_get", "position %d", i); } CHECK(i == n && r->NumEntries == n && define_params_has_entries(r), "define parameters", "%d and %d, expected %d", i, r->NumEntries, n); CHECK(!define_params_get(r, n).ast, "define_params_get", "past the end"); stop(); }
