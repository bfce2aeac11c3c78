#include "ast.hpp"
static void once() {}
static Code node(int k) { std::string n = ident(); switch (k) { case 0: return (Code)def_comment(mk(n)); case 1: return (Code)def_class(mk(n)); case 2: return untyped_str(mk(n)); case 3: return (Code)def_include(mk(n + ".h")); case 4: return (Code)def_variable(t_int, mk(n)); default: return (Code)def_namespace(mk(n), def_namespace_body(1, untyped_str(mk(ident())))); } }
static CodeBody newbody() { CodeBody b = (CodeBody)make_code(); b->Type = coin() ? CT_Global_Body : coin() ? CT_Namespace_Body : CT_Class_Body; return b; }
// what the list of a body must be: links, counts, parents (expect: identity of each child; 0 = some copy with this content)
static void check(CodeBody b, std::vector<AST*> const& want, std::vector<std::string> const& content) {
	size_t n = want.size();
	CHECK((size_t)b->NumEntries == n, "child count", "count %d, expected %zu", b->NumEntries, n);
	CHECK(code_has_entries((Code)b) == (n > 0), "code_has_entries", "wrong");
	CHECK(!b->Front.ast == (n == 0) && !b->Back.ast == (n == 0), "first and last", "null-ness wrong");
	AST* prev = 0; AST* c = b->Front.ast; size_t i = 0; std::set<AST*> seen;
	for (; c && i < n; c = c->Next.ast, ++i) {
		CHECK(seen.insert(c).second, "child list", "node linked twice"); if (nfail > 20) return;
		CHECK(!want[i] || want[i] == c, "child order", "child %zu of %zu is another node", i, n);
		CHECK(c->Prev.ast == prev, "links mutual", "child %zu: previous link", i); CHECK(c->Parent.ast == (AST*)b.ast, "parent", "child %zu", i);
		AST t = *c; t.Prev = t.Next = t.Parent = Code{ 0 }; CHECK(std::string((char*)&t, sizeof t) == content[i], "child content", "child %zu changed", i);
		Code* e = code_entry((Code)b, (u32)i); CHECK(e && e->ast == c, "code_entry", "child %zu of %zu", i, n);
		prev = c;
	}
	CHECK(i == n && !c, "child list", "%s than %zu", c ? "longer" : "shorter", n); CHECK(b->Back.ast == prev, "last", "wrong");
	size_t k = 0; for (Code q = begin_CodeBody(b); q != end_CodeBody(b); q = next_CodeBody(b, q)) { if (++k > n) break; } CHECK(k == n, "iteration", "%zu of %zu", k, n);
	k = 0; for (Code q : b) { (void)q; if (++k > n) break; } CHECK(k == n, "iteration", "%zu of %zu", k, n);
}
static std::string bare(Code c) { AST t = *c.ast; t.Prev = t.Next = t.Parent = Code{ 0 }; return std::string((char*)&t, sizeof t); }
TEST(bodies) {
	start(); struct B { CodeBody b; std::vector<AST*> w; std::vector<std::string> c; }; std::vector<B> bs(1 + below(4)); for (auto& b : bs) b.b = newbody();
	std::vector<Code> nodes; std::string log;
	for (int s = 0, n = 1 + below(40); s < n; ++s) {
		B& b = bs[below(bs.size())]; int op = below(10); log += " " + std::to_string(op) + "@" + std::to_string(&b - &bs[0]); CASE("append", "%s", log.c_str());
		if (op < 5 || nodes.empty()) { Code x = node(below(6)); nodes.push_back(x); b.c.push_back(bare(x)); b.w.push_back(x.ast); if (coin()) body_append(b.b, x); else code_append((Code)b.b, x); }
		else if (op < 8) { Code x = nodes[below(nodes.size())]; std::string before = snap(x); log += "=" + std::to_string(x->Parent.ast != 0); CASE("append", "%s", log.c_str());
			bool own = x->Parent.ast; size_t m = b.w.size(); AST* last = m ? b.b->Back.ast : 0; b.c.push_back(bare(x)); body_append(b.b, x);
			AST* added = b.b->Back.ast; if (own) { CHECK(added != x.ast, "copied not moved", "the node itself was linked again"); if (x.ast != last) CHECK(snap(x) == before, "copied not moved", "the original changed"); b.w.push_back(added); } else b.w.push_back(x.ast); }
		else if (op == 8) { B& o = bs[below(bs.size())]; if (&o != &b) { log += "<" + std::to_string(&o - &bs[0]); CASE("append body", "%s", log.c_str()); body_append(b.b, (Code)o.b); for (auto& c : o.c) { b.c.push_back(c); b.w.push_back(0); } if (b.b->NumEntries == (s32)b.c.size()) { for (size_t i = 0; i < b.w.size(); ++i) if (!b.w[i]) b.w[i] = code_entry((Code)b.b, i)->ast; } } }
		else { Code x = coin() ? access_public : (Code)t_int; b.c.push_back(bare(x)); body_append(b.b, x); b.w.push_back(b.b->Back.ast); CHECK(b.w.back() != x.ast, "copied not moved", "a shared constant was linked into a body"); }
		for (auto& q : bs) check(q.b, q.w, q.c);
		if (nfail > 20) break;
	}
	stop();
}
TEST(misuse) { start(); CodeBody b = newbody(); CASE("code_append", "itself"); CHECK(traps([&] { code_append((Code)b, (Code)b); }), "self append", "accepted"); CHECK(b->NumEntries == 0 && !b->Front.ast, "self append", "changed the body");
	CASE("body_append_body", "itself"); CHECK(traps([&] { body_append_body(b, b); }), "self append", "accepted");
	Code x = untyped_str(mk(ident())); CASE("def_global_body", "one"); CodeBody g = def_global_body(1, x); CHECK(g->NumEntries == 1 && g->Front.ast == x.ast && g->Back.ast == x.ast && x->Parent.ast == (AST*)g.ast, "def_global_body", "wrong");
	Code y[3] = { untyped_str(mk(ident())), untyped_str(mk(ident())), x }; CodeBody h = def_global_body(3, y); check(h, { y[0].ast, y[1].ast, 0 }, { bare(y[0]), bare(y[1]), bare(x) });
	stop(); }
