#include "ast.hpp"
static void once() {}
static bool same(CodeSpecifiers s, std::vector<int> const& m) { if ((size_t)s->NumEntries != m.size()) return false; for (size_t i = 0; i < m.size(); ++i) if (s->ArrSpecs[i] != (Specifier)m[i]) return false; return true; }
TEST(sets) {
	start(); CodeSpecifiers s = (CodeSpecifiers)make_code(); s->Type = CT_Specifiers; std::vector<int> m; std::string log; int range = coin() ? 3 : Spec_NumSpecifiers;
	for (int i = 0, n = 1 + below(60); i < n; ++i) {
		int op = below(10), v = 1 + below(range); log += " " + std::to_string(op) + ":" + std::to_string(v); CASE("specifiers", "%s", log.c_str()); std::string rest = snap((Code)s).substr(AST_ArrSpecs_Cap * 4);
		if (op < 6) { bool full = m.size() == AST_ArrSpecs_Cap, r = false, t = traps([&] { r = specifiers_append(s, (Specifier)v); }); if (full) CHECK(t || !r, "specifiers_append", "accepted beyond the capacity"); else { CHECK(!t && r, "specifiers_append", "refused"); m.push_back(v); } }
		else if (op < 9) { int c = std::count(m.begin(), m.end(), v); s32 r = -2; bool t = traps([&] { r = specifiers_remove(s, (Specifier)v); }); CHECK(!t, "specifiers_remove", "stopped the program"); CHECK((r == -1) == (c == 0), "specifiers_remove result", "%d for %d occurrences", r, c); if (r >= 0) CHECK(r < (s32)m.size() && m[r] == v, "specifiers_remove result", "position %d did not hold it", r); m.erase(std::remove(m.begin(), m.end(), v), m.end()); }
		else if (m.size()) { CHECK(end_CodeSpecifiers(s) - begin_CodeSpecifiers(s) == (ptrdiff_t)m.size(), "iteration", "wrong range"); size_t k = 0; for (Specifier* p = begin_CodeSpecifiers(s); p != end_CodeSpecifiers(s); p = next_CodeSpecifiers(s, p), ++k) { if (k >= m.size()) break; CHECK(*p == (Specifier)m[k], "iteration", "position %zu", k); } }
		CHECK(same(s, m), "content", "%d entries, expected %zu", s->NumEntries, m.size()); if (!same(s, m)) break;
		std::string now = snap((Code)s).substr(AST_ArrSpecs_Cap * 4); size_t off = (char*)&s.ast->NumEntries - (char*)s.ast - AST_ArrSpecs_Cap * 4; for (size_t k = 0; k < now.size(); ++k) if (k < off || k >= off + 4) CHECK(now[k] == rest[k], "frame", "byte %zu of the node changed", k + AST_ArrSpecs_Cap * 4);
		for (int q = 0; q <= Spec_NumSpecifiers; ++q) { auto it = std::find(m.begin(), m.end(), q); CHECK(specifiers_has(s, (Specifier)q) == (it != m.end()), "specifiers_has", "%d", q); CHECK(specifiers_index_of(s, (Specifier)q) == (it == m.end() ? -1 : (int)(it - m.begin())), "specifiers_index_of", "%d", q); }
	}
	stop();
}
TEST(build) { start(); Specifier a[20]; for (auto& x : a) x = (Specifier)(1 + below(Spec_NumSpecifiers - 1)); int n = 1 + below(AST_ArrSpecs_Cap); CASE("def_specifiers_arr", "%d", n); { Buf b(a, n * sizeof(Specifier)); CodeSpecifiers s = def_specifiers_arr(n, (Specifier*)b.p); CHECK(s->Type == CT_Specifiers && same(s, std::vector<int>(a, a + n)), "def_specifiers_arr", "wrong content"); }
	CASE("def_specifiers", "3"); CodeSpecifiers s = def_specifiers(3, a[0], a[1], a[2]); CHECK(same(s, std::vector<int>(a, a + 3)), "def_specifiers", "wrong content"); CASE("def_specifier", "1"); CHECK(same(def_specifier(a[0]), { (int)a[0] }), "def_specifier", "wrong content");
	CASE("def_specifiers_arr", "too many"); CHECK(traps([&] { def_specifiers_arr(AST_ArrSpecs_Cap + 1, a); }), "def_specifiers_arr", "more than the capacity accepted"); CHECK(traps([&] { def_specifiers_arr(0, a); }), "def_specifiers_arr", "zero accepted"); stop(); }
