#include "ast.hpp"
static void once() {}
static Macro mac(Str n, MacroType t, EMacroFlags f) { Macro m; memset(&m, 0, sizeof m); m.Name = n; m.Type = t; m.Flags = f; return m; }
TEST(registry) {
	start(0, 4096); std::map<std::string, std::pair<int, int>> m; std::vector<std::string> pool; std::string log;
	m["enum_underlying"] = { MT_Expression, MF_Functional };
	for (int s = 0, n = 1 + below(60); s < n; ++s) {
		auto pick = [&]() { std::string t; int k = below(8); if (k == 0) { auto p = collide(); pool.push_back(p.second); t = p.first; } else if (k < 4 && pool.size()) t = pool[below(pool.size())]; else t = ident(); if (coin()) pool.push_back(t); return t; };
		int op = below(5); MacroType ty = (MacroType)below(MT_UnderlyingType + 2 > 4 ? 4 : 3); u16 fl = (u16)below(16);
		std::string t = pick(); log += " " + std::to_string(op) + show(t); CASE("macros", "%s", log.size() > 3800 ? log.c_str() + log.size() - 3800 : log.c_str());
		if (op < 3) { SBuf b(t); register_macro(mac(b.str(), ty, (EMacroFlags)fl)); memset(b.p, 0xEE, b.n); m[t] = { ty, fl }; }
		else { std::string u = pick(); SBuf a(t), b(u); MacroType ty2 = (MacroType)below(4); u16 fl2 = (u16)below(16); Macro x[2] = { mac(a.str(), ty, (EMacroFlags)fl), mac(b.str(), ty2, (EMacroFlags)fl2) };
			if (op == 3) register_macros_arr(2, x); else register_macros(2, x[0], x[1]);
			memset(a.p, 0xEE, a.n); memset(b.p, 0xEE, b.n); m[t] = { ty, fl }; m[u] = { ty2, fl2 }; pool.push_back(u); }
		for (auto& q : pool) { Macro* r = lookup_macro(mk(q)); auto it = m.find(q);
			CHECK(!r == (it == m.end()), "lookup_macro", "%s %s", show(q).c_str(), r ? "found but never registered" : "not found");
			if (r && it != m.end()) { CHECK(str(r->Name) == q, "lookup_macro name", "%s found for %s", show(str(r->Name)).c_str(), show(q).c_str()); CHECK(r->Type == it->second.first && (u16)r->Flags == it->second.second, "lookup_macro content", "wrong kind or flags for %s", show(q).c_str()); } }
		for (auto& e : m) { Macro* r = lookup_macro(mk(e.first)); CHECK(r && r->Type == e.second.first && (u16)r->Flags == e.second.second && str(r->Name) == e.first, "lookup_macro content", "%s lost or changed", show(e.first).c_str()); }
		std::string z = ident() + "$"; CHECK(!lookup_macro(mk(z)), "lookup_macro", "never registered name found");
	}
	stop();
}
