#include "ast.hpp"
static void once() {}
static void go(u32 arena, u32 maxc) {
	start(0, arena, maxc); std::map<std::string, Str> m; size_t cap = maxc ? maxc : 512 * 1024; std::vector<std::pair<std::string, Str>> uncached; std::string log = std::to_string(arena) + "/" + std::to_string(maxc) + ":";
	std::vector<std::string> pool;
	for (int s = 0, n = 1 + below(150); s < n; ++s) {
		std::string t; int k = below(12);
		if (k == 0) { auto p = collide(); pool.push_back(p.first); pool.push_back(p.second); t = p.first; }
		else if (k < 5 && pool.size()) t = pool[below(pool.size())];
		else if (k == 5) t = std::string(below(300), 'a' + below(3));
		else if (k == 6) { t = ident(); t += '\0'; t += ident(); }
		else if (k == 7) { for (int i = 0, l = below(40); i < l; ++i) t += (char)below(256); }
		else if (k == 8) t = ident() + std::string(below(20), '0');
		else t = ident();
		if (coin(3)) pool.push_back(t);
		log += " " + show(t); CASE("cache_str", "%s", log.size() > 3800 ? log.c_str() + log.size() - 3800 : log.c_str());
		Str r; { SBuf b(t); r = cache_str(b.str()); memset(b.p, 0xEE, b.n); }
		CHECK(str(r) == t, "cache_str content", "interned %s as %s", show(t).c_str(), show(str(r)).c_str());
		CHECK(r.Ptr[r.Len] == 0, "cache_str terminator", "no terminator");
		if (t.size() > cap) { uncached.push_back({ t, r }); continue; }
		auto it = m.find(t);
		if (it == m.end()) m[t] = r; else CHECK(it->second.Ptr == r.Ptr && it->second.Len == r.Len, "cache_str sharing", "equal texts interned at different places");
		for (auto& e : m) if (e.first != t) CHECK(e.second.Ptr != r.Ptr || (e.first.size() != (size_t)r.Len), "cache_str sharing", "different texts share storage");
	}
	for (auto& e : m) CHECK(str(e.second) == e.first, "cache_str stability", "interned text changed: %s", show(e.first).c_str());
	for (auto& e : uncached) CHECK(str(e.second) == e.first, "cache_str stability", "interned text changed: %s", show(e.first).c_str());
	stop();
}
TEST(cache_default) { go(0, 0); }
TEST(cache_small_arenas) { go(512 + 16 * below(40), 0); }
TEST(cache_length_limit) { go(1024, 5 + below(40)); }
