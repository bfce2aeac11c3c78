#include "ast.hpp"
static void once() {}
struct TArgs { std::vector<uint64_t> w; void ptr(const void* p) { w.push_back((uint64_t)p); } long call(char* b, size_t n, int num) { w.push_back(0); va_list va; struct L { unsigned gp, fp; void *ov, *rs; } l = { 48, 176, w.data(), 0 }; memcpy(va, &l, sizeof l); return (long)token_fmt_va(b, n, num, va); } };
static std::string expand(std::string const& t, std::map<std::string, std::string> const& m) {
	std::string r; size_t i = 0;
	while (i < t.size()) {
		if (t[i] == '<') { size_t j = t.find('>', i); if (j != std::string::npos) { auto it = m.find(t.substr(i + 1, j - i - 1)); if (it != m.end()) { r += it->second; i = j + 1; continue; } } }
		r += t[i++];
	}
	return r;
}
static void one(bool coll) {
	std::vector<std::string> names; std::map<std::string, std::string> m; std::vector<std::pair<std::string, std::string>> pairs;
	std::string other;
	for (int i = 0, n = below(5); i < n; ++i) names.push_back(coin(4) ? rstr(5, "ab <x") : ident());
	if (coll) { auto p = collide(); names.push_back(p.first); other = p.second; if (coin()) { names.push_back(p.second); other = ""; } }
	for (auto& n : names) { std::string v = coin(4) ? "<" + (coin() ? n : names[below(names.size())]) + ">" : coin(6) ? std::string(below(300), 'v') : rstr(8, "xyz <>\n"); if (coin(10) && pairs.size()) n = pairs[0].first; m[n] = v; pairs.push_back({ n, v }); }
	std::string t;
	for (int i = 0, n = below(12); i < n; ++i) switch (below(8)) {
		case 0: case 1: case 2: if (names.size()) { t += "<" + names[below(names.size())] + ">"; break; }
		case 3: t += rstr(8, "ab<>;{}\n "); break;
		case 4: t += "<" + (other.size() ? other : ident()) + ">"; break;
		case 5: if (names.size()) t += "<" + names[below(names.size())]; break;
		case 6: t += coin() ? "<" : ">"; break;
		default: t += ident(); if (coin(3)) t += "\xc3\xa9";
	}
	std::string e = expand(t, m);
	std::vector<std::unique_ptr<Buf>> hold; std::vector<Str> strs; strs.reserve(pairs.size()); TArgs a;
	for (auto& p : pairs) { hold.emplace_back(new Buf(p.first.c_str(), p.first.size() + 1)); a.ptr(hold.back()->p); hold.emplace_back(new Buf(p.second.data(), p.second.size())); a.ptr(hold.back()->p); a.w.push_back(p.second.size()); }
	CStr f(t); a.ptr(f.p);
	bool fit = coin(3) ? false : true; size_t n = fit ? e.size() + below(4) : below(e.size() + 1);
	Buf b(n); if (n) memset(b.p, 0x5A, n);
	std::string log; for (auto& p : pairs) log += show(p.first) + "=" + show(p.second) + ", ";
	CASE("token_fmt_va", "buffer of %zu, %s template %s", n, log.c_str(), show(t).c_str());
	long r = a.call(b.p, n, (int)pairs.size() + 1);
	if (fit) CHECK(r == (long)e.size() && !memcmp(b.p, e.data(), e.size()), "token_fmt text", "got %s, expected %s", show(b.p, r >= 0 && (size_t)r <= n ? r : 0).c_str(), show(e).c_str());
	else CHECK(r >= 0 && r <= (long)n && !memcmp(b.p, e.data(), r) && ((size_t)r == n), "token_fmt small buffer", "returned %ld for a buffer of %zu", r, n);
}
TEST(token_fmt_pairs) { start(); one(false); stop(); }
TEST(token_fmt_colliding_names) { if (!coin(4)) return; start(); one(true); stop(); }
TEST(token_fmt_public) {
	start(); std::string v = rstr(12, "ab<>; "), w = rstr(12, "cd<>; "), t = rstr(6, "xy>") + "<first>" + rstr(6, "xy>") + "<second><first>" + rstr(4, "xy<"); CStr f(t); SBuf a(v), b(w);
	std::map<std::string, std::string> m{ { "first", v }, { "second", w } };
	CASE("token_fmt", "first=%s second=%s template %s", show(v).c_str(), show(w).c_str(), show(t).c_str());
	std::string e = expand(t, m);
	Str r = token_fmt("first", a.str(), "second", b.str(), (char const*)f.p);
	CHECK(str(r) == e && r.Ptr[r.Len] == 0, "token_fmt", "got %s, expected %s", show(str(r)).c_str(), show(e).c_str());
	if (e.empty()) { stop(); return; } // an untyped node without text is refused
	Code c = code_fmt("first", a.str(), "second", b.str(), (char const*)f.p);
	CHECK(c.ast && c->Type == CT_Untyped && str(c->Content) == e, "code_fmt", "got %s, expected %s", show(str(c->Content)).c_str(), show(e).c_str());
	stop();
}
TEST(untyped_fmt_content) {
	start(); std::string s = rstr(20, "ab; "); int v = (int)rnd(); CStr f(s); std::string e = "[" + s + "]" + std::to_string(v);
	CASE("untyped_fmt", "%s %d", show(s).c_str(), v);
	Code c = untyped_fmt("[%s]%d", f.p, v); CHECK(c.ast && c->Type == CT_Untyped && str(c->Content) == e && str(c->Name) == e, "untyped_fmt", "content %s, expected %s", show(str(c->Content)).c_str(), show(e).c_str());
	Code d = untyped_str(mk(e)); CHECK(d->Content.Ptr == c->Content.Ptr, "untyped_fmt", "content not interned");
	stop();
}
