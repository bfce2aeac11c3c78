#include "native.hpp"
using namespace gen;
static std::string con(StrBuilder s) { return std::string((char*)s, (size_t)strbuilder_length(s)); }
static int nalloc; static std::map<void*, size_t> blocks;
// exact heap allocator: sanitizers see every access outside the requested size; old blocks are really released
static void* proc(void*, AllocType t, ssize size, ssize, void* old, ssize osz, u64 fl) {
	if (t == EAllocation_ALLOC) { void* p = malloc(size ? size : 1); memset(p, fl & ALLOCATOR_FLAG_CLEAR_TO_ZERO ? 0 : 0xAA, size); blocks[p] = size; return p; }
	if (t == EAllocation_FREE) { CHECK(blocks.count(old), "allocator", "freeing an unknown block"); blocks.erase(old); ::free(old); return 0; }
	if (t == EAllocation_RESIZE) { CHECK(blocks.count(old) && osz >= 0 && (size_t)osz <= blocks[old], "allocator", "resize of a block of %zu bytes with old size %ld", blocks.count(old) ? blocks[old] : 0, (long)osz); void* p = malloc(size ? size : 1); memset(p, 0xAA, size); memcpy(p, old, std::min(osz, size)); blocks.erase(old); ::free(old); blocks[p] = size; return p; }
	return 0;
}
static AllocatorInfo A() { AllocatorInfo a = { proc, (void*)&nalloc }; return a; }
static void wf(const char* op, StrBuilder s, std::string const& m) {
	StrBuilderHeader* h = strbuilder_get_header(s);
	CHECK(con(s) == m, op, "content %s expected %s", show(con(s)).c_str(), show(m).c_str());
	CHECK(strbuilder_length(s) == (ssize)m.size(), op, "length"); CHECK(h->Capacity >= h->Length, op, "capacity %ld below length %ld", (long)h->Capacity, (long)h->Length);
	CHECK(blocks.count(h) && blocks[h] >= sizeof(StrBuilderHeader) + h->Capacity + 1, op, "capacity %ld beyond the allocation", (long)h->Capacity);
	CHECK(((char*)s)[m.size()] == 0, op, "no terminator"); CHECK(h->Allocator.Proc == proc && h->Allocator.Data == &nalloc, op, "allocator lost");
	CHECK(strbuilder_capacity(s) == h->Capacity && strbuilder_avail_space(s) == h->Capacity - h->Length, op, "capacity queries");
	Str v = strbuilder_to_str(s); CHECK(v.Ptr == (char*)s && v.Len == (ssize)m.size(), op, "to_str");
	if (m.size()) CHECK(strbuilder_back(s) == (char*)s + m.size() - 1, op, "back");
}
static std::string text() { switch (below(6)) { case 0: return ""; case 1: return rstr(3, "ab "); case 2: return rstr(20, "abc \t\n"); case 3: return rstr(200, "xyz"); case 4: { std::string s; for (size_t i = 0, n = below(12); i < n; ++i) s += (char)(1 + below(255)); return s; } default: return std::string(below(70), 'q'); } }
static void once() {
	{ StrBuilder s = strbuilder_make_c_str(A(), 0); CASE("strbuilder_make_c_str", "null"); wf("strbuilder_make_c_str", s, ""); }
	{ StrBuilder s = strbuilder_make_length(A(), 0, 5); CASE("strbuilder_make_length", "null, 5"); wf("strbuilder_make_length", s, std::string(5, 0)); }
}
static std::string trims(std::string m, std::string cut) { cut += '\0'; size_t a = m.find_first_not_of(cut); return a == std::string::npos ? "" : m.substr(a, m.find_last_not_of(cut) - a + 1); }
TEST(history) {
	std::string log; StrBuilder s; std::string m; int made = below(4);
	std::string t = text(); SBuf T(t); CStr C(t);
	switch (made) { case 0: s = strbuilder_make_length(A(), T.p, t.size()); m = t; break; case 1: s = strbuilder_make_c_str(A(), C.p); m = t; break; case 2: s = strbuilder_make_str(A(), T.str()); m = t; break; default: { ssize cap = coin() ? 0 : below(40); s = strbuilder_make_reserve(A(), cap); CASE("strbuilder_make_reserve", "%ld", (long)cap); CHECK(strbuilder_capacity(s) == cap, "strbuilder_make_reserve", "capacity %ld", (long)strbuilder_capacity(s)); } }
	log = "make" + std::to_string(made) + " " + show(t);
	CASE("make", "%s", log.c_str()); wf("make", s, m);
	for (int step = 0, n = below(12); step < n; ++step) {
		std::string t = text(); SBuf T(t); CStr C(t); int op = below(12); const char* nm = "?"; size_t b = blocks.size();
		char args[300]; snprintf(args, 300, "; op%d %s", op, show(t.substr(0, 60)).c_str()); if (log.size() < 2500) log += args; CASE("history", "%s", log.c_str());
		switch (op) {
		case 0: nm = "strbuilder_append_c_str_len"; { size_t k = below(t.size() + 1); CHECK(strbuilder_append_c_str_len(&s, T.p, k), nm, "result"); m += t.substr(0, k); } break;
		case 1: nm = "strbuilder_append_c_str"; CHECK(strbuilder_append_c_str(&s, C.p), nm, "result"); m += t; break;
		case 2: nm = "strbuilder_append_str"; CHECK(strbuilder_append_str(&s, T.str()), nm, "result"); m += t; break;
		case 3: nm = "strbuilder_append_char"; { char c = (char)(1 + below(255)); CHECK(strbuilder_append_char(&s, c), nm, "result"); m += c; } break;
		case 4: nm = "strbuilder_append_string"; { StrBuilder o = strbuilder_make_str(A(), T.str()); CHECK(strbuilder_append_string(&s, o), nm, "result"); m += t; wf(nm, o, t); strbuilder_free(&o); } break;
		case 5: nm = "strbuilder_clear"; if (coin(3)) { ssize c = strbuilder_capacity(s); strbuilder_clear(s); m = ""; CHECK(strbuilder_capacity(s) == c, nm, "capacity changed"); } break;
		case 6: nm = "strbuilder_trim"; { std::string cut = rstr(4, "abcq \txyz"); CStr K(cut); strbuilder_trim(s, K.p); m = trims(m, cut); } break;
		case 7: nm = "strbuilder_trim_space"; strbuilder_trim_space(s); m = trims(m, " \t\r\n\v\f"); break;
		case 8: nm = "strbuilder_strip_space"; { strbuilder_strip_space(s); std::string r; for (char c : m) { if (!c) break; if (!strchr(" \t\r\n\v\f", c)) r += c; } m = r; } break;
		case 9: nm = "strbuilder_make_space_for"; { ssize k = below(300); CHECK(strbuilder_make_space_for(&s, 0, k), nm, "result"); CHECK(strbuilder_avail_space(s) >= k, nm, "room %ld for %ld", (long)strbuilder_avail_space(s), (long)k); } break;
		case 10: nm = "strbuilder_append_c_str_len"; CHECK(!strbuilder_append_c_str_len(&s, 0, 3), nm, "null text"); break;
		case 11: nm = "strbuilder_append_fmt"; if (t.size() < 60) { CHECK(strbuilder_append_fmt(&s, "%s|%d", C.p, 42), nm, "result"); m += t + "|42"; } break;
		}
		wf(nm, s, m); if (op != 4) CHECK(blocks.size() == b, nm, "number of live blocks changed from %zu to %zu", b, blocks.size());
		if (m.size() > 3000) break;
	}
	CASE("queries", "%s", show(m).c_str());
	std::string q = coin() && m.size() ? m.substr(below(m.size()), below(6)) : coin() ? m.substr(0, below(m.size() + 1)) : text(); if (coin(4) && q.size()) q[q.size() - 1] ^= 1; if (coin(6)) q = m; if (q.find('\0') != std::string::npos) q = "a";
	SBuf Q(q); StrBuilder o = strbuilder_make_str(A(), Q.str());
	CASE("queries", "%s, %s", show(m).c_str(), show(q).c_str());
	CHECK(strbuilder_are_equal_str(s, Q.str()) == (m == q), "strbuilder_are_equal_str", "wrong"); CHECK(strbuilder_are_equal_string(s, o) == (m == q), "strbuilder_are_equal_string", "wrong");
	CHECK(!!strbuilder_starts_with_str(s, Q.str()) == (m.compare(0, q.size(), q) == 0), "strbuilder_starts_with_str", "wrong"); CHECK(!!strbuilder_starts_with_string(s, o) == (m.compare(0, q.size(), q) == 0), "strbuilder_starts_with_string", "wrong");
	CHECK(strbuilder_contains_StrC(s, Q.str()) == (m.find(q) != std::string::npos), "strbuilder_contains_StrC", "wrong"); CHECK(strbuilder_contains_string(s, o) == (m.find(q) != std::string::npos), "strbuilder_contains_string", "wrong");
	StrBuilder d = strbuilder_duplicate(s, A()); wf("strbuilder_duplicate", d, m); strbuilder_append_char(&d, '!'); wf("strbuilder_duplicate", s, m); wf("strbuilder_append_char", d, m + "!");
	size_t b = blocks.size(); strbuilder_free(&s); strbuilder_free(&d); strbuilder_free(&o); CHECK(blocks.size() == b - 3, "strbuilder_free", "not released"); for (auto& k : blocks) ::free(k.first); blocks.clear();
}
TEST(join) {
	std::vector<std::string> p; std::vector<std::unique_ptr<CStr>> c; std::vector<const char*> v; size_t n = below(6); std::string g = rstr(3, ", -"), e, all;
	for (size_t i = 0; i < n; ++i) { p.push_back(text()); c.push_back(std::make_unique<CStr>(p[i])); v.push_back(c[i]->p); e += p[i]; if (i + 1 < n) e += g; all += show(p[i]) + " "; }
	CStr G(g); CASE("strbuilder_join", "%s glue %s", all.c_str(), show(g).c_str()); StrBuilder s = strbuilder_join(A(), v.data(), n, G.p); wf("strbuilder_join", s, e); strbuilder_free(&s);
}
TEST(visualize) {
	std::string t = rstr(30, "ab \t\n\r\v\f"), e; for (char c : t) switch (c) { case ' ': e += "\xC2\xB7"; break; case '\t': e += "\xE2\x86\x92"; break; case '\n': e += "\xE2\x86\xB5"; break; case '\r': e += "\xE2\x8F\x8E"; break; case '\v': e += "\xE2\x87\x95"; break; case '\f': e += "\xE2\x8C\x82"; break; default: e += c; }
	SBuf T(t); CASE("visualize_whitespace", "%s", show(t).c_str()); StrBuilder s = strbuilder_make_str(A(), T.str()); StrBuilder r = strbuilder_visualize_whitespace(s); wf("strbuilder_visualize_whitespace", r, e); wf("strbuilder_visualize_whitespace", s, t);
	Str v = str_visualize_whitespace(T.str(), A()); CHECK(str(v) == e, "str_visualize_whitespace", "got %s", show(str(v)).c_str()); Str d = str_duplicate(T.str(), A()); CHECK(str(d) == t && d.Ptr != T.p && d.Ptr[d.Len] == 0, "str_duplicate", "wrong");
	for (auto& k : blocks) ::free(k.first); blocks.clear();
}
