#include "native.hpp"
#include <cmath>
using namespace gen;
static void once() {}
// an argument list built at run time: every argument occupies whole words of the overflow area
struct Args {
	std::vector<uint64_t> w;
	void word(uint64_t v) { w.push_back(v); }
	void ptr(const void* p) { w.push_back((uint64_t)p); }
	void f(double d) { uint64_t v; memcpy(&v, &d, 8); w.push_back(v); }
	long call(char* b, long n, const char* fmt) {
		w.push_back(0); w.push_back(0);
		va_list va;
		struct L { unsigned gp, fp; void *ov, *rs; } l = { 48, 176, w.data(), 0 };
		memcpy(va, &l, sizeof l);
		return (long)c_str_fmt_va(b, n, fmt, va);
	}
};
static std::string lit() { std::string s = rstr(6, "ab Z09.,-+#*:x\n"); if (coin(6)) s += "\xff\x80"; return s; }
static std::string num(__int128 v, int base, bool up) {
	bool neg = v < 0; unsigned __int128 u = neg ? -v : v; std::string s; do { s += (up ? "0123456789ABCDEF" : "0123456789abcdef")[(int)(u % base)]; u /= base; } while (u); if (neg) s += '-'; std::reverse(s.begin(), s.end()); return s;
}
static uint64_t anyword() { switch (below(6)) { case 0: return below(3); case 1: return (uint64_t)0 - 1 - below(3); case 2: return rnd(); case 3: return 1ull << below(64); case 4: return (1ull << below(64)) - 1; default: return below(100000); } }
struct Hold { std::vector<std::unique_ptr<Buf>> b; std::vector<StrBuilder> sb; ~Hold() { for (auto& s : sb) strbuilder_free(&s); } };
static void directive(std::string& fmt, std::string& exp, Args& a, Hold& h) {
	std::string f = "%", o; bool minus = false; int width = -1; bool zero = false;
	int kind = below(12);
	if (kind == 11) { fmt += "%%"; exp += "%"; return; }
	if (coin(4)) { f += '-'; minus = true; }
	if (kind < 5 && !minus && coin(5)) { f += '0'; zero = true; }
	bool star = false;
	if (coin(2) || zero) { width = 1 + below(coin(4) ? 60 : 9); if (zero) { } star = coin(3); if (star) { f += '*'; if (coin(5) && !zero) { a.word((uint32_t)-width); minus = true; } else a.word((uint32_t)width); } else f += std::to_string(width); }
	switch (kind) {
	case 0: case 1: case 2: {
		uint64_t v = anyword(); static const char* mods[] = { "", "h", "hh", "l", "ll", "z", "t" }; int m = below(7); int c = below(4); const char* dirs = "duxX"; char d = c == 0 && coin(3) ? 'i' : dirs[c];
		bool uns = d == 'u' || d == 'x' || d == 'X' || m == 5;
		__int128 val;
		if (uns) val = m == 0 ? (uint32_t)v : m == 1 ? (uint16_t)v : m == 2 ? (uint8_t)v : m == 3 ? (unsigned long)v : v;
		else val = m == 0 ? (int32_t)v : m == 1 ? (int16_t)v : m == 2 ? (int8_t)v : m == 3 ? (long)v : (int64_t)v;
		if (val < 0 && zero) { v = 7; val = 7; }
		a.word(v); f += mods[m]; f += d; o = num(val, d == 'x' || d == 'X' ? 16 : 10, d == 'X'); break; }
	case 3: { uint64_t v = anyword(); a.word(v); f += 'p'; o = num((unsigned __int128)v, 16, false); break; }
	case 4: { uint64_t v = anyword() & 0xffffffff; a.word(v); f += 'o'; if ((int32_t)v < 0) { a.w.back() = v = 8; } o = num((int32_t)v, 8, false); break; }
	case 5: { char c = 1 + below(255); a.word((unsigned char)c); f += 'c'; o = std::string(1, c); break; }
	case 6: case 7: { std::string s = rstr(coin(4) ? 80 : 9, "abcXYZ%\\ 019"); if (coin(3)) { int pr = below(12); bool st = coin(); f += '.'; if (st) { f += '*'; a.word((uint32_t)pr); } else f += std::to_string(pr); if ((size_t)pr <= s.size() && coin()) h.b.emplace_back(new Buf(s.data(), pr)); else h.b.emplace_back(new Buf(s.c_str(), s.size() + 1)); s = s.substr(0, pr); } else h.b.emplace_back(new Buf(s.c_str(), s.size() + 1)); a.ptr(h.b.back()->p); f += 's'; o = s; break; }
	case 8: { std::string s = rstr(coin(4) ? 80 : 9, "abcXYZ%\\ 019"); if (s.empty() && coin()) { a.ptr(0); a.word(0); } else { h.b.emplace_back(new Buf(s.data(), s.size())); a.ptr(h.b.back()->p); a.word(s.size()); } f += 'S'; o = s; break; }
	case 9: { std::string s = rstr(20, "abcXYZ% 019"); StrBuilder b = strbuilder_make_length(heap(), s.data(), s.size()); h.sb.push_back(b); a.ptr(b); f += "SB"; o = s; break; }
	case 10: { f += 's'; a.ptr(0); width = -1; o = "(null)"; break; }
	}
	if (width > 0 && (int)o.size() < width) { std::string pad(width - o.size(), zero ? '0' : ' '); o = minus ? o + pad : pad + o; }
	fmt += f; exp += o;
	// the text that follows must not read as part of the directive
	if (kind == 8) { fmt += '|'; exp += '|'; }
}
static void run(std::string const& fmt, std::string const& exp, Args& a, long n, bool fits) {
	CStr f(fmt); Buf b(n > 0 ? n : 0); if (n > 0) memset(b.p, 0x5A, n);
	CASE("c_str_fmt_va", "buffer of %ld, format %s", n, show(fmt).c_str());
	long r = a.call(b.p, n, f.p);
	if (n <= 0) { CHECK(r == -1, "fmt no room", "returned %ld for an empty buffer", r); return; }
	CHECK(memchr(b.p, 0, n) != 0, "fmt terminator", "text not terminated inside the buffer");
	if (fits) {
		CHECK(!memcmp(b.p, exp.c_str(), exp.size() + 1), "fmt rendering", "got %s, expected %s", show(b.p, strnlen(b.p, n)).c_str(), show(exp).c_str());
		CHECK(r == (long)exp.size() + 1 || (r == -1 && n == (long)exp.size() + 1), "fmt length", "returned %ld for a text of %zu in a buffer of %ld", r, exp.size(), n);
	} else if ((long)exp.size() + 1 > n) CHECK(r < (long)exp.size() + 1, "fmt length", "returned %ld although the text of %zu does not fit into %ld", r, exp.size(), n);
}
static void build(std::string& fmt, std::string& exp, Args& a, Hold& h, int parts) {
	for (int i = 0; i < parts; ++i) { if (coin()) { std::string l = lit(); fmt += l; exp += l; } else directive(fmt, exp, a, h); }
}
// "%d" followed by literal text that could continue the directive is not ambiguous: a directive ends with its conversion letter
TEST(fmt_fits) { std::string f, e; Args a; Hold h; build(f, e, a, h, 1 + below(9)); run(f, e, a, e.size() + 1 + (coin() ? 0 : below(40)), true); }
TEST(fmt_small) { std::string f, e; Args a; Hold h; build(f, e, a, h, 1 + below(9)); long n = coin(8) ? -(long)below(2) : 1 + below(e.size() + 1); run(f, e, a, n, false); }
TEST(fmt_long) { std::string f, e; Args a; Hold h; if (!coin(8)) return; build(f, e, a, h, 40 + below(60)); bool fit = coin(); long n = fit ? e.size() + 1 + below(3) : 1 + below(e.size()); run(f, e, a, n, fit); }
// arbitrary directive characters; every argument word is a builder, hence readable under each of the pointer directives
TEST(fmt_any) {
	static StrBuilder sb = strbuilder_make_length(heap(), "abcdef", 6);
	std::string f = rstr(24, "%%%%%%-+# 0*.hlztduioxXcsSBrpqy%7a"); std::string g; for (char c : f) if (c != 'a') g += c; if (coin(3)) g += "%";
	Args a; for (int i = 0; i < 80; ++i) a.ptr(sb);
	run(g, "", a, 1 + below(coin(4) ? 4000 : 60), false);
}
TEST(fmt_float) {
	std::string f = coin() ? "x=" : ""; f += "%"; if (coin(3)) f += '-'; if (coin(3)) f += '#'; if (coin(3)) f += '0'; if (coin()) f += std::to_string(1 + below(40)); if (coin()) f += "." + std::to_string(below(12)); f += "fgaFGA"[below(6)]; f += "%d";
	Args a; double d = coin(5) ? 0 : coin() ? (double)range(-1000000, 1000000) / 1024 : ldexp((double)range(-1000, 1000), range(-30, 30)); a.f(d); a.word(12345);
	run(f, "", a, 1 + below(70), false);

}
TEST(fmt_buf_and_append) {
	std::string s = rstr(30, "abc%"); int v = (int)anyword(); CStr c(s); CASE("c_str_fmt_buf", "%s %d", show(s).c_str(), v);
	std::string e = "<" + s + ":" + std::to_string(v) + ">";
	char* r = c_str_fmt_buf("<%s:%d>", c.p, v); CHECK(e == r, "fmt_buf", "%s", r);
	char small[16]; long n = c_str_fmt(small, 16, "<%s:%d>", c.p, v); CHECK(memchr(small, 0, 16), "fmt terminator", "c_str_fmt"); if (e.size() < 15) CHECK(e == small && n == (long)e.size() + 1, "c_str_fmt", "%s", small);
	StrBuilder b = strbuilder_make_length(heap(), "ab", 2); bool ok = strbuilder_append_fmt(&b, "<%s:%d>", c.p, v); CHECK(ok && std::string(b, strbuilder_length(b)) == "ab" + e, "append_fmt", "%s", (char*)b); strbuilder_free(&b);
}
