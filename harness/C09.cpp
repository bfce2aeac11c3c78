#include "native.hpp"
using namespace gen;
static const char TAB[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz@$";
static std::string digits(unsigned long long v, int base) { std::string r; do r += TAB[v % base]; while (v /= base); return std::string(r.rbegin(), r.rend()); }
static unsigned long long value() {
	switch (below(7)) { case 0: return below(70); case 1: return rnd(); case 2: return rnd() >> below(64); case 3: return ~0ull - below(3); case 4: return (1ull << 63) + below(3) - 1; case 5: { unsigned long long b = 2 + below(63), v = 1; for (int i = below(64); i && v < ~0ull / b; --i) v *= b; return v + below(3) - 1; } default: return hints.empty() ? rnd() : (unsigned long long)hints[below(hints.size())]; }
}
static void check(unsigned long long v, int base) {
	{ std::string e = digits(v, base); Buf b(e.size() + 1); memset(b.p, 'x', b.n); CASE("u64_to_str", "%llu, base %d", v, base); u64_to_str(v, b.p, base); CHECK(!memcmp(b.p, e.c_str(), b.n), "u64_to_str", "got %s expected %s", show(b.p, b.n).c_str(), e.c_str()); }
	{ long long s = (long long)v; std::string e = s < 0 ? "-" + digits(0 - v, base) : digits(v, base); Buf b(e.size() + 1); memset(b.p, 'x', b.n); CASE("i64_to_str", "%lld, base %d", s, base); i64_to_str(s, b.p, base); CHECK(!memcmp(b.p, e.c_str(), b.n), "i64_to_str", "got %s expected %s", show(b.p, b.n).c_str(), e.c_str()); }
}
static void scan(std::string t, int base) {
	size_t i = 0; bool neg = t[0] == '-'; int b = base; bool autohex = base == 0 && t.size() > 2 && t[0] == '0' && t[1] == 'x';
	if (!base) b = autohex ? 16 : 10;
	if (neg) i = 1; if (b == 16 && t.compare(i, 2, "0x") == 0) i += 2;
	unsigned long long v = 0;
	for (; i < t.size(); ++i) { int d = t[i] >= '0' && t[i] <= '9' ? t[i] - '0' : b == 16 && t[i] >= 'a' && t[i] <= 'f' ? t[i] - 'a' + 10 : b == 16 && t[i] >= 'A' && t[i] <= 'F' ? t[i] - 'A' + 10 : -1; if (d < 0) break; v = v * b + d; }
	if (neg) v = 0 - v;
	CStr C(t); CASE("c_str_to_i64", "%s, base %d", show(t).c_str(), base); char* e = 0; s64 r = c_str_to_i64(C.p, coin(8) ? 0 : &e, base);
	CHECK((unsigned long long)r == v, "c_str_to_i64", "got %lld expected %lld", (long long)r, (long long)v); if (e) CHECK(e == C.p + i, "c_str_to_i64", "end at %ld expected %zu", (long)(e - C.p), i);
}
static void once() { for (int b = 2; b <= 64; ++b) for (unsigned long long v : { 0ull, 1ull, (unsigned long long)b - 1, (unsigned long long)b, ~0ull, 1ull << 63, (1ull << 63) - 1 }) check(v, b); scan("0x", 0); scan("0x", 16); scan("-0x1F", 16); scan("-0x1F", 0); scan("", 10); scan("-", 10); scan("-9223372036854775808", 10); scan("0X1", 16); scan("0xg", 0); }
TEST(format) { check(value(), 2 + below(63)); }
TEST(read) {
	int base = coin() ? 10 : coin() ? 16 : 0; std::string t; unsigned long long v = value(); if (coin()) t += "-"; if (coin(3)) t += "0x"; if (coin(4)) t += std::string(below(4), '0');
	std::string d = digits(v, coin() ? 10 : 16); if (coin()) for (auto& c : d) c = tolower(c); t += d; if (coin(4)) t = rstr(6, "0123456789abcdefABCDEFxX-+gG /:@`"); if (coin(3)) t += rstr(4, "09afgxX/:@` "); scan(t, base);
}
TEST(roundtrip) { long long v = (long long)value(); int base = coin() ? 10 : 16; char b[80]; i64_to_str(v, b, base); CASE("round trip", "%lld base %d", v, base); char* e; CHECK(c_str_to_i64(b, &e, base) == v && !*e, "round trip", "via %s", b); }
