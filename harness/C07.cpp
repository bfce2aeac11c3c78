#include "native.hpp"
using namespace gen;
static void once() {
	CASE("sizes", "size macros");
	CHECK(kilobytes(3) == 3ll << 10 && megabytes(5) == 5ll << 20 && gigabytes(7) == 7ll << 30 && terabytes(2) == 2ll << 40, "sizes", "kilobytes and friends");
	for (int k = -3; k < 64; ++k) for (int d = -2; d <= 2; ++d) { ssize x = (k < 0 ? k : k == 63 ? INT64_MIN : (ssize)1 << k); if (__builtin_add_overflow(x, (ssize)d, &x)) continue; CASE("is_power_of_two", "%ld", (long)x); bool e = x > 0 && __builtin_popcountll(x) == 1; CHECK(!!is_power_of_two(x) == e, "is_power_of_two", "got %d", (int)is_power_of_two(x)); }
	for (int k = 0; k < 16; ++k) for (long v = 0; v < 300; ++v) { long a = 1l << k, e = (v + a - 1) / a * a; CASE("align_forward", "%ld, %ld", v, a); CHECK((long)(uintptr_t)align_forward((void*)v, a) == e, "align_forward", "got %ld", (long)(uintptr_t)align_forward((void*)v, a)); CASE("align_forward_s64", "%ld, %ld", v, a); CHECK(align_forward_s64(v, a) == e, "align_forward_s64", "got %ld", (long)align_forward_s64(v, a)); }
	for (long a : { 0l, 3l, 12l, -8l }) { CASE("align_forward", "alignment %ld", a); CHECK(traps([&] { align_forward((void*)64, a); }), "align_forward", "accepts an alignment that is not a power of two"); }
}
struct Area { Buf b; std::string m; Area(size_t n) : b(n), m(n, 0) { for (size_t i = 0; i < n; ++i) b.p[i] = m[i] = (char)rnd(); } bool same() { return !memcmp(b.p, m.data(), b.n); } };
TEST(move) {
	size_t cap = coin(20) ? 400 : 90; Area a(cap); size_t n = below(below(cap) + 1), d = below(cap - n + 1), s = coin(4) ? d : below(cap - n + 1);
	if (coin()) { size_t k = (s / 8 * 8) + d % 8; if (k + n <= cap) s = k; }
	CASE("mem_move", "buffer of %zu: dest +%zu src +%zu n %zu (buffer %% 8 = %zu)", cap, d, s, n, (size_t)a.b.p % 8);
	void* r = mem_move(a.b.p + d, a.b.p + s, n); std::string t = a.m.substr(s, n); a.m.replace(d, n, t);
	CHECK(r == a.b.p + d, "mem_move", "result"); CHECK(a.same(), "mem_move", "content");
	Area x(cap), y(cap); CASE("mem_copy", "dest +%zu src +%zu n %zu", d, s, n); r = mem_copy(x.b.p + d, y.b.p + s, n); x.m.replace(d, n, y.m.substr(s, n)); CHECK(r == x.b.p + d && x.same() && y.same(), "mem_copy", "content");
	CASE("mem_move", "separate buffers dest +%zu src +%zu n %zu", d, s, n); r = mem_move(x.b.p + d, y.b.p + s, n); x.m.replace(d, n, y.m.substr(s, n)); CHECK(r == x.b.p + d && x.same() && y.same(), "mem_move", "content of separate buffers");
	CASE("mem_copy", "null destination"); CHECK(mem_copy(0, y.b.p, n) == 0 && mem_move(0, y.b.p, n) == 0 && mem_set(0, 1, n) == 0, "mem_copy", "null destination");
}
TEST(fill) {
	size_t cap = coin(20) ? 700 : 120; Area a(cap); size_t n = below(below(cap) + 1), d = below(cap - n + 1); unsigned char c = (unsigned char)rnd();
	CASE("mem_set", "dest +%zu n %zu byte %d (dest %% 8 = %zu)", d, n, c, (size_t)(a.b.p + d) % 8);
	void* r = mem_set(a.b.p + d, c, n); a.m.replace(d, n, std::string(n, (char)c)); CHECK(r == a.b.p + d, "mem_set", "result"); CHECK(a.same(), "mem_set", "content");
	{ Buf e(n); mem_set(e.p, c, n); bool ok = true; for (size_t i = 0; i < n; ++i) ok &= (unsigned char)e.p[i] == c; CHECK(ok, "mem_set", "content of an exact buffer"); }
	n = below(below(cap) + 1); d = below(cap - n + 1); CASE("zero_size", "dest +%zu n %zu", d, n); zero_size(a.b.p + d, n); a.m.replace(d, n, std::string(n, '\0')); CHECK(a.same(), "zero_size", "content");
}
TEST(find) {
	size_t n = coin(10) ? below(300) : below(40); std::string s; for (size_t i = 0; i < n; ++i) s += coin(12) ? (char)rnd() : coin(20) ? '\x80' : 'a'; SBuf b(s); unsigned char c = coin() ? (coin() ? 0x80 : 0) : n && coin() ? s[below(n)] : (unsigned char)rnd();
	CASE("mem_find", "%s, %d", show(s).c_str(), c); const char* r = (const char*)mem_find(b.p, c, n); size_t e = s.find((char)c);
	CHECK(r == (e == std::string::npos ? 0 : b.p + e), "mem_find", "got %ld expected %ld", r ? (long)(r - b.p) : -1L, (long)e);
	size_t o = n ? below(n) : 0; if (n) { r = (const char*)mem_find(b.p + o, c, n - o); e = s.find((char)c, o); CHECK(r == (e == std::string::npos ? 0 : b.p + e), "mem_find", "at offset %zu", o); }
}
TEST(misc) {
	char b[100]; long i = below(100), j = below(100); CASE("pointer", "%ld %ld", i, j);
	CHECK(pointer_add(b, i) == b + i && pointer_add_const(b, i) == b + i && pointer_add(b + 50, i - 50) == b + i, "pointer_add", "wrong"); CHECK(pointer_diff(b + i, b + j) == j - i, "pointer_diff", "got %ld", (long)pointer_diff(b + i, b + j));
	long x = rnd(), y = rnd(), x0 = x, y0 = y; gen::swap(x, y); CHECK(x == y0 && y == x0, "swap", "values");
	long a = 1l << below(13), v = rnd() >> 8; CASE("align_forward", "%ld, %ld", v, a); long e = (v + a - 1) & -a; CHECK((long)(uintptr_t)align_forward((void*)v, a) == e && align_forward_s64(v, a) == e, "align_forward", "wrong");
}
