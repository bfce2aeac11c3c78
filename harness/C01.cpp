#include "native.hpp"
using namespace gen;
static void once() {
	for (int i = 0; i < 256; ++i) {
		char c = (char)i; CASE("char", "%d", i);
		bool up = i >= 'A' && i <= 'Z', lo = i >= 'a' && i <= 'z', dg = i >= '0' && i <= '9';
		CHECK(!!char_is_alpha(c) == (up || lo), "char_is_alpha", "wrong class");
		CHECK(!!char_is_alphanumeric(c) == (up || lo || dg), "char_is_alphanumeric", "wrong class");
		CHECK(!!char_is_digit(c) == dg, "char_is_digit", "wrong class");
		CHECK(!!char_is_hex_digit(c) == (dg || (i >= 'a' && i <= 'f') || (i >= 'A' && i <= 'F')), "char_is_hex_digit", "wrong class");
		CHECK(!!char_is_space(c) == (i && strchr(" \t\n\r\f\v", i) != 0), "char_is_space", "wrong class");
		CHECK(char_to_lower(c) == (char)(up ? i + 32 : i), "char_to_lower", "got %d", char_to_lower(c));
		CHECK(char_to_upper(c) == (char)(lo ? i - 32 : i), "char_to_upper", "got %d", char_to_upper(c));
		int hv = dg ? i - '0' : (i >= 'a' && i <= 'f') ? i - 'a' + 10 : (i >= 'A' && i <= 'F') ? i - 'A' + 10 : -1;
		CHECK(hex_digit_to_int(c) == hv, "hex_digit_to_int", "got %d", hex_digit_to_int(c));
	}
}
static std::string S1() { switch (below(6)) { case 0: return rstr(3, "ab"); case 1: return rstr(12, "ab \t\n"); case 2: return rstr(40, "abcdefXYZ"); case 3: return rstr(8, "\x80\xff\x7f\x01" "a"); case 4: return rstr(300, "a"); default: return rstr(10, " \t\n\r\f\vxX"); } }
static std::string near(std::string s) { if (coin()) return S1(); if (s.size() && coin()) s[below(s.size())] = "abX \xff"[below(5)]; else if (coin()) s += "ab"[below(2)]; else if (s.size()) s.resize(below(s.size())); return s; }
static int ucmp(std::string const& a, std::string const& b) { size_t i = 0; for (; i < a.size() && i < b.size(); ++i) if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1; }
TEST(compare) {
	std::string a = S1(), b = near(a); CStr A(a), B(b);
	CASE("c_str_compare", "%s, %s", show(a).c_str(), show(b).c_str());
	CHECK(sgn(c_str_compare(A.p, B.p)) == ucmp(a, b), "c_str_compare", "got %d expected sign %d", c_str_compare(A.p, B.p), ucmp(a, b));
	ssize n = coin(8) ? range(-2, 0) : range(0, 14); CASE("c_str_compare_len", "%s, %s, %ld", show(a).c_str(), show(b).c_str(), (long)n);
	int e = n <= 0 ? 0 : ucmp(a.substr(0, n), b.substr(0, n));
	CHECK(sgn(c_str_compare_len(A.p, B.p, n)) == e, "c_str_compare_len", "got %d expected sign %d", c_str_compare_len(A.p, B.p, n), e);
	std::string c = a; if (coin()) { if (c.size()) c[below(c.size())] ^= 1; } SBuf X(a), Y(c);
	CASE("c_str_compare_len", "unterminated %s, %s", show(a).c_str(), show(c).c_str());
	CHECK((c_str_compare_len(X.p, Y.p, a.size()) == 0) == (a == c), "c_str_compare_len", "equality of unterminated buffers");
	CHECK(c_str_len(A.p) == (ssize)a.size(), "c_str_len", "got %ld", (long)c_str_len(A.p)); CHECK(c_str_len(0) == 0, "c_str_len", "null");
	ssize cap = range(0, a.size() + 1), ce = cap < (ssize)a.size() ? cap : (ssize)a.size();
	if (cap <= (ssize)a.size() + 1) CHECK(c_str_len_capped(A.p, cap) == ce, "c_str_len_capped", "cap %ld got %ld", (long)cap, (long)c_str_len_capped(A.p, cap));
}
TEST(copy) {
	std::string a = S1(); CStr A(a); ssize n = range(coin(10) ? -1 : 0, 20);
	size_t dn = n > 0 ? n : 0; std::string e; for (size_t i = 0; i < dn; ++i) e += i < a.size() ? a[i] : '\0';
	CASE("c_str_copy", "%s, %ld", show(a).c_str(), (long)n);
	{ Buf D(dn); memset(D.p, 0x55, dn); char* r = c_str_copy(D.p, A.p, n); CHECK(r == D.p && std::string(D.p, dn) == e, "c_str_copy", "got %s expected %s", show(D.p, dn).c_str(), show(e).c_str()); }
	CASE("c_str_copy_nulpad", "%s, %ld", show(a).c_str(), (long)n);
	{ Buf D(dn); memset(D.p, 0x55, dn); ssize r = c_str_copy_nulpad(D.p, A.p, n); CHECK(r == (ssize)std::min(dn, a.size()) && std::string(D.p, dn) == e, "c_str_copy_nulpad", "got %ld %s", (long)r, show(D.p, dn).c_str()); }
	{ Buf D(4); memcpy(D.p, "wxyz", 4); c_str_copy(D.p, 0, 4); CHECK(!memcmp(D.p, "wxyz", 4), "c_str_copy", "null source must not write"); }
}
TEST(scan) {
	std::string a = S1(), l = rstr(4, "abX \n"); CStr A(a), L(l); char c = coin(6) ? 0 : "abX \n\t\xff"[below(7)];
	CASE("scan", "%s, %d, %s", show(a).c_str(), c, show(l).c_str());
	const char* f = char_first_occurence(A.p, c); const char* ef = c ? strchr(A.p, c) : A.p + a.size(); CHECK(f == ef, "char_first_occurence", "got %ld", f ? (long)(f - A.p) : -1L);
	const char* k = c_str_skip(A.p, c); const char* ek = ef ? ef : A.p + a.size(); CHECK(k == ek, "c_str_skip", "got %ld", (long)(k - A.p));
	size_t any = a.find_first_of(l); if (any == std::string::npos) any = a.size();
	k = c_str_skip_any(A.p, L.p); CHECK(k == A.p + any, "c_str_skip_any", "got %ld expected %ld", (long)(k - A.p), (long)any);
	for (int nl = 0; nl < 2; ++nl) { size_t i = 0; while (i < a.size() && strchr(" \t\n\r\f\v", a[i]) && !(nl && a[i] == '\n')) ++i; k = c_str_trim(A.p, nl); CHECK(k == A.p + i, "c_str_trim", "nl %d got %ld expected %ld", nl, (long)(k - A.p), (long)i); }
	std::string r(a.rbegin(), a.rend()); { CStr R(a); char* q = c_str_reverse(R.p); CHECK(q == R.p && r == q, "c_str_reverse", "got %s", show(R.p, a.size()).c_str()); }
	{ CStr R(a); c_str_to_lower(R.p); std::string e = a; for (auto& x : e) if (x >= 'A' && x <= 'Z') x += 32; CHECK(e == R.p, "c_str_to_lower", "got %s", show(R.p, a.size()).c_str()); }
	{ CStr R(a); c_str_to_upper(R.p); std::string e = a; for (auto& x : e) if (x >= 'a' && x <= 'z') x -= 32; CHECK(e == R.p, "c_str_to_upper", "got %s", show(R.p, a.size()).c_str()); }
}
TEST(strs) {
	std::string a = S1(), b = coin(3) && a.size() ? a.substr(below(a.size()), below(5)) : coin() ? a.substr(0, below(a.size() + 1)) : near(a); SBuf A(a), B(b);
	CASE("str", "%s, %s", show(a).c_str(), show(b).c_str());
	CHECK(str_are_equal(A.str(), B.str()) == (a == b), "str_are_equal", "got %d", str_are_equal(A.str(), B.str()));
	CHECK(!!str_starts_with(A.str(), B.str()) == (a.compare(0, b.size(), b) == 0), "str_starts_with", "got %d", (int)str_starts_with(A.str(), B.str()));
	CHECK(str_contains(A.str(), B.str()) == (a.find(b) != std::string::npos), "str_contains", "got %d", str_contains(A.str(), B.str()));
	CStr C(a); Str v = to_str_from_c_str(C.p); CHECK(v.Ptr == C.p && v.Len == (ssize)a.size(), "to_str_from_c_str", "len %ld", (long)v.Len);
}
