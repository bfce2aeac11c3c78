#include "native.hpp"
using namespace gen;
static uint32_t ref32(const unsigned char* p, size_t n) { uint32_t r = ~0u; for (size_t i = 0; i < n; ++i) { r ^= p[i]; for (int k = 0; k < 8; ++k) r = (r >> 1) ^ (r & 1 ? 0xEDB88320u : 0); } return ~r; }
static uint64_t ref64(const unsigned char* p, size_t n) { uint64_t r = 0; for (size_t i = 0; i < n; ++i) { r ^= p[i]; for (int k = 0; k < 8; ++k) r = (r >> 1) ^ (r & 1 ? 0x95AC9329AC4BC9B5ull : 0); } return r; }
static void one(std::string const& s) {
	SBuf b(s); CASE("crc", "%zu bytes %s", s.size(), show(s).c_str());
	CHECK(crc32(b.p, s.size()) == ref32((unsigned char*)b.p, s.size()), "crc32", "got %08x expected %08x", crc32(b.p, s.size()), ref32((unsigned char*)b.p, s.size()));
	CHECK(crc64(b.p, s.size()) == ref64((unsigned char*)b.p, s.size()), "crc64", "got %016llx expected %016llx", (unsigned long long)crc64(b.p, s.size()), (unsigned long long)ref64((unsigned char*)b.p, s.size()));
}
static void once() {
	one(""); one("123456789");
	for (int i = 0; i < 256; ++i) { one(std::string(1, (char)i)); for (int j = 0; j < 256; ++j) { char c[2] = { (char)i, (char)j }; one(std::string(c, 2)); } }
	for (int i = 0; i < 70000; i += 4099) one(std::string(i, (char)(i * 7)));
	std::string z; for (int i = 0; i < 300; ++i) { one(z); z += '\0'; }
}
TEST(crc) { std::string s; size_t n = coin(50) ? below(70000) : below(80); for (size_t i = 0; i < n; ++i) s += (char)rnd(); one(s); }
TEST(prefix) {   // bytes after the stated length and the alignment of the buffer do not matter
	char b[64]; for (char& c : b) c = (char)rnd(); size_t o = below(16), n = below(32); uint32_t r = crc32(b + o, n); uint64_t q = crc64(b + o, n);
	for (size_t i = o + n; i < 64; ++i) b[i] = (char)rnd(); for (size_t i = 0; i < o; ++i) b[i] = (char)rnd();
	CASE("crc", "prefix of %zu bytes at offset %zu of %s", n, o, show(b, 64).c_str());
	CHECK(r == crc32(b + o, n) && r == ref32((unsigned char*)b + o, n), "crc32", "depends on other bytes"); CHECK(q == crc64(b + o, n), "crc64", "depends on other bytes");
}
