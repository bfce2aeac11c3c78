// Native driver support: executes the repository's real code (built for this machine with sanitizers) on generated inputs and
// compares it with an oracle.  Used to replay verifier counterexamples and as the labelled bounded stand-in.
#pragma once
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <cstdint>
#include <csetjmp>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <time.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/sendfile.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <memory>
#include <algorithm>
#define GEN_DEFINE_LIBRARY_CODE_CONSTANTS
#include "gen.cpp"
#undef malloc
#undef mfree
#undef alloc
#undef min
#undef max
#undef swap
#undef clamp
#undef count_of
#undef internal
#undef global
#undef abs
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace nat {
static uint64_t S = 88172645463325252ull;
inline uint64_t rnd() { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return S * 2685821657736338717ull; }
inline uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
inline long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
inline bool coin(int n = 2) { return below(n) == 0; }
static std::vector<long long> hints;
static char cur[4096]; static char curfn[128];
static uint64_t evals; static std::unordered_set<uint64_t> distinct; static int nfail; static std::map<std::string, int> per;
static std::vector<std::string> samples; static FILE* out;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double t_end;
inline std::string show(const void* p, size_t n) {
	std::string r = "\""; const unsigned char* s = (const unsigned char*)p;
	for (size_t i = 0; i < n && i < 200; ++i) { char b[8]; if (s[i] >= 32 && s[i] < 127 && s[i] != '"' && s[i] != '\\') { r += (char)s[i]; } else { snprintf(b, 8, "\\x%02x", s[i]); r += b; } }
	return r + "\"";
}
inline std::string show(std::string const& s) { return show(s.data(), s.size()); }
inline void CASE(const char* fn, const char* fmt, ...) {
	va_list a; va_start(a, fmt); vsnprintf(cur, sizeof cur, fmt, a); va_end(a);
	strncpy(curfn, fn, sizeof curfn - 1);
	++evals;
	uint64_t h = 1469598103934665603ull; for (const char* p = fn; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull; for (char* p = cur; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull;
	if (distinct.size() < 4000000) distinct.insert(h);
	if (samples.size() < 5 && (evals % 37) == 1) samples.push_back(std::string(fn) + ": " + cur);
}
inline void FAILED(const char* key, const char* what) {
	++nfail; int& c = per[key]; if (c++ < 3) { fprintf(out, "FAIL [%s] %s | case: %s(%s)\n", key, what, curfn, cur); fflush(out); }
}
#define CHECK(c, key, ...) do { if (!(c)) { char b_[1500]; snprintf(b_, sizeof b_, __VA_ARGS__); ::nat::FAILED(key, b_); } } while (0)
static void death() { if (out) { fprintf(out, "FAIL [%s] memory error or undefined behaviour (see sanitizer report) | case: %s(%s)\n", curfn, curfn, cur); fprintf(out, "EVALS %llu DISTINCT %zu\n", (unsigned long long)evals, distinct.size()); fflush(out); } }
static sigjmp_buf jb; static volatile int armed;
static void on_sig(int s) { if (armed && (s == SIGILL || s == SIGTRAP)) siglongjmp(jb, 1); death(); _exit(98); }
// does the call stop the program (assertion / fatal diagnostic)?
template <class F> bool traps(F f) { if (sigsetjmp(jb, 1)) { armed = 0; return true; } armed = 1; f(); armed = 0; return false; }
struct Test { const char* name; void (*f)(); };
inline std::vector<Test>& tests() { static std::vector<Test> t; return t; }
struct Reg { Reg(const char* n, void (*f)()) { tests().push_back({ n, f }); } };
#define TEST(n) static void n(); static ::nat::Reg reg_##n(#n, n); static void n()
inline std::string rstr(size_t maxlen, const char* alphabet) { std::string s; size_t n = below(maxlen + 1), m = strlen(alphabet); for (size_t i = 0; i < n; ++i) s += alphabet[below(m)]; return s; }
// exactly sized heap copy, so that sanitizers see every out-of-bounds access
struct Buf { char* p; size_t n; Buf(size_t n) : p((char*)malloc(n ? n : 1)), n(n) {} Buf(const void* s, size_t n) : Buf(n) { memcpy(p, s, n); } ~Buf() { free(p); } Buf(Buf const&) = delete; };
struct CStr : Buf { CStr(std::string const& s) : Buf(s.c_str(), s.size() + 1) {} };
struct SBuf : Buf { SBuf(std::string const& s) : Buf(s.data(), s.size()) {} gen::Str str() { gen::Str r; r.Ptr = p; r.Len = (gen::ssize)n; return r; } };
inline gen::Str mk(std::string const& s) { gen::Str r; r.Ptr = s.data(); r.Len = (gen::ssize)s.size(); return r; }
inline std::string str(gen::Str s) { return std::string(s.Ptr ? s.Ptr : "", s.Ptr ? (size_t)s.Len : 0); }
inline int sgn(long v) { return v < 0 ? -1 : v > 0; }
}
using namespace nat;
static void once();
int main(int argc, char** argv) {
	out = fdopen(dup(1), "w");
	int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);   // library log output
	if (!getenv("VERIF_LOG")) {}
	uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1; double secs = argc > 2 ? atof(argv[2]) : 5;
	S ^= seed * 0x9E3779B97F4A7C15ull; for (int i = 0; i < 20; ++i) rnd();
	if (const char* h = getenv("VERIF_HINTS")) { std::string s = h; size_t i = 0; while (i < s.size()) { hints.push_back(atoll(s.c_str() + i)); i = s.find(',', i); if (i == std::string::npos) break; ++i; } }
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
	signal(SIGILL, on_sig); signal(SIGTRAP, on_sig);
	const char* only = argc > 3 ? argv[3] : 0;
	for (auto& t : tests()) if (!only || strstr(t.name, only)) fprintf(out, "FUNCTION %s\n", t.name);
	fflush(out);
	once();
	t_end = now() + secs;
	for (long r = 0; now() < t_end && nfail < 200; ++r)
		for (auto& t : tests()) if (!only || strstr(t.name, only)) { t.f(); if (now() > t_end + 2) break; }
	for (auto& s : samples) fprintf(out, "SAMPLE %s\n", s.c_str());
	fprintf(out, "EVALS %llu DISTINCT %zu\n", (unsigned long long)evals, distinct.size());
	fflush(out);
	_exit(nfail ? 1 : 0);
}
