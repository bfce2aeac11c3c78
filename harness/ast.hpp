// A library context with a tracked allocator, for drivers that build nodes.
#pragma once
#include "native.hpp"
using namespace gen;
static std::map<char*, size_t> live_blocks;      // persistent memory the context owns
static std::vector<void*> temp_blocks;
static void* pers_proc(void*, AllocType t, ssize size, ssize al, void* old, ssize osz, u64) {
	if (t == EAllocation_ALLOC) { char* p = (char*)::aligned_alloc(al < 16 ? 16 : al, (size + 15 + al) / al * al); memset(p, 0xA7, size); live_blocks[p] = size; return p; }
	if (t == EAllocation_FREE) { CHECK(!old || live_blocks.count((char*)old), "allocator", "freeing a block that is not allocated"); live_blocks.erase((char*)old); ::free(old); return 0; }
	if (t == EAllocation_RESIZE) { void* p = pers_proc(0, EAllocation_ALLOC, size, al, 0, 0, 0); if (old) { memcpy(p, old, osz < size ? osz : size); pers_proc(0, EAllocation_FREE, 0, 0, old, 0, 0); } return p; }
	return 0;
}
static void* temp_proc(void*, AllocType t, ssize size, ssize al, void* old, ssize osz, u64) {
	if (t == EAllocation_ALLOC) { void* p = ::aligned_alloc(al < 16 ? 16 : al, (size + 15 + al) / al * al); memset(p, 0xA9, size); temp_blocks.push_back(p); return p; }
	if (t == EAllocation_RESIZE) { void* p = temp_proc(0, EAllocation_ALLOC, size, al, 0, 0, 0); if (old) memcpy(p, old, osz < size ? osz : size); return p; }
	return 0;
}
static void temp_reset() { for (void* p : temp_blocks) ::free(p); temp_blocks.clear(); }
static Context ctx0;
// blocks per node pool, bytes per string arena (0: defaults)
static void start(u32 nodes = 0, u32 arena = 0, u32 maxcache = 0) {
	memset(&ctx0, 0, sizeof ctx0);
	ctx0.Allocator_DyanmicContainers = ctx0.Allocator_Pool = ctx0.Allocator_StrCache = { pers_proc, 0 }; ctx0.Allocator_Temp = { temp_proc, 0 };
	ctx0.CodePool_NumBlocks = nodes ? nodes : 512; ctx0.SizePer_StringArena = arena ? arena : 65536; ctx0.Max_StrCacheLength = maxcache;
	ctx0.InitSize_LexerTokens = 1024; ctx0.InitSize_Fallback_Allocator_Bucket_Size = 65536;
	gen::init(&ctx0);
}
static void stop() { _ctx = 0; context_counter = 0; temp_reset(); for (auto& b : live_blocks) ::free(b.first); live_blocks.clear(); }
static std::string ident() { static const char* a = "abcdefghijklmnopqrstuvwxyz_ABCXYZ0123456789"; std::string s(1, a[below(30)]); size_t n = below(coin(8) ? 60 : 8); for (size_t i = 0; i < n; ++i) s += a[below(43)]; return s; }
static Str keep(std::string const& s) { static std::vector<std::string*> k; k.push_back(new std::string(s)); if (k.size() > 5000) { for (auto p : k) if (p != k.back()) delete p; auto l = k.back(); k.clear(); k.push_back(l); } return mk(*k.back()); }
static std::string snap(Code c) { return std::string((char*)c.ast, sizeof(AST)); }
static std::string text(Code c) { StrBuilder r = strbuilder_make_str(_ctx->Allocator_Temp, mk("")); code_to_strbuilder_ref(c, &r); return std::string((char*)r, strbuilder_length(r)); }
static u32 crc(std::string const& s) { return gen::crc32(s.data(), s.size()); }
// pairs of different texts with the same CRC-32: the difference D satisfies crc(x ^ D) == crc(x) for texts of this length
static std::pair<std::string, std::string> collide() {
	static const char* C[][2] = { { "plumless", "buckeroo" }, { "gnu", "codding" }, { "exhibiters", "schlager" }, { "codding", "gnu" } };
	(void)C;
	for (;;) {   // 8 letters: search for a second preimage with the linear structure of CRC over a 5-bit-per-letter space
		std::string a(8, 'a'); for (auto& c : a) c = 'a' + below(16);
		std::vector<std::pair<u64, u32>> rows; u32 base = crc(a); u32 piv[32]; u64 pc[32]; bool has[32] = {};
		for (int b = 0; b < 8 * 5; ++b) { std::string t = a; int bit = b % 5; t[b / 5] ^= bit < 4 ? 1 << bit : 0x20; u32 d = crc(t) ^ base; u64 c = 1ull << b;
			for (int k = 31; k >= 0 && d; --k) if (d >> k & 1) { if (has[k]) { d ^= piv[k]; c ^= pc[k]; } else { has[k] = true; piv[k] = d; pc[k] = c; d = 0; c = 0; } }
			if (!d && c) rows.push_back({ c, 0 }); }
		if (rows.empty()) continue;
		u64 c = 0; for (auto& r : rows) if (coin()) c ^= r.first; if (!c) c = rows[below(rows.size())].first;
		std::string t = a; for (int b = 0; b < 40; ++b) if (c >> b & 1) t[b / 5] ^= b % 5 < 4 ? 1 << (b % 5) : 0x20;
		bool ok = true; for (auto& x : t) if (!(x >= 'a' && x <= 'z') && !(x >= 'A' && x <= 'Z') && x != '_') ok = false;
		if (ok && crc(t) == base && t != a) return { a, t };
	}
}
