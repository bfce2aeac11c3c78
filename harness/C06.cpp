#include "native.hpp"
using namespace gen;
static std::map<void*, size_t> blocks;
static void* proc(void*, AllocType t, ssize size, ssize al, void* old, ssize osz, u64 fl) {
	if (t == EAllocation_ALLOC) { void* p = 0; posix_memalign(&p, al < 16 ? 16 : al, size ? size : 1); memset(p, 0xAA, size); blocks[p] = size; return p; }
	if (t == EAllocation_FREE) { CHECK(blocks.count(old), "backing", "freeing a block the backing allocator does not own"); if (blocks.count(old)) { blocks.erase(old); ::free(old); } return 0; }
	CHECK(0, "backing", "unexpected request"); return 0;
}
static void once() {}
TEST(pool) {
	ssize nb = 1 + below(12), al = 1ll << below(8), bs = coin(3) ? 8 * (1 + below(8)) : coin() ? al * (1 + below(4)) : 8 + below(60); if (bs < 8) bs = 8;
	AllocatorInfo B = { proc, &blocks }; bool deflt = coin(3); if (deflt) al = GEN_DEFAULT_MEMORY_ALIGNMENT; std::string log = "blocks " + std::to_string(nb) + " size " + std::to_string(bs) + " align " + std::to_string(al) + ":";
	CASE("pool", "%s", log.c_str());
	Pool p = deflt ? pool_init(B, nb, bs) : pool_init_align(B, nb, bs, al); AllocatorInfo in = pool_allocator_info(&p); CHECK(in.Data == &p && in.Proc == pool_allocator_proc, "pool_allocator_info", "wrong");
	CHECK(blocks.size() == 1 && p.PhysicalStart == blocks.begin()->first, "pool_init", "backing memory"); CHECK(p.BlockSize == bs && p.BlockAlign == al && p.NumBlocks == nb && p.TotalSize == 0 && p.Backing.Proc == proc, "pool_init", "fields");
	char* base = (char*)p.PhysicalStart; ssize cap = blocks.begin()->second; std::map<char*, int> own; std::vector<char*> v; int pat = 1; std::set<char*> everything;
	for (int s = 0, n = 1 + below(60); s < n; ++s) {
		int op = below(12); char* r = 0;
		CHECK(p.TotalSize == (ssize)v.size() * bs, "pool accounting", "in use %ld, blocks owned %zu of size %ld", (long)p.TotalSize, v.size(), (long)bs);
		log += op < 6 ? " a" : op < 10 ? " f" : op == 10 ? " x" : " c"; CASE("pool", "%s", log.c_str());
		if (op < 6) {
			int bad = coin(6) ? 1 + below(2) : 0; ssize rs = bs, ra = al; if (bad == 1) rs += coin() ? 1 : -1; if (bad == 2) ra *= 2;
			void* fl = p.FreeList; bool t = traps([&] { r = (char*)alloc_align(in, rs, ra); });
			CHECK(t == (bad || v.size() == (size_t)nb), "pool refusal", "%s: request size %ld align %ld, %zu of %ld blocks in use", t ? "refused" : "granted", (long)rs, (long)ra, v.size(), (long)nb);
			if (t) { CHECK(p.FreeList == fl && p.TotalSize == (ssize)v.size() * bs, "pool refusal", "changed the pool"); continue; }
			CHECK(r >= base && r + bs <= base + cap, "pool block", "outside the pool's memory: %ld", (long)(r - base)); if (r < base || r + bs > base + cap) break;
			CHECK((uintptr_t)r % al == 0, "pool block", "not aligned to %ld", (long)al);
			for (auto* q : v) CHECK(q + bs <= r || r + bs <= q, "pool block", "already owned or overlapping");
			for (ssize i = 0; i < bs; ++i) if (r[i]) { CHECK(0, "pool block", "not zeroed"); break; }
			own[r] = pat; for (ssize i = 0; i < bs; ++i) r[i] = (char)(pat + i); ++pat; v.push_back(r); everything.insert(r); CHECK(everything.size() <= (size_t)nb, "pool block", "more than %ld different blocks", (long)nb);
		} else if (op < 10 && v.size()) { size_t i = below(v.size()); allocator_free(in, v[i]); own.erase(v[i]); v.erase(v.begin() + i); }
		else if (op == 10) { ssize u = p.TotalSize; void* fl = p.FreeList; in.Proc(in.Data, EAllocation_FREE, 0, 0, 0, 0, 0); CHECK(p.TotalSize == u && p.FreeList == fl, "pool free", "null changed the pool"); if (v.size()) { bool t = traps([&] { resize_align(in, v[0], bs, bs * 2, al); }); CHECK(t, "pool resize", "not refused"); } }
		else if (op == 11 && coin(3)) { if (coin()) pool_clear(&p); else free_all(in); v.clear(); own.clear(); CHECK(p.TotalSize == 0, "pool clear", "in use %ld", (long)p.TotalSize); std::vector<void*> all; for (ssize i = 0; i < nb; ++i) { void* q = 0; if (traps([&] { q = alloc_align(in, bs, al); })) { CHECK(0, "pool clear", "only %ld of %ld blocks available", (long)i, (long)nb); break; } all.push_back(q); } CHECK(traps([&] { alloc_align(in, bs, al); }), "pool clear", "more than %ld blocks", (long)nb); for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < i; ++j) CHECK((char*)all[i] + bs <= (char*)all[j] || (char*)all[j] + bs <= (char*)all[i], "pool clear", "overlapping"); for (auto* q : all) allocator_free(in, q); }
		for (auto& k : own) for (ssize i = 0; i < bs; ++i) if (k.first[i] != (char)(k.second + i)) { CHECK(0, "pool block", "contents of an owned block changed"); break; }
		CHECK(p.PhysicalStart == base && p.BlockSize == bs && p.BlockAlign == al && p.NumBlocks == nb, "pool", "fields changed");
	}
	pool_free(&p); CHECK(blocks.empty(), "pool_free", "memory not released"); for (auto& b : blocks) ::free(b.first); blocks.clear();
}
