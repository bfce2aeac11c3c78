#include "native.hpp"
using namespace gen;
// backing memory: exactly sized heap blocks, so that sanitizers see every access outside the arena
static std::map<void*, size_t> blocks; static int backing_calls;
static void* proc(void*, AllocType t, ssize size, ssize al, void* old, ssize osz, u64 fl) {
	++backing_calls;
	if (t == EAllocation_ALLOC) { void* p = 0; posix_memalign(&p, al < 16 ? 16 : al, size ? size : 1); memset(p, 0xAA, size); blocks[p] = size; return p; }
	if (t == EAllocation_FREE) { CHECK(blocks.count(old), "backing", "freeing a block the backing allocator does not own"); if (blocks.count(old)) { blocks.erase(old); ::free(old); } return 0; }
	if (t == EAllocation_RESIZE) { CHECK(0, "backing", "resize passed to the backing allocator"); }
	return 0;
}
struct Blk { char* p; ssize n; int pat; };
static void walk(Arena* a, char* base, ssize cap, const char* nm) {
	AllocatorInfo in = arena_allocator_info(a); CHECK(in.Proc == arena_allocator_proc && in.Data == a, "arena_allocator_info", "wrong");
	std::vector<Blk> v; std::string log = std::string(nm) + " cap " + std::to_string(cap) + " base%64=" + std::to_string((uintptr_t)base % 64) + ":"; int pat = 1;
	CASE("arena", "%s", log.c_str());
	CHECK(a->PhysicalStart == base && a->TotalSize == cap && a->TotalUsed == 0, nm, "initial state");
	auto add = [&](void* r, ssize n, ssize al, ssize used0, bool zero, ssize from) {
		char* p = (char*)r;
		CHECK(p >= base && p + n <= base + cap, "arena block", "outside the arena: offset %ld size %ld of %ld", (long)(p - base), (long)n, (long)cap);
		CHECK((uintptr_t)p % al == 0, "arena block", "not aligned to %ld", (long)al);
		CHECK(p - base >= used0 && a->TotalUsed >= p + n - base && a->TotalUsed <= cap, "arena block", "fill level %ld -> %ld for block at %ld size %ld", (long)used0, (long)a->TotalUsed, (long)(p - base), (long)n);
		CHECK(p - base - used0 < al && a->TotalUsed - (p + n - base) < al, "arena block", "wasted more than the alignment needs");
		if (p < base || p + n > base + cap) return false;
		if (zero) for (ssize i = from; i < n; ++i) if (p[i]) { CHECK(0, "arena block", "not zeroed at %ld", (long)i); break; }
		for (auto& b : v) CHECK(b.p + b.n <= p || p + n <= b.p || !n || !b.n, "arena block", "overlaps an earlier block");
		return true;
	};
	auto intact = [&]() { for (auto& b : v) for (ssize i = 0; i < b.n; ++i) if ((unsigned char)b.p[i] != (unsigned char)(b.pat + i)) { CHECK(0, "arena block", "contents of an earlier block changed"); return; } };
	for (int s = 0, n = 1 + below(20); s < n; ++s) {
		ssize al = 1ll << below(8), sz = coin(3) ? below(cap / 4 + 2) : coin(6) ? below(2 * cap + 2) : below(40); int op = below(10); ssize used = a->TotalUsed; int bc = backing_calls;
		char b[80]; snprintf(b, 80, " %s(%ld,%ld)", op < 6 ? "alloc" : op < 8 ? "resize" : op < 9 ? "free" : "free_all", (long)sz, (long)al); log += b; CASE("arena", "%s", log.c_str());
		uintptr_t end = (uintptr_t)base + used; ssize need = (ssize)((end + al - 1) / al * al - end) + sz, pad = (ssize)((end + al - 1) / al * al - end);
		CHECK(arena_alignment_of(a, al) == pad, "arena_alignment_of", "wrong"); CHECK(arena_size_remaining(a, al) == cap - used - pad, "arena_size_remaining", "wrong");
		if (op < 6) {
			void* r = 0; bool deflt = coin(4) ; if (deflt) { al = 16; need = (ssize)((end + 15) / 16 * 16 - end) + sz; }
			bool t = traps([&] { r = deflt ? alloc(in, sz) : alloc_align(in, sz, al); });
			if (t) { CHECK(need + al > cap - used, "arena refusal", "refused a request that fits: need %ld of %ld", (long)need, (long)(cap - used)); CHECK(a->TotalUsed == used, "arena refusal", "changed the arena"); }
			else { if (!add(r, sz, al, used, true, 0)) return; Blk k = { (char*)r, sz, pat++ }; for (ssize i = 0; i < sz; ++i) k.p[i] = (char)(k.pat + i); v.push_back(k); }
		} else if (op < 8 && v.size()) {
			size_t i = below(v.size()); Blk k = v[i]; void* r = 0;
			bool t = traps([&] { r = resize_align(in, k.p, k.n, sz, al); });
			if (t) { CHECK(a->TotalUsed == used, "arena refusal", "changed the arena"); CHECK(need + al > cap - used, "arena refusal", "refused a request that fits"); }
			else if (sz == 0) { CHECK(!r, "arena resize", "to nothing"); v.erase(v.begin() + i); }
			else if (sz <= k.n) { CHECK(r == k.p && a->TotalUsed == used, "arena resize", "shrinking moved the block"); }
			else { if (!add(r, sz, al, used, true, k.n)) return; for (ssize j = 0; j < k.n; ++j) if (((char*)r)[j] != (char)(k.pat + j)) { CHECK(0, "arena resize", "lost the contents"); break; } Blk q = { (char*)r, sz, pat++ }; for (ssize j = 0; j < sz; ++j) q.p[j] = (char)(q.pat + j); v.push_back(q); }
		} else if (op == 8 && v.size()) { allocator_free(in, v[below(v.size())].p); CHECK(a->TotalUsed == used, "arena free", "changed the fill level"); }
		else if (op == 9) { free_all(in); CHECK(a->TotalUsed == 0, "arena free_all", "not empty"); v.clear(); }
		CHECK(bc == backing_calls, "arena", "a block operation reached the backing allocator"); CHECK(a->PhysicalStart == base && a->TotalSize == cap, "arena", "memory changed");
		intact();
	}
	bool t = traps([&] { arena_check(a); }); CHECK(t == (a->TempCount != 0), "arena_check", "wrong");
}
static void once() {}
TEST(from_memory) {
	ssize cap = coin(8) ? below(8) : below(600); size_t off = below(17); char* raw = (char*)aligned_alloc(64, (off + cap + 64) / 64 * 64); Buf m(off + cap); (void)m; ::free(raw);
	char* base = m.p + off; Arena a = arena_init_from_memory(base, cap); walk(&a, base, cap, "arena_init_from_memory");
	arena_free(&a);   // no backing allocator: nothing to release
}
TEST(from_allocator) {
	ssize cap = below(700); AllocatorInfo A = { proc, &blocks }; Arena a = arena_init_from_allocator(A, cap); CHECK(blocks.size() == 1 && blocks.begin()->second == (size_t)cap, "arena_init_from_allocator", "backing request"); CHECK(a.Backing.Proc == proc && a.Backing.Data == &blocks, "arena_init_from_allocator", "backing lost");
	walk(&a, (char*)a.PhysicalStart, cap, "arena_init_from_allocator");
	ssize sub = below(200); size_t nb = blocks.size(); void* p0 = a.PhysicalStart; Arena s = arena_init_sub(&a, sub); CHECK(blocks.size() == nb + 1 && s.PhysicalStart != p0, "arena_init_sub", "no memory of its own"); walk(&s, (char*)s.PhysicalStart, sub, "arena_init_sub"); arena_free(&s);
	arena_free(&a); CHECK(blocks.empty() && !a.PhysicalStart, "arena_free", "memory not released"); for (auto& b : blocks) ::free(b.first); blocks.clear();
}
TEST(fixed) {
	FixedArena_1KB* f = (FixedArena_1KB*)malloc(sizeof(FixedArena_1KB)); memset(f, 0xAA, sizeof *f); fixed_arena_init(f);
	CASE("fixed_arena", ""); AllocatorInfo in = fixed_arena_allocator_info(f); CHECK(in.Data == &f->arena, "fixed_arena_allocator_info", "wrong"); CHECK(f->arena.TotalSize == 1024, "fixed_arena_init", "size"); CHECK(fixed_arena_size_remaining(f, 1) == 1024, "fixed_arena_size_remaining", "wrong");
	walk(&f->arena, f->memory, 1024, "fixed_arena"); fixed_arena_free(f); ::free(f);
}
