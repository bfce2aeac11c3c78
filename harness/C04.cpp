#include "native.hpp"
using namespace gen;
static std::map<void*, size_t> blocks;
static void* proc(void*, AllocType t, ssize size, ssize al, void* old, ssize osz, u64 fl) {
	if (t == EAllocation_ALLOC) { void* p = ::malloc(size ? size : 1); memset(p, 0xAA, size); blocks[p] = size; return p; }
	if (t == EAllocation_FREE) { CHECK(blocks.count(old), "allocator", "freeing a block that is not allocated"); if (blocks.count(old)) { blocks.erase(old); ::free(old); } return 0; }
	CHECK(0, "allocator", "unexpected request"); return 0;
}
static void once() {}
struct Rec { u64 a; char const* s; u32 c; bool operator==(Rec const& o) const { return a == o.a && s == o.s && c == o.c; } };
static void gv(u8& v) { v = (u8)rnd(); } static void gv(u64& v) { v = rnd(); } static void gv(Rec& v) { memset(&v, 0, sizeof v); v.a = rnd(); v.c = (u32)rnd(); }
static std::map<u64, std::string> seen;
template <class T> static void visit(u64 k, T v) { CHECK(!seen.count(k), "hashtable_map", "key visited twice"); seen[k] = std::string((char*)&v, sizeof v); }
template <class T> static void visitp(u64 k, T* v) { visit<T>(k, *v); ((char*)v)[0] ^= 0x55; }
template <class T> static void go(const char* tn) {
	AllocatorInfo A = { proc, &blocks }; std::map<u64, T> m; size_t n0 = 1 + below(20); bool d = coin(3);
	HashTable<T> h = d ? gen::hashtable_init<T>(A) : gen::hashtable_init_reserve<T>(A, n0); std::string log = std::string(tn) + (d ? " init" : " reserve" + std::to_string(n0)); u64 mul = coin() ? 1 : coin() ? 8 : coin() ? 0x100000001ull : 24; bool neg = coin(4);
	std::set<u64> uni; u64 nk = 1 + below(60);
	for (int s = 0, n = 1 + below(80); s < n; ++s) {
		int op = below(20); u64 key = below(nk) * mul; if (neg) key = ~key; T v; gv(v); uni.insert(key);
		log += " " + std::to_string(op) + ":" + std::to_string(key); CASE("hashtable", "%s", log.c_str());
		if (op < 9) { gen::hashtable_set<T>(&h, key, v); m[key] = v; }
		else if (op < 12) { gen::hashtable_remove<T>(h, key); m.erase(key); }
		else if (op == 12 && coin(4)) { gen::hashtable_clear<T>(h); m.clear(); }
		else if (op == 13) gen::hashtable_grow<T>(&h);
		else if (op == 14) gen::hashtable_rehash<T>(&h, 1 + below(2 * m.size() + 3));
		else if (op == 15) gen::hashtable_rehash_fast<T>(h);
		else if (op == 16 && m.size()) { ssize i = below(gen::array_num<HashTableEntry<T>>(h.Entries)); u64 k = h.Entries[i].Key; gen::hashtable_remove_entry<T>(h, i); m.erase(k); }
		else if (op == 17) { seen.clear(); gen::hashtable_map<T>(h, visit<T>); CHECK(seen.size() == m.size(), "hashtable_map", "%zu of %zu entries", seen.size(), m.size()); for (auto& e : m) CHECK(seen.count(e.first) && seen[e.first] == std::string((char*)&e.second, sizeof(T)), "hashtable_map", "wrong value"); }
		else if (op == 18) { seen.clear(); gen::hashtable_map_mut<T>(h, visitp<T>); CHECK(seen.size() == m.size(), "hashtable_map_mut", "%zu of %zu entries", seen.size(), m.size()); for (auto& e : m) ((char*)&e.second)[0] ^= 0x55; }
		bool ok = true;
		for (u64 k : uni) { T* p = gen::hashtable_get<T>(h, k); auto it = m.find(k); CHECK(!p == (it == m.end()), "hashtable_get", "key %llu %s", (unsigned long long)k, p ? "found but not stored" : "stored but not found"); if (!p != (it == m.end())) { ok = false; break; } if (p && !(*p == it->second)) { CHECK(0, "hashtable_get", "key %llu has the wrong value", (unsigned long long)k); ok = false; break; } }
		CHECK(gen::array_num<HashTableEntry<T>>(h.Entries) == m.size(), "hashtable entries", "%zu, expected %zu", gen::array_num<HashTableEntry<T>>(h.Entries), m.size()); u64 far = rnd() | 1ull << 50; CHECK(m.count(far) || !gen::hashtable_get<T>(h, far), "hashtable_get", "never stored key found");
		CHECK(blocks.size() == 2, "hashtable memory", "%zu blocks", blocks.size()); if (!ok) break;
	}
	gen::hashtable_destroy<T>(&h); CHECK(blocks.empty(), "hashtable_destroy", "memory not released"); for (auto& b : blocks) ::free(b.first); blocks.clear();
}
TEST(bytes) { go<u8>("u8"); }
TEST(words) { go<u64>("u64"); }
TEST(records) { go<Rec>("Rec"); }
