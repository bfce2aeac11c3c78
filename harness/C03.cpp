#include "native.hpp"
using namespace gen;
static std::map<void*, size_t> blocks; static int failn = 0;
static void* proc(void*, AllocType t, ssize size, ssize al, void* old, ssize osz, u64 fl) {
	if (t == EAllocation_ALLOC) { if (failn && !--failn) return 0; void* p = ::malloc(size ? size : 1); memset(p, 0xAA, size); blocks[p] = size; return p; }
	if (t == EAllocation_FREE) { CHECK(blocks.count(old), "allocator", "freeing a block that is not allocated"); if (blocks.count(old)) { blocks.erase(old); ::free(old); } return 0; }
	CHECK(0, "allocator", "unexpected request"); return 0;
}
static void once() {}
struct Wide { u64 a, b; u32 c; bool operator==(Wide const& o) const { return a == o.a && b == o.b && c == o.c; } };
static void gv(u8& v) { v = (u8)rnd(); } static void gv(s64& v) { v = (s64)rnd(); } static void gv(Wide& v) { v.a = rnd(); v.b = below(3); v.c = (u32)rnd(); }
template <class T> static void go(const char* tn) {
	AllocatorInfo A = { proc, &blocks }; std::string log; std::vector<T> m; failn = 0; size_t cap0 = 1 + below(6);
	bool d = coin(3); Array<T> a = d ? gen::array_init<T>(A) : gen::array_init_reserve<T>(A, cap0); log = std::string(tn) + (d ? " init" : " reserve" + std::to_string(cap0)); CASE("array", "%s", log.c_str());
	CHECK(array_get_header<T>(a)->Capacity == (d ? 8 : cap0) && array_get_header<T>(a)->Num == 0, "array_init", "capacity or count");
	for (int s = 0, n = 1 + below(25); s < n; ++s) {
		int op = below(17); size_t idx = below(m.size() + 1), k = 1 + below(9); T v; gv(v); std::vector<T> it(k); for (auto& x : it) gv(x);
		log += " " + std::to_string(op) + ":" + std::to_string(idx) + "," + std::to_string(k); CASE("array", "%s", log.c_str());
		size_t cap = array_get_header<T>(a)->Capacity, nb = blocks.size(); T* old = a; bool oom = coin(12); failn = oom ? 1 : 0; bool r = true, grows = false; auto m0 = m;
		Buf ib(it.data(), k * sizeof(T)); T* items = (T*)ib.p;
		switch (op) {
		case 0: case 1: case 2: r = gen::array_append<T>(&a, v); grows = m.size() == cap; m.push_back(v); break;
		case 3: r = gen::array_append_items<T>(&a, items, k); grows = m.size() + k > cap; m.insert(m.end(), it.begin(), it.end()); break;
		case 4: r = gen::array_append_at<T>(&a, v, idx); grows = m.size() == cap; m.insert(m.begin() + idx, v); break;
		case 5: r = array_append_items_at<T>(&a, items, k, idx); grows = m.size() + k > cap; m.insert(m.begin() + idx, it.begin(), it.end()); break;
		case 6: if (m.size()) { array_remove_at<T>(a, idx % m.size()); m.erase(m.begin() + idx % m.size()); } else CHECK(traps([&] { array_remove_at<T>(a, idx); }), "array_remove_at", "no such element, not refused"); break;
		case 7: if (m.size()) { array_pop<T>(a); m.pop_back(); } else CHECK(traps([&] { array_pop<T>(a); }), "array_pop", "empty, not refused"); break;
		case 8: if (coin(3)) { gen::array_clear<T>(a); m.clear(); } break;
		case 9: { size_t q = below(20); r = array_resize<T>(&a, q); grows = q > cap; if (r) { for (size_t i = m.size(); i < q; ++i) a.Data[i] = v; m.resize(q, v); } break; }
		case 10: { size_t q = below(30); r = array_reserve<T>(&a, q); grows = q > cap; if (r) CHECK(array_get_header<T>(a)->Capacity >= q, "array_reserve", "capacity too small"); break; }
		case 11: { size_t e = idx + below(m.size() - idx + 1) + (coin(5) ? 3 : 0); bool f = gen::array_fill<T>(a, idx, e, v); CHECK(f == (e <= m.size()), "array_fill", "result %d for %zu..%zu of %zu", f, idx, e, m.size()); if (e <= m.size()) std::fill(m.begin() + idx, m.begin() + e, v); break; }
		case 12: { T* b = gen::array_back<T>(a); CHECK(m.empty() ? !b : b == a.Data + m.size() - 1, "array_back", "wrong element"); break; }
		case 13: { Array<T> o = gen::array_init_reserve<T>(A, k); if (!o.Data) { break; } failn = 0; gen::array_append_items<T>(&o, items, k); nb++; if (oom) failn = 1; r = gen::array_append_array<T>(&a, o); grows = m.size() + k > cap; m.insert(m.end(), it.begin(), it.end()); gen::array_free<T>(&o); CHECK(!o.Data, "array_free", "still refers to the memory"); nb--; break; }
		case 14: { size_t q = below(30); r = array_set_capacity<T>(&a, q); grows = q != cap && q >= m.size(); if (q < m.size()) m.resize(q); else if (r && q != cap) CHECK(array_get_header<T>(a)->Capacity == q, "array_set_capacity", "capacity %zu", array_get_header<T>(a)->Capacity); break; }
		case 15: r = array_grow<T>(&a, k); grows = true; if (r) CHECK(array_get_header<T>(a)->Capacity == std::max(k, 2 * cap + 8), "array_grow", "capacity"); break;
		case 16: CHECK(gen::array_num<T>(a) == m.size(), "array_num", "count"); break;
		}
		bool failed = oom && grows && op != 13 ? failn == 0 : (op == 13 ? !r : false); failn = 0;
		CHECK(r == !failed, "array result", "reports %d, memory was %s", r, failed ? "refused" : "available"); if (!r) { m = m0; CHECK(a.Data == old, "array refusal", "array moved"); }
		CHECK(blocks.size() == nb, "array memory", "%zu blocks before, %zu after", nb, blocks.size());
		auto* h = array_get_header<T>(a); CHECK(blocks.count(h) && blocks[h] >= 32 + h->Capacity * sizeof(T), "array memory", "block too small for the capacity"); CHECK(h->Num <= h->Capacity, "array count", "%zu of %zu", h->Num, h->Capacity); CHECK(h->Allocator.Proc == proc && h->Allocator.Data == &blocks, "array header", "allocator");
		CHECK(h->Num == m.size(), "array count", "%zu, expected %zu", h->Num, m.size()); if (h->Num != m.size()) break;
		bool ok = true; for (size_t i = 0; i < m.size(); ++i) if (!(a.Data[i] == m[i])) { CHECK(0, "array contents", "element %zu of %zu differs", i, m.size()); ok = false; break; } if (!ok) break;
	}
	if (m.size()) CHECK(a.begin() == a.Data && a.end() == a.Data + m.size(), "array iteration", "begin or end");
	gen::array_free<T>(&a); CHECK(blocks.empty() && !a.Data, "array_free", "memory not released"); for (auto& b : blocks) ::free(b.first); blocks.clear();
}
TEST(bytes) { go<u8>("u8"); }
TEST(words) { go<s64>("s64"); }
TEST(wide) { go<Wide>("Wide"); }
