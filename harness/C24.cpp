#include "ast.hpp"
static void once() {}
static void go(u32 blocks, bool fallback) {
	start(blocks); if (fallback) { memset(&ctx0, 0, sizeof ctx0); ctx0.Allocator_Temp = { temp_proc, 0 }; ctx0.CodePool_NumBlocks = blocks; ctx0.InitSize_Fallback_Allocator_Bucket_Size = 256 * 1024; ctx0.InitSize_StringArenasArray = 4; ctx0.SizePer_StringArena = 4096; ctx0.InitSize_LexerTokens = 64; context_counter = 0; gen::init(&ctx0); }
	std::vector<std::pair<AST*, std::string>> all; std::set<char*> at; Context* other = 0;
	for (int i = 0, n = 1 + below(blocks * 6); i < n; ++i) {
		CASE("make_code", "blocks %u fallback %d number %d", blocks, fallback, i); Code c = make_code(); AST* a = c.ast;
		CHECK(a, "make_code", "null"); CHECK((uintptr_t)a % alignof(AST) == 0, "alignment", "%p", (void*)a);
		bool zero = true; for (size_t k = 0; k < sizeof(AST); ++k) if (((char*)a)[k]) zero = false; CHECK(zero, "blank", "node %d is not zeroed", i);
		auto it = at.lower_bound((char*)a - sizeof(AST) + 1); CHECK(it == at.end() || *it >= (char*)(a + 1), "distinct", "node %d overlaps an earlier node", i); at.insert((char*)a);
		if (!fallback) { bool in = false; for (auto& b : live_blocks) if ((char*)a >= b.first && (char*)(a + 1) <= b.first + b.second) in = true; CHECK(in, "memory", "node %d lies outside the context's memory", i); }
		for (size_t k = 0; k < sizeof(AST); ++k) ((char*)a)[k] = (char)rnd(); all.push_back({ a, std::string((char*)a, sizeof(AST)) });
		if (coin(9)) cache_str(mk(ident())); if (coin(30)) untyped_str(mk(ident()));
		if (nfail > 10) break;
	}
	for (auto& p : all) CHECK(std::string((char*)p.first, sizeof(AST)) == p.second, "stable", "a node changed by itself");
	CASE("constants", "init"); CHECK(t_int.ast && t_int->Type == CT_Typename && str(t_int->Name) == "int" && t_bool.ast && str(t_bool->Name) == "bool" && str(t_void->Name) == "void" && str(access_public->Name) == "public:\n" && spec_const->ArrSpecs[0] == Spec_Const && spec_volatile->ArrSpecs[0] == Spec_Volatile && spec_virtual->NumEntries == 1, "constants", "wrong");
	stop();
}
TEST(nodes) { go(1 + below(300), false); }
TEST(nodes_single) { go(1 + below(3), false); }
TEST(nodes_fallback) { go(16 + below(64), true); }
