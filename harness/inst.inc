// container templates at three element sizes (1, 8 and 24 bytes) and hash tables
struct VerifRec { u64 a, b, c; };
#define VERIF_ARRAY(T) \
	template Array<T> array_init<T>(AllocatorInfo); template Array<T> array_init_reserve<T>(AllocatorInfo, ssize); template bool array_append_array<T>(Array<T>*, Array<T>); \
	template bool array_append<T>(Array<T>*, T); template bool array_append_items<T>(Array<T>*, T*, usize); template bool array_append_at<T>(Array<T>*, T, usize); \
	template bool array_append_items_at<T>(Array<T>*, T*, usize, usize); template T* array_back<T>(Array<T>); template void array_clear<T>(Array<T>); template bool array_fill<T>(Array<T>, usize, usize, T); \
	template void array_free<T>(Array<T>*); template bool array_grow<T>(Array<T>*, usize); template usize array_num<T>(Array<T>); template void array_pop<T>(Array<T>); template void array_remove_at<T>(Array<T>, usize); \
	template bool array_reserve<T>(Array<T>*, usize); template bool array_resize<T>(Array<T>*, usize); template bool array_set_capacity<T>(Array<T>*, usize); template ArrayHeader* array_get_header<T>(Array<T>);
VERIF_ARRAY(u8)
VERIF_ARRAY(s64)
VERIF_ARRAY(VerifRec)
#define VERIF_TABLE(T) \
	template HashTable<T> hashtable_init<T>(AllocatorInfo); template HashTable<T> hashtable_init_reserve<T>(AllocatorInfo, usize); template void hashtable_clear<T>(HashTable<T>); template void hashtable_destroy<T>(HashTable<T>*); \
	template T* hashtable_get<T>(HashTable<T>, u64); template void hashtable_grow<T>(HashTable<T>*); template void hashtable_rehash<T>(HashTable<T>*, ssize); template void hashtable_rehash_fast<T>(HashTable<T>); \
	template void hashtable_remove<T>(HashTable<T>, u64); template void hashtable_remove_entry<T>(HashTable<T>, ssize); template void hashtable_set<T>(HashTable<T>*, u64, T); \
	template ssize hashtable__add_entry<T>(HashTable<T>*, u64); template HashTableFindResult hashtable__find<T>(HashTable<T>, u64); template b32 hashtable_full<T>(HashTable<T>);
VERIF_TABLE(Str)
// layout of the context, read by the contracts
#define VERIF_OFF(n, T, m) extern const u64 verif_off_##n = __builtin_offsetof(T, m);
VERIF_OFF(CodePools, Context, CodePools) VERIF_OFF(Allocator_Pool, Context, Allocator_Pool) VERIF_OFF(CodePool_NumBlocks, Context, CodePool_NumBlocks)
VERIF_OFF(StrCache, Context, StrCache) VERIF_OFF(StringArenas, Context, StringArenas) VERIF_OFF(Macros, Context, Macros) VERIF_OFF(Max_StrCacheLength, Context, Max_StrCacheLength)
VERIF_OFF(SizePer_StringArena, Context, SizePer_StringArena) VERIF_OFF(Allocator_StrCache, Context, Allocator_StrCache)
extern const u64 verif_off_Context = sizeof(Context);
// enumerator values, in the order of the table of documented spellings
#define SPELL_OPS(k, s) (u32)k,
extern const u32 verif_val_OPS[] = {
#include "spellings.inc"
};
#define SPELL_SPECS(k, s) (u32)k,
extern const u32 verif_val_SPECS[] = {
#include "spellings.inc"
};
#define SPELL_TOKS(k, s) (u32)k,
extern const u32 verif_val_TOKS[] = {
#include "spellings.inc"
};
#define SPELL_CODES(k, s) (u32)k,
extern const u32 verif_val_CODES[] = {
#include "spellings.inc"
};
#define SPELL_ACCESS(k, s) (u32)k,
extern const u32 verif_val_ACCESS[] = {
#include "spellings.inc"
};
#define SPELL_MODFLAG(k, s) (u32)k,
extern const u32 verif_val_MODFLAG[] = {
#include "spellings.inc"
};
#define SPELL_MACRO(k, s) (u32)k,
extern const u32 verif_val_MACRO[] = {
#include "spellings.inc"
};
#define SPELL_KIND(k, s) (u32)k,
extern const u32 verif_val_KIND[] = {
#include "spellings.inc"
};
