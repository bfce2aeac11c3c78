From 1cf3c294f809d88dc99b096331aee37b85e6d3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 01/41] fix: make the POSIX branches compile (unbalanced
 parenthesis in vm_trim, undeclared identifiers)

---
 base/dependencies/filesystem.cpp | 2 +-
 base/dependencies/memory.cpp     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/dependencies/filesystem.cpp b/base/dependencies/filesystem.cpp
index a52c621..3c6ced7 100644
--- a/base/dependencies/filesystem.cpp
+++ b/base/dependencies/filesystem.cpp
@@ -200,7 +200,7 @@ GEN_FILE_SEEK_PROC( _posix_file_seek )
 internal
 GEN_FILE_READ_AT_PROC( _posix_file_read )
 {
-	unused( stop_at_newline );
+	// unused( stop_at_newline );
 	ssize res = pread( fd.i, buffer, size, offset );
 	if ( res < 0 )
 		return false;
diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index 8c32c81..b501818 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -145,7 +145,7 @@ void* heap_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 			{
 				ptr = aligned_alloc( alignment, ( size + alignment - 1 ) & ~( alignment - 1 ) );
 
-				if ( flags & GEN_ALLOCATOR_FLAG_CLEAR_TO_ZERO )
+				if ( flags & ALLOCATOR_FLAG_CLEAR_TO_ZERO )
 				{
 					zero_size( ptr, size );
 				}
@@ -169,7 +169,7 @@ void* heap_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 			{
 				posix_memalign( &ptr, alignment, size );
 
-				if ( flags & GEN_ALLOCATOR_FLAG_CLEAR_TO_ZERO )
+				if ( flags & ALLOCATOR_FLAG_CLEAR_TO_ZERO )
 				{
 					zero_size( ptr, size );
 				}
@@ -312,7 +312,7 @@ VirtualMemory vm_trim( VirtualMemory vm, ssize lead_size, ssize size )
 	trail_size = vm.size - lead_size - size;
 
 	if ( lead_size != 0 )
-		vm_free( vm_from_memory(( vm.data, lead_size ) );
+		vm_free( vm_from_memory( vm.data, lead_size ) );
 	if ( trail_size != 0 )
 		vm_free( vm_from_memory( ptr, trail_size ) );
 	return vm_from_memory( ptr, size );
-- 
2.43.0


From 7123b7d82283832e872c597db279be28f51b53a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 02/41] fix: c_str_compare_len orders by the differing
 characters, not by the addresses of the strings

---
 base/dependencies/string_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/string_ops.hpp b/base/dependencies/string_ops.hpp
index 78fa555..dfb6fb4 100644
--- a/base/dependencies/string_ops.hpp
+++ b/base/dependencies/string_ops.hpp
@@ -137,7 +137,7 @@ s32 c_str_compare_len( const char* s1, const char* s2, ssize len )
 	for ( ; len > 0; s1++, s2++, len-- )
 	{
 		if ( *s1 != *s2 )
-			return ( ( s1 < s2 ) ? -1 : +1 );
+			return ( ( *( u8* )s1 < *( u8* )s2 ) ? -1 : +1 );
 		else if ( *s1 == '\0' )
 			return 0;
 	}
-- 
2.43.0


From dbe387eafa0b327ec0d1821bdf11834176c3b87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 03/41] fix: i64_to_str no longer overflows when negating the
 most negative value

---
 base/dependencies/string_ops.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/base/dependencies/string_ops.cpp b/base/dependencies/string_ops.cpp
index 47f11f1..be1438c 100644
--- a/base/dependencies/string_ops.cpp
+++ b/base/dependencies/string_ops.cpp
@@ -81,10 +81,12 @@ void i64_to_str( s64 value, char* string, s32 base )
 	if ( value < 0 )
 	{
 		negative = true;
-		value    = -value;
+		v        = 0 - scast( u64, value);
+	}
+	else
+	{
+		v = scast( u64, value);
 	}
-
-	v = scast( u64, value);
 	if ( v != 0 )
 	{
 		while ( v > 0 )
-- 
2.43.0


From 492b74ffbd8b64c8ce23db96c214e99d67d3bfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:42 +0000
Subject: [PATCH 04/41] fix: string builder allocation size no longer truncated
 to 32 bits

---
 base/dependencies/strings.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/dependencies/strings.cpp b/base/dependencies/strings.cpp
index 5bd3a47..56982a6 100644
--- a/base/dependencies/strings.cpp
+++ b/base/dependencies/strings.cpp
@@ -9,7 +9,7 @@ StrBuilder strbuilder_make_length( AllocatorInfo allocator, char const* str, ssi
 {
 	ssize const header_size = sizeof( StrBuilderHeader );
 
-	s32   alloc_size = header_size + length + 1;
+	ssize alloc_size = header_size + length + 1;
 	void* allocation = alloc( allocator, alloc_size );
 
 	if ( allocation == nullptr ) {
@@ -39,7 +39,7 @@ StrBuilder strbuilder_make_reserve( AllocatorInfo allocator, ssize capacity )
 {
 	ssize const header_size = sizeof( StrBuilderHeader );
 
-	s32   alloc_size = header_size + capacity + 1;
+	ssize alloc_size = header_size + capacity + 1;
 	void* allocation = alloc( allocator, alloc_size );
 
 	if ( allocation == nullptr ) {
-- 
2.43.0


From 098fda417b3bfdc558f2d584b9965a165739d3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:42 +0000
Subject: [PATCH 05/41] fix: strbuilder_clear leaves the content terminated

---
 base/dependencies/strings.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index 866e944..4c939b9 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -470,6 +470,7 @@ ssize strbuilder_capacity(StrBuilder const str) {
 forceinline
 void strbuilder_clear(StrBuilder str) {
 	strbuilder_get_header(str)->Length = 0;
+	str[0] = '\0';
 }
 
 forceinline
-- 
2.43.0


From 3c0ee179dfa0a8b8893e10aef0cd54801d0cc21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:42 +0000
Subject: [PATCH 06/41] fix: strbuilder_starts_with_string compares the whole
 prefix

---
 base/dependencies/strings.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index 4c939b9..024778c 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -514,7 +514,7 @@ b32 strbuilder_starts_with_string(StrBuilder const str, StrBuilder substring) {
 	if (strbuilder_length(substring) > strbuilder_length(str))
 		return false;
 
-	b32 result = c_str_compare_len(str, substring, strbuilder_length(substring) - 1) == 0;
+	b32 result = c_str_compare_len(str, substring, strbuilder_length(substring)) == 0;
 	return result;
 }
 
-- 
2.43.0


From bca2a00d389348dffcbd7914b48b9f55df5df2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:50 +0000
Subject: [PATCH 07/41] fix: arena accounts for the padding in front of an
 aligned block

---
 base/dependencies/memory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index b501818..ea06342 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -348,7 +348,8 @@ void* arena_allocator_proc( void* allocator_data, AllocType type, ssize size, ss
 		case EAllocation_ALLOC :
 		{
 			void* end        = pointer_add( arena->PhysicalStart, arena->TotalUsed );
-			ssize total_size = align_forward_s64( size, alignment );
+			// Includes the padding in front of the block, the end of the used space may not have the requested alignment.
+			ssize total_size = align_forward_s64( size, alignment ) + pointer_diff( end, align_forward( end, alignment ) );
 
 			// NOTE: Out of memory
 			if ( arena->TotalUsed + total_size > (ssize) arena->TotalSize )
-- 
2.43.0


From f597debe301ccb8e80f3c0fbe28b4a42e21eb1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:50 +0000
Subject: [PATCH 08/41] fix: resizing an arena block allocates from the arena,
 not from its backing allocator

---
 base/dependencies/memory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index ea06342..e94728a 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -379,7 +379,7 @@ void* arena_allocator_proc( void* allocator_data, AllocType type, ssize size, ss
 		case EAllocation_RESIZE :
 			{
 				// TODO : Check if ptr is on top of stack and just extend
-				AllocatorInfo a = arena->Backing;
+				AllocatorInfo a = arena_allocator_info( arena );
 				ptr             = default_resize_align( a, old_memory, old_size, size, alignment );
 			}
 			break;
-- 
2.43.0


From a420a41308eec13c79362d6c429273de96fb8ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:50 +0000
Subject: [PATCH 09/41] fix: FixedArena helpers call the functions they wrap

---
 base/dependencies/memory.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/base/dependencies/memory.hpp b/base/dependencies/memory.hpp
index eaad19d..c50c406 100644
--- a/base/dependencies/memory.hpp
+++ b/base/dependencies/memory.hpp
@@ -315,14 +315,14 @@ ssize arena_size_remaining(Arena* arena, ssize alignment)
 template<s32 Size>
 struct FixedArena;
 
-template<s32 Size> FixedArena<Size> fixed_arena_init();
+template<s32 Size> void             fixed_arena_init(FixedArena<Size>* result);
 template<s32 Size> AllocatorInfo    fixed_arena_allocator_info(FixedArena<Size>* fixed_arena );
 template<s32 Size> ssize            fixed_arena_size_remaining(FixedArena<Size>* fixed_arena, ssize alignment);
 template<s32 Size> void             fixed_arena_free(FixedArena<Size>* fixed_arena);
 
 #if GEN_COMPILER_CPP && ! GEN_C_LIKE_CPP
-template<s32 Size> AllocatorInfo    allocator_info( FixedArena<Size>& fixed_arena )                { return allocator_info(& fixed_arena); }
-template<s32 Size> ssize            size_remaining(FixedArena<Size>& fixed_arena, ssize alignment) { return size_remaining( & fixed_arena, alignment); }
+template<s32 Size> AllocatorInfo    allocator_info( FixedArena<Size>& fixed_arena )                { return fixed_arena_allocator_info(& fixed_arena); }
+template<s32 Size> ssize            size_remaining(FixedArena<Size>& fixed_arena, ssize alignment) { return fixed_arena_size_remaining( & fixed_arena, alignment); }
 #endif
 
 // Just a wrapper around using an arena with memory associated with its scope instead of from an allocator.
@@ -337,8 +337,8 @@ struct FixedArena
 #pragma region Member Mapping
 	forceinline operator AllocatorInfo() { return fixed_arena_allocator_info(this); }
 
-	forceinline static FixedArena init()                          { FixedArena result; fixed_arena_init<Size>(result); return result; }
-	forceinline ssize             size_remaining(ssize alignment) { fixed_arena_size_remaining(this, alignment); }
+	forceinline static FixedArena init()                          { FixedArena result; fixed_arena_init<Size>(& result); return result; }
+	forceinline ssize             size_remaining(ssize alignment) { return fixed_arena_size_remaining(this, alignment); }
 #pragma endregion Member Mapping
 #endif
 };
@@ -362,7 +362,7 @@ void fixed_arena_free(FixedArena<Size>* fixed_arena) {
 
 template<s32 Size> inline
 ssize fixed_arena_size_remaining(FixedArena<Size>* fixed_arena, ssize alignment) {
-    return size_remaining(fixed_arena->arena, alignment);
+    return arena_size_remaining(& fixed_arena->arena, alignment);
 }
 
 using FixedArena_1KB   = FixedArena< kilobytes( 1 ) >;
-- 
2.43.0


From 8a5170b1737e6bbcf0230391dab4cb32210f2b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:50 +0000
Subject: [PATCH 10/41] fix: pool_clear resets the amount of memory in use

---
 base/dependencies/memory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index e94728a..46abbb9 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -505,6 +505,7 @@ void pool_clear(Pool* pool)
 	uptr* end;
 
 	actual_block_size = pool->BlockSize + pool->BlockAlign;
+	pool->TotalSize   = 0;
 
 	curr = pool->PhysicalStart;
 	for ( block_index = 0; block_index < pool->NumBlocks - 1; block_index++ )
-- 
2.43.0


From ba4713361253d4c77776b2a5b1a52fcc7a8bb5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:45 +0000
Subject: [PATCH 11/41] fix: every pool block has the requested alignment, not
 just the first

---
 base/dependencies/memory.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index 46abbb9..9012972 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -433,7 +433,7 @@ void* pool_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 				void* curr;
 				uptr* end;
 
-				actual_block_size = pool->BlockSize + pool->BlockAlign;
+				actual_block_size = align_forward_s64( pool->BlockSize, pool->BlockAlign ) + pool->BlockAlign;
 				pool->TotalSize   = 0;
 
 				// NOTE: Init intrusive freelist
@@ -475,7 +475,7 @@ Pool pool_init_align( AllocatorInfo backing, ssize num_blocks, ssize block_size,
 	pool.BlockAlign  = block_align;
 	pool.NumBlocks   = num_blocks;
 
-	actual_block_size = block_size + block_align;
+	actual_block_size = align_forward_s64( block_size, block_align ) + block_align;
 	pool_size         = num_blocks * actual_block_size;
 
 	data = alloc_align( backing, pool_size, block_align );
@@ -504,7 +504,7 @@ void pool_clear(Pool* pool)
 	void* curr;
 	uptr* end;
 
-	actual_block_size = pool->BlockSize + pool->BlockAlign;
+	actual_block_size = align_forward_s64( pool->BlockSize, pool->BlockAlign ) + pool->BlockAlign;
 	pool->TotalSize   = 0;
 
 	curr = pool->PhysicalStart;
-- 
2.43.0


From 858034491f0382ed7b75b2e5b4d9e15ccf00cb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:15 +0000
Subject: [PATCH 12/41] fix: reading the most negative integer no longer
 overflows

---
 base/dependencies/string_ops.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/dependencies/string_ops.cpp b/base/dependencies/string_ops.cpp
index be1438c..2c1c3ee 100644
--- a/base/dependencies/string_ops.cpp
+++ b/base/dependencies/string_ops.cpp
@@ -9,7 +9,7 @@ internal
 ssize _scan_zpl_i64( const char* text, s32 base, s64* value )
 {
 	const char* text_begin = text;
-	s64         result     = 0;
+	u64         result     = 0;
 	b32         negative   = false;
 
 	if ( *text == '-' )
@@ -39,8 +39,8 @@ ssize _scan_zpl_i64( const char* text, s32 base, s64* value )
 	if ( value )
 	{
 		if ( negative )
-			result = -result;
-		*value = result;
+			result = 0 - result;
+		*value = scast( s64, result);
 	}
 
 	return ( text - text_begin );
-- 
2.43.0


From 72ef231f828325dd074087304af22cc7c4bbfb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:02 +0000
Subject: [PATCH 13/41] fix: array_append_items writes behind the elements, not
 behind the array variable

---
 base/dependencies/containers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index 6418ce5..8032f5a 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -189,7 +189,7 @@ bool array_append_items(Array<Type>* array, Type* items, usize item_num)
 		header = array_get_header(* array);
 	}
 
-	mem_copy((Type*)array + header->Num, items, item_num * sizeof(Type));
+	mem_copy((Type*)(*array) + header->Num, items, item_num * sizeof(Type));
 	header->Num += item_num;
 
 	return true;
-- 
2.43.0


From 93525acfbdeb48af1e797a725c921d157b500217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:02 +0000
Subject: [PATCH 14/41] fix: array_append_at stores the item, at the requested
 position

---
 base/dependencies/containers.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index 8032f5a..01dac97 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -202,12 +202,9 @@ bool array_append_at(Array<Type>* array, Type item, usize idx)
 	GEN_ASSERT(* array != nullptr);
 	ArrayHeader* header = array_get_header(* array);
 
-	ssize slot = idx;
-	if (slot >= (ssize)(header->Num))
-		slot = header->Num - 1;
-
-	if (slot < 0)
-		slot = 0;
+	usize slot = idx;
+	if (slot > header->Num)
+		slot = header->Num;
 
 	if (header->Capacity < header->Num + 1)
 	{
@@ -220,6 +217,7 @@ bool array_append_at(Array<Type>* array, Type item, usize idx)
 	Type* target = &(*array)[slot];
 
 	mem_move(target + 1, target, (header->Num - slot) * sizeof(Type));
+	* target = item;
 	header->Num++;
 
 	return true;
-- 
2.43.0


From 77054c0dd6bf8d5476a4e0ef9ec88ecb53c82d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:02 +0000
Subject: [PATCH 15/41] fix: array_append_items_at and array_reserve compile,
 and inserting grows a full array

---
 base/dependencies/containers.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index 01dac97..45229b1 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -228,23 +228,23 @@ bool array_append_items_at(Array<Type>* array, Type* items, usize item_num, usiz
 {
 	GEN_ASSERT(  array != nullptr);
 	GEN_ASSERT(* array != nullptr);
-	ArrayHeader* header = get_header(array);
+	ArrayHeader* header = array_get_header(* array);
 
 	if (idx >= header->Num)
 	{
 		return array_append_items(array, items, item_num);
 	}
 
-	if (item_num > header->Capacity)
+	if (header->Num + item_num > header->Capacity)
 	{
-		if (! grow(array, header->Capacity + item_num))
+		if (! array_grow(array, header->Capacity + item_num))
 			return false;
 
-		header = get_header(array);
+		header = array_get_header(* array);
 	}
 
-	Type* target = array.Data + idx + item_num;
-	Type* src    = array.Data + idx;
+	Type* target = (Type*)(*array) + idx + item_num;
+	Type* src    = (Type*)(*array) + idx;
 
 	mem_move(target, src, (header->Num - idx) * sizeof(Type));
 	mem_copy(src, items, item_num * sizeof(Type));
@@ -353,10 +353,10 @@ bool array_reserve(Array<Type>* array, usize new_capacity)
 {
 	GEN_ASSERT(  array != nullptr);
 	GEN_ASSERT(* array != nullptr);
-	ArrayHeader* header = array_get_header(array);
+	ArrayHeader* header = array_get_header(* array);
 
 	if (header->Capacity < new_capacity)
-		return set_capacity(array, new_capacity);
+		return array_set_capacity(array, new_capacity);
 
 	return true;
 }
-- 
2.43.0


From 9d3f2428a3dc153701963b8fa1d5ab714e851a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:02 +0000
Subject: [PATCH 16/41] fix: hashtable remove, rehash_fast, map and slot
 compile, and removing an entry by index keeps the chains intact

---
 base/dependencies/containers.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index 45229b1..79613e8 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -575,7 +575,7 @@ void hashtable_map(HashTable<Type> table, void (*map_proc)(u64 key, Type value))
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	GEN_ASSERT_NOT_NULL(map_proc);
 
-	for (ssize idx = 0; idx < ssize(num(table.Entries)); ++idx) {
+	for (ssize idx = 0; idx < ssize(array_num(table.Entries)); ++idx) {
 		map_proc(table.Entries[idx].Key, table.Entries[idx].Value);
 	}
 }
@@ -586,7 +586,7 @@ void hashtable_map_mut(HashTable<Type> table, void (*map_proc)(u64 key, Type* va
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	GEN_ASSERT_NOT_NULL(map_proc);
 
-	for (ssize idx = 0; idx < ssize(num(table.Entries)); ++idx) {
+	for (ssize idx = 0; idx < ssize(array_num(table.Entries)); ++idx) {
 		map_proc(table.Entries[idx].Key, & table.Entries[idx].Value);
 	}
 }
@@ -637,19 +637,19 @@ void hashtable_rehash_fast(HashTable<Type> table)
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	ssize idx;
 
-	for (idx = 0; idx < ssize(num(table.Entries)); idx++)
+	for (idx = 0; idx < ssize(array_num(table.Entries)); idx++)
 		table.Entries[idx].Next = -1;
 
-	for (idx = 0; idx < ssize(num(table.Hashes)); idx++)
+	for (idx = 0; idx < ssize(array_num(table.Hashes)); idx++)
 		table.Hashes[idx] = -1;
 
-	for (idx = 0; idx < ssize(num(table.Entries)); idx++)
+	for (idx = 0; idx < ssize(array_num(table.Entries)); idx++)
 	{
 		HashTableEntry<Type>* entry;
 		HashTableFindResult find_result;
 
 		entry = &table.Entries[idx];
-		find_result = find(table, entry->Key);
+		find_result = hashtable__find(table, entry->Key);
 
 		if (find_result.PrevIndex < 0)
 			table.Hashes[find_result.HashIndex] = idx;
@@ -662,11 +662,11 @@ template<typename Type> forceinline
 void hashtable_remove(HashTable<Type> table, u64 key) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	HashTableFindResult find_result = find(table, key);
+	HashTableFindResult find_result = hashtable__find(table, key);
 
 	if (find_result.EntryIndex >= 0) {
-		remove_at(table.Entries, find_result.EntryIndex);
-		rehash_fast(table);
+		array_remove_at(table.Entries, find_result.EntryIndex);
+		hashtable_rehash_fast(table);
 	}
 }
 
@@ -674,7 +674,8 @@ template<typename Type> forceinline
 void hashtable_remove_entry(HashTable<Type> table, ssize idx) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	remove_at(table.Entries, idx);
+	array_remove_at(table.Entries, idx);
+	hashtable_rehash_fast(table);
 }
 
 template<typename Type> inline
@@ -715,7 +716,7 @@ template<typename Type> forceinline
 ssize hashtable_slot(HashTable<Type> table, u64 key) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	for (ssize idx = 0; idx < ssize(num(table.Hashes)); ++idx)
+	for (ssize idx = 0; idx < ssize(array_num(table.Hashes)); ++idx)
 		if (table.Hashes[idx] == key)
 			return idx;
 
-- 
2.43.0


From 361c10667a207aaa403762f84716f4fdc6c8baad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:40 +0000
Subject: [PATCH 17/41] fix: appending to an array of capacity 0 grows it

---
 base/dependencies/containers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index 79613e8..e439a60 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -162,7 +162,7 @@ bool array_append(Array<Type>* array, Type value)
 
 	if (header->Num == header->Capacity)
 	{
-		if ( ! array_grow(array, header->Capacity))
+		if ( ! array_grow(array, header->Capacity + 1))
 			return false;
 		header = array_get_header(* array);
 	}
-- 
2.43.0


From cd933556bc177fea5ba2ac1a9020173c8423a60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:11 +0000
Subject: [PATCH 18/41] fix: appending a node that already has a parent does
 not link its copy to the siblings of the original

---
 base/components/inlines.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 5bf6bf5..04454fd 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -322,7 +322,12 @@ void code_append( Code self, Code other )
 	GEN_ASSERT_MSG(self != other, "Attempted to recursively append Code AST to itself.");
 
 	if ( other->Parent != nullptr )
-		other = code_duplicate(other);
+	{
+		// The copy must not keep the links the original has in its own list.
+		other       = code_duplicate(other);
+		other->Prev = NullCode;
+		other->Next = NullCode;
+	}
 
 	other->Parent = self;
 
-- 
2.43.0


From 4b662d25fb34c65ca431ac03cc71ff13adfb8f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:11 +0000
Subject: [PATCH 19/41] fix: iterating an empty body does not dereference null

---
 base/components/inlines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 04454fd..7a76ff8 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -459,7 +459,7 @@ Code begin_CodeBody( CodeBody body) {
 forceinline
 Code end_CodeBody(CodeBody body ){
 	GEN_ASSERT(body);
-	return body->Back->Next;
+	return body->Back != nullptr ? body->Back->Next : NullCode;
 }
 inline
 Code next_CodeBody(CodeBody body, Code entry) {
-- 
2.43.0


From 202d0ad392dcb736147e1d7be2b867de188a0e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:11 +0000
Subject: [PATCH 20/41] fix: appending a parameter that already has a parent
 does not link its copy to the siblings of the original

---
 base/components/inlines.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 7a76ff8..b1f24c1 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -504,7 +504,12 @@ void params_append( CodeParams appendee, CodeParams other )
 	Code entry = cast(Code, other);
 
 	if ( entry->Parent != nullptr )
-		entry = code_duplicate( entry );
+	{
+		// The copy must not keep the links the original has in its own list.
+		entry       = code_duplicate( entry );
+		entry->Last = NullCode;
+		entry->Next = NullCode;
+	}
 
 	entry->Parent = self;
 
-- 
2.43.0


From 41a980d3ac82e4e87e80c3debe7166c65ccb1214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:11 +0000
Subject: [PATCH 21/41] fix: params_get returns the parameter at the index
 instead of null or a null dereference

---
 base/components/inlines.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index b1f24c1..028de0d 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -529,16 +529,15 @@ inline
 CodeParams params_get(CodeParams self, s32 idx )
 {
 	GEN_ASSERT(self);
+	if ( idx < 0 )
+		return NullCode;
+
 	CodeParams param = self;
-	do
+	while ( idx > 0 && param != nullptr )
 	{
-		if ( ++ param != nullptr )
-			return NullCode;
-
 		param = cast(CodeParams, cast(Code, param)->Next);
+		-- idx;
 	}
-	while ( --idx );
-
 	return param;
 }
 forceinline
-- 
2.43.0


From 038ba1a23f35a3f4892acd95a6881e84506b230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:11 +0000
Subject: [PATCH 22/41] fix: specifiers_remove works on a full list and removes
 every occurrence

---
 base/components/inlines.hpp | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 028de0d..c594bb9 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -639,12 +639,7 @@ s32 specifiers_remove( CodeSpecifiers self, Specifier to_remove )
 {
 	if ( self == nullptr )
 	{
-		log_failure("CodeSpecifiers: Attempted to append to a null specifiers AST!");
-		return -1;
-	}
-	if ( self->NumEntries == AST_ArrSpecs_Cap )
-	{
-		log_failure("CodeSpecifiers: Attempted to append over %d specifiers to a specifiers AST!", AST_ArrSpecs_Cap );
+		log_failure("CodeSpecifiers: Attempted to remove from a null specifiers AST!");
 		return -1;
 	}
 
@@ -652,26 +647,20 @@ s32 specifiers_remove( CodeSpecifiers self, Specifier to_remove )
 
 	s32 curr = 0;
 	s32 next = 0;
-	for(; next < self->NumEntries; ++ curr, ++ next)
+	for(; next < self->NumEntries; ++ next)
 	{
 		Specifier spec = self->ArrSpecs[next];
 		if (spec == to_remove)
 		{
 			result = next;
-
-			next ++;
-			if (next >= self->NumEntries)
-				break;
-
-			spec = self->ArrSpecs[next];
+			continue;
 		}
 
 		self->ArrSpecs[ curr ] = spec;
+		++ curr;
 	}
 
-	if (result > -1) {
-		self->NumEntries --;
-	}
+	self->NumEntries = curr;
 	return result;
 }
 forceinline
-- 
2.43.0


From 98ae381538e39c556aa00b1bca8a1718a4a4f872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:19 +0000
Subject: [PATCH 23/41] fix: interning a text whose hash collides with that of
 another text does not return the other text

---
 base/components/interface.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index b3eaf45..e00e521 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -440,10 +440,15 @@ StrCached cache_str( Str str )
 		Str result = strbuilder_to_str( strbuilder_make_str( get_cached_str_allocator( str.Len ), str ));
 		return result;
 	}
-	u64 key = crc32( str.Ptr, str.Len ); {
-		StrCached* result = hashtable_get( _ctx->StrCache, key );
-		if ( result )
-			return * result;
+	u64        key    = crc32( str.Ptr, str.Len );
+	StrCached* cached = hashtable_get( _ctx->StrCache, key );
+	while ( cached )
+	{
+		if ( str_are_equal( * cached, str ) )
+			return * cached;
+		// A different text with the same hash: try the next key.
+		++ key;
+		cached = hashtable_get( _ctx->StrCache, key );
 	}
 	Str result = strbuilder_to_str( strbuilder_make_str( get_cached_str_allocator( str.Len ), str ));
 	hashtable_set( _ctx->StrCache, key, result );
-- 
2.43.0


From a958ffe30e0d420cca9a1f7b1f7522e6a89bfd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:19 +0000
Subject: [PATCH 24/41] fix: macros whose names have the same hash do not
 replace each other

---
 base/components/interface.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index e00e521..57629de 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -476,15 +476,29 @@ Code make_code()
 	return result;
 }
 
+// The key a macro of this name is or will be registered at, names with the same hash take successive keys.
+internal
+u64 macro_key( Str name )
+{
+	u64    key   = crc32( name.Ptr, name.Len );
+	Macro* macro = hashtable_get( _ctx->Macros, key );
+	while ( macro && ! str_are_equal( macro->Name, name ) )
+	{
+		++ key;
+		macro = hashtable_get( _ctx->Macros, key );
+	}
+	return key;
+}
+
 Macro* lookup_macro( Str name ) {
-	u32 key = crc32( name.Ptr, name.Len );
+	u64 key = macro_key( name );
 	return hashtable_get( _ctx->Macros, key );
 }
 
 void register_macro( Macro macro ) {
 	GEN_ASSERT_NOT_NULL(macro.Name.Ptr);
 	GEN_ASSERT(macro.Name.Len > 0);
-	u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
+	u64 key = macro_key( macro.Name );
 	macro.Name = cache_str(macro.Name);
 	hashtable_set( _ctx->Macros, key, macro );
 }
@@ -501,7 +515,7 @@ void register_macros( s32 num, ... )
 		GEN_ASSERT(macro.Name.Len > 0);
 		macro.Name = cache_str(macro.Name);
 
-		u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
+		u64 key = macro_key( macro.Name );
 		hashtable_set( _ctx->Macros, key, macro );
 	}
 	while (num--, num > 0);
@@ -518,7 +532,7 @@ void register_macros_arr( s32 num,  Macro* macros )
 		GEN_ASSERT(macro.Name.Len > 0);
 		macro.Name = cache_str(macro.Name);
 
-		u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
+		u64 key = macro_key( macro.Name );
 		hashtable_set( _ctx->Macros, key, macro );
 		++ macros;
 	}
-- 
2.43.0


From d6e73510e73444cfb3b1b8b4fedfbe53fbdfdc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:18 +0000
Subject: [PATCH 25/41] fix: def_params_arr keeps the whole first parameter,
 counts it and does not read past the array

---
 base/components/interface.upfront.cpp | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 94af5f7..16c75cf 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1447,14 +1447,12 @@ CodeDefineParams def_define_params_arr( s32 num, CodeDefineParams* codes )
 		log_failure("gen::def_define_params: Code in coes array is not of paramter for preprocessor define type - %s", code_debug_str(current) ); \
 		return InvalidCode;                                                                                                                       \
 	}
-	CodeDefineParams current = (CodeDefineParams)code_duplicate(* codes);
+	CodeDefineParams current = * codes;
 	check_current(current);
 
-	CodeDefineParams
-	result            = (CodeDefineParams) make_code();
-	result->Name      = current->Name;
-	result->Type      = current->Type;
-	while( codes++, current = * codes, num--, num > 0 ) {
+	CodeDefineParams result = (CodeDefineParams) code_duplicate(current);
+	while( codes++, num--, num > 0 ) {
+		current = * codes;
 		check_current(current);
 		define_params_append(result, current );
 	}
@@ -1904,15 +1902,12 @@ CodeParams def_params_arr( s32 num, CodeParams* codes )
 		log_failure("gen::def_params: Code in coes array is not of paramter type - %s", code_debug_str(current) );     \
 		return InvalidCode;                                                                                            \
 	}
-	CodeParams current = (CodeParams)code_duplicate(* codes);
+	CodeParams current = * codes;
 	check_current(current);
 
-	CodeParams
-	result            = (CodeParams) make_code();
-	result->Name      = current->Name;
-	result->Type      = current->Type;
-	result->ValueType = current->ValueType;
-	while( codes++, current = * codes, num--, num > 0 ) {
+	CodeParams result = (CodeParams) code_duplicate(current);
+	while( codes++, num--, num > 0 ) {
+		current = * codes;
 		check_current(current);
 		params_append(result, current );
 	}
-- 
2.43.0


From 5d5ce9925065b584259028c03017852f83aa6f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:13 +0000
Subject: [PATCH 26/41] fix: access_spec_to_str spells protected as protected

---
 base/components/types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/types.hpp b/base/components/types.hpp
index 18762ea..f82bc09 100644
--- a/base/components/types.hpp
+++ b/base/components/types.hpp
@@ -50,7 +50,7 @@ Str access_spec_to_str( AccessSpec type )
 	Str lookup[ (u32)AccessSpec_Num_AccessSpec ] = {
 		{ "",        sizeof( "" )        - 1 },
 		{ "private", sizeof("prviate")   - 1 },
-		{ "private", sizeof("protected") - 1 },
+		{ "protected", sizeof("protected") - 1 },
 		{ "public",  sizeof("public")    - 1 },
 	};
 
-- 
2.43.0


From 3f39392409c5eb852c15702d70de6e5bfac6e710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:14 +0000
Subject: [PATCH 27/41] fix: macrotype_to_str follows the order of the
 enumeration and invalid spellings do not count their terminator

---
 base/components/parser_types.hpp | 4 ++--
 base/components/types.hpp        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/components/parser_types.hpp b/base/components/parser_types.hpp
index 2393945..6c93d65 100644
--- a/base/components/parser_types.hpp
+++ b/base/components/parser_types.hpp
@@ -151,15 +151,15 @@ Str macrotype_to_str( MacroType type )
 {
 	local_persist
 	Str lookup[] = {
-		{ "Statement",        sizeof("Statement")        - 1 },
 		{ "Expression",       sizeof("Expression")       - 1 },
+		{ "Statement",        sizeof("Statement")        - 1 },
 		{ "Typename",         sizeof("Typename")         - 1 },
 		{ "Block_Start",      sizeof("Block_Start")      - 1 },
 		{ "Block_End",        sizeof("Block_End")        - 1 },
 		{ "Case_Statement",   sizeof("Case_Statement")   - 1 },
 	};
 	local_persist
-	Str invalid = { "Invalid", sizeof("Invalid") };
+	Str invalid = { "Invalid", sizeof("Invalid") - 1 };
 	if ( type > MT_Case_Statement )
 		return invalid;
 
diff --git a/base/components/types.hpp b/base/components/types.hpp
index f82bc09..77cf9cf 100644
--- a/base/components/types.hpp
+++ b/base/components/types.hpp
@@ -107,7 +107,7 @@ Str module_flag_to_str( ModuleFlag flag )
 	};
 
 	local_persist
-	Str invalid_flag = { "invalid", sizeof("invalid") };
+	Str invalid_flag = { "invalid", sizeof("invalid") - 1 };
 	if ( flag > ModuleFlag_Import )
 		return invalid_flag;
 
-- 
2.43.0


From 0a1aeba17ef411b3191d46f290c6647964b9076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:14 +0000
Subject: [PATCH 28/41] fix: keyword of the class forward declaration kind

---
 base/components/gen/ecodetypes.hpp | 2 +-
 base/enums/ECodeTypes.csv          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/gen/ecodetypes.hpp b/base/components/gen/ecodetypes.hpp
index 139e615..7d2b088 100644
--- a/base/components/gen/ecodetypes.hpp
+++ b/base/components/gen/ecodetypes.hpp
@@ -154,7 +154,7 @@ inline Str codetype_to_keyword_str(CodeType type)
 		{ "public",          sizeof("public") - 1          },
 		{ "__NA__",          sizeof("__NA__") - 1          },
 		{ "class",           sizeof("class") - 1           },
-		{ "clsss",           sizeof("clsss") - 1           },
+		{ "class",           sizeof("class") - 1           },
 		{ "__NA__",          sizeof("__NA__") - 1          },
 		{ "__NA__",          sizeof("__NA__") - 1          },
 		{ "__NA__",          sizeof("__NA__") - 1          },
diff --git a/base/enums/ECodeTypes.csv b/base/enums/ECodeTypes.csv
index d1ca2d6..e3f31aa 100644
--- a/base/enums/ECodeTypes.csv
+++ b/base/enums/ECodeTypes.csv
@@ -7,7 +7,7 @@ Access_Protected,    "protected"
 Access_Public,       "public"
 PlatformAttributes,  "__NA__"
 Class,               "class"
-Class_Fwd,           "clsss"
+Class_Fwd,           "class"
 Class_Body,          "__NA__"
 Constructor,         "__NA__"
 Constructor_Fwd,     "__NA__"
-- 
2.43.0


From be08b3b31f1af198fa80abff2da3d255491d275e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:14 +0000
Subject: [PATCH 29/41] fix: a text whose hash equals that of a specifier or
 token is not taken for it

---
 base/components/gen/especifier.hpp | 2 +-
 base/components/gen/etoktype.hpp   | 2 +-
 base/helpers/base_codegen.hpp      | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/components/gen/especifier.hpp b/base/components/gen/especifier.hpp
index e03e9d4..ae2da23 100644
--- a/base/components/gen/especifier.hpp
+++ b/base/components/gen/especifier.hpp
@@ -102,7 +102,7 @@ inline Specifier str_to_specifier(Str str)
 	do_once_end u32 hash = crc32(str.Ptr, str.Len);
 	for (u32 index = 0; index < Spec_NumSpecifiers; index++)
 	{
-		if (keymap[index] == hash)
+		if (keymap[index] == hash && str_are_equal(spec_to_str((Specifier)index), str))
 			return (Specifier)index;
 	}
 	return Spec_Invalid;
diff --git a/base/components/gen/etoktype.hpp b/base/components/gen/etoktype.hpp
index 1b2c17c..0abb7e3 100644
--- a/base/components/gen/etoktype.hpp
+++ b/base/components/gen/etoktype.hpp
@@ -230,7 +230,7 @@ inline TokType str_to_toktype(Str str)
 	do_once_end u32 hash = crc32(str.Ptr, str.Len);
 	for (u32 index = 0; index < Tok_NumTokens; index++)
 	{
-		if (keymap[index] == hash)
+		if (keymap[index] == hash && str_are_equal(toktype_to_str((TokType)index), str))
 			return (TokType)index;
 	}
 	return Tok_Invalid;
diff --git a/base/helpers/base_codegen.hpp b/base/helpers/base_codegen.hpp
index 533acfc..93517c7 100644
--- a/base/helpers/base_codegen.hpp
+++ b/base/helpers/base_codegen.hpp
@@ -278,7 +278,7 @@ CodeBody gen_especifier( char const* path, bool use_c_definition = false )
 
 			for ( u32 index = 0; index < Spec_NumSpecifiers; index++ )
 			{
-				if ( keymap[index] == hash )
+				if ( keymap[index] == hash && str_are_equal( spec_to_str( (Specifier)index ), str ) )
 					return (Specifier)index;
 			}
 
@@ -435,7 +435,7 @@ CodeBody gen_etoktype( char const* etok_path, char const* attr_path, bool use_c_
 
 			for ( u32 index = 0; index < Tok_NumTokens; index++ )
 			{
-				if ( keymap[index] == hash )
+				if ( keymap[index] == hash && str_are_equal( toktype_to_str( (TokType)index ), str ) )
 					return (TokType)index;
 			}
 
-- 
2.43.0


From 3ec222d21b2c55ff34b5c0230ee7084fae86e094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:58 +0000
Subject: [PATCH 30/41] fix: unary plus and minus accept a parameter of the
 return type instead of any other

---
 base/components/interface.upfront.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 16c75cf..52e9958 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -51,6 +51,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 	if ( ! ret_type )
 	{
 		log_failure("gen::def_operator: ret_type is null but is required by operator %S", operator_to_str(op));
+		return OpValResult_Fail;
 	}
 
 	if ( ret_type->Type != CT_Typename )
@@ -172,12 +173,13 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 					return OpValResult_Fail;
 				}
 
-				if ( code_is_equal((Code)params_code->ValueType, (Code)ret_type ) )
+				if ( ! code_is_equal((Code)params_code->ValueType, (Code)ret_type ) )
 				{
 					log_failure("gen::def_operator: "
 						"operator %S is non-member symbol yet first paramter does not equal return type\n"
 						"param type: %S\n"
 						"return type: %S\n"
+						, operator_to_str(op)
 						, code_debug_str((Code)params_code)
 						, code_debug_str((Code)ret_type)
 					);
-- 
2.43.0


From 12a7f819d0b7e916945c1d38db31139040a5aee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:58 +0000
Subject: [PATCH 31/41] fix: increment and decrement without parameters are
 members and the free postfix forms are accepted

---
 base/components/interface.upfront.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 52e9958..2e6df36 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -116,7 +116,10 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 		case Op_Increment:
 		case Op_Decrement:
 			// If its not set, it just means its a prefix member op.
-			if ( params_code )
+			if ( ! params_code )
+				is_member_symbol = true;
+
+			else
 			{
 				if ( params_code->Type != CT_Parameters )
 				{
@@ -140,7 +143,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 					case 2:
 						check_param_eq_ret();
 
-						if ( ! code_is_equal((Code)params_get(params_code, 1), (Code)t_int ) )
+						if ( ! code_is_equal((Code)params_get(params_code, 1)->ValueType, (Code)t_int ) )
 						{
 							log_failure("gen::def_operator: "
 								"operator %S requires second parameter of non-member definition to be int for post-decrement",
-- 
2.43.0


From 269774424c9c8be30b162a94d5c52dcfb746680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:58 +0000
Subject: [PATCH 32/41] fix: operator arity and placement of indirection,
 address-of, ->, ->*, comma, subscript and call follow the language

---
 base/components/interface.upfront.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 2e6df36..df5ccac 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -245,6 +245,8 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 		case Op_BXOr:
 		case Op_LShift:
 		case Op_RShift:
+		case Op_PtrToMemOfPtr:
+		case Op_Comma:
 			check_params();
 
 			switch ( params_code->NumEntries )
@@ -339,7 +341,6 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 
 		case Op_Indirection:
 		case Op_AddressOf:
-		case Op_MemberOfPointer:
 			if ( params_code && params_code->NumEntries > 1)
 			{
 				log_failure("gen::def_operator: operator %S recieved unexpected number of paramters recived %d instead of 0-1"
@@ -348,24 +349,30 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 				);
 				return OpValResult_Fail;
 			}
-			else
-			{
-				is_member_symbol = true;
-			}
+			is_member_symbol = params_code == nullptr;
 			break;
 
-		case Op_PtrToMemOfPtr:
+		case Op_MemberOfPointer:
 			if ( params_code )
 			{
 				log_failure("gen::def_operator: operator %S expects no paramters - %S", operator_to_str(op), code_debug_str((Code)params_code));
 				return OpValResult_Fail;
 			}
+			is_member_symbol = true;
 			break;
 
+		// These may only be members.
 		case Op_Subscript:
-		case Op_FunctionCall:
-		case Op_Comma:
 			check_params();
+			is_member_symbol = true;
+			break;
+
+		case Op_FunctionCall:
+			if ( params_code )
+			{
+				check_params();
+			}
+			is_member_symbol = true;
 			break;
 
 		case Op_New:
-- 
2.43.0


From 4e5be8319ac28b6234e5b1690d3ecf27051d47d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:58 +0000
Subject: [PATCH 33/41] fix: a parsed operator * without parameters is the
 indirection operator, not ->

---
 base/components/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index b064e04..a3feff4 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2458,7 +2458,7 @@ CodeOperator parse_operator_after_ret_type(
 	// <ExportFlag> <Attributes> <Specifiers> <ReturnType> <Qualifier::...> operator <Op> ( <Parameters> )
 
 	if ( params == nullptr && op == Op_Multiply )
-		op = Op_MemberOfPointer;
+		op = Op_Indirection;
 
 	while ( left && tok_is_specifier(currtok) )
 	{
-- 
2.43.0


From 80aafcb8d3e5484946aa9f165ca0a0b188073b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:24 +0000
Subject: [PATCH 34/41] fix: describing a node in a diagnostic does not
 dereference missing list links

---
 base/components/ast.cpp | 50 ++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index d8042b5..edb1c27 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -29,7 +29,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 		break;
 
 		case CT_Untyped:
@@ -46,7 +46,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tContent: %S", self->Content );
 		break;
@@ -61,7 +61,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -75,7 +75,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -87,7 +87,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                                       : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) )           : txt("Null") );
@@ -100,7 +100,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                                       : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) )           : txt("Null") );
@@ -112,7 +112,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                             : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) ) : txt("Null") );
@@ -127,7 +127,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt       : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes      : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )    : txt("Null") );
@@ -140,7 +140,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt       : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes      : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )    : txt("Null") );
@@ -152,7 +152,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tBody: %S", self->Body ? code_debug_str(self->Body) : txt("Null") );
 		break;
@@ -161,7 +161,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt  : %S", self->InlineCmt   ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tDeclaration: %S", self->Declaration ? strbuilder_to_str( code_to_strbuilder(self->Declaration)) : txt("Null") );
@@ -171,7 +171,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -185,7 +185,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -198,7 +198,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 		break;
 
 		case CT_Operator:
@@ -206,7 +206,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -222,7 +222,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -236,7 +236,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs     : %S", self->Specs      ? strbuilder_to_str( code_to_strbuilder(self->Specs))     : txt("Null") );
@@ -248,7 +248,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs     : %S", self->Specs      ? strbuilder_to_str( code_to_strbuilder(self->Specs))     : txt("Null") );
@@ -257,8 +257,8 @@ Str code_debug_str(Code self)
 
 		case CT_Parameters:
 			strbuilder_append_fmt( result, "\n\tNumEntries: %d", self->NumEntries );
-			strbuilder_append_fmt( result, "\n\tLast      : %S", self->Last->Name );
-			strbuilder_append_fmt( result, "\n\tNext      : %S", self->Next->Name );
+			strbuilder_append_fmt( result, "\n\tLast      : %S", self->Last       ? self->Last->Name : txt("Null") );
+			strbuilder_append_fmt( result, "\n\tNext      : %S", self->Next       ? self->Next->Name : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tValueType : %S", self->ValueType ? strbuilder_to_str( code_to_strbuilder(self->ValueType)) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tValue     : %S", self->Value     ? strbuilder_to_str( code_to_strbuilder(self->Value))     : txt("Null") );
 		break;
@@ -289,7 +289,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tParams     : %S", self->Params      ? strbuilder_to_str( code_to_strbuilder(self->Params))      : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tDeclaration: %S", self->Declaration ? strbuilder_to_str( code_to_strbuilder(self->Declaration)) : txt("Null") );
@@ -299,7 +299,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt     : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tUnderlyingType: %S", self->UnderlyingType ? strbuilder_to_str( code_to_strbuilder(self->UnderlyingType)) : txt("Null") );
@@ -317,7 +317,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tBody      : %S", self->Body       ? code_debug_str(self->Body)                                : txt("Null") );
@@ -327,7 +327,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt     : %S", self->InlineCmt      ? self->InlineCmt->Content                                      : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes    : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )     : txt("Null") );
@@ -349,7 +349,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt    ? self->InlineCmt->Content                                    : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes   ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )   : txt("Null") );
-- 
2.43.0


From 67adb4cf84e7dfa567634bf8db782233c508cd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:44 +0000
Subject: [PATCH 35/41] fix: formatted output stays inside its buffer,
 terminates and pads by what was printed

---
 base/dependencies/printing.cpp | 117 ++++++++++++++++-----------------
 1 file changed, 56 insertions(+), 61 deletions(-)

diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index 684f0ea..225ad50 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -46,15 +46,20 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 	ssize remaining = max_len;
 	char* begin     = text;
 
-	if ( str == NULL && max_len >= 6 )
+	if ( str == NULL && info && info->precision == 0 )
+		str = "";
+
+	if ( str == NULL )
 	{
-		res += c_str_copy_nulpad( text, "(null)", 6 );
+		if ( max_len >= 6 )
+			res += c_str_copy_nulpad( text, "(null)", 6 );
 		return res;
 	}
 
 	if ( info && info->precision >= 0 )
 		// Made the design decision for this library that precision is the length of the string.
-		len = info->precision;
+		while ( len < info->precision && str[ len ] )
+			len++;
 	else
 		len = c_str_len( str );
 
@@ -65,12 +70,11 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 
 	if ( info && ( info->width == 0 || info->flags & GEN_FMT_MINUS ) )
 	{
-		if ( info->precision > 0 )
-			len = info->precision < len ? info->precision : len;
 		if ( res + len > max_len )
 			return res;
-		res  += c_str_copy_nulpad( text, str, len );
-		text += res;
+		res       += c_str_copy_nulpad( text, str, len );
+		text      += res;
+		remaining -= res;
 
 		if ( info->width > res )
 		{
@@ -98,10 +102,15 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 
 	if ( info )
 	{
-		if ( info->flags & GEN_FMT_UPPER )
-			c_str_to_upper( begin );
-		else if ( info->flags & GEN_FMT_LOWER )
-			c_str_to_lower( begin );
+		// NOTE: What was written is not terminated yet.
+		ssize idx;
+		for ( idx = 0; idx < res; idx++ )
+		{
+			if ( info->flags & GEN_FMT_UPPER )
+				begin[ idx ] = char_to_upper( begin[ idx ] );
+			else if ( info->flags & GEN_FMT_LOWER )
+				begin[ idx ] = char_to_lower( begin[ idx ] );
+		}
 	}
 
 	return res;
@@ -117,7 +126,9 @@ internal ssize _print_char( char* text, ssize max_len, _format_info* info, char
 internal ssize _print_repeated_char( char* text, ssize max_len, _format_info* info, char arg )
 {
 	ssize  res = 0;
-	s32 rem = ( info ) ? ( info->width > 0 ) ? info->width : 1 : 1;
+	ssize rem = ( info ) ? ( info->width > 0 ) ? info->width : 1 : 1;
+	if ( rem > max_len )
+		rem = max_len;
 	res     = rem;
 	while ( rem-- > 0 )
 		*text++ = arg;
@@ -150,26 +161,21 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 		u64 value;
 		if ( arg < 0 )
 		{
-			if ( remaining > 1 )
-				*text = '-', remaining--;
-			text++;
+			if ( remaining > 0 )
+				*text++ = '-', remaining--;
 			arg = -arg;
 		}
 		else if ( info->flags & GEN_FMT_MINUS )
 		{
-			if ( remaining > 1 )
-				*text = '+', remaining--;
-			text++;
+			if ( remaining > 0 )
+				*text++ = '+', remaining--;
 		}
 
 		value  = scast( u64, arg);
 		len    = _print_u64( text, remaining, NULL, value );
 		text  += len;
 
-		if ( len >= remaining )
-			remaining = min( remaining, 1 );
-		else
-			remaining -= len;
+		remaining -= len;
 		arg -= value;
 
 		if ( info->precision < 0 )
@@ -178,18 +184,14 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 		if ( ( info->flags & GEN_FMT_ALT ) || info->precision > 0 )
 		{
 			s64 mult = 10;
-			if ( remaining > 1 )
-				*text = '.', remaining--;
-			text++;
+			if ( remaining > 0 )
+				*text++ = '.', remaining--;
 			while ( info->precision-- > 0 )
 			{
 				value  = scast( u64, arg * mult );
 				len    = _print_u64( text, remaining, NULL, value );
 				text  += len;
-				if ( len >= remaining )
-					remaining = min( remaining, 1 );
-				else
-					remaining -= len;
+				remaining -= len;
 				arg  -= scast( f64, value / mult);
 				mult *= 10;
 			}
@@ -197,42 +199,29 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 	}
 	else
 	{
-		if ( remaining > 1 )
-			*text = '0', remaining--;
-		text++;
+		if ( remaining > 0 )
+			*text++ = '0', remaining--;
 		if ( info->flags & GEN_FMT_ALT )
 		{
-			if ( remaining > 1 )
-				*text = '.', remaining--;
-			text++;
+			if ( remaining > 0 )
+				*text++ = '.', remaining--;
 		}
 	}
 
 	width = info->width - ( text - text_begin );
+	if ( width > remaining )
+		width = remaining;
 	if ( width > 0 )
 	{
-		char  fill = ( info->flags & GEN_FMT_ZERO ) ? '0' : ' ';
-		char* end  = text + remaining - 1;
-		len        = ( text - text_begin );
+		char fill = ( info->flags & GEN_FMT_ZERO ) ? '0' : ' ';
 
 		for ( len = ( text - text_begin ); len--; )
-		{
-			if ( ( text_begin + len + width ) < end )
-				*( text_begin + len + width ) = *( text_begin + len );
-		}
+			*( text_begin + len + width ) = *( text_begin + len );
 
-		len   = width;
-		text += len;
-		if ( len >= remaining )
-			remaining = min( remaining, 1 );
-		else
-			remaining -= len;
+		text += width;
 
-		while ( len-- )
-		{
-			if ( text_begin + len < end )
-				text_begin[ len ] = fill;
-		}
+		for ( len = width; len--; )
+			text_begin[ len ] = fill;
 	}
 
 	return ( text - text_begin );
@@ -241,7 +230,13 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 neverinline ssize c_str_fmt_va( char* text, ssize max_len, char const* fmt, va_list va )
 {
 	char const* text_begin = text;
-	ssize          remaining  = max_len, res;
+	ssize          remaining, res;
+
+	if ( max_len <= 0 )
+		return -1;
+
+	// NOTE: There is always room for the terminator.
+	remaining = max_len - 1;
 
 	while ( *fmt )
 	{
@@ -249,8 +244,11 @@ neverinline ssize c_str_fmt_va( char* text, ssize max_len, char const* fmt, va_l
 		ssize        len  = 0;
 		info.precision    = -1;
 
-		while ( *fmt && *fmt != '%' && remaining )
-			*text++ = *fmt++;
+		while ( *fmt && *fmt != '%' && remaining > 0 )
+			*text++ = *fmt++, remaining--;
+
+		if ( *fmt == '\0' || remaining <= 0 )
+			break;
 
 		if ( *fmt == '%' )
 		{
@@ -520,11 +518,8 @@ neverinline ssize c_str_fmt_va( char* text, ssize max_len, char const* fmt, va_l
 			}
 		}
 
-		text += len;
-		if ( len >= remaining )
-			remaining = min( remaining, 1 );
-		else
-			remaining -= len;
+		text      += len;
+		remaining -= len;
 	}
 
 	*text++ = '\0';
-- 
2.43.0


From e25c5b0e699ed553fc694d9abb7a353aab85653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:35 +0000
Subject: [PATCH 36/41] fix: formatted fractions print every digit once

---
 base/dependencies/printing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index 225ad50..1802967 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -192,7 +192,7 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 				len    = _print_u64( text, remaining, NULL, value );
 				text  += len;
 				remaining -= len;
-				arg  -= scast( f64, value / mult);
+				arg  -= scast( f64, value ) / mult;
 				mult *= 10;
 			}
 		}
-- 
2.43.0


From e1fc775585ff7fc97033bff189db5e24d1cfe961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:16 +0000
Subject: [PATCH 37/41] fix: template expansion stays in its buffer, terminates
 and compares token names; untyped_fmt yields its content

---
 base/components/interface.hpp         |  2 -
 base/components/interface.untyped.cpp | 90 ++++++++++++++++-----------
 2 files changed, 52 insertions(+), 40 deletions(-)

diff --git a/base/components/interface.hpp b/base/components/interface.hpp
index 7578f1c..c3d3a9b 100644
--- a/base/components/interface.hpp
+++ b/base/components/interface.hpp
@@ -80,8 +80,6 @@ struct Context
 	u32 InitSize_Fallback_Allocator_Bucket_Size;
 	Array(Arena) Fallback_AllocatorBuckets;
 
-	StringTable token_fmt_map;
-
 	// Array(Token) LexerTokens;
 
 	Array(Pool)  CodePools;
diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index 69d74bb..f42c7ea 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -5,34 +5,25 @@
 
 ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 {
-	char const* buf_begin = buf;
-	ssize       remaining = buf_size;
+	ssize remaining = buf_size;
+	s32   left      = num_tokens - 1;
 
-	if (_ctx->token_fmt_map.Hashes == nullptr) {
-		_ctx->token_fmt_map = hashtable_init(Str, _ctx->Allocator_DyanmicContainers );
-	}
-	// Populate token pairs
-	{
-		s32 left = num_tokens - 1;
-
-		while ( left-- )
-		{
-			char const* token = va_arg( va, char const* );
-			Str         value = va_arg( va, Str );
+	// The token pairs are looked up in place, they preceed the format
+	va_list tokens;
+	va_copy( tokens, va );
 
-			u32 key = crc32( token, c_str_len(token) );
-			hashtable_set( _ctx->token_fmt_map, key, value );
-		}
+	while ( left-- > 0 )
+	{
+		va_arg( va, char const* );
+		va_arg( va, Str );
 	}
 
 	char const* fmt     = va_arg( va, char const* );
 	char        current = *fmt;
 
-	while ( current )
+	while ( current && remaining > 0 )
 	{
-		ssize len = 0;
-
-		while ( current && current != '<' && remaining )
+		while ( current && current != '<' && remaining > 0 )
 		{
 			* buf = * fmt;
 			buf++;
@@ -42,29 +33,43 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 			current = * fmt;
 		}
 
-		if ( current == '<' )
+		if ( current == '<' && remaining > 0 )
 		{
-			char const* scanner = fmt + 1;
-
-			s32 tok_len = 0;
+			char const* token   = fmt + 1;
+			char const* scanner = token;
 
-			while ( *scanner != '>' )
-			{
-				tok_len++;
+			while ( *scanner && *scanner != '>' )
 				scanner++;
-			}
 
-			char const* token = fmt + 1;
+			bool found = false;
+			Str  value = { nullptr, 0 };
+
+			if ( *scanner )
+			{
+				Str     token_name = { token, scanner - token };
+				va_list pairs;
+				va_copy( pairs, tokens );
 
-			u32      key   = crc32( token, tok_len );
-			Str*     value = hashtable_get(_ctx->token_fmt_map, key );
+				for ( left = num_tokens - 1; left > 0; left-- )
+				{
+					char const* pair_token = va_arg( pairs, char const* );
+					Str         pair_value = va_arg( pairs, Str );
+
+					if ( str_are_equal( token_name, to_str_from_c_str( pair_token ) ) )
+					{
+						found = true;
+						value = pair_value;
+					}
+				}
+				va_end( pairs );
+			}
 
-			if ( value )
+			if ( found )
 			{
-				ssize          left = value->Len;
-				char const* str  = value->Ptr;
+				ssize       value_left = value.Len;
+				char const* str        = value.Ptr;
 
-				while ( left-- )
+				while ( value_left-- > 0 && remaining > 0 )
 				{
 					* buf = * str;
 					buf++;
@@ -86,7 +91,7 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 			current = * fmt;
 		}
 	}
-	hashtable_clear(_ctx->token_fmt_map);
+	va_end( tokens );
 	ssize result = buf_size - remaining;
 	return result;
 }
@@ -129,12 +134,21 @@ Code untyped_fmt( char const* fmt, ...)
 	va_start(va, fmt);
 	ssize length = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va);
 	va_end(va);
-    Str content = { buf, length };
+
+	// The formatted length counts the terminator
+	if ( length <= 1 )
+	{
+		log_failure( "untyped_fmt: content is empty or too long" );
+		return InvalidCode;
+	}
+
+	Str content = { buf, length - 1 };
 
 	Code
 	result          = make_code();
+	result->Name    = cache_str( content );
 	result->Type    = CT_Untyped;
-	result->Content = cache_str( content );
+	result->Content = result->Name;
 
 	if ( result->Name.Len == 0 )
 	{
-- 
2.43.0


From fb06bfd0cfdc310e2868084c5ae3049da27f5f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:01 +0000
Subject: [PATCH 38/41] fix: def_using accepts a type instead of refusing it

---
 base/components/interface.upfront.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index df5ccac..ca0f91d 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1247,7 +1247,7 @@ CodeUnion def_union( Str name, CodeBody body, Opts_def_union p )
 
 CodeUsing def_using( Str name, CodeTypename type, Opts_def_using p )
 {
-	if ( ! name_check( def_using, name ) || null_check( def_using, type ) ) {
+	if ( ! name_check( def_using, name ) || ! null_check( def_using, type ) ) {
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
-- 
2.43.0


From 5ffcdb09c36879ebebb85fbc3bbb206c010b94f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:01 +0000
Subject: [PATCH 39/41] fix: def_enum asks forward declarations, not
 definitions, for an underlying type

---
 base/components/interface.upfront.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index ca0f91d..c0a83f1 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -683,7 +683,7 @@ CodeEnum def_enum( Str name, Opts_def_enum p )
 	else if ( p.type_macro ) {
 		result->UnderlyingTypeMacro = p.type_macro;
 	}
-	else if ( result->Type != CT_Enum_Class_Fwd && result->Type != CT_Enum_Fwd )
+	else if ( result->Type == CT_Enum_Fwd )
 	{
 		log_failure( "gen::def_enum: enum forward declaration must have an underlying type" );
 		GEN_DEBUG_TRAP();
-- 
2.43.0


From f9152455cefabfe4eb9d665b59a4b2b9f02cad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:01 +0000
Subject: [PATCH 40/41] fix: the messages about refused names are given the
 values they print

---
 base/components/interface.upfront.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index c0a83f1..2719f92 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -392,11 +392,11 @@ forceinline
 bool name__check( char const* context, Str name )
 {
 	if ( name.Len <= 0 ) {
-		log_failure( "gen::%s: Invalid name length provided - %d",  name.Len );
+		log_failure( "gen::%s: Invalid name length provided - %lld", context, (long long) name.Len );
 		return false;
 	}
 	if ( name.Ptr == nullptr ) {
-		log_failure( "gen::%s: name is null" );
+		log_failure( "gen::%s: name is null", context );
 		return false;
 	}
 	return true;
-- 
2.43.0


From 88b1f95299cfbad9b6f8cdb59a1ada35bec6ee50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:55 +0000
Subject: [PATCH 41/41] fix: an interface of a class or struct without parent
 takes its place; a parent's access is kept

---
 base/components/inlines.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index c594bb9..4485909 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -476,12 +476,14 @@ void class_add_interface( CodeClass self, CodeTypename type )
 	GEN_ASSERT(self);
 	GEN_ASSERT(type);
 	CodeTypename possible_slot = self->ParentType;
-	if ( possible_slot != nullptr )
+	if ( possible_slot == nullptr )
 	{
 		// Were adding an interface to parent type, so we need to make sure the parent type is public.
+		self->ParentType   = type;
 		self->ParentAccess = AccessSpec_Public;
 		// If your planning on adding a proper parent,
 		// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
+		return;
 	}
 
 	while ( possible_slot->Next != nullptr )
@@ -688,12 +690,14 @@ inline
 void struct_add_interface(CodeStruct self, CodeTypename type )
 {
 	CodeTypename possible_slot = self->ParentType;
-	if ( possible_slot != nullptr )
+	if ( possible_slot == nullptr )
 	{
 		// Were adding an interface to parent type, so we need to make sure the parent type is public.
+		self->ParentType   = type;
 		self->ParentAccess = AccessSpec_Public;
 		// If your planning on adding a proper parent,
 		// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
+		return;
 	}
 
 	while ( possible_slot->Next != nullptr )
-- 
2.43.0

