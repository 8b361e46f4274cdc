From 98f30dfda1c4ac3b1cb43ed84435d82d07f0b282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 01/53] fix: let the library compile on POSIX and without
 GEN_BUILD_DEBUG

The POSIX heap branches named a flag that does not exist, vm_trim had an
unbalanced parenthesis, the POSIX read routine called a macro that is not
defined, and the lexer used GEN_BUILD_DEBUG as an expression when the build
does not define it.
---
 base/components/lexer.cpp        | 4 +++-
 base/dependencies/filesystem.cpp | 2 +-
 base/dependencies/memory.cpp     | 6 +++---
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index f501f70..e094242 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -534,13 +534,15 @@ void lex_found_token( LexContext* ctx )
 		ctx->token.Type   = macrotype_to_toktype(macro->Type);
 		b32 is_functional = macro_is_functional(* macro);
 		resolved_to_macro = has_args ? is_functional : ! is_functional;
-		if ( ! resolved_to_macro && GEN_BUILD_DEBUG ) {
+	#if GEN_BUILD_DEBUG
+		if ( ! resolved_to_macro ) {
 			log_fmt("Info(%d, %d): %S identified as a macro but usage here does not resolve to one (interpreting as identifier)\n"
 				, ctx->token.Line
 				, ctx->token.Line
 				, macro->Name
 			);
 		}
+	#endif
 	}
 	if ( resolved_to_macro )
 	{
diff --git a/base/dependencies/filesystem.cpp b/base/dependencies/filesystem.cpp
index a52c621..3c6ced7 100644
--- a/base/dependencies/filesystem.cpp
+++ b/base/dependencies/filesystem.cpp
@@ -200,7 +200,7 @@ GEN_FILE_SEEK_PROC( _posix_file_seek )
 internal
 GEN_FILE_READ_AT_PROC( _posix_file_read )
 {
-	unused( stop_at_newline );
+	// unused( stop_at_newline );
 	ssize res = pread( fd.i, buffer, size, offset );
 	if ( res < 0 )
 		return false;
diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index 8c32c81..b501818 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -145,7 +145,7 @@ void* heap_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 			{
 				ptr = aligned_alloc( alignment, ( size + alignment - 1 ) & ~( alignment - 1 ) );
 
-				if ( flags & GEN_ALLOCATOR_FLAG_CLEAR_TO_ZERO )
+				if ( flags & ALLOCATOR_FLAG_CLEAR_TO_ZERO )
 				{
 					zero_size( ptr, size );
 				}
@@ -169,7 +169,7 @@ void* heap_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 			{
 				posix_memalign( &ptr, alignment, size );
 
-				if ( flags & GEN_ALLOCATOR_FLAG_CLEAR_TO_ZERO )
+				if ( flags & ALLOCATOR_FLAG_CLEAR_TO_ZERO )
 				{
 					zero_size( ptr, size );
 				}
@@ -312,7 +312,7 @@ VirtualMemory vm_trim( VirtualMemory vm, ssize lead_size, ssize size )
 	trail_size = vm.size - lead_size - size;
 
 	if ( lead_size != 0 )
-		vm_free( vm_from_memory(( vm.data, lead_size ) );
+		vm_free( vm_from_memory( vm.data, lead_size ) );
 	if ( trail_size != 0 )
 		vm_free( vm_from_memory( ptr, trail_size ) );
 	return vm_from_memory( ptr, size );
-- 
2.43.0


From 0e7ac6a0cc16deb531de34481e7b53c07b0c444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 02/53] fix: POSIX vm_trim must release the trailing range, and
 vm_purge reported success as failure

---
 base/dependencies/memory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index b501818..5fd039c 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -314,14 +314,14 @@ VirtualMemory vm_trim( VirtualMemory vm, ssize lead_size, ssize size )
 	if ( lead_size != 0 )
 		vm_free( vm_from_memory( vm.data, lead_size ) );
 	if ( trail_size != 0 )
-		vm_free( vm_from_memory( ptr, trail_size ) );
+		vm_free( vm_from_memory( pointer_add( ptr, size ), trail_size ) );
 	return vm_from_memory( ptr, size );
 }
 
 b32 vm_purge( VirtualMemory vm )
 {
 	int err = madvise( vm.data, vm.size, MADV_DONTNEED );
-	return err != 0;
+	return err == 0;
 }
 
 ssize virtual_memory_page_size( ssize* alignment_out )
-- 
2.43.0


From a32dc2e319337697e3f33a3a85f27701402aa128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 03/53] fix: deinit must release the lexer tokens and format
 map, and work for any context

---
 base/components/interface.cpp | 16 ++++++++++++----
 base/components/parser.cpp    |  2 ++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index b3eaf45..dde4a37 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -331,6 +331,11 @@ void deinit(Context* ctx)
 {
 	GEN_ASSERT(context_counter);
 	GEN_ASSERT_MSG(context_counter > 0, "Attempted to deinit a context that for some reason wan't accounted for!");
+
+	// The fallback allocator and the parser resolve the context they belong to through the active one.
+	Context* active = _ctx;
+	_ctx = ctx;
+
 	usize index = 0;
 	usize left  = array_num(ctx->CodePools);
 	do
@@ -358,7 +363,12 @@ void deinit(Context* ctx)
 
 	hashtable_destroy(ctx->Macros);
 
-	left  = array_num( ctx->Fallback_AllocatorBuckets);
+	if (ctx->token_fmt_map.Hashes)
+		hashtable_destroy(ctx->token_fmt_map);
+
+	parser_deinit();
+
+	left = ctx->Fallback_AllocatorBuckets ? array_num( ctx->Fallback_AllocatorBuckets) : 0;
 	if (left)
 	{
 		index = 0;
@@ -371,10 +381,8 @@ void deinit(Context* ctx)
 		while ( left--, left );
 		array_free( ctx->Fallback_AllocatorBuckets);
 	}
-	parser_deinit();
 
-	if (_ctx == ctx) 
-		_ctx = nullptr;
+	_ctx = active == ctx ? nullptr : active;
 	-- context_counter;
 
 	Context wipe = {};
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index b064e04..c5c7100 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -132,6 +132,8 @@ void parser_init()
 internal
 void parser_deinit()
 {
+	array_free(_ctx->Lexer_Tokens);
+
 	Array(Token) null_array = { nullptr };
 	_ctx->Lexer_Tokens = null_array;
 }
-- 
2.43.0


From 53f1aa668b5b3c00d01e22e34db4fcc7265917cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 04/53] fix: arenas, pools and the fallback allocator must
 account for alignment, oversize requests and failure

---
 base/components/interface.cpp | 60 +++++++++++++++--------------------
 base/dependencies/memory.cpp  |  7 ++--
 2 files changed, 31 insertions(+), 36 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index dde4a37..762af95 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -15,11 +15,18 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 
 	switch ( type )
 	{
+		case EAllocation_RESIZE:
+			// Doesn't recycle, so a block that does not have to grow stays where it is.
+			if ( old_memory != nullptr && size <= old_size )
+				return old_memory;
+		// Fallthrough: The block needs a new place.
 		case EAllocation_ALLOC:
 		{
-			if ( ( last->TotalUsed + size ) > last->TotalSize )
+			if ( arena_size_remaining(last, alignment) < align_forward_s64(size, alignment) )
 			{
-				Arena bucket = arena_init_from_allocator( heap(), _ctx->InitSize_Fallback_Allocator_Bucket_Size );
+				// A request larger than a bucket gets a bucket of its own size.
+				ssize bucket_size = max( scast(ssize, _ctx->InitSize_Fallback_Allocator_Bucket_Size), align_forward_s64(size, alignment) + alignment );
+				Arena bucket      = arena_init_from_allocator( heap(), bucket_size );
 
 				if ( bucket.PhysicalStart == nullptr )
 					GEN_FATAL( "Failed to create bucket for Fallback_AllocatorBuckets");
@@ -30,7 +37,12 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 				last = array_back(_ctx->Fallback_AllocatorBuckets);
 			}
 
-			return alloc_align( arena_allocator_info(last), size, alignment );
+			void* result = alloc_align( arena_allocator_info(last), size, alignment );
+
+			if ( old_memory != nullptr )
+				mem_copy( result, old_memory, old_size );
+
+			return result;
 		}
 		case EAllocation_FREE:
 		{
@@ -42,30 +54,6 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 			// Memory::cleanup instead.
 		}
 		break;
-		case EAllocation_RESIZE:
-		{
-			if ( last->TotalUsed + size > last->TotalSize )
-			{
-				Arena bucket = arena_init_from_allocator( heap(), _ctx->InitSize_Fallback_Allocator_Bucket_Size );
-
-				if ( bucket.PhysicalStart == nullptr )
-					GEN_FATAL( "Failed to create bucket for Fallback_AllocatorBuckets");
-
-				if ( ! array_append( _ctx->Fallback_AllocatorBuckets, bucket ) )
-					GEN_FATAL( "Failed to append bucket to Fallback_AllocatorBuckets");
-
-				last = array_back( _ctx->Fallback_AllocatorBuckets);
-			}
-
-			void* result = alloc_align( last->Backing, size, alignment );
-
-			if ( result != nullptr && old_memory != nullptr )
-			{
-				mem_copy( result, old_memory, old_size );
-			}
-
-			return result;
-		}
 	}
 
 	return nullptr;
@@ -238,6 +226,10 @@ void init(Context* ctx)
 		ctx->Allocator_Temp = fallback_allocator;
 		using_fallback_allocator = true;
 	}
+	if (ctx->InitSize_Fallback_Allocator_Bucket_Size == 0) { 
+		ctx->InitSize_Fallback_Allocator_Bucket_Size = megabytes(8);
+	}
+
 	// Setup fallback allocator
 	if (using_fallback_allocator)
 	{
@@ -279,10 +271,6 @@ void init(Context* ctx)
 		ctx->SizePer_StringArena = megabytes(1);
 	}
 
-	if (ctx->InitSize_Fallback_Allocator_Bucket_Size == 0) { 
-		ctx->InitSize_Fallback_Allocator_Bucket_Size = megabytes(8);
-	}
-
 	// Override the current context (user has to put it back if unwanted).
 	_ctx = ctx;
 
@@ -428,10 +416,14 @@ void set_context(Context* new_ctx) {
 AllocatorInfo get_cached_str_allocator( s32 str_length )
 {
 	Arena* last     = array_back(_ctx->StringArenas);
-	usize  size_req = str_length + sizeof(StrBuilderHeader) + sizeof(char*);
-	if ( last->TotalUsed + scast(ssize, size_req) > last->TotalSize )
+	ssize  size_req = align_forward_s64( str_length + sizeof(StrBuilderHeader) + sizeof(char*), GEN_DEFAULT_MEMORY_ALIGNMENT );
+	if ( arena_size_remaining(last, GEN_DEFAULT_MEMORY_ALIGNMENT) < size_req )
 	{
-		Arena new_arena = arena_init_from_allocator( _ctx->Allocator_StrCache, _ctx->SizePer_StringArena );
+		// A string larger than an arena gets an arena of its own size.
+		ssize arena_size = max( scast(ssize, _ctx->SizePer_StringArena), size_req + GEN_DEFAULT_MEMORY_ALIGNMENT );
+		Arena new_arena  = arena_init_from_allocator( _ctx->Allocator_StrCache, arena_size );
+		if ( new_arena.PhysicalStart == nullptr )
+			GEN_FATAL( "gen::get_cached_str_allocator: Failed to allocate a new string arena" );
 		if ( ! array_append( _ctx->StringArenas, new_arena ) )
 			GEN_FATAL( "gen::get_cached_str_allocator: Failed to allocate a new string arena" );
 
diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index 5fd039c..a34289e 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -348,7 +348,7 @@ void* arena_allocator_proc( void* allocator_data, AllocType type, ssize size, ss
 		case EAllocation_ALLOC :
 		{
 			void* end        = pointer_add( arena->PhysicalStart, arena->TotalUsed );
-			ssize total_size = align_forward_s64( size, alignment );
+			ssize total_size = arena_alignment_of( arena, alignment ) + align_forward_s64( size, alignment );
 
 			// NOTE: Out of memory
 			if ( arena->TotalUsed + total_size > (ssize) arena->TotalSize )
@@ -378,7 +378,7 @@ void* arena_allocator_proc( void* allocator_data, AllocType type, ssize size, ss
 		case EAllocation_RESIZE :
 			{
 				// TODO : Check if ptr is on top of stack and just extend
-				AllocatorInfo a = arena->Backing;
+				AllocatorInfo a = arena_allocator_info(arena);
 				ptr             = default_resize_align( a, old_memory, old_size, size, alignment );
 			}
 			break;
@@ -478,6 +478,8 @@ Pool pool_init_align( AllocatorInfo backing, ssize num_blocks, ssize block_size,
 	pool_size         = num_blocks * actual_block_size;
 
 	data = alloc_align( backing, pool_size, block_align );
+	if ( data == nullptr )
+		return pool;
 
 	// NOTE: Init intrusive freelist
 	curr = data;
@@ -504,6 +506,7 @@ void pool_clear(Pool* pool)
 	uptr* end;
 
 	actual_block_size = pool->BlockSize + pool->BlockAlign;
+	pool->TotalSize   = 0;
 
 	curr = pool->PhysicalStart;
 	for ( block_index = 0; block_index < pool->NumBlocks - 1; block_index++ )
-- 
2.43.0


From 22a02fd9d0b9e64719004a45b394b28be488942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 05/53] fix: strings and macro names that share a crc32 must
 not be mistaken for each other

---
 base/components/interface.cpp | 37 +++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index 762af95..e733611 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -440,10 +440,13 @@ StrCached cache_str( Str str )
 		Str result = strbuilder_to_str( strbuilder_make_str( get_cached_str_allocator( str.Len ), str ));
 		return result;
 	}
-	u64 key = crc32( str.Ptr, str.Len ); {
-		StrCached* result = hashtable_get( _ctx->StrCache, key );
-		if ( result )
-			return * result;
+	// Different strings may share a crc32: the upper half of the key tells them apart.
+	u64 key = crc32( str.Ptr, str.Len );
+	for ( StrCached* found = hashtable_get( _ctx->StrCache, key ); found; found = hashtable_get( _ctx->StrCache, key ) )
+	{
+		if ( str_are_equal( * found, str ) )
+			return * found;
+		key += 0x100000000ULL;
 	}
 	Str result = strbuilder_to_str( strbuilder_make_str( get_cached_str_allocator( str.Len ), str ));
 	hashtable_set( _ctx->StrCache, key, result );
@@ -471,17 +474,29 @@ Code make_code()
 	return result;
 }
 
+// Different names may share a crc32: the upper half of the key tells them apart.
+internal
+u64 macro_key( Str name )
+{
+	u64 key = crc32( name.Ptr, name.Len );
+	for ( Macro* found = hashtable_get( _ctx->Macros, key ); found; found = hashtable_get( _ctx->Macros, key ) )
+	{
+		if ( str_are_equal( found->Name, name ) )
+			break;
+		key += 0x100000000ULL;
+	}
+	return key;
+}
+
 Macro* lookup_macro( Str name ) {
-	u32 key = crc32( name.Ptr, name.Len );
-	return hashtable_get( _ctx->Macros, key );
+	return hashtable_get( _ctx->Macros, macro_key( name ) );
 }
 
 void register_macro( Macro macro ) {
 	GEN_ASSERT_NOT_NULL(macro.Name.Ptr);
 	GEN_ASSERT(macro.Name.Len > 0);
-	u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
 	macro.Name = cache_str(macro.Name);
-	hashtable_set( _ctx->Macros, key, macro );
+	hashtable_set( _ctx->Macros, macro_key( macro.Name ), macro );
 }
 
 void register_macros( s32 num, ... )
@@ -496,8 +511,7 @@ void register_macros( s32 num, ... )
 		GEN_ASSERT(macro.Name.Len > 0);
 		macro.Name = cache_str(macro.Name);
 
-		u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
-		hashtable_set( _ctx->Macros, key, macro );
+		hashtable_set( _ctx->Macros, macro_key( macro.Name ), macro );
 	}
 	while (num--, num > 0);
 	va_end(va);
@@ -513,8 +527,7 @@ void register_macros_arr( s32 num,  Macro* macros )
 		GEN_ASSERT(macro.Name.Len > 0);
 		macro.Name = cache_str(macro.Name);
 
-		u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
-		hashtable_set( _ctx->Macros, key, macro );
+		hashtable_set( _ctx->Macros, macro_key( macro.Name ), macro );
 		++ macros;
 	}
 	while (num--, num > 0);
-- 
2.43.0


From af6614fdd6aca3072910c3888747842917c0a437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 06/53] fix: reset must restore the code constants and the
 enum_underlying macro of the context it is given

---
 base/components/interface.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index e733611..82d2937 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -59,13 +59,25 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 	return nullptr;
 }
 
+// The context the library's code constants were made in.
+internal Context* constants_ctx;
+
 internal
 void define_constants()
 {
-	// We only initalize these if there is no base context.
-	if ( context_counter > 0 )
+	if (enum_underlying_macro.Name.Len == 0) {
+		enum_underlying_macro.Name  = txt("enum_underlying");
+		enum_underlying_macro.Type  = MT_Expression;
+		enum_underlying_macro.Flags = MF_Functional;
+	}
+	register_macro(enum_underlying_macro);
+
+	// We only initalize these if there is no base context, or if it is the base context that was reset.
+	if ( context_counter > 0 && _ctx != constants_ctx )
 		return;
 
+	constants_ctx = _ctx;
+
 	Code_Global          = make_code();
 	Code_Global->Name    = cache_str( txt("Global Code") );
 	Code_Global->Content = Code_Global->Name;
@@ -193,13 +205,6 @@ void define_constants()
 
 	spec_local_persist = def_specifiers( 1, Spec_Local_Persist );
 	code_set_global(cast(Code, spec_local_persist));
-
-	if (enum_underlying_macro.Name.Len == 0) {
-		enum_underlying_macro.Name  = txt("enum_underlying");
-		enum_underlying_macro.Type  = MT_Expression;
-		enum_underlying_macro.Flags = MF_Functional;
-	}
-	register_macro(enum_underlying_macro);
 }
 
 void init(Context* ctx)
@@ -383,6 +388,10 @@ Context* get_context() {
 
 void reset(Context* ctx)
 {
+	// The constants are made in the active context.
+	Context* active = _ctx;
+	_ctx = ctx;
+
 	s32 index = 0;
 	s32 left  = array_num(ctx->CodePools);
 	do
@@ -406,6 +415,8 @@ void reset(Context* ctx)
 	hashtable_clear(ctx->StrCache);
 	hashtable_clear(ctx->Macros);
 	define_constants();
+
+	_ctx = active;
 }
 
 void set_context(Context* new_ctx) {
-- 
2.43.0


From 87a1c3f052fc2fe2b836e5e166227f69b72180d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 07/53] fix: array insertion must store the items, and
 array_append_items_at and array_reserve must compile

---
 base/dependencies/containers.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index 6418ce5..c85b6cd 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -189,7 +189,7 @@ bool array_append_items(Array<Type>* array, Type* items, usize item_num)
 		header = array_get_header(* array);
 	}
 
-	mem_copy((Type*)array + header->Num, items, item_num * sizeof(Type));
+	mem_copy(array->Data + header->Num, items, item_num * sizeof(Type));
 	header->Num += item_num;
 
 	return true;
@@ -204,7 +204,7 @@ bool array_append_at(Array<Type>* array, Type item, usize idx)
 
 	ssize slot = idx;
 	if (slot >= (ssize)(header->Num))
-		slot = header->Num - 1;
+		slot = header->Num;
 
 	if (slot < 0)
 		slot = 0;
@@ -220,6 +220,7 @@ bool array_append_at(Array<Type>* array, Type item, usize idx)
 	Type* target = &(*array)[slot];
 
 	mem_move(target + 1, target, (header->Num - slot) * sizeof(Type));
+	*target = item;
 	header->Num++;
 
 	return true;
@@ -230,23 +231,23 @@ bool array_append_items_at(Array<Type>* array, Type* items, usize item_num, usiz
 {
 	GEN_ASSERT(  array != nullptr);
 	GEN_ASSERT(* array != nullptr);
-	ArrayHeader* header = get_header(array);
+	ArrayHeader* header = array_get_header(* array);
 
 	if (idx >= header->Num)
 	{
 		return array_append_items(array, items, item_num);
 	}
 
-	if (item_num > header->Capacity)
+	if (header->Num + item_num > header->Capacity)
 	{
-		if (! grow(array, header->Capacity + item_num))
+		if (! array_grow(array, header->Capacity + item_num))
 			return false;
 
-		header = get_header(array);
+		header = array_get_header(* array);
 	}
 
-	Type* target = array.Data + idx + item_num;
-	Type* src    = array.Data + idx;
+	Type* target = array->Data + idx + item_num;
+	Type* src    = array->Data + idx;
 
 	mem_move(target, src, (header->Num - idx) * sizeof(Type));
 	mem_copy(src, items, item_num * sizeof(Type));
@@ -355,10 +356,10 @@ bool array_reserve(Array<Type>* array, usize new_capacity)
 {
 	GEN_ASSERT(  array != nullptr);
 	GEN_ASSERT(* array != nullptr);
-	ArrayHeader* header = array_get_header(array);
+	ArrayHeader* header = array_get_header(* array);
 
 	if (header->Capacity < new_capacity)
-		return set_capacity(array, new_capacity);
+		return array_set_capacity(array, new_capacity);
 
 	return true;
 }
-- 
2.43.0


From f16b57674b233137d03d15c701146c09a0ac552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 08/53] fix: hashtable removal, mapping and members must
 compile, and a failed growth must not lose the table

---
 base/dependencies/containers.hpp | 61 +++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index c85b6cd..707766c 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -497,18 +497,18 @@ struct HashTable
 	forceinline static HashTable init(AllocatorInfo allocator)                    { return	hashtable_init<Type>(allocator); }
 	forceinline static HashTable init_reserve(AllocatorInfo allocator, usize num) { return	hashtable_init_reserve<Type>(allocator, num); }
 
-	forceinline void  clear()                           {        clear<Type>(*this); }
-	forceinline void  destroy()                         {        destroy<Type>(*this); }
-	forceinline Type* get(u64 key)                      { return get<Type>(*this, key); }
-	forceinline void  grow()                            {        grow<Type>(*this); }
-	forceinline void  rehash(ssize new_num)             {        rehash<Type>(*this, new_num); }
-	forceinline void  rehash_fast()                     {        rehash_fast<Type>(*this); }
-	forceinline void  remove(u64 key)                   {        remove<Type>(*this, key); }
-	forceinline void  remove_entry(ssize idx)           {        remove_entry<Type>(*this, idx); }
-	forceinline void  set(u64 key, Type value)          {        set<Type>(*this, key, value); }
-	forceinline ssize slot(u64 key)                     { return slot<Type>(*this, key); }
-	forceinline void  map(void (*proc)(u64, Type))      {        map<Type>(*this, proc); }
-	forceinline void  map_mut(void (*proc)(u64, Type*)) {        map_mut<Type>(*this, proc); }
+	forceinline void  clear()                           {        hashtable_clear<Type>(*this); }
+	forceinline void  destroy()                         {        hashtable_destroy<Type>(this); }
+	forceinline Type* get(u64 key)                      { return hashtable_get<Type>(*this, key); }
+	forceinline void  grow()                            {        hashtable_grow<Type>(this); }
+	forceinline void  rehash(ssize new_num)             {        hashtable_rehash<Type>(this, new_num); }
+	forceinline void  rehash_fast()                     {        hashtable_rehash_fast<Type>(*this); }
+	forceinline void  remove(u64 key)                   {        hashtable_remove<Type>(*this, key); }
+	forceinline void  remove_entry(ssize idx)           {        hashtable_remove_entry<Type>(*this, idx); }
+	forceinline void  set(u64 key, Type value)          {        hashtable_set<Type>(this, key, value); }
+	forceinline ssize slot(u64 key)                     { return hashtable_slot<Type>(*this, key); }
+	forceinline void  map(void (*proc)(u64, Type))      {        hashtable_map<Type>(*this, proc); }
+	forceinline void  map_mut(void (*proc)(u64, Type*)) {        hashtable_map_mut<Type>(*this, proc); }
 #pragma endregion Member Mapping
 #endif
 
@@ -535,11 +535,17 @@ HashTable<Type> hashtable_init_reserve(AllocatorInfo allocator, usize num)
 	HashTable<Type> result = { { nullptr }, { nullptr } };
 
 	result.Hashes = array_init_reserve<ssize>(allocator, num);
+	if (result.Hashes == nullptr)
+		return result;
+
 	array_get_header(result.Hashes)->Num = num;
 	array_resize(& result.Hashes, num);
 	array_fill(result.Hashes, 0, num, (ssize)-1);
 
 	result.Entries = array_init_reserve<HashTableEntry<Type>>(allocator, num);
+	if (result.Entries == nullptr)
+		array_free(result.Hashes);
+
 	return result;
 }
 
@@ -578,7 +584,7 @@ void hashtable_map(HashTable<Type> table, void (*map_proc)(u64 key, Type value))
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	GEN_ASSERT_NOT_NULL(map_proc);
 
-	for (ssize idx = 0; idx < ssize(num(table.Entries)); ++idx) {
+	for (ssize idx = 0; idx < ssize(array_num(table.Entries)); ++idx) {
 		map_proc(table.Entries[idx].Key, table.Entries[idx].Value);
 	}
 }
@@ -589,7 +595,7 @@ void hashtable_map_mut(HashTable<Type> table, void (*map_proc)(u64 key, Type* va
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	GEN_ASSERT_NOT_NULL(map_proc);
 
-	for (ssize idx = 0; idx < ssize(num(table.Entries)); ++idx) {
+	for (ssize idx = 0; idx < ssize(array_num(table.Entries)); ++idx) {
 		map_proc(table.Entries[idx].Key, & table.Entries[idx].Value);
 	}
 }
@@ -612,6 +618,10 @@ void hashtable_rehash(HashTable<Type>* table, ssize new_num)
 	ssize last_added_index;
 	HashTable<Type> new_ht = hashtable_init_reserve<Type>( array_get_header(table->Hashes)->Allocator, new_num);
 
+	// The table stays as it is when there is no memory for a larger one.
+	if (new_ht.Entries == nullptr)
+		return;
+
 	for (ssize idx = 0; idx < ssize( array_num(table->Entries)); ++idx)
 	{
 		HashTableFindResult find_result;
@@ -640,19 +650,19 @@ void hashtable_rehash_fast(HashTable<Type> table)
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	ssize idx;
 
-	for (idx = 0; idx < ssize(num(table.Entries)); idx++)
+	for (idx = 0; idx < ssize(array_num(table.Entries)); idx++)
 		table.Entries[idx].Next = -1;
 
-	for (idx = 0; idx < ssize(num(table.Hashes)); idx++)
+	for (idx = 0; idx < ssize(array_num(table.Hashes)); idx++)
 		table.Hashes[idx] = -1;
 
-	for (idx = 0; idx < ssize(num(table.Entries)); idx++)
+	for (idx = 0; idx < ssize(array_num(table.Entries)); idx++)
 	{
 		HashTableEntry<Type>* entry;
 		HashTableFindResult find_result;
 
 		entry = &table.Entries[idx];
-		find_result = find(table, entry->Key);
+		find_result = hashtable__find(table, entry->Key);
 
 		if (find_result.PrevIndex < 0)
 			table.Hashes[find_result.HashIndex] = idx;
@@ -665,11 +675,11 @@ template<typename Type> forceinline
 void hashtable_remove(HashTable<Type> table, u64 key) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	HashTableFindResult find_result = find(table, key);
+	HashTableFindResult find_result = hashtable__find(table, key);
 
 	if (find_result.EntryIndex >= 0) {
-		remove_at(table.Entries, find_result.EntryIndex);
-		rehash_fast(table);
+		array_remove_at(table.Entries, find_result.EntryIndex);
+		hashtable_rehash_fast(table);
 	}
 }
 
@@ -677,7 +687,7 @@ template<typename Type> forceinline
 void hashtable_remove_entry(HashTable<Type> table, ssize idx) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	remove_at(table.Entries, idx);
+	array_remove_at(table.Entries, idx);
 }
 
 template<typename Type> inline
@@ -718,8 +728,8 @@ template<typename Type> forceinline
 ssize hashtable_slot(HashTable<Type> table, u64 key) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	for (ssize idx = 0; idx < ssize(num(table.Hashes)); ++idx)
-		if (table.Hashes[idx] == key)
+	for (ssize idx = 0; idx < ssize(array_num(table.Hashes)); ++idx)
+		if (table.Hashes[idx] == (ssize)key)
 			return idx;
 
 	return -1;
@@ -734,7 +744,8 @@ ssize hashtable__add_entry(HashTable<Type>* table, u64 key) {
 	HashTableEntry<Type> entry = { key, -1 };
 
 	idx = array_num(table->Entries);
-	array_append( table->Entries, entry);
+	if ( ! array_append( table->Entries, entry))
+		GEN_FATAL("hashtable__add_entry: Failed to allocate memory for the entry");
 	return idx;
 }
 
-- 
2.43.0


From 4f0764414e2dcac4ca94e888c0bfe5b4f6662546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 09/53] fix: a fatal message must not be used as a format
 string

---
 base/dependencies/debug.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/debug.hpp b/base/dependencies/debug.hpp
index cb2970a..1d46e1e 100644
--- a/base/dependencies/debug.hpp
+++ b/base/dependencies/debug.hpp
@@ -52,7 +52,7 @@
 		char buf[GEN_PRINTF_MAXLEN] = { 0 };               \
 		                                                   \
 		c_str_fmt(buf, GEN_PRINTF_MAXLEN, __VA_ARGS__);    \
-		GEN_PANIC(buf);                                    \
+		GEN_PANIC("%s", buf);                              \
 	}                                                      \
 	while (0)
 #else
-- 
2.43.0


From 0cdb0051958774dd4b72c2caf3ec2bd05509868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 10/53] fix: reading or writing a file must report failures and
 short transfers instead of handing out garbage

---
 base/dependencies/filesystem.cpp | 42 +++++++++++++++++++++++++++-----
 base/dependencies/filesystem.hpp |  3 ++-
 2 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/base/dependencies/filesystem.cpp b/base/dependencies/filesystem.cpp
index 3c6ced7..703b7c3 100644
--- a/base/dependencies/filesystem.cpp
+++ b/base/dependencies/filesystem.cpp
@@ -33,6 +33,12 @@ wchar_t* _alloc_utf8_to_ucs2( AllocatorInfo a, char const* text, ssize* w_len_ )
 		return NULL;
 	}
 	w_text = alloc_array( a, wchar_t, w_len + 1 );
+	if ( w_text == NULL )
+	{
+		if ( w_len_ )
+			*w_len_ = 0;
+		return NULL;
+	}
 	w_len1 = MultiByteToWideChar( CP_UTF8, MB_ERR_INVALID_CHARS, text, scast( int, len), w_text, scast( int, w_len) );
 	if ( w_len1 == 0 )
 	{
@@ -143,6 +149,9 @@ GEN_FILE_OPEN_PROC( _win32_file_open )
 	}
 
 	w_text = _alloc_utf8_to_ucs2( heap(), filename, NULL );
+	if ( w_text == NULL )
+		return EFileError_INVALID;
+
 	handle = CreateFileW( w_text, desired_access, FILE_SHARE_READ | FILE_SHARE_DELETE, NULL, creation_disposition, FILE_ATTRIBUTE_NORMAL, NULL );
 
 	allocator_free( heap(), w_text );
@@ -340,7 +349,10 @@ FileError file_close( FileInfo* f )
 		return EFileError_INVALID;
 
 	if ( f->filename )
+	{
 		allocator_free( heap(), ccast( char*, f->filename ));
+		f->filename = nullptr;
+	}
 
 #if defined( GEN_SYSTEM_WINDOWS )
 	if ( f->fd.p == INVALID_HANDLE_VALUE )
@@ -382,6 +394,9 @@ FileError file_new( FileInfo* f, FileDescriptor fd, FileOperations ops, char con
 	f->dir             = nullptr;
 	f->last_write_time = 0;
 	f->filename        = alloc_array( heap(), char, len + 1 );
+	if ( f->filename == nullptr )
+		return EFileError_INVALID;
+
 	mem_copy( ccast( char*, f->filename), ccast( char*, filename), len + 1 );
 
 	return err;
@@ -414,7 +429,11 @@ FileError file_open_mode( FileInfo* f, FileMode mode, char const* filename )
 #endif
 
 	if ( err == EFileError_NONE )
-		return file_new( f, f->fd, f->ops, filename );
+	{
+		err = file_new( f, f->fd, f->ops, filename );
+		if ( err != EFileError_NONE )
+			f->ops.close( f->fd );
+	}
 
 	return err;
 }
@@ -438,19 +457,30 @@ FileContents file_read_contents( AllocatorInfo a, b32 zero_terminate, char const
 	FileInfo     file  ;
 
 	result.allocator = a;
+	result.data      = nullptr;
+	result.size      = 0;
 
 	if ( file_open( &file, filepath ) == EFileError_NONE )
 	{
 		ssize fsize = scast( ssize , file_size( &file ));
 		if ( fsize > 0 )
 		{
+			ssize bytes_read = 0;
 			result.data = alloc( a, zero_terminate ? fsize + 1 : fsize );
-			result.size = fsize;
-			file_read_at( &file, result.data, result.size, 0 );
-			if ( zero_terminate )
+			if ( result.data != nullptr && file_read_at_check( &file, result.data, fsize, 0, &bytes_read ) && bytes_read == fsize )
+			{
+				result.size = fsize;
+				if ( zero_terminate )
+				{
+					u8* str      = rcast( u8*, result.data);
+					str[ fsize ] = '\0';
+				}
+			}
+			else if ( result.data != nullptr )
 			{
-				u8* str      = rcast( u8*, result.data);
-				str[ fsize ] = '\0';
+				// There is no contents to hand out unless all of it was read.
+				allocator_free( a, result.data );
+				result.data = nullptr;
 			}
 		}
 		file_close( &file );
diff --git a/base/dependencies/filesystem.hpp b/base/dependencies/filesystem.hpp
index 9d3676a..96b6e44 100644
--- a/base/dependencies/filesystem.hpp
+++ b/base/dependencies/filesystem.hpp
@@ -371,7 +371,8 @@ b32 file_write( FileInfo* f, void const* buffer, ssize size )
 inline
 b32 file_write_at( FileInfo* f, void const* buffer, ssize size, s64 offset )
 {
-	return file_write_at_check( f, buffer, size, offset, NULL );
+	ssize written = 0;
+	return file_write_at_check( f, buffer, size, offset, & written ) && written == size;
 }
 
 inline
-- 
2.43.0


From 366881b6e0975412cbf3b13303c6a4a241e283f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 11/53] fix: a builder must not report a file it could not
 write as generated, and must pad as many lines as asked

---
 base/auxiliary/builder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/auxiliary/builder.cpp b/base/auxiliary/builder.cpp
index 391f520..de684ca 100644
--- a/base/auxiliary/builder.cpp
+++ b/base/auxiliary/builder.cpp
@@ -7,6 +7,7 @@
 Builder builder_open( char const* path )
 {
 	Builder result;
+	zero_item( & result );
 
 	FileError error = file_open_mode( & result.File, EFileMode_WRITE, path );
 	if ( error != EFileError_NONE )
@@ -25,7 +26,8 @@ Builder builder_open( char const* path )
 
 void builder_pad_lines( Builder* builder, s32 num )
 {
-	strbuilder_append_str( & builder->Buffer, txt("\n") );
+	while ( num-- > 0 )
+		strbuilder_append_str( & builder->Buffer, txt("\n") );
 }
 
 void builder_print( Builder* builder, Code code )
@@ -52,8 +54,9 @@ void builder_write(Builder* builder)
 
 	if ( result == false )
 		log_failure("gen::File::write - Failed to write to file: %s\n", file_name( & builder->File ) );
+	else
+		log_fmt( "Generated: %s\n", builder->File.filename );
 
-	log_fmt( "Generated: %s\n", builder->File.filename );
 	file_close( & builder->File );
 	strbuilder_free(& builder->Buffer);
 }
-- 
2.43.0


From 05738232b25d484819b1bb255415736e231a6054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 12/53] fix: scan_file, parse_file and the csv readers must
 report a file that could not be read

---
 base/auxiliary/scanner.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/base/auxiliary/scanner.cpp b/base/auxiliary/scanner.cpp
index de0fd7b..dcc5300 100644
--- a/base/auxiliary/scanner.cpp
+++ b/base/auxiliary/scanner.cpp
@@ -21,8 +21,12 @@ Code scan_file( char const* path )
 	}
 
 	StrBuilder str = strbuilder_make_reserve( get_context()->Allocator_Temp, fsize );
-		file_read( & file, str, fsize );
-		strbuilder_get_header(str)->Length = fsize;
+	ssize bytes_read = 0;
+	if ( ! file_read_at_check( & file, str, fsize, 0, & bytes_read ) || bytes_read != fsize )
+	{
+		GEN_FATAL("scan_file: Could not read: %s", path );
+	}
+	strbuilder_get_header(str)->Length = fsize;
 
 	// Skip INTELLISENSE_DIRECTIVES preprocessor blocks
 	// Its designed so that the directive should be the first thing in the file.
@@ -118,6 +122,11 @@ Code scan_file( char const* path )
 
 CodeBody parse_file( const char* path ) {
 	FileContents file    = file_read_contents( get_context()->Allocator_Temp, true, path );
+	if ( file.data == nullptr )
+	{
+		GEN_FATAL("parse_file: Could not read: %s", path );
+	}
+
 	Str          content = { (char const*)file.data, file.size };
 	CodeBody     code    = parse_global_body( content );
 	log_fmt("\nParsed: %s\n", path);
@@ -126,6 +135,11 @@ CodeBody parse_file( const char* path ) {
 
 CSV_Column parse_csv_one_column(AllocatorInfo allocator, char const* path) {
 	FileContents content   = file_read_contents( allocator, file_zero_terminate, path );
+	if ( content.data == nullptr )
+	{
+		GEN_FATAL("parse_csv: Could not read: %s", path );
+	}
+
 	Arena        csv_arena = arena_init_from_memory(content.data, content.size);
 
 	CSV_Column result;
@@ -136,6 +150,11 @@ CSV_Column parse_csv_one_column(AllocatorInfo allocator, char const* path) {
 
 CSV_Columns2 parse_csv_two_columns(AllocatorInfo allocator, char const* path) {
 	FileContents content   = file_read_contents( allocator, file_zero_terminate, path );
+	if ( content.data == nullptr )
+	{
+		GEN_FATAL("parse_csv: Could not read: %s", path );
+	}
+
 	Arena        csv_arena = arena_init_from_memory(content.data, content.size);
 
 	CSV_Columns2 result;
-- 
2.43.0


From 21a2086c840fc076e07b58e645f66408f73b352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 13/53] fix: a memory stream must start at its beginning, stay
 within its buffer and keep its content when it grows

---
 base/dependencies/filesystem.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/base/dependencies/filesystem.cpp b/base/dependencies/filesystem.cpp
index 703b7c3..e558311 100644
--- a/base/dependencies/filesystem.cpp
+++ b/base/dependencies/filesystem.cpp
@@ -532,6 +532,7 @@ b8 file_stream_new( FileInfo* file, AllocatorInfo allocator )
 		return false;
 
 	zero_item( file );
+	zero_item( d );
 	d->magic     = GEN__FILE_STREAM_FD_MAGIC;
 	d->allocator = allocator;
 	d->flags     = EFileStream_CLONE_WRITABLE;
@@ -539,7 +540,10 @@ b8 file_stream_new( FileInfo* file, AllocatorInfo allocator )
 	d->buf       = array_init( u8, allocator );
 
 	if ( ! d->buf )
+	{
+		allocator_free( allocator, d );
 		return false;
+	}
 
 	file->ops             = memory_file_operations;
 	file->fd              = _file_stream_fd_make( d );
@@ -557,6 +561,7 @@ b8 file_stream_open( FileInfo* file, AllocatorInfo allocator, u8* buffer, ssize
 	if ( ! d )
 		return false;
 	zero_item( file );
+	zero_item( d );
 	d->magic     = GEN__FILE_STREAM_FD_MAGIC;
 	d->allocator = allocator;
 	d->flags     = flags;
@@ -566,7 +571,10 @@ b8 file_stream_open( FileInfo* file, AllocatorInfo allocator, u8* buffer, ssize
 		d->buf = arr;
 
 		if ( ! d->buf )
+		{
+			allocator_free( allocator, d );
 			return false;
+		}
 
 		mem_copy( d->buf, buffer, size );
 		d->cap = size;
@@ -618,9 +626,15 @@ GEN_FILE_READ_AT_PROC( _memory_file_read )
 {
 	// unused( stop_at_newline );
 	_memory_fd* d = _file_stream_from_fd( fd );
-	mem_copy( buffer, d->buf + offset, size );
+	if ( offset < 0 || size < 0 )
+		return false;
+
+	ssize available = offset < d->cap ? d->cap - offset : 0;
+	ssize rlen      = min( size, available );
+	if ( rlen > 0 )
+		mem_copy( buffer, d->buf + offset, rlen );
 	if ( bytes_read )
-		*bytes_read = size;
+		*bytes_read = rlen;
 	return true;
 }
 
@@ -632,6 +646,10 @@ GEN_FILE_WRITE_AT_PROC( _memory_file_write )
 	if ( ! ( d->flags & ( EFileStream_CLONE_WRITABLE | EFileStream_WRITABLE ) ) )
 		return false;
 
+	// A write has to start within the stream or at its end.
+	if ( offset < 0 || size < 0 || offset > d->cap )
+		return false;
+
 	ssize buflen   = d->cap;
 	ssize extralen = max( 0, size - ( buflen - offset ) );
 	ssize rwlen    = size - extralen;
@@ -657,7 +675,7 @@ GEN_FILE_WRITE_AT_PROC( _memory_file_write )
 
 		mem_copy( d->buf + offset + rwlen, pointer_add_const( buffer, rwlen ), extralen );
 		d->cap = new_cap;
-		array_get_header(arr)->Capacity = new_cap;
+		array_get_header(arr)->Num = new_cap;
 	}
 	else
 	{
-- 
2.43.0


From 4478f3b2a3464ec090ec92cac3c1879164566a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 14/53] fix: token_fmt must not run past its buffer or its
 format, and untyped_fmt must accept what it made

---
 base/components/interface.untyped.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index 69d74bb..5237c8d 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -30,7 +30,11 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 
 	while ( current )
 	{
-		ssize len = 0;
+		if ( remaining == 0 )
+		{
+			log_failure( "token_fmt: the result does not fit within %d bytes", (s32)buf_size );
+			break;
+		}
 
 		while ( current && current != '<' && remaining )
 		{
@@ -48,7 +52,7 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 
 			s32 tok_len = 0;
 
-			while ( *scanner != '>' )
+			while ( *scanner && *scanner != '>' )
 			{
 				tok_len++;
 				scanner++;
@@ -57,14 +61,20 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 			char const* token = fmt + 1;
 
 			u32      key   = crc32( token, tok_len );
-			Str*     value = hashtable_get(_ctx->token_fmt_map, key );
+			Str*     value = *scanner ? hashtable_get(_ctx->token_fmt_map, key ) : nullptr;
 
 			if ( value )
 			{
 				ssize          left = value->Len;
 				char const* str  = value->Ptr;
 
-				while ( left-- )
+				if ( left > remaining )
+				{
+					log_failure( "token_fmt: the result does not fit within %d bytes", (s32)buf_size );
+					left = remaining;
+				}
+
+				while ( left-- > 0 )
 				{
 					* buf = * str;
 					buf++;
@@ -78,6 +88,9 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 				continue;
 			}
 
+			if ( remaining == 0 )
+				continue;
+
 			* buf = * fmt;
 			buf++;
 			fmt++;
@@ -127,7 +140,7 @@ Code untyped_fmt( char const* fmt, ...)
 
 	va_list va;
 	va_start(va, fmt);
-	ssize length = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va);
+	ssize length = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va) - 1;
 	va_end(va);
     Str content = { buf, length };
 
@@ -136,7 +149,7 @@ Code untyped_fmt( char const* fmt, ...)
 	result->Type    = CT_Untyped;
 	result->Content = cache_str( content );
 
-	if ( result->Name.Len == 0 )
+	if ( result->Content.Len == 0 )
 	{
 		log_failure( "untyped_fmt: could not cache string" );
 		return InvalidCode;
@@ -168,7 +181,7 @@ Code untyped_token_fmt( s32 num_tokens, char const* fmt, ... )
 	result->Type    = CT_Untyped;
 	result->Content = cache_str( buf_str );
 
-	if ( result->Name.Len == 0 )
+	if ( result->Content.Len == 0 )
 	{
 		log_failure( "untyped_fmt: could not cache string" );
 		return InvalidCode;
-- 
2.43.0


From 405edbe4ca8932cb0c34a2e709a68f25f0c1a277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 15/53] fix: the lexer and the parser must not go on without
 the tokens or interfaces they could not store

---
 base/components/lexer.cpp  | 52 ++++++++++++++++++++++----------------
 base/components/parser.cpp |  5 +++-
 2 files changed, 34 insertions(+), 23 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index e094242..a231215 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -97,6 +97,14 @@ void lexer_skip_whitespace( LexContext* ctx )
 }
 #define skip_whitespace() lexer_skip_whitespace(ctx)
 
+// Losing a token would change the meaning of the code without a trace.
+internal
+void lexer_add_token( Token token )
+{
+	if ( ! array_append( _ctx->Lexer_Tokens, token ) )
+		GEN_FATAL( "gen::lex: Failed to allocate memory for the tokens" );
+}
+
 forceinline
 void lexer_end_line( LexContext* ctx )
 {
@@ -137,7 +145,7 @@ s32 lex_preprocessor_define( LexContext* ctx )
 		);
 		// GEN_DEBUG_TRAP();
 	}
-	array_append( _ctx->Lexer_Tokens, name );
+	lexer_add_token( name );
 
 	if ( ctx->left && (* ctx->scanner) == '(' )
 	{
@@ -152,7 +160,7 @@ s32 lex_preprocessor_define( LexContext* ctx )
 		}
 
 		Token opening_paren = { { ctx->scanner, 1 }, Tok_Paren_Open, ctx->line, ctx->column, TF_Preprocess };
-		array_append( _ctx->Lexer_Tokens, opening_paren );
+		lexer_add_token( opening_paren );
 		move_forward();
 
 		Token last_parameter = {};
@@ -168,7 +176,7 @@ s32 lex_preprocessor_define( LexContext* ctx )
 				move_forward();
 				move_forward();
 
-				array_append(_ctx->Lexer_Tokens, parameter);
+				lexer_add_token( parameter );
 				skip_whitespace();
 				last_parameter = parameter;
 
@@ -202,7 +210,7 @@ s32 lex_preprocessor_define( LexContext* ctx )
 					move_forward();
 					parameter.Text.Len++;
 				}
-				array_append(_ctx->Lexer_Tokens, parameter);
+				lexer_add_token( parameter );
 				skip_whitespace();
 				last_parameter = parameter;
 			}
@@ -229,7 +237,7 @@ s32 lex_preprocessor_define( LexContext* ctx )
 				return Lex_ReturnNull;
 			}
 			Token comma = { { ctx->scanner, 1 }, Tok_Comma, ctx->line, ctx->column, TF_Preprocess };
-			array_append(_ctx->Lexer_Tokens, comma);
+			lexer_add_token( comma );
 			move_forward();
 		}
 		
@@ -243,7 +251,7 @@ s32 lex_preprocessor_define( LexContext* ctx )
 			return Lex_ReturnNull;
 		}
 		Token closing_paren = { { ctx->scanner, 1 }, Tok_Paren_Close, ctx->line, ctx->column, TF_Preprocess };
-		array_append(_ctx->Lexer_Tokens, closing_paren);
+		lexer_add_token( closing_paren );
 		move_forward();
 	}
 	else if ( registered_macro && macro_is_functional( * registered_macro) ) {
@@ -268,7 +276,7 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 {
 	char const* hash = ctx->scanner;
 	Token hash_tok = { { hash, 1 }, Tok_Preprocess_Hash, ctx->line, ctx->column, TF_Preprocess };
-	array_append( _ctx->Lexer_Tokens, hash_tok  );
+	lexer_add_token( hash_tok );
 
 	move_forward();
 	skip_whitespace();
@@ -344,14 +352,14 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 
 		ctx->token.Text.Len = ctx->token.Text.Len + ctx->token.Text.Ptr - hash;
 		ctx->token.Text.Ptr = hash;
-		array_append( _ctx->Lexer_Tokens, ctx->token );
+		lexer_add_token( ctx->token );
 		return Lex_Continue; // Skip found token, its all handled here.
 	}
 
 	if ( ctx->token.Type == Tok_Preprocess_Else || ctx->token.Type == Tok_Preprocess_EndIf )
 	{
 		ctx->token.Flags |= TF_Preprocess_Cond;
-		array_append( _ctx->Lexer_Tokens, ctx->token );
+		lexer_add_token( ctx->token );
 		end_line();
 		return Lex_Continue;
 	}
@@ -360,7 +368,7 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 		ctx->token.Flags |= TF_Preprocess_Cond;
 	}
 
-	array_append( _ctx->Lexer_Tokens, ctx->token );
+	lexer_add_token( ctx->token );
 
 	skip_whitespace();
 
@@ -411,7 +419,7 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 			move_forward();
 		}
 
-		array_append( _ctx->Lexer_Tokens, preprocess_content );
+		lexer_add_token( preprocess_content );
 		return Lex_Continue; // Skip found token, its all handled here.
 	}
 
@@ -475,14 +483,14 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 		preprocess_content.Text.Len++;
 	}
 
-	array_append( _ctx->Lexer_Tokens, preprocess_content );
+	lexer_add_token( preprocess_content );
 	return Lex_Continue; // Skip found token, its all handled here.
 }
 
 void lex_found_token( LexContext* ctx )
 {
 	if ( ctx->token.Type != Tok_Invalid ) {
-		array_append( _ctx->Lexer_Tokens, ctx->token );
+		lexer_add_token( ctx->token );
 		return;
 	}
 
@@ -508,7 +516,7 @@ void lex_found_token( LexContext* ctx )
 		}
 
 		ctx->token.Type = type;
-		array_append( _ctx->Lexer_Tokens, ctx->token );
+		lexer_add_token( ctx->token );
 		return;
 	}
 	if ( ( type <= Tok_Star && type >= Tok_Spec_Alignas)
@@ -517,13 +525,13 @@ void lex_found_token( LexContext* ctx )
 	{
 		ctx->token.Type   = type;
 		ctx->token.Flags |= TF_Specifier;
-		array_append( _ctx->Lexer_Tokens, ctx->token );
+		lexer_add_token( ctx->token );
 		return;
 	}
 	if ( type != Tok_Invalid )
 	{
 		ctx->token.Type = type;
-		array_append( _ctx->Lexer_Tokens, ctx->token );
+		lexer_add_token( ctx->token );
 		return;
 	}
 
@@ -563,7 +571,7 @@ void lex_found_token( LexContext* ctx )
 		ctx->token.Type = Tok_Identifier;
 	}
 
-	array_append( _ctx->Lexer_Tokens, ctx->token );
+	lexer_add_token( ctx->token );
 }
 
 // TODO(Ed): We need to to attempt to recover from a lex failure?
@@ -625,7 +633,7 @@ TokArray lex( Str content )
 				c.token.Type = Tok_NewLine;
 				c.token.Text.Len++;
 
-				array_append( _ctx->Lexer_Tokens, c.token );
+				lexer_add_token( c.token );
 				continue;
 			}
 		}
@@ -664,7 +672,7 @@ TokArray lex( Str content )
 								c.token.Text.Len++;
 								move_forward();
 
-								array_append( _ctx->Lexer_Tokens, c.token );
+								lexer_add_token( c.token );
 							}
 						}
 						continue;
@@ -1121,7 +1129,7 @@ TokArray lex( Str content )
 							move_forward();
 							c.token.Text.Len++;
 						}
-						array_append( _ctx->Lexer_Tokens, c.token );
+						lexer_add_token( c.token );
 						continue;
 					}
 					else if ( (* ctx->scanner) == '*' )
@@ -1157,7 +1165,7 @@ TokArray lex( Str content )
 							move_forward();
 							c.token.Text.Len++;
 						}
-						array_append( _ctx->Lexer_Tokens, c.token );
+						lexer_add_token( c.token );
 						// end_line();
 						continue;
 					}
@@ -1283,7 +1291,7 @@ TokArray lex( Str content )
 					c.token.Text.Len++;
 					move_forward();
 
-					array_append( _ctx->Lexer_Tokens, c.token );
+					lexer_add_token( c.token );
 					continue;
 				}
 			}
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index c5c7100..e0dda8a 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -127,6 +127,8 @@ internal
 void parser_init()
 {
 	_ctx->Lexer_Tokens = array_init_reserve(Token, _ctx->Allocator_DyanmicContainers, _ctx->InitSize_LexerTokens );
+	if ( _ctx->Lexer_Tokens == nullptr )
+		GEN_FATAL( "gen::init: Failed to initialize the lexer's tokens" );
 }
 
 internal
@@ -759,7 +761,8 @@ Code parse_class_struct( TokType which, bool inplace_def )
 			}
 			Token interface_tok = parse_identifier(nullptr);
 
-			array_append( interfaces, def_type( interface_tok.Text ) );
+			if ( ! array_append( interfaces, def_type( interface_tok.Text ) ) )
+				GEN_FATAL( "gen::parse: Failed to allocate memory for the interfaces" );
 			// <ModuleFlags> <class/struct> <Attributes> <Name> <final> : <Access Specifier> <Name>, ...
 		}
 	}
-- 
2.43.0


From 9e8d3118291179bac4b4bcf3f77a6a1853f83fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 16/53] fix: a string that cannot be allocated must not
 silently drop code

---
 base/dependencies/strings.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/dependencies/strings.cpp b/base/dependencies/strings.cpp
index 5bd3a47..9acc7f6 100644
--- a/base/dependencies/strings.cpp
+++ b/base/dependencies/strings.cpp
@@ -13,6 +13,7 @@ StrBuilder strbuilder_make_length( AllocatorInfo allocator, char const* str, ssi
 	void* allocation = alloc( allocator, alloc_size );
 
 	if ( allocation == nullptr ) {
+		GEN_FATAL( "StrBuilder: Failed to allocate %d bytes", alloc_size );
 		StrBuilder null_string = {nullptr};
 		return null_string;
 	}
@@ -43,6 +44,7 @@ StrBuilder strbuilder_make_reserve( AllocatorInfo allocator, ssize capacity )
 	void* allocation = alloc( allocator, alloc_size );
 
 	if ( allocation == nullptr ) {
+		GEN_FATAL( "StrBuilder: Failed to allocate %d bytes", alloc_size );
 		StrBuilder null_string = {nullptr};
 		return null_string;
 	}
@@ -81,8 +83,11 @@ bool strbuilder_make_space_for(StrBuilder* str, char const* to_append, ssize add
 
 		new_ptr = resize(allocator, ptr, old_size, new_size);
 
-		if (new_ptr == nullptr)
+		// Text would go missing without a trace: Nothing that appends to the code's strings checks for it.
+		if (new_ptr == nullptr) {
+			GEN_FATAL( "StrBuilder: Failed to allocate %d bytes", (s32)new_size );
 			return false;
+		}
 
 		header = rcast(StrBuilderHeader*, new_ptr);
 		header->Allocator = allocator;
-- 
2.43.0


From 64c9a910156e99a76ff9a18db554d1d72c83f62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 17/53] fix: every block of a pool must be aligned as asked

---
 base/dependencies/memory.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index a34289e..3aee348 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -432,7 +432,7 @@ void* pool_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 				void* curr;
 				uptr* end;
 
-				actual_block_size = pool->BlockSize + pool->BlockAlign;
+				actual_block_size = align_forward_s64( pool->BlockSize, pool->BlockAlign ) + pool->BlockAlign;
 				pool->TotalSize   = 0;
 
 				// NOTE: Init intrusive freelist
@@ -474,7 +474,7 @@ Pool pool_init_align( AllocatorInfo backing, ssize num_blocks, ssize block_size,
 	pool.BlockAlign  = block_align;
 	pool.NumBlocks   = num_blocks;
 
-	actual_block_size = block_size + block_align;
+	actual_block_size = align_forward_s64( block_size, block_align ) + block_align;
 	pool_size         = num_blocks * actual_block_size;
 
 	data = alloc_align( backing, pool_size, block_align );
@@ -505,7 +505,7 @@ void pool_clear(Pool* pool)
 	void* curr;
 	uptr* end;
 
-	actual_block_size = pool->BlockSize + pool->BlockAlign;
+	actual_block_size = align_forward_s64( pool->BlockSize, pool->BlockAlign ) + pool->BlockAlign;
 	pool->TotalSize   = 0;
 
 	curr = pool->PhysicalStart;
-- 
2.43.0


From 811804837af2bf5788b4d8fedb8a63f9b17c8ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 18/53] fix: def_class_body_arr and def_namespace_body_arr must
 make a class body and a namespace body

---
 base/components/interface.upfront.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 94af5f7..5372974 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1377,7 +1377,7 @@ CodeBody def_class_body_arr( s32 num, Code* codes )
 
 	CodeBody
 	result       = (CodeBody) make_code();
-	result->Type = CT_Function_Body;
+	result->Type = CT_Class_Body;
 	do
 	{
 		Code entry = *codes;
@@ -1835,7 +1835,7 @@ CodeBody def_namespace_body_arr( s32 num, Code* codes )
 
 	CodeBody
 	result       = (CodeBody) make_code();
-	result->Type = CT_Global_Body;
+	result->Type = CT_Namespace_Body;
 	do
 	{
 		Code entry = *codes;
-- 
2.43.0


From d7f597a17b744b97a03640517ec15044da9cfcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 19/53] fix: def_using must accept a type and refuse a missing
 one, not the other way round

---
 base/components/interface.upfront.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 5372974..3a7f3cf 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1235,7 +1235,7 @@ CodeUnion def_union( Str name, CodeBody body, Opts_def_union p )
 
 CodeUsing def_using( Str name, CodeTypename type, Opts_def_using p )
 {
-	if ( ! name_check( def_using, name ) || null_check( def_using, type ) ) {
+	if ( ! name_check( def_using, name ) || ! null_check( def_using, type ) ) {
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
-- 
2.43.0


From f23711510cd8a6a2dd2dceb24e1e5aab266dee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 20/53] fix: what follows the last token must read as invalid
 tokens, not as leftovers of an earlier parse

---
 base/components/lexer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index a231215..68fc513 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -1304,6 +1304,15 @@ TokArray lex( Str content )
 		return tok_array;
 	}
 
+	// The parser looks ahead without checking how many tokens are left,
+	// what follows the last one has to read as invalid tokens and not as the remains of what was lexed before.
+	{
+		Token none; zero_item( & none );
+		for ( s32 idx = 0; idx < 8; idx++ )
+			lexer_add_token( none );
+		array_get_header(_ctx->Lexer_Tokens)->Num -= 8;
+	}
+
 	TokArray result = { _ctx->Lexer_Tokens, 0 };
 	return result;
 }
-- 
2.43.0


From 68024241f6474a639aba305958f1fd5ef59edf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 21/53] fix: scan_file must not run past a file that ends in a
 directive without a line end

---
 base/auxiliary/scanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/auxiliary/scanner.cpp b/base/auxiliary/scanner.cpp
index dcc5300..27462e9 100644
--- a/base/auxiliary/scanner.cpp
+++ b/base/auxiliary/scanner.cpp
@@ -34,7 +34,7 @@ Code scan_file( char const* path )
 	{
 	#define current (*scanner)
 	#define matched    0
-	#define move_fwd() do { ++ scanner; -- left; } while (0)
+	#define move_fwd() do { if ( left > 0 ) { ++ scanner; -- left; } } while (0)
 		const Str directive_start = txt( "ifdef" );
 		const Str directive_end   = txt( "endif" );
 		const Str def_intellisense = txt("INTELLISENSE_DIRECTIVES" );
-- 
2.43.0


From 60a08efde52939acc8fca33f577d2414f0e0844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 22/53] fix: a cleared string builder must be terminated, and
 its comparisons must compile and look at every character

---
 base/dependencies/strings.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index 866e944..ba252ec 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -385,7 +385,7 @@ bool strbuilder_append_fmt(StrBuilder* str, char const* fmt, ...) {
 }
 
 inline
-bool strbuilder_are_equal_string(StrBuilder const lhs, StrBuilder const rhs)
+bool strbuilder_are_equal(StrBuilder const lhs, StrBuilder const rhs)
 {
 	if (strbuilder_length(lhs) != strbuilder_length(rhs))
 		return false;
@@ -422,7 +422,7 @@ char* strbuilder_back(StrBuilder str) {
 }
 
 inline
-bool strbuilder_contains_StrC(StrBuilder const str, Str substring)
+bool strbuilder_contains_str(StrBuilder const str, Str substring)
 {
 	StrBuilderHeader const* header = rcast(StrBuilderHeader const*, scast(char const*, str) - sizeof(StrBuilderHeader));
 
@@ -470,6 +470,7 @@ ssize strbuilder_capacity(StrBuilder const str) {
 forceinline
 void strbuilder_clear(StrBuilder str) {
 	strbuilder_get_header(str)->Length = 0;
+	str[0] = '\0';
 }
 
 forceinline
@@ -513,7 +514,7 @@ b32 strbuilder_starts_with_string(StrBuilder const str, StrBuilder substring) {
 	if (strbuilder_length(substring) > strbuilder_length(str))
 		return false;
 
-	b32 result = c_str_compare_len(str, substring, strbuilder_length(substring) - 1) == 0;
+	b32 result = c_str_compare_len(str, substring, strbuilder_length(substring)) == 0;
 	return result;
 }
 
-- 
2.43.0


From d90b0293ae5e6882a45981bdde062cb82c22d60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 23/53] fix: POSIX virtual memory must report failures

---
 base/dependencies/memory.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index 3aee348..c95b040 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -293,13 +293,14 @@ VirtualMemory vm_alloc( void* addr, ssize size )
 	GEN_ASSERT( size > 0 );
 	vm.data = mmap( addr, size, PROT_READ | PROT_WRITE, MAP_ANONYMOUS | MAP_PRIVATE, -1, 0 );
 	vm.size = size;
+	if ( vm.data == MAP_FAILED )
+		vm.data = NULL;
 	return vm;
 }
 
 b32 vm_free( VirtualMemory vm )
 {
-	munmap( vm.data, vm.size );
-	return true;
+	return munmap( vm.data, vm.size ) == 0;
 }
 
 VirtualMemory vm_trim( VirtualMemory vm, ssize lead_size, ssize size )
-- 
2.43.0


From ae2e9a80cd0b1d54030179f78c54468876422be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 24/53] fix: csv must keep empty items and refuse ragged rows,
 text behind quotes and missing memory

---
 base/auxiliary/scanner.cpp    | 10 ++++--
 base/dependencies/parsing.cpp | 65 ++++++++++++++++++++++++++---------
 2 files changed, 56 insertions(+), 19 deletions(-)

diff --git a/base/auxiliary/scanner.cpp b/base/auxiliary/scanner.cpp
index 27462e9..842d464 100644
--- a/base/auxiliary/scanner.cpp
+++ b/base/auxiliary/scanner.cpp
@@ -143,7 +143,10 @@ CSV_Column parse_csv_one_column(AllocatorInfo allocator, char const* path) {
 	Arena        csv_arena = arena_init_from_memory(content.data, content.size);
 
 	CSV_Column result;
-	csv_parse( & result.ADT, rcast(char*, content.data), allocator, false );
+	if ( csv_parse( & result.ADT, rcast(char*, content.data), allocator, false ) != ECSV_Error__NONE )
+	{
+		GEN_FATAL("parse_csv: Not a valid table: %s", path );
+	}
 	result.Content = result.ADT.nodes[0].nodes;
 	return result;
 }
@@ -158,7 +161,10 @@ CSV_Columns2 parse_csv_two_columns(AllocatorInfo allocator, char const* path) {
 	Arena        csv_arena = arena_init_from_memory(content.data, content.size);
 
 	CSV_Columns2 result;
-	csv_parse( & result.ADT, rcast(char*, content.data), allocator, false );
+	if ( csv_parse( & result.ADT, rcast(char*, content.data), allocator, false ) != ECSV_Error__NONE || array_num(result.ADT.nodes) < 2 )
+	{
+		GEN_FATAL("parse_csv: Not a valid table of two columns: %s", path );
+	}
 	result.Col_1 = result.ADT.nodes[0].nodes;
 	result.Col_2 = result.ADT.nodes[1].nodes;
 	return result;
diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index ce13e23..e39fb12 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -807,6 +807,16 @@ ADT_Error adt_c_str_to_number_strict( ADT_Node* node )
 #	define GEN_CSV_ASSERT( msg )
 #endif
 
+// Skips whitespace, though never a delimiter
+internal char* _csv_trim( char* text, char delim, b32 catch_newline )
+{
+	while ( *text && *text != delim && char_is_space( *text ) && ! ( catch_newline && *text == '\n' ) )
+	{
+		++text;
+	}
+	return text;
+}
+
 u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b32 has_header, char delim )
 {
 	CSV_Error error = ECSV_Error__NONE;
@@ -814,21 +824,27 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 	GEN_ASSERT_NOT_NULL( text );
 	zero_item( root );
 
-	adt_make_branch( root, allocator, NULL, has_header ? false : true );
+	if ( adt_make_branch( root, allocator, NULL, has_header ? false : true ) )
+	{
+		GEN_CSV_ASSERT( "out of memory" );
+		error = ECSV_Error__INTERNAL;
+		return error;
+	}
 
 	char* currentChar = text;
 	char* beginChar;
 	char* endChar;
 
 	ssize columnIndex       = 0;
-	ssize totalColumnIndex = 0;
+	ssize totalColumnIndex = -1; // Unknown until the first row was read
 
 	do
 	{
 		char delimiter = 0;
-		currentChar = ccast( char*, c_str_trim( currentChar, false ));
+		// A line end after a delimiter ends the row with an empty item
+		currentChar = _csv_trim( currentChar, delim, columnIndex > 0 );
 
-		if ( *currentChar == 0 )
+		if ( *currentChar == 0 && columnIndex == 0 )
 			break;
 
 		ADT_Node rowItem = { 0 };
@@ -869,13 +885,20 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 			}
 
 			*endChar    = 0;
-			currentChar = ccast( char*, c_str_trim( endChar + 1, true ));
+			currentChar = _csv_trim( endChar + 1, delim, true );
 			delimiter   = * currentChar;
 
+			if ( delimiter != delim && delimiter != '\n' && delimiter != 0 )
+			{
+				GEN_CSV_ASSERT( "unexpected text after a quoted string" );
+				error = ECSV_Error__INTERNAL;
+				return error;
+			}
+
 			/* unescape escaped quotes (so that unescaped text escapes :) */
 			{
 				char* escapedChar = beginChar;
-				do
+				while ( *escapedChar )
 				{
 					if ( *escapedChar == '"' && *( escapedChar + 1 ) == '"' )
 					{
@@ -883,10 +906,9 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 					}
 					escapedChar++;
 				}
-				while ( *escapedChar );
 			}
 		}
-		else if ( *currentChar == delim )
+		else if ( *currentChar == delim || *currentChar == '\n' || *currentChar == 0 )
 		{
 			delimiter      = * currentChar;
 			rowItem.string = "";
@@ -906,7 +928,7 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 
 			if ( * endChar )
 			{
-				currentChar = ccast( char*, c_str_trim( endChar, true ));
+				currentChar = endChar;
 
 				while ( char_is_space( *( endChar - 1 ) ) )
 				{
@@ -952,10 +974,20 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 
 		if ( columnIndex >= scast(ssize, array_num(root->nodes)) )
 		{
-			adt_append_arr( root, NULL );
+			if ( adt_append_arr( root, NULL ) == NULL )
+			{
+				GEN_CSV_ASSERT( "out of memory" );
+				error = ECSV_Error__INTERNAL;
+				return error;
+			}
 		}
 
-		array_append( root->nodes[ columnIndex ].nodes, rowItem );
+		if ( ! array_append( root->nodes[ columnIndex ].nodes, rowItem ) )
+		{
+			GEN_CSV_ASSERT( "out of memory" );
+			error = ECSV_Error__INTERNAL;
+			return error;
+		}
 
 		if ( delimiter == delim )
 		{
@@ -965,7 +997,7 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 		else if ( delimiter == '\n' || delimiter == 0 )
 		{
 			/* check if number of rows is not mismatched */
-			if ( totalColumnIndex < columnIndex )
+			if ( totalColumnIndex < 0 )
 				totalColumnIndex = columnIndex;
 
 			else if ( totalColumnIndex != columnIndex )
@@ -981,7 +1013,7 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 				currentChar++;
 		}
 	}
-	while ( *currentChar );
+	while ( *currentChar || columnIndex > 0 );
 
 	if (array_num( root->nodes) == 0 )
 	{
@@ -1065,12 +1097,11 @@ void csv_write_delimiter( FileInfo* file, CSV_Object* obj, char delimiter )
 	if ( cols == 0 )
 		return;
 
-	ssize rows = array_num(obj->nodes[ 0 ].nodes);
-	if ( rows == 0 )
+	ssize rows        = array_num(obj->nodes[ 0 ].nodes);
+	b32   has_headers = obj->nodes[ 0 ].name != NULL;
+	if ( rows == 0 && ! has_headers )
 		return;
 
-	b32 has_headers = obj->nodes[ 0 ].name != NULL;
-
 	if ( has_headers )
 	{
 		for ( ssize i = 0; i < cols; i++ )
-- 
2.43.0


From 7549047bb1b31113a821ebb9d5691b61ec9c28fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 25/53] fix: nodes of a data tree must know their parent after
 its storage moved

---
 base/dependencies/parsing.cpp | 60 ++++++++++++++++++++++++++++++++---
 1 file changed, 55 insertions(+), 5 deletions(-)

diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index e39fb12..c1c51b5 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -273,6 +273,27 @@ ADT_Node* adt_query( ADT_Node* node, char const* uri )
 	return found_node;
 }
 
+// Nodes point to their parent: when a container's nodes moved, their children must follow
+internal void _adt_update_parents( ADT_Node* parent )
+{
+	if ( ( parent->type != EADT_TYPE_OBJECT && parent->type != EADT_TYPE_ARRAY ) || ! parent->nodes )
+		return;
+
+	for ( ssize i = 0; i < scast(ssize, array_num(parent->nodes)); i++ )
+	{
+		ADT_Node* child = & parent->nodes[i];
+		child->parent   = parent;
+
+		if ( ( child->type != EADT_TYPE_OBJECT && child->type != EADT_TYPE_ARRAY ) || ! child->nodes )
+			continue;
+
+		for ( ssize j = 0; j < scast(ssize, array_num(child->nodes)); j++ )
+		{
+			child->nodes[j].parent = child;
+		}
+	}
+}
+
 ADT_Node* adt_alloc_at( ADT_Node* parent, ssize index )
 {
 	if ( ! parent || ( parent->type != EADT_TYPE_OBJECT && parent->type != EADT_TYPE_ARRAY ) )
@@ -288,9 +309,14 @@ ADT_Node* adt_alloc_at( ADT_Node* parent, ssize index )
 
 	ADT_Node o = { 0 };
 	o.parent   = parent;
+
+	ADT_Node* old_nodes = parent->nodes;
 	if ( ! array_append_at( parent->nodes, o, index ) )
 		return NULL;
 
+	if ( parent->nodes != old_nodes || index + 1 < scast(ssize, array_num(parent->nodes)) )
+		_adt_update_parents( parent );
+
 	ADT_Node* node = & parent->nodes[index];
 	return node;
 }
@@ -343,13 +369,34 @@ ADT_Node* adt_move_node_at( ADT_Node* node, ADT_Node* new_parent, ssize index )
 {
 	GEN_ASSERT_NOT_NULL( node );
 	GEN_ASSERT_NOT_NULL( new_parent );
-	ADT_Node* old_parent = node->parent;
-	ADT_Node* new_node   = adt_alloc_at( new_parent, index );
-	*new_node            = *node;
-	new_node->parent     = new_parent;
+	ADT_Node* old_parent   = node->parent;
+	ADT_Node  moved        = *node;
+	ssize     old_index    = old_parent ? pointer_diff( old_parent->nodes, node ) / size_of( ADT_Node ) : -1;
+	ssize     parent_index = -1;
+
+	// The old parent may itself be a child of the new one, and then moves with its siblings
+	if ( old_parent && old_parent->parent == new_parent )
+		parent_index = pointer_diff( new_parent->nodes, old_parent ) / size_of( ADT_Node );
+
+	ADT_Node* new_node = adt_alloc_at( new_parent, index );
+	if ( ! new_node )
+		return NULL;
+
+	if ( parent_index >= 0 )
+		old_parent = & new_parent->nodes[ index <= parent_index ? parent_index + 1 : parent_index ];
+
+	if ( old_parent == new_parent && index <= old_index )
+		++old_index;
+
+	*new_node        = moved;
+	new_node->parent = new_parent;
+	_adt_update_parents( new_node );
 	if ( old_parent )
 	{
-		adt_remove_node( node );
+		adt_remove_node( & old_parent->nodes[ old_index ] );
+
+		if ( old_parent == new_parent && old_index < index )
+			--new_node;
 	}
 	return new_node;
 }
@@ -375,6 +422,8 @@ void adt_swap_nodes( ADT_Node* node, ADT_Node* other_node )
 	other_parent->nodes[ index2 ].parent = parent;
 	parent->nodes[ index ]               = other_parent->nodes[ index2 ];
 	other_parent->nodes[ index2 ]        = temp;
+	_adt_update_parents( & parent->nodes[ index ] );
+	_adt_update_parents( & other_parent->nodes[ index2 ] );
 }
 
 void adt_remove_node( ADT_Node* node )
@@ -384,6 +433,7 @@ void adt_remove_node( ADT_Node* node )
 	ADT_Node* parent = node->parent;
 	ssize        index  = ( pointer_diff( parent->nodes, node ) / size_of( ADT_Node ) );
 	array_remove_at( parent->nodes, index );
+	_adt_update_parents( parent );
 }
 
 ADT_Node* adt_append_obj( ADT_Node* parent, char const* name )
-- 
2.43.0


From 3d928a1d9c03dd83a3100a379eee4798c3905959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 26/53] fix: text cells of a table must not be cut at the
 length of a format buffer

---
 base/dependencies/parsing.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index c1c51b5..5eeeea1 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -801,7 +801,9 @@ ADT_Error adt_print_string( FileInfo* file, ADT_Node* node, char const* escaped_
 	do
 	{
 		p = c_str_skip_any( p, escaped_chars );
-		_adt_fprintf( file, "%.*s", pointer_diff( b, p ), b );
+		// Not formatted: there is no limit on its length
+		if ( p > b && ! file_write( file, b, pointer_diff( b, p ) ) )
+			return EADT_ERROR_OUT_OF_MEMORY;
 		if ( *p && ! ! char_first_occurence( escaped_chars, *p ) )
 		{
 			_adt_fprintf( file, "%s%c", escape_symbol, *p );
@@ -1112,7 +1114,7 @@ void _csv_write_record( FileInfo* file, CSV_Object* node )
 					case EADT_NAME_STYLE_NO_QUOTES :
 						{
 #endif
-							c_str_fmt_file( file, "%s", node->string );
+							file_write( file, node->string, c_str_len( node->string ) );
 #ifndef GEN_PARSER_DISABLE_ANALYSIS
 						}
 						break;
-- 
2.43.0


From adf1615ccd073852428e0cb070348cb2e4062234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 27/53] fix: a class or struct with a parent must print its
 access and parent, and interfaces must not need a parent

---
 base/components/code_serialization.cpp |  2 +-
 base/components/inlines.hpp            | 12 ++++++++++++
 base/components/types.hpp              |  6 +++---
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 9ec168b..14f2a69 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -158,7 +158,7 @@ void class_to_strbuilder_def( CodeClass self, StrBuilder* result )
 	if ( self->ParentType )
 	{
 		Str access_level = access_spec_to_str( self->ParentAccess );
-		strbuilder_append_fmt( result, " : %S %SB", self->Name, access_level, typename_to_strbuilder(self->ParentType) );
+		strbuilder_append_fmt( result, " : %S %SB", access_level, typename_to_strbuilder(self->ParentType) );
 
 		CodeTypename interface = cast(CodeTypename, self->ParentType->Next);
 		if ( interface )
diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 5bf6bf5..cc43a56 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -478,6 +478,12 @@ void class_add_interface( CodeClass self, CodeTypename type )
 		// If your planning on adding a proper parent,
 		// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
 	}
+	else
+	{
+		self->ParentAccess = AccessSpec_Public;
+		self->ParentType   = type;
+		return;
+	}
 
 	while ( possible_slot->Next != nullptr )
 	{
@@ -697,6 +703,12 @@ void struct_add_interface(CodeStruct self, CodeTypename type )
 		// If your planning on adding a proper parent,
 		// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
 	}
+	else
+	{
+		self->ParentAccess = AccessSpec_Public;
+		self->ParentType   = type;
+		return;
+	}
 
 	while ( possible_slot->Next != nullptr )
 	{
diff --git a/base/components/types.hpp b/base/components/types.hpp
index 18762ea..e736854 100644
--- a/base/components/types.hpp
+++ b/base/components/types.hpp
@@ -49,9 +49,9 @@ Str access_spec_to_str( AccessSpec type )
 	local_persist
 	Str lookup[ (u32)AccessSpec_Num_AccessSpec ] = {
 		{ "",        sizeof( "" )        - 1 },
-		{ "private", sizeof("prviate")   - 1 },
-		{ "private", sizeof("protected") - 1 },
-		{ "public",  sizeof("public")    - 1 },
+		{ "private",   sizeof("private")   - 1 },
+		{ "protected", sizeof("protected") - 1 },
+		{ "public",    sizeof("public")    - 1 },
 	};
 
 	Str invalid = { "Invalid", sizeof("Invalid") - 1 };
-- 
2.43.0


From 6139549e1993a2e6d8ab4ebc73964c361703dcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 28/53] fix: appended code must not bring its old neighbours
 along, def_params_arr must keep the first parameter whole, params_get and
 specifiers_remove must work

---
 base/components/inlines.hpp           | 47 ++++++++++++++-------------
 base/components/interface.upfront.cpp | 45 +++++++++++++++++--------
 2 files changed, 56 insertions(+), 36 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index cc43a56..abed0f2 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -322,8 +322,17 @@ void code_append( Code self, Code other )
 	GEN_ASSERT_MSG(self != other, "Attempted to recursively append Code AST to itself.");
 
 	if ( other->Parent != nullptr )
+	{
 		other = code_duplicate(other);
 
+		// The neighbours it has where it came from must not come along
+		if ( ! code_is_body(other) )
+		{
+			other->Prev = NullCode;
+			other->Next = NullCode;
+		}
+	}
+
 	other->Parent = self;
 
 	if ( self->Front == nullptr )
@@ -439,6 +448,9 @@ void body_append_body( CodeBody self, CodeBody body )
 	GEN_ASSERT(body);
 	GEN_ASSERT_MSG(self != body, "Attempted to append body to itself.");
 
+	if ( body->Front == nullptr )
+		return;
+
 	for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) ) {
 		body_append( self, entry );
 	}
@@ -454,7 +466,7 @@ Code begin_CodeBody( CodeBody body) {
 forceinline
 Code end_CodeBody(CodeBody body ){
 	GEN_ASSERT(body);
-	return body->Back->Next;
+	return body->Back ? body->Back->Next : NullCode;
 }
 inline
 Code next_CodeBody(CodeBody body, Code entry) {
@@ -505,8 +517,14 @@ void params_append( CodeParams appendee, CodeParams other )
 	Code entry = cast(Code, other);
 
 	if ( entry->Parent != nullptr )
+	{
 		entry = code_duplicate( entry );
 
+		// The parameters that follow it where it came from must not come along
+		entry->Last = NullCode;
+		entry->Next = NullCode;
+	}
+
 	entry->Parent = self;
 
 	if ( self->Last == nullptr )
@@ -526,14 +544,10 @@ CodeParams params_get(CodeParams self, s32 idx )
 {
 	GEN_ASSERT(self);
 	CodeParams param = self;
-	do
+	while ( param != nullptr && idx -- > 0 )
 	{
-		if ( ++ param != nullptr )
-			return NullCode;
-
 		param = cast(CodeParams, cast(Code, param)->Next);
 	}
-	while ( --idx );
 
 	return param;
 }
@@ -639,36 +653,23 @@ s32 specifiers_remove( CodeSpecifiers self, Specifier to_remove )
 		log_failure("CodeSpecifiers: Attempted to append to a null specifiers AST!");
 		return -1;
 	}
-	if ( self->NumEntries == AST_ArrSpecs_Cap )
-	{
-		log_failure("CodeSpecifiers: Attempted to append over %d specifiers to a specifiers AST!", AST_ArrSpecs_Cap );
-		return -1;
-	}
-
 	s32 result = -1;
 
 	s32 curr = 0;
-	s32 next = 0;
-	for(; next < self->NumEntries; ++ curr, ++ next)
+	for ( s32 next = 0; next < self->NumEntries; ++ next )
 	{
 		Specifier spec = self->ArrSpecs[next];
 		if (spec == to_remove)
 		{
 			result = next;
-
-			next ++;
-			if (next >= self->NumEntries)
-				break;
-
-			spec = self->ArrSpecs[next];
+			continue;
 		}
 
 		self->ArrSpecs[ curr ] = spec;
+		++ curr;
 	}
 
-	if (result > -1) {
-		self->NumEntries --;
-	}
+	self->NumEntries = curr;
 	return result;
 }
 forceinline
diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 3a7f3cf..64de344 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1419,6 +1419,12 @@ CodeDefineParams def_define_params( s32 num, ... )
 	}
 
 	CodeDefineParams result = (CodeDefineParams) code_duplicate(param);
+	if ( result->NumEntries <= 1 ) {
+		// The parameters that follow it where it came from must not come along
+		CodeDefineParams none = NullCode;
+		result->Last = none;
+		result->Next = none;
+	}
 	while ( -- num )
 	{
 		pod   = va_arg(va, Code_POD);
@@ -1447,14 +1453,18 @@ CodeDefineParams def_define_params_arr( s32 num, CodeDefineParams* codes )
 		log_failure("gen::def_define_params: Code in coes array is not of paramter for preprocessor define type - %s", code_debug_str(current) ); \
 		return InvalidCode;                                                                                                                       \
 	}
-	CodeDefineParams current = (CodeDefineParams)code_duplicate(* codes);
+	CodeDefineParams current = * codes;
 	check_current(current);
 
-	CodeDefineParams
-	result            = (CodeDefineParams) make_code();
-	result->Name      = current->Name;
-	result->Type      = current->Type;
-	while( codes++, current = * codes, num--, num > 0 ) {
+	CodeDefineParams result = (CodeDefineParams) code_duplicate(current);
+	if ( result->NumEntries <= 1 ) {
+		// The parameters that follow it where it came from must not come along
+		CodeDefineParams none = NullCode;
+		result->Last = none;
+		result->Next = none;
+	}
+	while( codes++, num--, num > 0 ) {
+		current = * codes;
 		check_current(current);
 		define_params_append(result, current );
 	}
@@ -1876,6 +1886,12 @@ CodeParams def_params( s32 num, ... )
 	}
 
 	CodeParams result = (CodeParams) code_duplicate(param);
+	if ( result->NumEntries <= 1 ) {
+		// The parameters that follow it where it came from must not come along
+		CodeParams none = NullCode;
+		result->Last = none;
+		result->Next = none;
+	}
 	while ( -- num )
 	{
 		pod   = va_arg(va, Code_POD);
@@ -1904,15 +1920,18 @@ CodeParams def_params_arr( s32 num, CodeParams* codes )
 		log_failure("gen::def_params: Code in coes array is not of paramter type - %s", code_debug_str(current) );     \
 		return InvalidCode;                                                                                            \
 	}
-	CodeParams current = (CodeParams)code_duplicate(* codes);
+	CodeParams current = * codes;
 	check_current(current);
 
-	CodeParams
-	result            = (CodeParams) make_code();
-	result->Name      = current->Name;
-	result->Type      = current->Type;
-	result->ValueType = current->ValueType;
-	while( codes++, current = * codes, num--, num > 0 ) {
+	CodeParams result = (CodeParams) code_duplicate(current);
+	if ( result->NumEntries <= 1 ) {
+		// The parameters that follow it where it came from must not come along
+		CodeParams none = NullCode;
+		result->Last = none;
+		result->Next = none;
+	}
+	while( codes++, num--, num > 0 ) {
+		current = * codes;
 		check_current(current);
 		params_append(result, current );
 	}
-- 
2.43.0


From 6cd16b0c9cdaf193d21d62c2d3a0a2b190b602e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:03 +0000
Subject: [PATCH 29/53] fix: parameter names of a parsed #define must outlive
 the parsed text

---
 base/components/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index e0dda8a..153822e 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3626,7 +3626,7 @@ CodeDefine parser_parse_define()
 		params->Type = CT_Parameters_Define;
 
 		if ( left && currtok.Type != Tok_Paren_Close ) {
-			params->Name = currtok.Text;
+			params->Name = cache_str( currtok.Text );
 			params->NumEntries ++;
 
 			eat( Tok_Preprocess_Define_Param );
@@ -3639,7 +3639,7 @@ CodeDefine parser_parse_define()
 
 			CodeDefineParams next_param = (CodeDefineParams) make_code();
 			next_param->Type = CT_Parameters_Define;
-			next_param->Name = currtok.Text;
+			next_param->Name = cache_str( currtok.Text );
 			define_params_append(params, next_param);
 
 			// #define  <Name> (  <param>, <next_param> ...
-- 
2.43.0


From 47a0a964717831926452efcb80a7ae93f00d8e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 30/53] fix: a nested class or struct must not replace the
 interfaces of the one around it

---
 base/components/parser.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 153822e..4bad309 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -728,12 +728,10 @@ Code parse_class_struct( TokType which, bool inplace_def )
 	}
 	// <ModuleFlags> <class/struct> <Attributes> <Name> <final>
 
-	local_persist
-	char interface_arr_mem[ kilobytes(4) ] = {0};
-	Array(CodeTypename) interfaces; {
-		Arena arena = arena_init_from_memory( interface_arr_mem, kilobytes(4) );
-		interfaces  = array_init_reserve(CodeTypename, arena_allocator_info(& arena), 4 );
-	}
+	// Not persisted, a nested class or struct has its own interfaces.
+	char  interface_arr_mem[ kilobytes(4) ] = {0};
+	Arena interface_arena = arena_init_from_memory( interface_arr_mem, kilobytes(4) );
+	Array(CodeTypename) interfaces = array_init_reserve(CodeTypename, arena_allocator_info(& interface_arena), 4 );
 
 	// TODO(Ed) : Make an AST_DerivedType, we'll store any arbitary derived type into there as a linear linked list of them.
 	if ( check( Tok_Assign_Classifer ) )
-- 
2.43.0


From 093d2e19890aa340c210811c96615f99f5201424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:58 +0000
Subject: [PATCH 31/53] fix: token_fmt must not take names with equal crc32 for
 each other

---
 base/components/interface.untyped.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index 5237c8d..0d6923a 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -20,7 +20,7 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 			char const* token = va_arg( va, char const* );
 			Str         value = va_arg( va, Str );
 
-			u32 key = crc32( token, c_str_len(token) );
+			u64 key = crc64( token, c_str_len(token) );
 			hashtable_set( _ctx->token_fmt_map, key, value );
 		}
 	}
@@ -60,7 +60,7 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 
 			char const* token = fmt + 1;
 
-			u32      key   = crc32( token, tok_len );
+			u64      key   = crc64( token, tok_len );
 			Str*     value = *scanner ? hashtable_get(_ctx->token_fmt_map, key ) : nullptr;
 
 			if ( value )
-- 
2.43.0


From c497598888a2380515ff5e362c1e71975a4c538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 32/53] fix: the relative clock must start once, also when its
 first reading is zero

---
 base/dependencies/timing.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/dependencies/timing.cpp b/base/dependencies/timing.cpp
index 218c2ce..03c29e4 100644
--- a/base/dependencies/timing.cpp
+++ b/base/dependencies/timing.cpp
@@ -144,10 +144,13 @@
 		result = 1.0e-6 * ( mach_absolute_time() - timestart ) * timebase;
 		return result;
 	#	else
-		local_persist u64 unix_timestart = 0.0;
+		local_persist b32 unix_started   = false;
+		local_persist u64 unix_timestart = 0;
 
-		if ( ! unix_timestart )
+		// The first reading may be zero
+		if ( ! unix_started )
 		{
+			unix_started   = true;
 			unix_timestart = _unix_gettime();
 		}
 
-- 
2.43.0


From d52fcd7ad873919399963c6c93e3fa8657c7e6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:56 +0000
Subject: [PATCH 33/53] fix: printing an export body must print what is in it
 instead of recursing without end

---
 base/components/code_serialization.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 14f2a69..e8c0c4b 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -38,13 +38,13 @@ void body_to_strbuilder_export( CodeBody body, StrBuilder* result )
 	GEN_ASSERT(result != nullptr);
 	strbuilder_append_fmt( result, "export\n{\n" );
 
-	Code curr = cast(Code, body);
+	Code curr = body->Front;
 	s32  left = body->NumEntries;
 	while ( left-- )
 	{
 		code_to_strbuilder_ref(curr, result);
 		// strbuilder_append_fmt( result, "%SB", code_to_strbuilder(curr) );
-		++curr;
+		curr = curr->Next;
 	}
 
 	strbuilder_append_fmt( result, "};\n" );
-- 
2.43.0


From c85c70819e98ba377aef2bf5a0be28a906b1012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:56 +0000
Subject: [PATCH 34/53] fix: a duplicate must not keep the neighbours of its
 original

---
 base/components/ast.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index d8042b5..05b24a3 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -373,6 +373,13 @@ Code code_duplicate(Code self)
 	mem_copy( mem_result, mem_self, sizeof( AST ) );
 
 	result->Parent = NullCode;
+
+	// The neighbours it has where it came from must not come along, the rest of a parameter list must
+	if ( ! code_is_body(result) && result->Type != CT_Parameters )
+	{
+		result->Prev = NullCode;
+		result->Next = NullCode;
+	}
 	return result;
 }
 
-- 
2.43.0


From 2f9bd255ff4c4591f7b59883f5e75a076c85980b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:15 +0000
Subject: [PATCH 35/53] fix: the report of a parse error must not read past the
 end of the source

---
 base/components/parser.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 4bad309..06ac3a1 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -52,9 +52,6 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 	sptr   dist            = (sptr)last_valid.Text.Ptr - (sptr)scope_start.Text.Ptr + 2;
 	sptr   length_from_err = dist;
 
-	Str err_str        = { last_valid.Text.Ptr, length_from_err };
-	StrBuilder line_from_err = strbuilder_make_str( _ctx->Allocator_Temp, err_str );
-
 	if ( length_from_err < 100 )
 		strbuilder_append_fmt(& result, "\t(%d, %d):%*c\n", last_valid.Line, last_valid.Column, length_from_err, '^' );
 	else
-- 
2.43.0


From d6bce1d7d0be84b5a446287e74e0222db8732c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:51 +0000
Subject: [PATCH 36/53] fix: a cast operator with an empty body must not be
 given a negative length of text

---
 base/components/parser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 06ac3a1..0311279 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4433,7 +4433,15 @@ CodeOpCast parser_parse_operator_cast( CodeSpecifiers specifiers )
 		eat( Tok_BraceCurly_Close );
 		// <Specifiers> <Qualifier> :: ... operator <UnderlyingType>() <const> { <Body> }
 
-		body = untyped_str( body_str.Text );
+		if ( body_str.Text.Len > 0 )
+		{
+			body = untyped_str( body_str.Text );
+		}
+		else
+		{
+			body       = make_code();
+			body->Type = CT_Function_Body;
+		}
 	}
 	else
 	{
-- 
2.43.0


From 9053179c26787f26c0c030dbf3d7a97766db7cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 37/53] fix: constructors and destructors must print the name
 of their class and print outside of one

---
 base/components/code_serialization.cpp | 41 +++++++++++++-------------
 base/components/interface.upfront.cpp  |  1 +
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index e8c0c4b..35a431b 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -70,7 +70,7 @@ void constructor_to_strbuilder_def(CodeConstructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	Code ClassStructParent = self->Parent->Parent;
+	Code ClassStructParent = self->Parent ? self->Parent->Parent : NullCode;
 	if (ClassStructParent) {
 		strbuilder_append_str( result, ClassStructParent->Name );
 	}
@@ -96,7 +96,7 @@ void constructor_to_strbuilder_fwd(CodeConstructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	Code ClassStructParent = self->Parent->Parent;
+	Code ClassStructParent = self->Parent ? self->Parent->Parent : NullCode;
 	if (ClassStructParent) {
 		strbuilder_append_str( result, ClassStructParent->Name );
 	}
@@ -260,15 +260,16 @@ void destructor_to_strbuilder_def(CodeDestructor self, StrBuilder* result )
 	{
 		strbuilder_append_fmt( result, "%S()", self->Name );
 	}
-	else if ( self->Specs )
+	else
 	{
-		if ( specifiers_has(self->Specs, Spec_Virtual ) )
-			strbuilder_append_fmt( result, "virtual ~%S()", self->Parent->Name );
+		Code ClassStructParent = self->Parent ? self->Parent->Parent : NullCode;
+		Str  name              = ClassStructParent ? ClassStructParent->Name : txt("");
+
+		if ( self->Specs && specifiers_has(self->Specs, Spec_Virtual ) )
+			strbuilder_append_fmt( result, "virtual ~%S()", name );
 		else
-			strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
+			strbuilder_append_fmt( result, "~%S()", name );
 	}
-	else
-		strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
 
 	strbuilder_append_fmt( result, "\n{\n%SB\n}\n", code_to_strbuilder(self->Body) );
 }
@@ -277,20 +278,20 @@ void destructor_to_strbuilder_fwd(CodeDestructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	if ( self->Specs )
-	{
-		if ( specifiers_has(self->Specs, Spec_Virtual ) )
-			strbuilder_append_fmt( result, "virtual ~%S();\n", self->Parent->Name );
-		else
-			strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
+	Code ClassStructParent = self->Parent ? self->Parent->Parent : NullCode;
+	Str  name              = ClassStructParent ? ClassStructParent->Name : txt("");
 
-		if ( specifiers_has(self->Specs, Spec_Pure ) )
-			strbuilder_append_str( result, txt(" = 0;") );
-		else if (self->Body)
-			strbuilder_append_fmt( result, " = %SB;", code_to_strbuilder(self->Body) );
-	}
+	if ( self->Specs && specifiers_has(self->Specs, Spec_Virtual ) )
+		strbuilder_append_fmt( result, "virtual ~%S()", name );
 	else
-		strbuilder_append_fmt( result, "~%S();", self->Parent->Name );
+		strbuilder_append_fmt( result, "~%S()", name );
+
+	if ( self->Specs && specifiers_has(self->Specs, Spec_Pure ) )
+		strbuilder_append_str( result, txt(" = 0;") );
+	else if ( self->Specs && self->Body )
+		strbuilder_append_fmt( result, " = %SB;", code_to_strbuilder(self->Body) );
+	else
+		strbuilder_append_str( result, txt(";") );
 
 	if ( self->InlineCmt )
 		strbuilder_append_fmt( result, "  %S", self->InlineCmt->Content );
diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 64de344..ef8ec74 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1061,6 +1061,7 @@ CodeStruct def_struct( Str name, Opts_def_struct p )
 	if ( p.body ) {
 		result->Type = CT_Struct;
 		result->Body = p.body;
+		result->Body->Parent = cast(Code, result);
 	}
 	else {
 		result->Type = CT_Struct_Fwd;
-- 
2.43.0


From 4098f11eac58a167a082f88b9f29c5eebc3fad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:25 +0000
Subject: [PATCH 38/53] fix: parse_constructor must look at its own tokens, not
 at those of an earlier parse

---
 base/components/interface.parsing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/components/interface.parsing.cpp b/base/components/interface.parsing.cpp
index d5f4bef..54cd65a 100644
--- a/base/components/interface.parsing.cpp
+++ b/base/components/interface.parsing.cpp
@@ -33,6 +33,8 @@ CodeConstructor parse_constructor( Str def )
 
 	// TODO(Ed): Constructors can have prefix attributes
 
+	_ctx->parser.Tokens = toks;
+
 	CodeSpecifiers specifiers = NullCode;
 	Specifier      specs_found[ 16 ] = { Spec_NumSpecifiers };
 	s32            NumSpecifiers = 0;
@@ -77,7 +79,6 @@ CodeConstructor parse_constructor( Str def )
 		// <specifiers> ...
 	}
 
-	_ctx->parser.Tokens         = toks;
 	CodeConstructor result = parser_parse_constructor( specifiers );
 	return result;
 }
-- 
2.43.0


From b45bdd097cc51a8e636a9692a05df309cb4c5b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:59 +0000
Subject: [PATCH 39/53] fix: describing a piece of code must name the piece
 after it, not the one before

---
 base/components/ast.cpp | 46 ++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index 05b24a3..f3ae0b4 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -29,7 +29,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 		break;
 
 		case CT_Untyped:
@@ -46,7 +46,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tContent: %S", self->Content );
 		break;
@@ -61,7 +61,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -75,7 +75,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -87,7 +87,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                                       : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) )           : txt("Null") );
@@ -100,7 +100,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                                       : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) )           : txt("Null") );
@@ -112,7 +112,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                             : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) ) : txt("Null") );
@@ -127,7 +127,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt       : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes      : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )    : txt("Null") );
@@ -140,7 +140,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt       : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes      : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )    : txt("Null") );
@@ -152,7 +152,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tBody: %S", self->Body ? code_debug_str(self->Body) : txt("Null") );
 		break;
@@ -161,7 +161,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt  : %S", self->InlineCmt   ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tDeclaration: %S", self->Declaration ? strbuilder_to_str( code_to_strbuilder(self->Declaration)) : txt("Null") );
@@ -171,7 +171,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -185,7 +185,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -198,7 +198,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 		break;
 
 		case CT_Operator:
@@ -206,7 +206,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -222,7 +222,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -236,7 +236,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs     : %S", self->Specs      ? strbuilder_to_str( code_to_strbuilder(self->Specs))     : txt("Null") );
@@ -248,7 +248,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs     : %S", self->Specs      ? strbuilder_to_str( code_to_strbuilder(self->Specs))     : txt("Null") );
@@ -289,7 +289,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tParams     : %S", self->Params      ? strbuilder_to_str( code_to_strbuilder(self->Params))      : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tDeclaration: %S", self->Declaration ? strbuilder_to_str( code_to_strbuilder(self->Declaration)) : txt("Null") );
@@ -299,7 +299,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt     : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tUnderlyingType: %S", self->UnderlyingType ? strbuilder_to_str( code_to_strbuilder(self->UnderlyingType)) : txt("Null") );
@@ -317,7 +317,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tBody      : %S", self->Body       ? code_debug_str(self->Body)                                : txt("Null") );
@@ -327,7 +327,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt     : %S", self->InlineCmt      ? self->InlineCmt->Content                                      : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes    : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )     : txt("Null") );
@@ -349,7 +349,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt    ? self->InlineCmt->Content                                    : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes   ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )   : txt("Null") );
-- 
2.43.0


From e5d3bb3ed7e4965053d5b9e0336196fa0887715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:35 +0000
Subject: [PATCH 40/53] fix: c_str_fmt_va must not write past its buffer nor
 skip text that does not fit without saying so

---
 base/dependencies/printing.cpp | 98 ++++++++++++++++++++++++++--------
 1 file changed, 76 insertions(+), 22 deletions(-)

diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index 684f0ea..1034f23 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -40,14 +40,17 @@ struct _format_info
 	s32 precision;
 };
 
+// Printing a piece of the text gives -1 when that piece does not fit within max_len
 internal ssize _print_string( char* text, ssize max_len, _format_info* info, char const* str )
 {
 	ssize res = 0, len = 0;
-	ssize remaining = max_len;
-	char* begin     = text;
+	char* begin = text;
 
-	if ( str == NULL && max_len >= 6 )
+	if ( str == NULL )
 	{
+		if ( max_len < 6 )
+			return -1;
+
 		res += c_str_copy_nulpad( text, "(null)", 6 );
 		return res;
 	}
@@ -67,17 +70,19 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 	{
 		if ( info->precision > 0 )
 			len = info->precision < len ? info->precision : len;
-		if ( res + len > max_len )
-			return res;
+		if ( len > max_len )
+			return -1;
 		res  += c_str_copy_nulpad( text, str, len );
 		text += res;
 
 		if ( info->width > res )
 		{
 			ssize padding = info->width - len;
+			if ( padding > max_len - res )
+				return -1;
 
 			char pad = ( info->flags & GEN_FMT_ZERO ) ? '0' : ' ';
-			while ( padding-- > 0 && remaining-- > 0 )
+			while ( padding-- > 0 )
 				*text++ = pad, res++;
 		}
 	}
@@ -86,22 +91,28 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 		if ( info && ( info->width > res ) )
 		{
 			ssize   padding = info->width - len;
+			if ( padding > max_len )
+				return -1;
+
 			char pad     = ( info->flags & GEN_FMT_ZERO ) ? '0' : ' ';
-			while ( padding-- > 0 && remaining-- > 0 )
+			while ( padding-- > 0 )
 				*text++ = pad, res++;
 		}
 
-		if ( res + len > max_len )
-			return res;
+		if ( len > max_len - res )
+			return -1;
 		res += c_str_copy_nulpad( text, str, len );
 	}
 
 	if ( info )
 	{
+		char* end = begin + res;
 		if ( info->flags & GEN_FMT_UPPER )
-			c_str_to_upper( begin );
+			while ( begin < end )
+				*begin = char_to_upper( *begin ), begin++;
 		else if ( info->flags & GEN_FMT_LOWER )
-			c_str_to_lower( begin );
+			while ( begin < end )
+				*begin = char_to_lower( *begin ), begin++;
 	}
 
 	return res;
@@ -118,6 +129,8 @@ internal ssize _print_repeated_char( char* text, ssize max_len, _format_info* in
 {
 	ssize  res = 0;
 	s32 rem = ( info ) ? ( info->width > 0 ) ? info->width : 1 : 1;
+	if ( rem > max_len )
+		return -1;
 	res     = rem;
 	while ( rem-- > 0 )
 		*text++ = arg;
@@ -238,19 +251,57 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 	return ( text - text_begin );
 }
 
+internal ssize _print_f64_within( char* text, ssize max_len, _format_info* info, b32 is_hexadecimal, f64 arg )
+{
+	char  num[ 1024 ];
+	ssize bound = 64;    // The sign, the digits of the integer and the point.
+	ssize len;
+
+	// Each decimal place may take as many digits as an integer has
+	bound += 21 * scast( ssize, info->precision < 0 ? 6 : info->precision );
+	if ( info->width > bound )
+		bound = scast( ssize, info->width ) + 2;
+
+	if ( bound <= max_len )
+		return _print_f64( text, bound, info, is_hexadecimal, arg );
+
+	if ( bound > size_of( num ) )
+		return -1;
+
+	len = _print_f64( num, size_of( num ), info, is_hexadecimal, arg );
+	if ( len > max_len )
+		return -1;
+
+	mem_copy( text, num, len );
+	return len;
+}
+
 neverinline ssize c_str_fmt_va( char* text, ssize max_len, char const* fmt, va_list va )
 {
 	char const* text_begin = text;
-	ssize          remaining  = max_len, res;
+	ssize          remaining  = max_len - 1, res;    // The terminator needs its place too
+	b32            lost       = false;
 
-	while ( *fmt )
+	if ( max_len <= 0 )
+		return -1;
+
+	while ( *fmt && ! lost )
 	{
 		_format_info info = { 0 };
 		ssize        len  = 0;
 		info.precision    = -1;
 
 		while ( *fmt && *fmt != '%' && remaining )
-			*text++ = *fmt++;
+			*text++ = *fmt++, remaining--;
+
+		if ( *fmt == '\0' )
+			break;
+
+		if ( *fmt != '%' )
+		{
+			lost = true;
+			break;
+		}
 
 		if ( *fmt == '%' )
 		{
@@ -401,12 +452,12 @@ neverinline ssize c_str_fmt_va( char* text, ssize max_len, char const* fmt, va_l
 			case 'F' :
 			case 'g' :
 			case 'G' :
-				len = _print_f64( text, remaining, &info, 0, va_arg( va, f64 ) );
+				len = _print_f64_within( text, remaining, &info, 0, va_arg( va, f64 ) );
 				break;
 
 			case 'a' :
 			case 'A' :
-				len = _print_f64( text, remaining, &info, 1, va_arg( va, f64 ) );
+				len = _print_f64_within( text, remaining, &info, 1, va_arg( va, f64 ) );
 				break;
 
 			case 'c' :
@@ -520,16 +571,19 @@ neverinline ssize c_str_fmt_va( char* text, ssize max_len, char const* fmt, va_l
 			}
 		}
 
-		text += len;
-		if ( len >= remaining )
-			remaining = min( remaining, 1 );
-		else
-			remaining -= len;
+		if ( len < 0 )
+		{
+			lost = true;
+			break;
+		}
+
+		text      += len;
+		remaining -= len;
 	}
 
 	*text++ = '\0';
 	res     = ( text - text_begin );
-	return ( res >= max_len || res < 0 ) ? -1 : res;
+	return lost ? -1 : res;
 }
 
 char* c_str_fmt_buf_va( char const* fmt, va_list va )
-- 
2.43.0


From 834dbfaf14b900fe6698b18e2ebabd68d9739e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:41 +0000
Subject: [PATCH 41/53] fix: the message about an invalid variadic argument
 must stay within the source

---
 base/components/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 68fc513..c989341 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -708,7 +708,7 @@ TokArray lex( Str content )
 					}
 					else
 					{
-						StrBuilder context_str = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%s", c.scanner, min( 100, c.left ) );
+						StrBuilder context_str = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%.*s", min( 100, c.left ), c.scanner );
 
 						log_failure( "gen::lex: invalid varadic argument, expected '...' got '..%c' (%d, %d)\n%s", (* ctx->scanner), c.line, c.column, context_str );
 					}
-- 
2.43.0


From fdd656f02db85680d7bffdc0e5e4f820fbb12e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:41 +0000
Subject: [PATCH 42/53] fix: formatted printing must keep texts larger than its
 buffer

---
 base/auxiliary/builder.cpp            |  7 +--
 base/components/interface.untyped.cpp | 11 +++-
 base/components/interface.upfront.cpp | 10 ++--
 base/components/parser.cpp            |  5 +-
 base/dependencies/printing.cpp        | 31 +++++++++-
 base/dependencies/strings.hpp         | 82 +++++++++++++++++++++------
 6 files changed, 110 insertions(+), 36 deletions(-)

diff --git a/base/auxiliary/builder.cpp b/base/auxiliary/builder.cpp
index de684ca..110eacb 100644
--- a/base/auxiliary/builder.cpp
+++ b/base/auxiliary/builder.cpp
@@ -40,12 +40,7 @@ void builder_print( Builder* builder, Code code )
 
 void builder_print_fmt_va( Builder* builder, char const* fmt, va_list va )
 {
-	ssize   res;
-	char buf[ GEN_PRINTF_MAXLEN ] = { 0 };
-
-	res = c_str_fmt_va( buf, count_of( buf ) - 1, fmt, va ) - 1;
-
-	strbuilder_append_c_str_len( (StrBuilder*) & (builder->Buffer), (char const*)buf, res);
+	strbuilder_append_fmt_va( (StrBuilder*) & (builder->Buffer), fmt, va );
 }
 
 void builder_write(Builder* builder)
diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index 0d6923a..09b75db 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -140,14 +140,19 @@ Code untyped_fmt( char const* fmt, ...)
 
 	va_list va;
 	va_start(va, fmt);
-	ssize length = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va) - 1;
+	StrBuilder content = strbuilder_fmt_va(_ctx->Allocator_Temp, buf, GEN_PRINTF_MAXLEN, fmt, va);
 	va_end(va);
-    Str content = { buf, length };
+
+	if ( ! content )
+	{
+		log_failure( "untyped_fmt: could not allocate memory for the text" );
+		return InvalidCode;
+	}
 
 	Code
 	result          = make_code();
 	result->Type    = CT_Untyped;
-	result->Content = cache_str( content );
+	result->Content = cache_str( strbuilder_to_str(content) );
 
 	if ( result->Content.Len == 0 )
 	{
diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index ef8ec74..9801fff 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -877,19 +877,17 @@ CodeOperator def_operator( Operator op, Str nspace, Opts_def_operator p )
 		return InvalidCode;
 	}
 
-	char const* name = nullptr;
+	StrBuilder name;
 
 	Str op_str = operator_to_str( op );
 	if ( nspace.Len > 0 )
-		name = c_str_fmt_buf( "%.*soperator %.*s", nspace.Len, nspace.Ptr, op_str.Len, op_str.Ptr );
+		name = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%.*soperator %.*s", nspace.Len, nspace.Ptr, op_str.Len, op_str.Ptr );
 	else
-		name = c_str_fmt_buf( "operator %.*s", op_str.Len, op_str.Ptr );
-
-	Str name_resolved = { name, c_str_len(name) };
+		name = strbuilder_fmt_buf( _ctx->Allocator_Temp, "operator %.*s", op_str.Len, op_str.Ptr );
 
 	CodeOperator
 	result              = (CodeOperator) make_code();
-	result->Name        = cache_str( name_resolved );
+	result->Name        = cache_str( strbuilder_to_str(name) );
 	result->ModuleFlags = p.mflags;
 	result->Op          = op;
 	if ( p.body )
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 0311279..a9835e8 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3200,9 +3200,8 @@ Code parse_static_assert()
 
 	content.Text.Len  = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)content.Text.Ptr;
 
-	char const* str  = c_str_fmt_buf( "%.*s\n", content.Text.Len, content.Text.Ptr );
-	Str content_str = { str, content.Text.Len + 1 };
-	assert->Content = cache_str( content_str );
+	StrBuilder content_str = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%.*s\n", content.Text.Len, content.Text.Ptr );
+	assert->Content = cache_str( strbuilder_to_str(content_str) );
 	assert->Name	= assert->Content;
 
 	parser_pop(& _ctx->parser);
diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index 1034f23..2f17a7a 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -606,8 +606,35 @@ char* c_str_fmt_buf( char const* fmt, ... )
 ssize c_str_fmt_file_va( FileInfo* f, char const* fmt, va_list va )
 {
 	local_persist thread_local char buf[ GEN_PRINTF_MAXLEN ];
-	ssize                              len = c_str_fmt_va( buf, size_of( buf ), fmt, va );
-	b32                             res = file_write( f, buf, len - 1 );    // NOTE: prevent extra whitespace
+	char*                              text = buf;
+	ssize                              size = size_of( buf );
+	ssize                              len;
+	b32                             res;
+
+	for ( ;; )
+	{
+		va_list args;
+		va_copy( args, va );
+		len = c_str_fmt_va( text, size, fmt, args );
+		va_end( args );
+
+		if ( len >= 0 )
+			break;
+
+		// The text does not fit: Print it into memory that is large enough instead.
+		if ( text != buf )
+			allocator_free( heap(), text );
+
+		size *= 2;
+		text  = alloc_array( heap(), char, size );
+		if ( text == nullptr )
+			return -1;
+	}
+
+	res = file_write( f, text, len - 1 );    // NOTE: prevent extra whitespace
+	if ( text != buf )
+		allocator_free( heap(), text );
+
 	return res ? len : -1;
 }
 
diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index ba252ec..6c7e3ae 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -132,6 +132,7 @@ GEN_API StrBuilder        strbuilder_visualize_whitespace(StrBuilder const str);
 StrBuilder        strbuilder_make_c_str          (AllocatorInfo allocator, char const*  str);
 StrBuilder        strbuilder_make_str            (AllocatorInfo allocator, Str         str);
 StrBuilder        strbuilder_fmt                 (AllocatorInfo allocator, char*        buf,   ssize buf_size,  char const* fmt, ...);
+StrBuilder        strbuilder_fmt_va              (AllocatorInfo allocator, char*        buf,   ssize buf_size,  char const* fmt, va_list va);
 StrBuilder        strbuilder_fmt_buf             (AllocatorInfo allocator, char const*  fmt, ...);
 StrBuilder        strbuilder_join                (AllocatorInfo allocator, char const** parts, ssize num_parts, char const* glue);
 bool              strbuilder_are_equal           (StrBuilder const lhs, StrBuilder const rhs);
@@ -141,6 +142,7 @@ bool              strbuilder_append_c_str        (StrBuilder*      str, char con
 bool              strbuilder_append_str          (StrBuilder*      str, Str         c_str_to_append);
 bool              strbuilder_append_string       (StrBuilder*      str, StrBuilder const other);
 bool              strbuilder_append_fmt          (StrBuilder*      str, char const*  fmt, ...);
+bool              strbuilder_append_fmt_va       (StrBuilder*      str, char const*  fmt, va_list va);
 ssize             strbuilder_avail_space         (StrBuilder const str);
 char*             strbuilder_back                (StrBuilder       str);
 bool              strbuilder_contains_str        (StrBuilder const str, Str         substring);
@@ -207,9 +209,9 @@ struct StrBuilder
 	StrBuilder fmt(AllocatorInfo allocator, char* buf, ssize buf_size, char const* fmt, ...) {
 		va_list va;
 		va_start(va, fmt);
-		ssize res = c_str_fmt_va(buf, buf_size, fmt, va) - 1;
+		StrBuilder res = strbuilder_fmt_va(allocator, buf, buf_size, fmt, va);
 		va_end(va);
-		return strbuilder_make_length(allocator, buf, res);
+		return res;
 	}
 
 	static
@@ -218,9 +220,9 @@ struct StrBuilder
 		char buf[GEN_PRINTF_MAXLEN] = { 0 };
 		va_list va;
 		va_start(va, fmt);
-		ssize res = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va) - 1;
+		StrBuilder res = strbuilder_fmt_va(allocator, buf, GEN_PRINTF_MAXLEN, fmt, va);
 		va_end(va);
-		return strbuilder_make_length(allocator, buf, res);
+		return res;
 	}
 
 	forceinline bool              make_space_for(char const* str, ssize add_len) { return strbuilder_make_space_for(this, str, add_len); }
@@ -251,15 +253,12 @@ struct StrBuilder
 	forceinline StrBuilderHeader& get_header()                                   { return * strbuilder_get_header(* this); }
 
 	bool append_fmt(char const* fmt, ...) {
-		ssize res;
-		char buf[GEN_PRINTF_MAXLEN] = { 0 };
-
 		va_list va;
 		va_start(va, fmt);
-		res = c_str_fmt_va(buf, count_of(buf) - 1, fmt, va) - 1;
+		bool res = strbuilder_append_fmt_va(this, fmt, va);
 		va_end(va);
 
-		return strbuilder_append_c_str_len(this, buf, res);
+		return res;
 	}
 #pragma endregion Member Mapping
 #endif
@@ -306,14 +305,44 @@ StrBuilder strbuilder_make_str(AllocatorInfo allocator, Str str) {
 	return strbuilder_make_length(allocator, str.Ptr, str.Len);
 }
 
+inline
+StrBuilder strbuilder_fmt_va(AllocatorInfo allocator, char* buf, ssize buf_size, char const* fmt, va_list va)
+{
+	va_list args;
+	va_copy(args, va);
+	ssize res = c_str_fmt_va(buf, buf_size, fmt, args) - 1;
+	va_end(args);
+
+	if (res >= 0)
+		return strbuilder_make_length(allocator, buf, res);
+
+	// The text does not fit into buf: Print it into a string that is large enough instead.
+	for (ssize capacity = 2 * (buf_size > 64 ? buf_size : 64); ; capacity *= 2)
+	{
+		StrBuilder result = strbuilder_make_reserve(allocator, capacity);
+		if (! result)
+			return result;
+
+		va_copy(args, va);
+		res = c_str_fmt_va((char*)result, capacity + 1, fmt, args) - 1;
+		va_end(args);
+
+		if (res >= 0) {
+			strbuilder_get_header(result)->Length = res;
+			return result;
+		}
+		strbuilder_free(& result);
+	}
+}
+
 inline
 StrBuilder strbuilder_fmt(AllocatorInfo allocator, char* buf, ssize buf_size, char const* fmt, ...) {
 	va_list va;
 	va_start(va, fmt);
-	ssize res = c_str_fmt_va(buf, buf_size, fmt, va) - 1;
+	StrBuilder res = strbuilder_fmt_va(allocator, buf, buf_size, fmt, va);
 	va_end(va);
 
-	return strbuilder_make_length(allocator, buf, res);
+	return res;
 }
 
 inline
@@ -324,10 +353,10 @@ StrBuilder strbuilder_fmt_buf(AllocatorInfo allocator, char const* fmt, ...)
 
 	va_list va;
 	va_start(va, fmt);
-	ssize res = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va) -1;
+	StrBuilder res = strbuilder_fmt_va(allocator, buf, GEN_PRINTF_MAXLEN, fmt, va);
 	va_end(va);
 
-	return strbuilder_make_length(allocator, buf, res);
+	return res;
 }
 
 inline
@@ -371,17 +400,38 @@ bool strbuilder_append_string(StrBuilder* str, StrBuilder const other) {
 }
 
 inline
-bool strbuilder_append_fmt(StrBuilder* str, char const* fmt, ...) {
+bool strbuilder_append_fmt_va(StrBuilder* str, char const* fmt, va_list va)
+{
 	GEN_ASSERT(str != nullptr);
 	ssize res;
 	char buf[GEN_PRINTF_MAXLEN] = { 0 };
 
+	va_list args;
+	va_copy(args, va);
+	res = c_str_fmt_va(buf, count_of(buf), fmt, args) - 1;
+	va_end(args);
+
+	if (res >= 0)
+		return strbuilder_append_c_str_len(str, (char const*)buf, res);
+
+	StrBuilder text = strbuilder_fmt_va(strbuilder_get_header(* str)->Allocator, buf, count_of(buf), fmt, va);
+	if (! text)
+		return false;
+
+	bool result = strbuilder_append_string(str, text);
+	strbuilder_free(& text);
+	return result;
+}
+
+inline
+bool strbuilder_append_fmt(StrBuilder* str, char const* fmt, ...) {
+	GEN_ASSERT(str != nullptr);
 	va_list va;
 	va_start(va, fmt);
-	res = c_str_fmt_va(buf, count_of(buf) - 1, fmt, va) - 1;
+	bool res = strbuilder_append_fmt_va(str, fmt, va);
 	va_end(va);
 
-	return strbuilder_append_c_str_len(str, (char const*)buf, res);
+	return res;
 }
 
 inline
-- 
2.43.0


From 8384a020571ff60c5c51d8f16265effca05b30ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:23 +0000
Subject: [PATCH 43/53] fix: report the location of a parse error that occurs
 without a scope or tokens

---
 base/components/parser.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index a9835e8..564a64e 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -26,19 +26,26 @@ void parser_pop(ParseContext* ctx)
 #if 0 && GEN_BUILD_DEBUG
 	log_fmt("\tPopping  _ctx->parser: %.*s\n", Scope->ProcName.Len, Scope->ProcName.Ptr );
 #endif
-	ctx->Scope = ctx->Scope->Prev;
+	if ( ctx->Scope )
+		ctx->Scope = ctx->Scope->Prev;
 }
 
 StrBuilder parser_to_strbuilder(ParseContext ctx)
 {
 	StrBuilder result = strbuilder_make_reserve( _ctx->Allocator_Temp, kilobytes(4) );
 
-	Token scope_start = * ctx.Scope->Start;
-	Token last_valid  = ctx.Tokens.Idx >= array_num(ctx.Tokens.Arr) ? ctx.Tokens.Arr[array_num(ctx.Tokens.Arr) -1] : (* lex_current(& ctx.Tokens, true));
+	// Nothing was lexed, there is no location to report.
+	if ( ctx.Tokens.Arr == nullptr || array_num(ctx.Tokens.Arr) == 0 )
+		return result;
+
+	Token* last_tok    = array_back( ctx.Tokens.Arr );
+	// No scope: the error occurred outside of any parsing procedure. A scope entered after the last token has nothing to start at.
+	Token  scope_start = ctx.Scope && ctx.Scope->Start <= last_tok ? * ctx.Scope->Start : * last_tok;
+	Token  last_valid  = ctx.Tokens.Idx >= array_num(ctx.Tokens.Arr) ? * last_tok : (* lex_current(& ctx.Tokens, true));
 
 	sptr        length  = scope_start.Text.Len;
 	char const* current = scope_start.Text.Ptr + length;
-	while ( current <= array_back( ctx.Tokens.Arr)->Text.Ptr && (* current) != '\n' && length < 74 )
+	while ( current <= last_tok->Text.Ptr && (* current) != '\n' && length < 74 )
 	{
 		current++;
 		length++;
@@ -59,7 +66,7 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 
 	StackNode* curr_scope = ctx.Scope;
 	s32 level = 0;
-	do
+	while ( curr_scope )
 	{
 		if ( curr_scope->Name.Ptr ) {
 			strbuilder_append_fmt(& result, "\t%d: %s, AST Name: %.*s\n", level, curr_scope->ProcName.Ptr, curr_scope->Name.Len, curr_scope->Name.Ptr );
@@ -71,7 +78,6 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 		curr_scope = curr_scope->Prev;
 		level++;
 	}
-	while ( curr_scope );
 	return result;
 }
 
-- 
2.43.0


From 3c6a37c2323011e40864c24bd24220c4d01f69fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:24 +0000
Subject: [PATCH 44/53] fix: match the arguments of failure messages with their
 format

---
 base/components/interface.parsing.cpp |  2 +-
 base/components/interface.upfront.cpp |  6 +++---
 base/components/lexer.cpp             |  5 +++--
 base/components/parser.cpp            | 28 +++++++++++++--------------
 4 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/base/components/interface.parsing.cpp b/base/components/interface.parsing.cpp
index 54cd65a..c03fed8 100644
--- a/base/components/interface.parsing.cpp
+++ b/base/components/interface.parsing.cpp
@@ -59,7 +59,7 @@ CodeConstructor parse_constructor( Str def )
 				break;
 
 			default :
-				log_failure( "Invalid specifier %s for variable\n%S", spec_to_str( spec ), parser_to_strbuilder(_ctx->parser) );
+				log_failure( "Invalid specifier %S for variable\n%SB", spec_to_str( spec ), parser_to_strbuilder(_ctx->parser) );
 				parser_pop(& _ctx->parser);
 				return InvalidCode;
 		}
diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 9801fff..abfbfe1 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -380,11 +380,11 @@ forceinline
 bool name__check( char const* context, Str name )
 {
 	if ( name.Len <= 0 ) {
-		log_failure( "gen::%s: Invalid name length provided - %d",  name.Len );
+		log_failure( "gen::%s: Invalid name length provided - %d", context, name.Len );
 		return false;
 	}
 	if ( name.Ptr == nullptr ) {
-		log_failure( "gen::%s: name is null" );
+		log_failure( "gen::%s: name is null", context );
 		return false;
 	}
 	return true;
@@ -805,7 +805,7 @@ CodeFn def_function( Str name, Opts_def_function p )
 CodeInclude def_include( Str path, Opts_def_include p )
 {
 	if ( path.Len <= 0 || path.Ptr == nullptr ) {
-		log_failure( "gen::def_include: Invalid path provided - %d" );
+		log_failure( "gen::def_include: Invalid path provided - %d", path.Len );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index c989341..633f6ce 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -326,9 +326,10 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 				else
 				{
 					log_failure( "gen::Parser::lex: Invalid escape sequence '\\%c' (%d, %d)"
-								" in preprocessor directive (%d, %d)\n%.100s"
+								" in preprocessor directive (%d, %d)\n%.*s"
 						, (* ctx->scanner), ctx->line, ctx->column
-						, ctx->token.Line, ctx->token.Column, ctx->token.Text );
+						, ctx->token.Line, ctx->token.Column
+						, min( 100, ctx->left + ctx->token.Text.Len ), ctx->token.Text.Ptr );
 					break;
 				}
 			}
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 564a64e..c8a72fd 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -552,7 +552,7 @@ Code parse_array_decl()
 
 		if ( currtok.Type != Tok_BraceSquare_Close )
 		{
-			log_failure( "%s: Error, expected ] in array declaration, not %s\n%s", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, expected ] in array declaration, not %S\n%SB", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -692,7 +692,7 @@ internal
 Code parse_class_struct( TokType which, bool inplace_def )
 {
 	if ( which != Tok_Decl_Class && which != Tok_Decl_Struct ) {
-		log_failure( "Error, expected class or struct, not %s\n%s", toktype_to_str( which ), parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected class or struct, not %S\n%SB", toktype_to_str( which ), parser_to_strbuilder(_ctx->parser) );
 		return InvalidCode;
 	}
 
@@ -989,7 +989,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 			{
 				if ( ! tok_is_attribute(currtok))
 				{
-					log_failure("Unbounded macro expression residing in class/struct body\n%S", parser_to_strbuilder(_ctx->parser));
+					log_failure("Unbounded macro expression residing in class/struct body\n%SB", parser_to_strbuilder(_ctx->parser));
 					return InvalidCode;
 				}
 			}
@@ -1229,7 +1229,7 @@ Code parse_complicated_definition( TokType which )
 			return result;
 		}
 
-		log_failure( "Unsupported or bad member definition after %s declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Unsupported or bad member definition after %S declaration\n%SB", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -1284,7 +1284,7 @@ Code parse_complicated_definition( TokType which )
 
 		if ( ! ok_to_parse )
 		{
-			log_failure( "Unsupported or bad member definition after %s declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Unsupported or bad member definition after %S declaration\n%SB", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -1303,7 +1303,7 @@ Code parse_complicated_definition( TokType which )
 			&&	( tokens.Arr[idx - 4].Type != which))
 		)
 		{
-			log_failure( "Unsupported or bad member definition after %s declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Unsupported or bad member definition after %S declaration\n%SB", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -1519,7 +1519,7 @@ CodeFn parse_function_after_name(
 
 			default:
 			{
-				log_failure("Body must be either of Function_Body or Untyped type, %s\n%s", code_debug_str(body), parser_to_strbuilder(_ctx->parser));
+				log_failure("Body must be either of Function_Body or Untyped type, %S\n%SB", code_debug_str(body), parser_to_strbuilder(_ctx->parser));
 				parser_pop(& _ctx->parser);
 				return InvalidCode;
 			}
@@ -1774,7 +1774,7 @@ CodeBody parse_global_nspace( CodeType which )
 			{
 				if (tok_is_attribute(currtok))
 				{
-					log_failure("Unbounded macro expression residing in class/struct body\n%S", parser_to_strbuilder(_ctx->parser));
+					log_failure("Unbounded macro expression residing in class/struct body\n%SB", parser_to_strbuilder(_ctx->parser));
 					return InvalidCode;
 				}
 			}
@@ -2088,7 +2088,7 @@ Token parse_identifier( bool* possible_member_function )
 				return name;
 			}
 
-			log_failure( "Error, had a ~ operator after %SB but not a destructor\n%s", toktype_to_str( prevtok.Type ), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, had a ~ operator after %S but not a destructor\n%SB", toktype_to_str( prevtok.Type ), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return invalid;
 		}
@@ -2108,7 +2108,7 @@ Token parse_identifier( bool* possible_member_function )
 
 		if ( currtok.Type != Tok_Identifier )
 		{
-			log_failure( "Error, expected static symbol identifier, not %s\n%s", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, expected static symbol identifier, not %S\n%SB", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return invalid;
 		}
@@ -2440,7 +2440,7 @@ CodeOperator parse_operator_after_ret_type(
 			{
 				if ( op == Op_Invalid )
 				{
-					log_failure( "Invalid operator '%s'\n%s", prevtok.Text, parser_to_strbuilder(_ctx->parser) );
+					log_failure( "Invalid operator '%S'\n%SB", prevtok.Text, parser_to_strbuilder(_ctx->parser) );
 					parser_pop(& _ctx->parser);
 					return InvalidCode;
 				}
@@ -2450,7 +2450,7 @@ CodeOperator parse_operator_after_ret_type(
 
 	if ( op == Op_Invalid )
 	{
-		log_failure( "Invalid operator '%s'\n%s", currtok.Text, parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Invalid operator '%S'\n%SB", currtok.Text, parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -3053,7 +3053,7 @@ Code parse_simple_preprocess( TokType which )
 
 	Macro* macro = lookup_macro( full_macro.Text );
 	if ( which != Tok_Preprocess_Unsupported && macro == nullptr ) {
-		log_failure("Expected the macro %S to be registered\n%S", full_macro,  parser_to_strbuilder(_ctx->parser));
+		log_failure("Expected the macro %S to be registered\n%SB", full_macro.Text, parser_to_strbuilder(_ctx->parser));
 		return NullCode;
 	}
 
@@ -3654,7 +3654,7 @@ CodeDefine parser_parse_define()
 
 	if ( ! check( Tok_Preprocess_Content ))
 	{
-		log_failure( "Error, expected content after #define %s\n%s", define->Name, parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected content after #define %S\n%SB", define->Name, parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
-- 
2.43.0


From ccf93d29d59ff1c7ed11670bf06f49b16fcfa09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:25 +0000
Subject: [PATCH 45/53] fix: stay within the source when lexing a comment,
 define or include that is not finished

---
 base/components/lexer.cpp | 47 ++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 633f6ce..2654a27 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -77,6 +77,9 @@ enum
 forceinline
 void lexer_move_forward( LexContext* ctx )
 {
+	if ( ctx->left <= 0 )
+		return;
+
 	if ( * ctx->scanner == '\n' ) {
 		ctx->line   += 1;
 		ctx->column  = 1;
@@ -123,6 +126,14 @@ void lexer_end_line( LexContext* ctx )
 // TODO(Ed): We need to to attempt to recover from a lex failure?
 s32 lex_preprocessor_define( LexContext* ctx )
 {
+	if ( ctx->left <= 0 ) {
+		log_failure("lex_preprocessor_define(%d, %d): Expected a name after #define (ran out of characters...)\n"
+			, ctx->line
+			, ctx->column
+		);
+		return Lex_ReturnNull;
+	}
+
 	Token name = { { ctx->scanner, 1 }, Tok_Identifier, ctx->line, ctx->column, TF_Preprocess };
 	move_forward();
 
@@ -407,6 +418,16 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 			preprocess_content.Text.Len++;
 		}
 
+		if ( ctx->left <= 0 )
+		{
+			log_failure( "gen::Parser::lex: #include's path is not closed (%d, %d)\n%.*s"
+				, preprocess_content.Line
+				, preprocess_content.Column
+				, min( 80, preprocess_content.Text.Len ), preprocess_content.Text.Ptr
+			);
+			return Lex_ReturnNull;
+		}
+
 		move_forward();
 		preprocess_content.Text.Len++;
 
@@ -1140,17 +1161,23 @@ TokArray lex( Str content )
 						c.token.Flags    = TF_Null;
 						move_forward();
 
-						bool star   = (* ctx->scanner)    == '*';
-						bool slash  = c.scanner[1] == '/';
-						bool at_end = star && slash;
-						while ( c.left && ! at_end  )
+						bool at_end = false;
+						while ( c.left > 1 && ! at_end  )
 						{
-							move_forward();
-							c.token.Text.Len++;
-
-							star   = (* ctx->scanner)    == '*';
-							slash  = c.scanner[1] == '/';
+							bool star  = (* ctx->scanner) == '*';
+							bool slash = c.scanner[1]     == '/';
 							at_end = star && slash;
+							if ( ! at_end )
+							{
+								move_forward();
+								c.token.Text.Len++;
+							}
+						}
+						if ( ! at_end )
+						{
+							log_failure( "gen::lex: comment is not closed (%d, %d)\n%.*s", c.token.Line, c.token.Column, min( 100, c.token.Text.Len ), c.token.Text.Ptr );
+							TokArray null_array = {};
+							return null_array;
 						}
 						c.token.Text.Len += 2;
 						move_forward();
@@ -1308,7 +1335,7 @@ TokArray lex( Str content )
 	// The parser looks ahead without checking how many tokens are left,
 	// what follows the last one has to read as invalid tokens and not as the remains of what was lexed before.
 	{
-		Token none; zero_item( & none );
+		Token none = { { c.scanner, 0 }, Tok_Invalid, c.line, c.column, TF_Null };
 		for ( s32 idx = 0; idx < 8; idx++ )
 			lexer_add_token( none );
 		array_get_header(_ctx->Lexer_Tokens)->Num -= 8;
-- 
2.43.0


From e27a97f8df05732e111034e0376f183609474ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:26 +0000
Subject: [PATCH 46/53] fix: keep the parser's look ahead and look behind
 within the tokens being parsed

---
 base/components/parser.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index c8a72fd..3a74276 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1263,8 +1263,8 @@ Code parse_complicated_definition( TokType which )
 			ok_to_parse = true;
 		}
 		else if ( tok.Type == Tok_Assign_Classifer
-		&& (	( tokens.Arr[idx - 5].Type == which && tokens.Arr[idx - 4].Type == Tok_Decl_Class )
-			||	( tokens.Arr[idx - 4].Type == which))
+		&& (	( idx - 5 >= tokens.Idx && tokens.Arr[idx - 5].Type == which && tokens.Arr[idx - 4].Type == Tok_Decl_Class )
+			||	( idx - 4 >= tokens.Idx && tokens.Arr[idx - 4].Type == which))
 		)
 		{
 			// Its a forward declaration of an enum
@@ -1299,8 +1299,8 @@ Code parse_complicated_definition( TokType which )
 		tok = tokens.Arr[ idx - 2 ];
 
 		if ( tok.Type != Tok_Assign_Classifer
-		|| (	( tokens.Arr[idx - 5].Type != which && tokens.Arr[idx - 4].Type != Tok_Decl_Class )
-			&&	( tokens.Arr[idx - 4].Type != which))
+		|| (	( idx - 5 < tokens.Idx || ( tokens.Arr[idx - 5].Type != which && tokens.Arr[idx - 4].Type != Tok_Decl_Class ))
+			&&	( idx - 4 < tokens.Idx || tokens.Arr[idx - 4].Type != which))
 		)
 		{
 			log_failure( "Unsupported or bad member definition after %S declaration\n%SB", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
@@ -1979,6 +1979,10 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 		return result;
 	}
 
+	// Anything before the current token has already been parsed.
+	if ( idx <= tokens.Idx )
+		return result;
+
 	-- idx;
 	tok_left = tokens.Arr[idx];
 	// <Attributes> <Specifiers> ... <Identifier>
@@ -1986,12 +1990,15 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 	bool possible_destructor = false;
 	if ( tok_left.Type == Tok_Operator && tok_left.Text.Ptr[0] == '~')
 	{
+		if ( idx <= tokens.Idx )
+			return result;
+
 		possible_destructor = true;
 		-- idx;
 		tok_left = tokens.Arr[idx];
 	}
 
-	if ( tok_left.Type != Tok_Access_StaticSymbol )
+	if ( tok_left.Type != Tok_Access_StaticSymbol || idx <= tokens.Idx )
 		return result;
 
 	-- idx;
@@ -3335,7 +3342,7 @@ CodeVar parse_variable_after_name(
 
 		Token expr_tok = currtok;
 
-		if ( currtok.Type == Tok_Statement_End ) {
+		if ( ! left || currtok.Type == Tok_Statement_End ) {
 			log_failure( "Expected expression after bitfield \n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
@@ -3616,7 +3623,7 @@ CodeDefine parser_parse_define()
 	// #define <Name>
 
 	Macro* macro = lookup_macro(define->Name);
-	if (macro_is_functional(* macro)) {
+	if (macro && macro_is_functional(* macro)) {
 		eat( Tok_Paren_Open );
 		// #define <Name> (
 
@@ -4885,7 +4892,8 @@ else if ( currtok.Type == Tok_DeclType )
 		if ( is_function_typename )
 		{
 			// Go to the end of the signature
-			while ( scanner->Type != Tok_Statement_End && scanner->Type != Tok_BraceCurly_Open )
+			Token* end = _ctx->parser.Tokens.Arr + array_num(_ctx->parser.Tokens.Arr);
+			while ( scanner < end && scanner->Type != Tok_Statement_End && scanner->Type != Tok_BraceCurly_Open )
 				++scanner;
 
 			// Go back to the first capture start found
-- 
2.43.0


From eabe786eaf1ac603bc945102dd0edf0bb1dfe7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:26 +0000
Subject: [PATCH 47/53] fix: refuse more specifiers than the parsing procedures
 have room for

---
 base/components/interface.parsing.cpp |  6 ++-
 base/components/parser.cpp            | 77 +++++++++++++++++++++++----
 2 files changed, 72 insertions(+), 11 deletions(-)

diff --git a/base/components/interface.parsing.cpp b/base/components/interface.parsing.cpp
index c03fed8..a682a8c 100644
--- a/base/components/interface.parsing.cpp
+++ b/base/components/interface.parsing.cpp
@@ -36,7 +36,7 @@ CodeConstructor parse_constructor( Str def )
 	_ctx->parser.Tokens = toks;
 
 	CodeSpecifiers specifiers = NullCode;
-	Specifier      specs_found[ 16 ] = { Spec_NumSpecifiers };
+	Specifier      specs_found[ parser_max_specifiers ] = { Spec_NumSpecifiers };
 	s32            NumSpecifiers = 0;
 
 	while ( left && tok_is_specifier(currtok) )
@@ -68,6 +68,10 @@ CodeConstructor parse_constructor( Str def )
 		if (ignore_spec)
 			break;
 
+		if ( parser_has_max_specifiers( NumSpecifiers ) ) {
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		specs_found[ NumSpecifiers ] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 3a74276..9ffda4a 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -253,6 +253,19 @@ constexpr bool parser_use_parenthesis = false;
 
 // Internal parsing functions
 
+enum { parser_max_specifiers = 16 };
+
+// The parsing procedures gather specifiers on the stack before making an AST for them.
+internal
+bool parser_has_max_specifiers( s32 num_specifiers )
+{
+	if ( num_specifiers < parser_max_specifiers )
+		return false;
+
+	log_failure( "Error, more than %d specifiers in a row\n%SB", parser_max_specifiers, parser_to_strbuilder(_ctx->parser) );
+	return true;
+}
+
 constexpr bool parser_strip_formatting_dont_preserve_newlines = false;
 /*
 	This function was an attempt at stripping formatting from any c++ code.
@@ -1007,7 +1020,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 			//! Fallthrough intended
 			GEN_PARSER_CLASS_STRUCT_BODY_ALLOWED_MEMBER_TOK_SPECIFIER_CASES:
 			{
-				Specifier specs_found[16] = { Spec_NumSpecifiers };
+				Specifier specs_found[ parser_max_specifiers ] = { Spec_NumSpecifiers };
 				s32        NumSpecifiers = 0;
 
 				while ( left && tok_is_specifier(currtok) )
@@ -1039,6 +1052,10 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 					if (ignore_spec)
 						break;
 
+					if ( parser_has_max_specifiers( NumSpecifiers ) ) {
+						parser_pop(& _ctx->parser);
+						return InvalidCode;
+					}
 					specs_found[NumSpecifiers] = spec;
 					NumSpecifiers++;
 					eat( currtok.Type );
@@ -1792,7 +1809,7 @@ CodeBody parse_global_nspace( CodeType which )
 			//! Fallthrough intentional
 			GEN_PARSER_CLASS_GLOBAL_NSPACE_ALLOWED_MEMBER_TOK_SPECIFIER_CASES:
 			{
-				Specifier specs_found[16] = { Spec_NumSpecifiers };
+				Specifier specs_found[ parser_max_specifiers ] = { Spec_NumSpecifiers };
 				s32        NumSpecifiers = 0;
 
 				while ( left && tok_is_specifier(currtok) )
@@ -1825,6 +1842,10 @@ CodeBody parse_global_nspace( CodeType which )
 					if (ignore_spec)
 						break;
 
+					if ( parser_has_max_specifiers( NumSpecifiers ) ) {
+						parser_pop(& _ctx->parser);
+						return InvalidCode;
+					}
 					specs_found[NumSpecifiers] = spec;
 					NumSpecifiers++;
 					eat( currtok.Type );
@@ -3801,7 +3822,7 @@ CodeEnum parser_parse_enum( bool inplace_def )
 {
 	push_scope();
 
-	Specifier specs_found[16] = { Spec_NumSpecifiers };
+	Specifier specs_found[ parser_max_specifiers ] = { Spec_NumSpecifiers };
 	s32       NumSpecifiers = 0;
 
 	CodeAttributes attributes = { nullptr };
@@ -4107,7 +4128,7 @@ CodeFriend parser_parse_friend()
 
 	// Specifiers Parsing
 	{
-		Specifier specs_found[ 16 ] = { Spec_NumSpecifiers };
+		Specifier specs_found[ parser_max_specifiers ] = { Spec_NumSpecifiers };
 		s32       NumSpecifiers = 0;
 
 		while ( left && tok_is_specifier(currtok) )
@@ -4129,6 +4150,10 @@ CodeFriend parser_parse_friend()
 			if ( spec == Spec_Const )
 				break;
 
+			if ( parser_has_max_specifiers( NumSpecifiers ) ) {
+				parser_pop(& _ctx->parser);
+				return InvalidCode;
+			}
 			specs_found[ NumSpecifiers ] = spec;
 			NumSpecifiers++;
 			eat( currtok.Type );
@@ -4212,7 +4237,7 @@ CodeFn parser_parse_function()
 {
 	push_scope();
 
-	Specifier specs_found[16] = { Spec_NumSpecifiers };
+	Specifier specs_found[ parser_max_specifiers ] = { Spec_NumSpecifiers };
 	s32        NumSpecifiers = 0;
 
 	CodeAttributes attributes = { nullptr };
@@ -4246,6 +4271,10 @@ CodeFn parser_parse_function()
 		if ( spec == Spec_Const )
 			continue;
 
+		if ( parser_has_max_specifiers( NumSpecifiers ) ) {
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		specs_found[NumSpecifiers] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -4317,7 +4346,7 @@ CodeOperator parser_parse_operator()
 	CodeSpecifiers specifiers = { nullptr };
 	ModuleFlag     mflags     = ModuleFlag_None;
 
-	Specifier specs_found[16] = { Spec_NumSpecifiers };
+	Specifier specs_found[ parser_max_specifiers ] = { Spec_NumSpecifiers };
 	s32        NumSpecifiers = 0;
 
 	if ( check(Tok_Module_Export) ) {
@@ -4347,6 +4376,10 @@ CodeOperator parser_parse_operator()
 		if ( spec == Spec_Const )
 			continue;
 
+		if ( parser_has_max_specifiers( NumSpecifiers ) ) {
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		specs_found[NumSpecifiers] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -4562,7 +4595,7 @@ CodeTemplate parser_parse_template()
 
 		bool expects_function     = false;
 
-		Specifier specs_found[ 16 ] = { Spec_NumSpecifiers };
+		Specifier specs_found[ parser_max_specifiers ] = { Spec_NumSpecifiers };
 		s32        NumSpecifiers = 0;
 
 		attributes = parse_attributes();
@@ -4593,6 +4626,10 @@ CodeTemplate parser_parse_template()
 				if ( spec == Spec_Const )
 					break;
 
+				if ( parser_has_max_specifiers( NumSpecifiers ) ) {
+					parser_pop(& _ctx->parser);
+					return InvalidCode;
+				}
 				specs_found[ NumSpecifiers ] = spec;
 				NumSpecifiers++;
 				eat( currtok.Type );
@@ -4688,7 +4725,7 @@ CodeTypename parser_parse_type( bool from_template, bool* typedef_is_function )
 
 	Token context_tok = prevtok;
 
-	Specifier specs_found[ 16 ] = { Spec_NumSpecifiers };
+	Specifier specs_found[ parser_max_specifiers ] = { Spec_NumSpecifiers };
 	s32       NumSpecifiers = 0;
 
 	Token name= NullToken;
@@ -4710,6 +4747,10 @@ CodeTypename parser_parse_type( bool from_template, bool* typedef_is_function )
 			return InvalidCode;
 		}
 
+		if ( parser_has_max_specifiers( NumSpecifiers ) ) {
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		specs_found[ NumSpecifiers ] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -4853,6 +4894,10 @@ else if ( currtok.Type == Tok_DeclType )
 				return InvalidCode;
 			}
 		}
+		if ( parser_has_max_specifiers( NumSpecifiers ) ) {
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		specs_found[ NumSpecifiers ] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -4986,6 +5031,10 @@ else if ( currtok.Type == Tok_DeclType )
 					return InvalidCode;
 				}
 
+				if ( parser_has_max_specifiers( NumSpecifiers ) ) {
+					parser_pop(& _ctx->parser);
+					return InvalidCode;
+				}
 				specs_found[ NumSpecifiers ] = spec;
 				NumSpecifiers++;
 				eat( currtok.Type );
@@ -5056,6 +5105,10 @@ else if ( currtok.Type == Tok_DeclType )
 				return InvalidCode;
 			}
 
+			if ( parser_has_max_specifiers( NumSpecifiers ) ) {
+				parser_pop(& _ctx->parser);
+				return InvalidCode;
+			}
 			specs_found[ NumSpecifiers ] = spec;
 			NumSpecifiers++;
 			eat( currtok.Type );
@@ -5515,7 +5568,7 @@ CodeUsing parser_parse_using()
 {
 	push_scope();
 
-	Specifier specs_found[16] = { Spec_Invalid };
+	Specifier specs_found[ parser_max_specifiers ] = { Spec_Invalid };
 	s32        NumSpecifiers = 0;
 
 	Token        name       = NullToken;
@@ -5615,7 +5668,7 @@ CodeVar parser_parse_variable()
 {
 	push_scope();
 
-	Specifier specs_found[16] = { Spec_NumSpecifiers };
+	Specifier specs_found[ parser_max_specifiers ] = { Spec_NumSpecifiers };
 	s32       NumSpecifiers = 0;
 
 	ModuleFlag	   mflags     = ModuleFlag_None;
@@ -5649,6 +5702,10 @@ CodeVar parser_parse_variable()
 		if ( spec == Spec_Const )
 			break;
 
+		if ( parser_has_max_specifiers( NumSpecifiers ) ) {
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		specs_found[NumSpecifiers] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
-- 
2.43.0


From da7b703a143782058377563628777a7f98c0098f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:27 +0000
Subject: [PATCH 48/53] fix: parse_function and parse_operator with a const
 return type never returned

---
 base/components/parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 9ffda4a..b741fd6 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4268,8 +4268,9 @@ CodeFn parser_parse_function()
 				return InvalidCode;
 		}
 
+		// Ignore const specifiers, they're handled by the type
 		if ( spec == Spec_Const )
-			continue;
+			break;
 
 		if ( parser_has_max_specifiers( NumSpecifiers ) ) {
 			parser_pop(& _ctx->parser);
@@ -4373,8 +4374,9 @@ CodeOperator parser_parse_operator()
 				return InvalidCode;
 		}
 
+		// Ignore const specifiers, they're handled by the type
 		if ( spec == Spec_Const )
-			continue;
+			break;
 
 		if ( parser_has_max_specifiers( NumSpecifiers ) ) {
 			parser_pop(& _ctx->parser);
-- 
2.43.0


From 26d555d491b06b86fe9eb22a50ca6917255018fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:28 +0000
Subject: [PATCH 49/53] fix: refuse unfinished expressions, comments, templates
 and declaration lists

---
 base/components/interface.untyped.cpp |  2 +-
 base/components/parser.cpp            | 17 ++++++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index 09b75db..d7a1f7b 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -106,7 +106,7 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 
 Code untyped_str( Str content )
 {
-	if ( content.Len == 0 )
+	if ( content.Len <= 0 )
 	{
 		log_failure( "untyped_str: empty string" );
 		return InvalidCode;
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index b741fd6..bc83c0e 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -353,8 +353,10 @@ StrBuilder parser_strip_formatting( Str raw_text, bool preserve_newlines )
 			while ( tokleft > 1 && !(scanner[0] == '*' && scanner[1] == '/') )
 				move_fwd();
 
-			scanner += 2;
-			tokleft -= 2;
+			// Skip the closing */ (The text may end before its found)
+			s32 amount_to_skip = min( 2, tokleft );
+			scanner += amount_to_skip;
+			tokleft -= amount_to_skip;
 
 			strbuilder_append_c_str_len( & content,  cut_ptr, cut_length );
 			last_cut = rcast( sptr, scanner ) - rcast( sptr, raw_text.Ptr );
@@ -3460,13 +3462,11 @@ CodeVar parse_variable_declaration_list()
 			switch ( spec )
 			{
 				case Spec_Const:
-					if ( specifiers->NumEntries && specifiers->ArrSpecs[ specifiers->NumEntries - 1 ] != Spec_Ptr )
+					if ( ! specifiers || specifiers->ArrSpecs[ specifiers->NumEntries - 1 ] != Spec_Ptr )
 					{
 						log_failure( "Error, const specifier must come after pointer specifier for variable declaration proceeding comma\n"
 						"(Parser will add and continue to specifiers, but will most likely fail to compile)\n%SB"
 						, parser_to_strbuilder(_ctx->parser) );
-
-						specifiers_append(specifiers, spec );
 					}
 				break;
 
@@ -4696,6 +4696,13 @@ CodeTemplate parser_parse_template()
 		break;
 	}
 
+	if ( ! definition )
+	{
+		log_failure( "Error, expected a declaration after template parameters\n%SB", parser_to_strbuilder(_ctx->parser) );
+		parser_pop(& _ctx->parser);
+		return InvalidCode;
+	}
+
 	CodeTemplate result = ( CodeTemplate )make_code();
 	result->Type        = CT_Template;
 	result->Params      = params;
-- 
2.43.0


From 4ecc1311f1756d78c146426d1b0d4141fc2e59a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:29 +0000
Subject: [PATCH 50/53] fix: code_debug_str of parameters without a last or
 next entry

---
 base/components/ast.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index f3ae0b4..eeb7d24 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -257,8 +257,8 @@ Str code_debug_str(Code self)
 
 		case CT_Parameters:
 			strbuilder_append_fmt( result, "\n\tNumEntries: %d", self->NumEntries );
-			strbuilder_append_fmt( result, "\n\tLast      : %S", self->Last->Name );
-			strbuilder_append_fmt( result, "\n\tNext      : %S", self->Next->Name );
+			strbuilder_append_fmt( result, "\n\tLast      : %S", self->Last ? self->Last->Name : txt("Null") );
+			strbuilder_append_fmt( result, "\n\tNext      : %S", self->Next ? self->Next->Name : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tValueType : %S", self->ValueType ? strbuilder_to_str( code_to_strbuilder(self->ValueType)) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tValue     : %S", self->Value     ? strbuilder_to_str( code_to_strbuilder(self->Value))     : txt("Null") );
 		break;
-- 
2.43.0


From af4789f3a26bbdd593c7fecc9a99513260fba442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:23 +0000
Subject: [PATCH 51/53] fix: formatting with tokens crashed in release builds
 when its table could not be made

---
 base/components/interface.untyped.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index d7a1f7b..ab05e7a 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -10,6 +10,8 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 
 	if (_ctx->token_fmt_map.Hashes == nullptr) {
 		_ctx->token_fmt_map = hashtable_init(Str, _ctx->Allocator_DyanmicContainers );
+		if (_ctx->token_fmt_map.Hashes == nullptr || _ctx->token_fmt_map.Entries == nullptr)
+			GEN_FATAL( "gen::token_fmt: Failed to initialize the table of tokens" );
 	}
 	// Populate token pairs
 	{
-- 
2.43.0


From f85c5b486079d78b6652a0d4797454e47e99daad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:23 +0000
Subject: [PATCH 52/53] fix: allocating from a pool without free blocks crashed
 in release builds

---
 base/dependencies/memory.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index c95b040..8ee9fd1 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -402,7 +402,11 @@ void* pool_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 
 				GEN_ASSERT( size == pool->BlockSize );
 				GEN_ASSERT( alignment == pool->BlockAlign );
-				GEN_ASSERT( pool->FreeList != NULL );
+				if ( pool->FreeList == NULL )
+			{
+				GEN_FATAL("Pool out of blocks! (All of its blocks are in use)");
+				return NULL;
+			}
 
 				next_free        = * rcast( uptr*, pool->FreeList);
 				ptr              = pool->FreeList;
-- 
2.43.0


From b505e294e23a7e9395f486047f8fe61963032a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:40 +0000
Subject: [PATCH 53/53] fix: parsing a class member with attributes before and
 after its specifiers crashed

The fused attributes were formatted as StrBuilders though they are Strs,
and then dropped in favour of the second group.
---
 base/components/parser.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index bc83c0e..22f89ee 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1077,15 +1077,14 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 					if ( attributes )
 					{
 						StrBuilder fused = strbuilder_make_reserve( _ctx->Allocator_Temp, attributes->Content.Len + more_attributes->Content.Len );
-						strbuilder_append_fmt( & fused, "%SB %SB", attributes->Content, more_attributes->Content );
+						strbuilder_append_fmt( & fused, "%S %S", attributes->Content, more_attributes->Content );
 
 						Str attrib_name     = strbuilder_to_str(fused);
 						attributes->Name    = cache_str( attrib_name );
 						attributes->Content = attributes->Name;
 						// <Attributes> <Specifiers> <Attributes>
 					}
-
-					attributes = more_attributes;
+					else attributes = more_attributes;
 				}
 
 				if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[0] == '~' )
-- 
2.43.0

