// Adapter between gencpp and the simulated machine: user allocators, randomised context configuration.
#pragma once
#include "pre.h"
#include "machine.hpp"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <memory>
#define GEN_DEFINE_LIBRARY_CODE_CONSTANTS
#ifndef GEN_BENCHMARK
#define GEN_BENCHMARK
#endif
#include "gen.hpp"
#undef malloc
#undef mfree
#undef free
#undef min
#undef max
#undef swap
#undef internal
#undef left
#undef check
#undef global
#undef count_of

namespace env {
using sim::u32; using sim::u64; using sim::i64;

inline void* alloc_proc(void* data, gen::AllocType type, gen::ssize size, gen::ssize alignment, void* old, gen::ssize old_size, gen::u64 flags) {
    sim::SimAlloc* a = (sim::SimAlloc*)data;
    bool zero = flags & gen::ALLOCATOR_FLAG_CLEAR_TO_ZERO;
    switch (type) {
        case gen::EAllocation_ALLOC:    return sim::sim_alloc(a, size, alignment, zero, "the library");
        case gen::EAllocation_FREE:     sim::sim_free(a, old, "the library"); return nullptr;
        case gen::EAllocation_FREE_ALL: sim::sim_free_all(a); return nullptr;
        case gen::EAllocation_RESIZE:   return sim::sim_resize(a, old, old_size, size, alignment, zero);
        default: sim::violate("alloc-contract:request", "an allocator received the unknown request %d", (int)type);
    }
}
inline gen::AllocatorInfo info(sim::SimAlloc* a) { gen::AllocatorInfo i; i.Proc = alloc_proc; i.Data = a; return i; }

inline gen::Str S(std::string const& s) { return gen::Str{s.data(), (gen::ssize)s.size()}; }
inline std::string str(gen::Str s) { return s.Len > 0 ? std::string(s.Ptr, s.Len) : std::string(); }
inline std::string sb(gen::StrBuilder b) { return b.Data ? std::string(b.Data, gen::strbuilder_length(b)) : std::string("<null>"); }

// A configuration a user could choose.  0 = left at the library's default.
struct Cfg {
    int alloc[4] = {-1, -1, -1, -1};           // DynamicContainers, Pool, StrCache, Temp: -1 fallback, else index of a user allocator
    u32 builder = 0, pools = 0, arenas = 0, blocks = 0, tokens = 0, arena_size = 0, bucket = 0, cache_len = 0, comment_len = 0;
    u32 move = 1000, slack = 0;
};
struct Heaps { sim::SimAlloc a[4]; };

inline std::string cfg_str(Cfg const& c) {
    char b[200]; snprintf(b, sizeof b, "alloc %d%d%d%d builder %u pools %u arenas %u blocks %u tokens %u arena %u bucket %u", c.alloc[0], c.alloc[1], c.alloc[2], c.alloc[3], c.builder, c.pools, c.arenas, c.blocks, c.tokens, c.arena_size, c.bucket);
    return b;
}
// roomy: nothing has to grow in an ordinary run
inline Cfg roomy() { Cfg c; c.alloc[0] = 0; c.alloc[1] = 1; c.alloc[2] = 2; c.alloc[3] = 3; c.builder = 65536; c.blocks = 1024; c.tokens = 4096; c.arena_size = 131072; c.bucket = 1 << 19; return c; }
// tight/odd: everything has to grow, at every size
inline Cfg random_cfg(bool allow_fallback) {
    using namespace sim;
    Cfg c = roomy();
    u32 mode = pick(4);
    for (int i = 0; i < 4; i++) c.alloc[i] = mode == 0 ? i : mode == 1 ? 0 : (allow_fallback && mode == 3 && pick(2)) ? -1 : (int)pick(4);
    if (allow_fallback && mode == 2) for (int i = 0; i < 4; i++) c.alloc[i] = -1;
    if (pick(2)) c.builder = pick(3) == 2 ? 4096 + pick(1000) : 1 + pick(200);
    if (pick(2)) c.pools = 1 + pick(8);
    if (pick(2)) c.arenas = 1 + pick(8);
    if (pick(2)) c.blocks = 1 + pick(pick(2) ? 8 : 60);
    if (pick(2)) c.tokens = 1 + pick(pick(2) ? 8 : 200);
    if (pick(2)) c.arena_size = 600 + pick(4000);
    if (pick(2)) c.bucket = 1024 + pick(1 << 15);
    if (pick(4) == 3) c.cache_len = 1 + pick(40);
    c.move = pick(2) ? 1000 : pick(1001); c.slack = pick(2) ? 0 : 1 + pick(8);
    return c;
}
inline gen::Context make_context(Cfg const& c, Heaps& h) {
    gen::Context x = {};
    gen::AllocatorInfo* f[4] = {&x.Allocator_DyanmicContainers, &x.Allocator_Pool, &x.Allocator_StrCache, &x.Allocator_Temp};
    for (int i = 0; i < 4; i++) { h.a[i].move_permille = c.move; h.a[i].slack_max = c.slack; if (c.alloc[i] >= 0) *f[i] = info(&h.a[c.alloc[i]]); }
    x.InitSize_BuilderBuffer = c.builder; x.InitSize_CodePoolsArray = c.pools; x.InitSize_StringArenasArray = c.arenas; x.CodePool_NumBlocks = c.blocks;
    x.InitSize_LexerTokens = c.tokens; x.SizePer_StringArena = c.arena_size; x.InitSize_Fallback_Allocator_Bucket_Size = c.bucket; x.Max_StrCacheLength = c.cache_len; x.Max_CommentLineLength = c.comment_len;
    return x;
}
inline void init_heaps(Heaps& h, int base) { for (int i = 0; i < 4; i++) { static char const* n[] = {"user-A", "user-B", "user-C", "user-D"}; h.a[i] = sim::SimAlloc(base + i, n[i]); } }
}
