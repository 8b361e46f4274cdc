// C12 dynamic arrays, C13 hash tables, C14 string builders, C15 allocators.
#include "gen_env.hpp"
using namespace sim; using std::string; using std::vector;
static vector<u32> draw_ops(u32 lo, u32 hi) { u32 n = range(lo, hi); vector<u32> v; for (u32 i = 0; i < n; i++) v.push_back(pick(1u << 24)); return v; }
struct Failing { i64 at; bool forever; u32 move, slack; };
static Failing draw_failing(u32 span) { Failing f; f.at = pick(3) == 2 ? 1 + pick(span) : 0; f.forever = pick(2); f.move = pick(2) ? 1000 : pick(1001); f.slack = pick(2) ? 0 : 1 + pick(6); return f; }
static void arm(SimAlloc& a, Failing const& f) { a.fail_in = f.at; a.fail_forever = f.forever; a.move_permille = f.move; a.slack_max = f.slack; }
static void ending(AppResult const& r, bool may_stop) {
    if (r.kind == APP_RETURNED) return;
    EXPECT(r.stopped() && may_stop && counted("fault:alloc_failure"), "ended", "%s", r.describe().c_str());
    EXPECT(!r.err.empty(), "silent-stop", "stopped without a message"); count("probe:failure_reported");
}

// ---------------------------------------------------------------- C12
struct T3 { unsigned char b[3]; }; struct T24 { u64 a; void* p; u32 c, d; };
template<class T> static T make(u64 x) { T t; unsigned char* p = (unsigned char*)&t; for (size_t i = 0; i < sizeof t; i++) p[i] = (unsigned char)(mix(x) >> (8 * (i % 8))) + (unsigned char)(i / 8); return t; }
template<class T> static bool eq(T const& a, T const& b) { return !memcmp((void const*)&a, (void const*)&b, sizeof a); }
template<class T> static void arrays(vector<u32> const& ops, Failing f, u32 cap, bool members) {
    using namespace gen;
    SimAlloc h(1, "user"); arm(h, f); u64 seen = 0; vector<T> ref; u64 uniq = 1;
    Array<T> a = cap ? (members ? Array<T>::init_reserve(env::info(&h), cap) : gen::array_init_reserve<T>(env::info(&h), cap)) : (members ? Array<T>::init(env::info(&h)) : gen::array_init<T>(env::info(&h)));
    if (!a.Data) { EXPECT(h.failed, "refused", "an array could not be made"); EXPECT(h.live_blocks == 0, "leak", "%s", sim_leaks(&h).c_str()); count("probe:init_refused"); return; }
    if (cap) EXPECT(gen::array_get_header<T>(a)->Capacity == cap, "capacity-wrong", "asked for room for %u, got %llu", cap, (unsigned long long)gen::array_get_header<T>(a)->Capacity);
    auto check = [&](char const* when) {
        EXPECT(a.Data, "array-lost", "after %s the array is gone", when);
        ArrayHeader* hd = gen::array_get_header<T>(a);
        EXPECT(h.live_blocks == 1, "leak", "after %s the array holds %s", when, sim_leaks(&h).c_str());
        EXPECT(hd->Num == ref.size() && gen::array_num<T>(a) == ref.size(), "length-wrong", "after %s it has %llu items, expected %zu", when, (unsigned long long)hd->Num, ref.size());
        EXPECT(hd->Capacity >= hd->Num && sim_in_live(hd, sizeof *hd + hd->Capacity * sizeof(T)), "capacity-wrong", "after %s it claims room for %llu", when, (unsigned long long)hd->Capacity);
        size_t i = 0; for (T* it = gen::array_begin<T>(a); it != gen::array_end<T>(a); it = gen::array_next<T>(a, it), i++) EXPECT(eq(*it, ref[i]), "item-wrong", "after %s item %zu of %zu differs", when, i, ref.size());
        EXPECT(i == ref.size(), "length-wrong", "iterating visits %zu of %zu items", i, ref.size());
        T* b = members ? a.back() : gen::array_back<T>(a); EXPECT(ref.empty() ? b == nullptr : b && eq(*b, ref.back()), "back-wrong", "the last item differs");
    };
    check("making it");
    for (u32 o : ops) {
        u32 what = o % 16, arg = o / 16; op(); bool ok = true; vector<T> want = ref; u64 n = ref.size(); char const* nm = ""; vector<T> items; u64 k = arg % 7 == 5 ? 8 + 8 * (arg / 7 % 2) : 1 + arg % (arg % 7 == 6 ? 40 : 6); u64 idx = arg / 64 % (n + 3);
        auto fresh = [&](u64 c) { items.clear(); for (u64 i = 0; i < c; i++) items.push_back(make<T>(uniq++)); };
        u64 failed = h.failed; bool sure = false;
        switch (what) {
            default: { nm = "append"; fresh(1); want.push_back(items[0]); ok = members ? a.append(items[0]) : gen::array_append<T>(&a, items[0]); break; }
            case 3: case 4: { nm = "append of several"; fresh(k); want.insert(want.end(), items.begin(), items.end()); ok = members ? a.append(items.data(), k) : gen::array_append_items<T>(&a, items.data(), k); break; }
            case 5: { nm = "insertion"; fresh(1); want.insert(want.begin() + std::min(idx, n), items[0]); ok = members ? a.append_at(items[0], idx) : gen::array_append_at<T>(&a, items[0], idx); break; }
            case 6: { nm = "insertion of several"; fresh(k); want.insert(want.begin() + std::min(idx, n), items.begin(), items.end()); ok = members ? a.append_at(items.data(), k, idx) : gen::array_append_items_at<T>(&a, items.data(), k, idx); break; }
            case 7: { if (!n) continue; nm = "pop"; want.pop_back(); members ? a.pop() : gen::array_pop<T>(a); sure = true; break; }
            case 8: { if (!n) continue; nm = "removal"; idx = arg / 64 % n; want.erase(want.begin() + idx); members ? a.remove_at(idx) : gen::array_remove_at<T>(a, idx); sure = true; break; }
            case 9: { nm = "fill"; u64 b = arg / 64 % (n + 1), e = b + arg % (n + 3 - b); fresh(1); ok = members ? a.fill(b, e, items[0]) : gen::array_fill<T>(a, b, e, items[0]); EXPECT(ok == (e <= n), "fill-result", "fill of %llu..%llu of %llu says %d", (unsigned long long)b, (unsigned long long)e, (unsigned long long)n, ok); if (ok) for (u64 i = b; i < e; i++) want[i] = items[0]; ok = true; sure = true; break; }
            case 10: { nm = "reserve"; u64 c = arg % 60; ok = members ? a.reserve(c) : gen::array_reserve<T>(&a, c); if (ok) EXPECT(gen::array_get_header<T>(a)->Capacity >= c, "reserve-wrong", "reserved %llu, room for %llu", (unsigned long long)c, (unsigned long long)gen::array_get_header<T>(a)->Capacity); break; }
            case 11: { nm = "resize"; u64 c = arg % 50; ok = members ? a.resize(c) : gen::array_resize<T>(&a, c); if (ok) { want.resize(c); ArrayHeader* hd = gen::array_get_header<T>(a); EXPECT(hd->Num == c && sim_in_live(hd, sizeof *hd + c * sizeof(T)), "resize-wrong", "resized to %llu, has %llu", (unsigned long long)c, (unsigned long long)hd->Num); for (u64 i = n; i < c; i++) memcpy((void*)&want[i], a.Data + i, sizeof(T)); } break; }
            case 12: { if (arg % 4) continue; nm = "clear"; want.clear(); members ? a.clear() : gen::array_clear<T>(a); sure = true; break; }
            case 13: { nm = "setting the capacity"; u64 c = 1 + arg % 50; ok = members ? a.set_capacity(c) : gen::array_set_capacity<T>(&a, c); if (ok) { if (c < n) want.resize(c); else EXPECT(gen::array_get_header<T>(a)->Capacity == c, "capacity-wrong", "set to %llu, is %llu", (unsigned long long)c, (unsigned long long)gen::array_get_header<T>(a)->Capacity); } break; }
            case 14: { nm = "append of an array"; fresh(k); SimAlloc h2(2, "other"); Array<T> b = gen::array_init_reserve<T>(env::info(&h2), k); for (auto& x : items) gen::array_append<T>(&b, x); want.insert(want.end(), items.begin(), items.end()); ok = members ? a.append(b) : gen::array_append_array<T>(&a, b); for (u64 i = 0; i < k; i++) EXPECT(eq(b.Data[i], items[i]), "source-changed", "the appended array changed"); gen::array_free<T>(&b); EXPECT(h2.live_blocks == 0, "leak", "%s", sim_leaks(&h2).c_str()); break; }
            case 15: { if (!n) continue; nm = "assignment"; idx = arg % n; fresh(1); want[idx] = items[0]; a[idx] = items[0]; sure = true; break; }
        }
        slog("%s -> %d, %zu items", nm, ok, want.size());
        if (ok) { EXPECT(h.failed == failed || !sure, "unexpected-allocation", "%s allocated", nm); if (h.failed > failed) violate("failure-not-reported", "%s succeeded although its allocation failed", nm); ref = want; }
        else { EXPECT(h.failed > failed, "refused", "%s was refused although memory was there", nm); count("probe:operation_refused"); }
        check(nm);
        seen = std::max<u64>(seen, ref.size());
    }
    members ? a.free() : gen::array_free<T>(&a); EXPECT(a.Data == nullptr, "freed-array", "a freed array still points somewhere"); EXPECT(h.live_blocks == 0, "leak", "%s", sim_leaks(&h).c_str());
    if (seen > 8) count("probe:array_grew");
}
SCENARIO_W(C12, array, 60) {
    u32 type = pick(5), cap = pick(3) ? pick(10) : pick(60); bool members = pick(2); Failing f = draw_failing(8); vector<u32> ops = draw_ops(3, 60);
    slog("item type %u capacity %u failing %lld", type, cap, (long long)f.at);
    AppResult r = run_app("array", [&] {
        switch (type) { case 0: arrays<u64>(ops, f, cap, members); break; case 1: arrays<unsigned char>(ops, f, cap, members); break; case 2: arrays<T3>(ops, f, cap, members); break; case 3: arrays<T24>(ops, f, cap, members); break; default: arrays<void*>(ops, f, cap, members); break; }
    });
    ending(r, false); nontrivial();
}

// Far more items than any ordinary run has
template<class T> static void many_items(u32 n, u32 salt, u32 move) {
    using namespace gen; SimAlloc h(1, "user"); h.move_permille = move; Array<T> a = gen::array_init<T>(env::info(&h)); EXPECT(a.Data, "refused", "an array could not be made"); vector<T> ref; u64 uniq = 1, next = 0;
    auto check = [&](char const* when) { EXPECT(gen::array_num<T>(a) == ref.size() && a.get_header()->Capacity >= ref.size(), "length-wrong", "after %s it has %llu items, expected %zu", when, (unsigned long long)gen::array_num<T>(a), ref.size()); for (size_t i = 0; i < ref.size(); i++) EXPECT(eq(a[i], ref[i]), "item-wrong", "after %s item %zu of %zu differs", when, i, ref.size()); };
    for (u32 step = 0; ref.size() < n; step++) {
        u64 r = mix(step * 31ull + salt); char const* nm = "append"; bool ok = true;
        if (r % 64 == 0) { nm = "append of several"; vector<T> items; for (u64 k = 1 + r / 64 % 700; k; k--) items.push_back(make<T>(uniq++)); ok = gen::array_append_items<T>(&a, items.data(), items.size()); ref.insert(ref.end(), items.begin(), items.end()); }
        else if (r % 256 == 1) { nm = "insertion of several"; vector<T> items; for (u64 k = 1 + r / 256 % 300; k; k--) items.push_back(make<T>(uniq++)); u64 at = r / 1000003 % (ref.size() + 1); ok = gen::array_append_items_at<T>(&a, items.data(), items.size(), at); ref.insert(ref.begin() + at, items.begin(), items.end()); }
        else if (r % 256 == 2) { nm = "insertion"; T x = make<T>(uniq++); u64 at = r / 1000003 % (ref.size() + 1); ok = gen::array_append_at<T>(&a, x, at); ref.insert(ref.begin() + at, x); }
        else if (r % 256 == 3 && ref.size()) { nm = "removal"; u64 at = r / 1000003 % ref.size(); gen::array_remove_at<T>(a, at); ref.erase(ref.begin() + at); }
        else if (r % 64 == 4 && ref.size()) { nm = "pop"; gen::array_pop<T>(a); ref.pop_back(); }
        else if (r % 512 == 5 && ref.size()) { nm = "fill"; u64 b = r / 1000003 % ref.size(), e = b + r / 512 % (ref.size() - b + 1); T x = make<T>(uniq++); ok = gen::array_fill<T>(a, b, e, x); std::fill(ref.begin() + b, ref.begin() + e, x); }
        else { T x = make<T>(uniq++); ok = gen::array_append<T>(&a, x); ref.push_back(x); }
        EXPECT(ok, "refused", "%s was refused although memory was there", nm);
        if (ref.size() >= next || ref.size() == n) { check(nm); op(); next = ref.size() + ref.size() / 3 + 200; }
    }
    check("all"); EXPECT(h.live_blocks == 1, "leak", "the array holds %s", sim_leaks(&h).c_str()); gen::array_free<T>(&a); EXPECT(h.live_blocks == 0, "leak", "%s", sim_leaks(&h).c_str()); count("probe:items", ref.size());
}
SCENARIO_W(C12, many, 1) {
    static u32 const sizes[] = {300, 3000, 20000, 70000}; u32 type = pick(3), n = sizes[pick(4)] + pick(300), salt = pick(100000), move = pick(2) ? 1000 : pick(1001); slog("type %u, %u items", type, n);
    AppResult r = run_app("many", [&] { if (type == 0) many_items<u64>(n, salt, move); else if (type == 1) many_items<unsigned char>(n, salt, move); else many_items<T24>(n, salt, move); });
    ending(r, false); nontrivial();
}

// ---------------------------------------------------------------- C13
struct V { u64 a; u32 b; };
static std::map<u64, V>* g_seen; static u32 g_visits, g_bump;
static void map_proc(u64 k, V v) { g_visits++; (*g_seen)[k] = v; }
static void map_mut_proc(u64 k, V* v) { g_visits++; v->b += g_bump; (*g_seen)[k] = *v; }
SCENARIO_W(C13, table, 60) {
    u32 init = pick(3) ? pick(12) : pick(80); bool members = pick(2); u32 keymode = pick(4), keys = 2 + pick(40); Failing f = draw_failing(14); vector<u32> ops = draw_ops(3, 80);
    slog("size %u key mode %u keys %u failing %lld", init, keymode, keys, (long long)f.at);
    AppResult r = run_app("table", [&] {
        using namespace gen;
        SimAlloc h(1, "user"); arm(h, f); std::map<u64, V> ref; u32 ver = 0; u64 biggest = 0;
        HashTable<V> t = init ? (members ? HashTable<V>::init_reserve(env::info(&h), init) : gen::hashtable_init_reserve<V>(env::info(&h), init)) : (members ? HashTable<V>::init(env::info(&h)) : gen::hashtable_init<V>(env::info(&h)));
        if (!t.Hashes.Data || !t.Entries.Data) { EXPECT(h.failed, "refused", "a table could not be made"); EXPECT(!t.Hashes.Data && h.live_blocks == 0, "leak", "a refused table keeps %s", sim_leaks(&h).c_str()); count("probe:init_refused"); return; }
        auto key = [&](u32 x) -> u64 { u64 k = x % keys; switch (keymode) { case 0: return k; case 1: return k * 8; case 2: return k * 5040 * 11 * 13; default: return k % 2 ? ~0ull - k : k << 32; } };
        auto get = [&](u64 k) { return members ? t.get(k) : gen::hashtable_get<V>(t, k); };
        auto check = [&](char const* when) {
            EXPECT(h.live_blocks == 2, "leak", "after %s the table holds %s", when, sim_leaks(&h).c_str());
            for (u32 i = 0; i < keys; i++) { u64 k = key(i); V* v = get(k); auto it = ref.find(k); EXPECT((v != nullptr) == (it != ref.end()), v ? "key-appeared" : "key-lost", "after %s key %llu is %s", when, (unsigned long long)k, v ? "there" : "missing"); if (v) EXPECT(v->a == it->second.a && v->b == it->second.b, "value-wrong", "after %s key %llu has value %u instead of %u", when, (unsigned long long)k, v->b, it->second.b); }
            std::map<u64, V> seen; g_seen = &seen; g_visits = 0; members ? t.map(map_proc) : gen::hashtable_map<V>(t, map_proc);
            EXPECT(g_visits == ref.size() && seen.size() == ref.size(), "map-wrong", "after %s mapping visits %u entries, %zu keys, expected %zu", when, g_visits, seen.size(), ref.size());
        };
        check("making it");
        for (u32 o : ops) {
            u32 what = o % 14, arg = o / 16; op(); char const* nm = "set";
            switch (what) {
                default: { u64 k = key(arg); V v = {mix(++ver), ver}; slog("set %llu", (unsigned long long)k); members ? t.set(k, v) : gen::hashtable_set<V>(&t, k, v); ref[k] = v; break; }
                case 7: case 8: { nm = "remove"; u64 k = key(arg); slog("remove %llu", (unsigned long long)k); members ? t.remove(k) : gen::hashtable_remove<V>(t, k); ref.erase(k); break; }
                case 9: { nm = "grow"; slog("grow"); members ? t.grow() : gen::hashtable_grow<V>(&t); break; }
                case 10: { nm = "rehash"; u32 n = 1 + arg % 60; slog("rehash %u", n); members ? t.rehash(n) : gen::hashtable_rehash<V>(&t, n); break; }
                case 11: { nm = "rehash_fast"; slog("rehash_fast"); members ? t.rehash_fast() : gen::hashtable_rehash_fast<V>(t); break; }
                case 12: { if (arg % 8 == 7) { nm = "clear"; slog("clear"); members ? t.clear() : gen::hashtable_clear<V>(t); ref.clear(); break; }
                    nm = "map_mut"; slog("map_mut"); std::map<u64, V> seen; g_seen = &seen; g_visits = 0; g_bump = 1 + arg % 7; members ? t.map_mut(map_mut_proc) : gen::hashtable_map_mut<V>(t, map_mut_proc); for (auto& x : ref) x.second.b += g_bump; break; }
                case 13: { if (ref.empty()) continue; nm = "remove_entry"; u64 idx = arg % gen::array_num<HashTableEntry<V>>(t.Entries); u64 k = t.Entries[idx].Key; slog("remove_entry %llu", (unsigned long long)idx); members ? t.remove_entry(idx) : gen::hashtable_remove_entry<V>(t, idx); gen::hashtable_rehash_fast<V>(t); ref.erase(k); break; }
            }
            check(nm); biggest = std::max<u64>(biggest, ref.size());
        }
        members ? t.destroy() : gen::hashtable_destroy<V>(&t);
        EXPECT(h.live_blocks == 0, "leak", "%s", sim_leaks(&h).c_str()); if (biggest > 8) count("probe:table_grew");
    });
    ending(r, true); nontrivial();
}

// Far more keys than any ordinary run has
SCENARIO_W(C13, many, 1) {
    static u32 const sizes[] = {300, 1500, 6000, 20000}; u32 n = sizes[pick(4)] + pick(300), salt = pick(100000), keymode = pick(3), removals = pick(6); u32 move = pick(2) ? 1000 : pick(1001); slog("%u keys of kind %u", n, keymode);
    AppResult r = run_app("many", [&] {
        using namespace gen; SimAlloc h(1, "user"); h.move_permille = move; HashTable<V> t = gen::hashtable_init<V>(env::info(&h)); EXPECT(t.Entries.Data, "refused", "a table could not be made"); std::map<u64, V> ref; u32 ver = 0;
        auto key = [&](u32 i) -> u64 { switch (keymode) { case 0: return i + salt; case 1: return mix(i * 7ull + salt); default: return ((u64)i << 32) + i % 3; } };
        auto check = [&](char const* when) {
            EXPECT(gen::array_num<HashTableEntry<V>>(t.Entries) == ref.size(), "length-wrong", "%s there are %llu entries of %zu", when, (unsigned long long)gen::array_num<HashTableEntry<V>>(t.Entries), ref.size());
            for (auto& x : ref) { V* v = gen::hashtable_get<V>(t, x.first); EXPECT(v, "key-lost", "%s key %llu is missing", when, (unsigned long long)x.first); EXPECT(v->a == x.second.a && v->b == x.second.b, "value-wrong", "%s key %llu has value %u instead of %u", when, (unsigned long long)x.first, v->b, x.second.b); }
        };
        for (u32 i = 0; i < n; i++) {
            u64 k = key(i); EXPECT(!gen::hashtable_get<V>(t, k) == !ref.count(k), "key-appeared", "key %llu is there before it was set", (unsigned long long)k); V v = {mix(++ver), ver}; gen::hashtable_set<V>(&t, k, v); ref[k] = v;
            if (i % 8 == 7) { k = key((u32)(mix(i + salt) % i)); V* p = gen::hashtable_get<V>(t, k); EXPECT(p, "key-lost", "key %llu is missing", (unsigned long long)k); EXPECT(p->a == ref[k].a && p->b == ref[k].b, "value-wrong", "key %llu has value %u instead of %u", (unsigned long long)k, p->b, ref[k].b); if (i % 16 == 15) { V w = {mix(++ver), ver}; gen::hashtable_set<V>(&t, k, w); ref[k] = w; } }
            if (i % 1024 == 1023) { op(); check("meanwhile"); }
        }
        check("at the end");
        for (u32 i = 0; i < removals; i++) { u64 k = key((u32)(mix(i * 3 + salt) % n)); gen::hashtable_remove<V>(t, k); ref.erase(k); EXPECT(!gen::hashtable_get<V>(t, k), "key-appeared", "removed key %llu is there", (unsigned long long)k); } check("after removals");
        gen::hashtable_destroy<V>(&t); EXPECT(h.live_blocks == 0, "leak", "%s", sim_leaks(&h).c_str()); count("probe:keys", n);
    });
    ending(r, false); nontrivial();
}

// ---------------------------------------------------------------- C14
static string text(u32 x, u32 maxlen) { u32 n = mix(x) % (maxlen + 1); string s; static char const alpha[] = "abc \t\r\n\v\f<>%\xc3\xa9\x7f\x01z09_"; for (u32 i = 0; i < n; i++) s += alpha[mix(x * 131 + i) % (sizeof alpha - 1)]; return s; }
static string trim_ref(string s, string const& set) { while (!s.empty() && set.find(s.front()) != string::npos) s.erase(0, 1); while (!s.empty() && set.find(s.back()) != string::npos) s.pop_back(); return s; }
SCENARIO(C14, builder) {
    u32 how = pick(8), cap = pick(3) ? pick(12) : pick(400), seed = pick(1 << 16); bool members = pick(2); Failing f = draw_failing(10); vector<u32> ops = draw_ops(3, 50); bool big = pick(6) == 5, huge = pick(25) == 24; u32 hugelen = pick(2) ? 200000 : 131080;
    slog("made by %u room %u failing %lld", how, cap, (long long)f.at);
    AppResult r = run_app("strings", [&] {
        using namespace gen;
        SimAlloc h(1, "user"); arm(h, f); gen::AllocatorInfo A = env::info(&h); string ref = text(seed, cap); StrBuilder s; u64 live = 1;
        auto lent = [](string const& t) { return Str{t.data(), (gen::ssize)t.size()}; };
        switch (how) {
            case 0: s = strbuilder_make_c_str(A, ref.c_str()); break;
            case 1: s = members ? StrBuilder::make(A, lent(ref)) : strbuilder_make_str(A, lent(ref)); break;
            case 2: s = members ? StrBuilder::make_reserve(A, cap) : strbuilder_make_reserve(A, cap); ref.clear(); EXPECT(strbuilder_capacity(s) >= cap, "capacity-wrong", "asked for room for %u, got %lld", cap, (long long)strbuilder_capacity(s)); break;
            case 3: s = members ? StrBuilder::make_length(A, ref.data(), ref.size()) : strbuilder_make_length(A, ref.data(), ref.size()); break;
            case 4: { vector<string> parts; string glue = text(seed + 7, 4); for (u32 i = 0; i < seed % 5; i++) parts.push_back(text(seed + 100 + i, 30)); vector<char const*> pp; ref.clear(); for (u32 i = 0; i < parts.size(); i++) { pp.push_back(parts[i].c_str()); ref += (i ? glue : "") + parts[i]; } s = members ? StrBuilder::join(A, pp.data(), pp.size(), glue.c_str()) : strbuilder_join(A, pp.data(), pp.size(), glue.c_str()); break; }
            case 5: { string t = text(seed, huge ? hugelen : 60); ref = t + "|" + std::to_string(seed) + "|" + t; s = members ? StrBuilder::fmt_buf(A, "%s|%d|%s", t.c_str(), (int)seed, t.c_str()) : strbuilder_fmt_buf(A, "%s|%d|%s", t.c_str(), (int)seed, t.c_str()); break; }
            case 6: { std::vector<char> buf(1 + seed % 90); string t = text(seed, huge ? hugelen : seed / 90 % 4 == 3 ? 900 : 60); ref = "<" + t + " " + std::to_string(seed) + ">"; s = members ? StrBuilder::fmt(A, buf.data(), buf.size(), "<%s %u>", t.c_str(), seed) : strbuilder_fmt(A, buf.data(), buf.size(), "<%s %u>", t.c_str(), seed); break; }
            default: { StrBuilder o = strbuilder_make_str(A, lent(ref)); s = members ? o.duplicate(A) : strbuilder_duplicate(o, A); EXPECT(s.Data != o.Data, "duplicate-shared", "a duplicate shares storage"); if (o.Data) strbuilder_append_char(&o, '!'); strbuilder_free(&o); break; }
        }
        auto check = [&](char const* when) {
            EXPECT(s.Data, "string-lost", "after %s the string is gone", when);
            EXPECT(h.live_blocks == live, "leak", "after %s there are %s", when, sim_leaks(&h).c_str());
            gen::ssize n = members ? s.length() : strbuilder_length(s), c = strbuilder_capacity(s);
            EXPECT(n == (gen::ssize)ref.size(), "length-wrong", "after %s the length is %lld, expected %zu", when, (long long)n, ref.size());
            EXPECT(c >= n && sim_in_live(strbuilder_get_header(s), sizeof(StrBuilderHeader) + c + 1), "capacity-wrong", "after %s it claims room for %lld", when, (long long)c);
            EXPECT(strbuilder_avail_space(s) == c - n, "capacity-wrong", "available space is not capacity less length");
            EXPECT(!memcmp(s.Data, ref.data(), ref.size()), "text-wrong", "after %s it reads %s, expected %s", when, quote(string(s.Data, n), 200).c_str(), quote(ref, 200).c_str());
            EXPECT(s.Data[n] == 0, "not-terminated", "after %s it is not terminated", when);
            Str v = strbuilder_to_str(s); EXPECT(v.Ptr == s.Data && v.Len == n, "view-wrong", "its view differs");
            EXPECT(strbuilder_end(s) - strbuilder_begin(s) == n, "view-wrong", "begin and end are %lld apart", (long long)(strbuilder_end(s) - strbuilder_begin(s)));
            if (n) EXPECT(*strbuilder_back(s) == ref.back(), "back-wrong", "the last character differs");
        };
        check("making it");
        for (u32 o : ops) {
            u32 what = o % 20, arg = o / 32; op(); string t = text(arg, big ? 3000 : arg % 9 == 8 ? 300 : 20); char const* nm = "append"; bool ok = true; u64 failed = h.failed;
            switch (what) {
                default: nm = "append of a view"; ok = members ? s.append(lent(t)) : strbuilder_append_str(&s, lent(t)); ref += t; break;
                case 3: nm = "append of a character"; { char ch = (char)(1 + arg % 127); ok = members ? s.append(ch) : strbuilder_append_char(&s, ch); ref += ch; break; }
                case 4: nm = "append of a c string"; ok = members ? s.append(t.c_str()) : strbuilder_append_c_str(&s, t.c_str()); ref += t; break;
                case 5: nm = "append of a part"; { u64 k = t.empty() ? 0 : arg % (t.size() + 1); ok = members ? s.append(t.data(), k) : strbuilder_append_c_str_len(&s, t.data(), k); ref += t.substr(0, k); break; }
                case 6: nm = "append of a builder"; { SimAlloc h2(2, "other"); StrBuilder x = strbuilder_make_str(env::info(&h2), lent(t)); ok = members ? s.append(x) : strbuilder_append_string(&s, x); EXPECT(string(x.Data, strbuilder_length(x)) == t, "source-changed", "the appended string changed"); strbuilder_free(&x); EXPECT(h2.live_blocks == 0, "leak", "%s", sim_leaks(&h2).c_str()); ref += t; break; }
                case 7: nm = "formatted append"; { if (huge && arg % 3 == 0 && ref.size() < 2000000) t = text(arg, hugelen); string u = t; ok = members ? s.append_fmt("%s:%d,%.*s;%%", u.c_str(), (int)arg, (int)(u.size() / 2), u.c_str()) : strbuilder_append_fmt(&s, "%s:%d,%.*s;%%", u.c_str(), (int)arg, (int)(u.size() / 2), u.c_str()); ref += t + ":" + std::to_string((int)arg) + "," + t.substr(0, t.size() / 2) + ";%"; break; }
                case 8: nm = "formatted append of other kinds"; { if (huge && arg % 3 == 0 && ref.size() < 2000000) t = text(arg, hugelen); SimAlloc h2(2, "other"); string lit; for (char ch : t) if (ch != '%') lit += ch; char num[200]; int w = 1 + arg / 7 % 12;
                    switch (arg % 6) {
                        case 0: ok = strbuilder_append_fmt(&s, lit.c_str()); ref += lit; break;
                        case 1: ok = strbuilder_append_fmt(&s, (lit + "%S|").c_str(), lent(t)); ref += lit + (t.empty() ? "" : t) + "|"; break;
                        case 2: { StrBuilder x = strbuilder_make_str(env::info(&h2), lent(t)); ok = strbuilder_append_fmt(&s, "%SB%c", x, 'z'); ref += t + "z"; strbuilder_free(&x); break; }
                        case 3: snprintf(num, sizeof num, "%u %x %X %lld %llu %zu", arg, arg, arg, -(long long)arg * arg, (unsigned long long)mix(arg), (size_t)mix(arg)); ok = strbuilder_append_fmt(&s, "%u %x %X %lld %llu %zu", arg, arg, arg, -(long long)arg * arg, (unsigned long long)mix(arg), (size_t)mix(arg)); ref += num; break;
                        case 4: snprintf(num, sizeof num, "[%*d|%-*d|%5s]", w, (int)arg, w, (int)arg, "ab"); ok = strbuilder_append_fmt(&s, "[%*d|%-*d|%5s]", w, (int)arg, w, (int)arg, "ab"); ref += num; break;
                        default: { int r = 1 + (int)t.size(); ok = strbuilder_append_fmt(&s, ("%" + std::to_string(r) + "r%-" + std::to_string(r + 2) + "s.").c_str(), (int)'=', t.c_str()); ref += string(r, '=') + t + string(r + 2 - t.size(), ' ') + "."; break; }
                    }
                    break; }
                case 9: nm = "trim"; { string set = text(arg + 3, 6); for (u32 i = 0; i < arg % 3 && i < ref.size(); i++) set += ref[ref.size() - 1 - i]; members ? s.trim(set.c_str()) : strbuilder_trim(s, set.c_str()); ref = trim_ref(ref, set); break; }
                case 10: nm = "trim of space"; members ? s.trim_space() : strbuilder_trim_space(s); ref = trim_ref(ref, " \t\r\n\v\f"); break;
                case 11: nm = "strip of space"; { if (arg % 2) continue; members ? s.strip_space() : strbuilder_strip_space(s); string q; for (char ch : ref) if (!strchr(" \t\r\n\v\f", ch)) q += ch; ref = q; break; }
                case 12: nm = "clear"; if (arg % 4) continue; members ? s.clear() : strbuilder_clear(s); ref.clear(); break;
                case 13: nm = "making space"; { u32 k = arg % 500; ok = members ? s.make_space_for("", k) : strbuilder_make_space_for(&s, "", k); if (ok) EXPECT(strbuilder_avail_space(s) >= k, "space-missing", "asked for %u, has %lld", k, (long long)strbuilder_avail_space(s)); break; }
                case 14: nm = "append of nothing"; ok = strbuilder_append_c_str_len(&s, nullptr, 5); EXPECT(!ok, "append-null", "appending nothing succeeded"); ok = true; break;
                case 15: { nm = "comparison"; string u = arg % 3 == 0 ? ref : arg % 3 == 1 ? (arg / 3 % 3 == 0 ? ref.substr(0, arg / 9 % (ref.size() + 1)) : arg / 3 % 3 == 1 ? ref.substr(arg / 9 % (ref.size() + 1)) : ref.substr(arg / 9 % (ref.size() + 1), 1 + arg / 9 % 5)) : t; if (arg % 5 == 4 && !u.empty()) u[u.size() - 1] ^= 1; SimAlloc h2(2, "other"); StrBuilder x = strbuilder_make_str(env::info(&h2), lent(u));
                    EXPECT((members ? s.is_equal(x) : strbuilder_are_equal(s, x)) == (ref == u), "compare-wrong", "equality with %s", quote(u, 60).c_str()); EXPECT((members ? s.is_equal(lent(u)) : strbuilder_are_equal_str(s, lent(u))) == (ref == u), "compare-wrong", "equality with a view %s", quote(u, 60).c_str());
                    bool has = ref.find(u) != string::npos, starts = ref.compare(0, u.size(), u) == 0;
                    EXPECT((members ? s.contains(lent(u)) : strbuilder_contains_str(s, lent(u))) == has, "contains-wrong", "containing %s", quote(u, 60).c_str()); EXPECT((members ? s.contains(x) : strbuilder_contains_string(s, x)) == has, "contains-wrong", "containing builder %s", quote(u, 60).c_str());
                    EXPECT((bool)(members ? s.starts_with(lent(u)) : strbuilder_starts_with_str(s, lent(u))) == starts, "starts-wrong", "starting with %s", quote(u, 60).c_str()); EXPECT((bool)(members ? s.starts_with(x) : strbuilder_starts_with_string(s, x)) == starts, "starts-wrong", "starting with builder %s", quote(u, 60).c_str());
                    strbuilder_free(&x); break; }
                case 16: { nm = "visualisation"; StrBuilder x = strbuilder_visualize_whitespace(s); string w; for (char ch : ref) w += ch == ' ' ? "\xc2\xb7" : ch == '\t' ? "\xe2\x86\x92" : ch == '\n' ? "\xe2\x86\xb5" : ch == '\r' ? "\xe2\x8f\x8e" : ch == '\v' ? "\xe2\x87\x95" : ch == '\f' ? "\xe2\x8c\x82" : string(1, ch); EXPECT(x.Data && string(x.Data, strbuilder_length(x)) == w, "visualise-wrong", "whitespace made visible differs"); strbuilder_free(&x); break; }
                case 17: { nm = "duplication"; StrBuilder x = members ? s.duplicate(A) : strbuilder_duplicate(s, A); EXPECT(x.Data && x.Data != s.Data && string(x.Data, strbuilder_length(x)) == ref && x.Data[ref.size()] == 0, "duplicate-wrong", "a duplicate differs"); std::swap(x, s); strbuilder_free(&x); break; }
            }
            slog("%s -> %d, %zu", nm, ok, ref.size());
            EXPECT(ok, "refused", "%s was refused%s", nm, h.failed > failed ? " and the text is gone" : ""); EXPECT(h.failed == failed, "failure-not-reported", "%s went on although its allocation failed", nm);
            check(nm);
        }
        members ? s.free() : strbuilder_free(&s); EXPECT(h.live_blocks == 0, "leak", "%s", sim_leaks(&h).c_str());
    });
    ending(r, true); nontrivial();
}

// ---------------------------------------------------------------- C15
struct Live { unsigned char* p; u64 n, al, tag; };
struct Blocks {       // model of the blocks a user holds
    vector<Live> v; u64 next = 1;
    static unsigned char byte(u64 tag, u64 i) { return (unsigned char)(mix(tag * 1000003 + i / 8) >> (i % 8 * 8)); }
    void paint(Live& b) { b.tag = next++; for (u64 i = 0; i < b.n; i++) b.p[i] = byte(b.tag, i); }
    void add(void* p, u64 n, u64 al, char const* who, bool zeroed) {
        Live b{(unsigned char*)p, n, al, 0};
        EXPECT(((u64)p & (al - 1)) == 0, "misaligned", "%s: a block at %p was asked for with alignment %llu", who, p, (unsigned long long)al);
        EXPECT(sim_in_live(p, n), "outside", "%s: a block of %llu bytes does not lie within live memory of its backing", who, (unsigned long long)n);
        for (auto& o : v) EXPECT(b.p + b.n <= o.p || o.p + o.n <= b.p, "overlap", "%s: a block of %llu bytes overlaps one of %llu bytes", who, (unsigned long long)n, (unsigned long long)o.n);
        if (zeroed) for (u64 i = 0; i < n; i++) EXPECT(b.p[i] == 0, "not-zeroed", "%s: byte %llu of a fresh block of %llu is not zero", who, (unsigned long long)i, (unsigned long long)n);
        paint(b); v.push_back(b);
    }
    void check(char const* who) { for (auto& b : v) { EXPECT(sim_in_live(b.p, b.n), "block-dead", "%s: a block the user holds was given back", who); for (u64 i = 0; i < b.n; i++) EXPECT(b.p[i] == byte(b.tag, i), "bytes-changed", "%s: byte %llu of a block of %llu changed", who, (unsigned long long)i, (unsigned long long)b.n); } }
    u64 bytes() { u64 t = 0; for (auto& b : v) t += b.n; return t; }
};
static u64 align_of(u32 x) { static u64 const a[] = {16, 8, 1, 2, 4, 32, 64, 16}; return a[x % 8]; }

SCENARIO(C15, arena) {
    u32 kind = pick(4), size = pick(3) ? 64 + pick(2000) : pick(64), off = pick(4) ? 0 : pick(16); Failing f = draw_failing(3); vector<u32> ops = draw_ops(3, 40);
    slog("arena kind %u size %u", kind, size);
    AppResult r = run_app("arena", [&] {
        using namespace gen;
        SimAlloc h(1, "user"); arm(h, f); Arena a, parent; gen::FixedArena<1024>* fixed = nullptr; void* mem = nullptr; u64 total = size;
        switch (kind) {
            case 0: a = arena_init_from_allocator(env::info(&h), size); break;
            case 1: mem = sim_alloc(&h, size + off, 16, false, "the user"); if (!mem) return; a = arena_init_from_memory((char*)mem + off, size); break;
            case 2: fixed = (gen::FixedArena<1024>*)sim_alloc(&h, sizeof *fixed, 16, false, "the user"); if (!fixed) return; fixed_arena_init(fixed); total = 1024; break;
            default: parent = arena_init_from_allocator(env::info(&h), size + 128); if (!parent.PhysicalStart) return; a = arena_init_from_allocator(arena_allocator_info(&parent), size); break;
        }
        if (!fixed && !a.PhysicalStart) { EXPECT(h.failed, "refused", "an arena could not be made"); EXPECT(h.live_blocks == 0, "leak", "%s", sim_leaks(&h).c_str()); return; }
        AllocatorInfo A = fixed ? fixed_arena_allocator_info(fixed) : arena_allocator_info(&a); unsigned char* base = fixed ? (unsigned char*)fixed->memory : (unsigned char*)a.PhysicalStart;
        Blocks b; u64 worst = 0;     // an upper bound of what the requests so far can have used up
        auto stage = [&](u64 n, u64 al) { u64 w = worst + n + 2 * al; u64 rec[2] = {w <= total, 1}; shm_put(rec, sizeof rec); return w; };
        for (u32 o : ops) {
            u32 what = o % 8, arg = o / 8; u64 n = arg % 5 == 4 ? arg / 5 % 300 : arg / 5 % 40, al = align_of(arg / 1024); op();
            auto inside = [&](void* p, u64 k) { EXPECT((unsigned char*)p >= base && (unsigned char*)p + k <= base + total, "outside", "a block of %llu bytes lies outside the arena", (unsigned long long)k); };
            if (what == 7 && arg % 3 == 0) { slog("release all"); free_all(A); b.v.clear(); worst = 0; }
            else if (what == 6 && !b.v.empty()) { slog("free one"); u32 i = arg % b.v.size(); allocator_free(A, b.v[i].p); b.v.erase(b.v.begin() + i); }
            else if (what == 5 && !b.v.empty()) {
                u32 i = arg % b.v.size(); Live q = b.v[i]; u64 w = stage(n, q.al); slog("resize %llu to %llu", (unsigned long long)q.n, (unsigned long long)n);
                void* p = resize_align(A, q.p, q.n, n, q.al);
                if (n == 0) { EXPECT(p == nullptr, "resize-wrong", "resizing to nothing gives a block"); b.v.erase(b.v.begin() + i); }
                else { EXPECT(p, "resize-wrong", "a resize gave nothing"); inside(p, n); for (u64 k = 0; k < std::min(n, q.n); k++) EXPECT(((unsigned char*)p)[k] == Blocks::byte(q.tag, k), "resize-lost", "byte %llu of a block changed when it was resized from %llu to %llu", (unsigned long long)k, (unsigned long long)q.n, (unsigned long long)n); b.v.erase(b.v.begin() + i); b.add(p, n, q.al, "resize", false); if (n > q.n) worst = w; }
            }
            else {
                gen::ssize rem = fixed ? fixed_arena_size_remaining(fixed, al) : arena_size_remaining(&a, al);
                EXPECT(rem <= (gen::ssize)(total - b.bytes()), "remaining-wrong", "%lld bytes are said to remain of %llu, %llu are in use", (long long)rem, (unsigned long long)total, (unsigned long long)b.bytes());
                EXPECT(rem >= (gen::ssize)total - (gen::ssize)worst - (gen::ssize)al, "remaining-wrong", "only %lld bytes are said to remain of %llu, at most %llu can be in use", (long long)rem, (unsigned long long)total, (unsigned long long)worst);
                u64 w = stage(n, al); slog("alloc %llu aligned %llu", (unsigned long long)n, (unsigned long long)al);
                void* p = alloc_align(A, n, al); EXPECT(p, "alloc-null", "a request of %llu gave nothing", (unsigned long long)n); inside(p, n); b.add(p, n, al, "arena", true); worst = w;
            }
            b.check("arena");
        }
        u64 rec[2] = {0, 2}; shm_put(rec, sizeof rec);
        if (fixed) { fixed_arena_free(fixed); sim_free(&h, fixed, "the user"); }
        else { arena_check(&a); arena_free(&a); if (kind == 0) EXPECT(a.PhysicalStart == nullptr, "freed-arena", "a freed arena still has memory"); if (kind == 1) sim_free(&h, mem, "the user"); if (kind == 3) arena_free(&parent); }
        EXPECT(h.live_blocks == 0, "leak", "%s", sim_leaks(&h).c_str());
    });
    ShmReader rd; u64 rec[2] = {0, 0}, last[2] = {0, 0}; while (rd.get(rec, sizeof rec)) { last[0] = rec[0]; last[1] = rec[1]; }
    if (r.kind != APP_RETURNED) { EXPECT(r.stopped(), "ended", "%s", r.describe().c_str()); EXPECT(!(last[1] == 1 && last[0]), "refused", "a request that fits was refused: %s", r.describe().c_str()); EXPECT(!r.err.empty(), "silent-stop", "stopped without a message"); count("probe:arena_exhausted"); }
    nontrivial();
}
SCENARIO(C15, pool) {
    u32 nb = 1 + pick(pick(2) ? 6 : 30), bs = 8 + pick(pick(2) ? 40 : 300), al = 8u << pick(4), over = pick(3); Failing f = draw_failing(2); vector<u32> ops = draw_ops(3, 60); bool members = pick(2);
    slog("pool of %u blocks of %u aligned %u", nb, bs, al);
    AppResult r = run_app("pool", [&] {
        using namespace gen;
        SimAlloc h(1, "user"); arm(h, f); Arena backing; if (over == 2) { backing = arena_init_from_allocator(env::info(&h), (bs + 2 * al) * nb + 256); if (!backing.PhysicalStart) return; }
        AllocatorInfo B = over == 2 ? arena_allocator_info(&backing) : env::info(&h);
        if (over == 1) al = 16;
        Pool p = over == 1 ? (members ? Pool::init(B, nb, bs) : pool_init(B, nb, bs)) : (members ? Pool::init_align(B, nb, bs, al) : pool_init_align(B, nb, bs, al));
        if (!p.PhysicalStart) { EXPECT(h.failed, "refused", "a pool could not be made"); EXPECT(h.live_blocks == 0, "leak", "%s", sim_leaks(&h).c_str()); return; }
        AllocatorInfo A = pool_allocator_info(&p); Blocks b; u64 full = 0;
        for (u32 o : ops) {
            u32 what = o % 8, arg = o / 8; op();
            if (what == 7 && arg % 5 == 0) { slog("clear"); if (arg / 5 % 2) pool_clear(&p); else free_all(A); b.v.clear(); for (u32 k = arg / 10 % 3 == 2 ? nb : 0; k--;) { void* q = alloc_align(A, bs, al); EXPECT(q, "alloc-null", "a cleared pool with %zu of %u blocks in use gave nothing", b.v.size(), nb); b.add(q, bs, al, "pool", true); } }
            else if (what >= 5 && !b.v.empty()) { u32 i = arg % b.v.size(); slog("free block %u", i); allocator_free(A, b.v[i].p); b.v.erase(b.v.begin() + i); }
            else if (b.v.size() < nb) { slog("alloc"); void* q = alloc_align(A, bs, al); EXPECT(q, "alloc-null", "a pool with %zu of %u blocks in use gave nothing", b.v.size(), nb); b.add(q, bs, al, "pool", true); if (b.v.size() == nb) full++; }
            else { u64 rec[1] = {1}; if (arg % 4 == 0) { shm_put(rec, 8); slog("alloc from a full pool"); void* q = alloc_align(A, bs, al); EXPECT(!q, "overfull", "a pool of %u blocks handed out one more", nb); } }
            EXPECT(p.TotalSize == (gen::ssize)(b.v.size() * bs), "accounting", "the pool says %lld bytes are in use, %zu blocks of %u are", (long long)p.TotalSize, b.v.size(), bs);
            b.check("pool");
        }
        if (full) count("probe:pool_full");
        members ? p.free() : pool_free(&p); if (over == 2) arena_free(&backing);
        EXPECT(h.live_blocks == 0, "leak", "%s", sim_leaks(&h).c_str());
    });
    ShmReader rd; u64 x = 0; bool overfull = rd.get(&x, 8);
    EXPECT(r.kind == APP_RETURNED || (overfull && r.stopped() && !r.err.empty()), "ended", "%s", r.describe().c_str());
    nontrivial();
}
SCENARIO(C15, heap) {
    Failing f = draw_failing(20); vector<u32> ops = draw_ops(3, 60);
    AppResult r = run_app("heap", [&] {
        using namespace gen;
        arm(g_os_heap, f); AllocatorInfo A = heap(); Blocks b;
        for (u32 o : ops) {
            u32 what = o % 8, arg = o / 8; u64 n = arg % 5 == 4 ? arg / 5 % 5000 : 1 + arg / 5 % 60, al = align_of(arg / 1024); if (al < 8) al = 8; op(); u64 failed = g_os_heap.failed;
            if (what >= 6 && !b.v.empty()) { u32 i = arg % b.v.size(); slog("free"); allocator_free(A, b.v[i].p); b.v.erase(b.v.begin() + i); }
            else if (what == 5 && !b.v.empty()) {
                u32 i = arg % b.v.size(); Live q = b.v[i]; slog("resize %llu to %llu", (unsigned long long)q.n, (unsigned long long)n); void* p = resize_align(A, q.p, q.n, n, q.al);
                if (!p) { EXPECT(g_os_heap.failed > failed, "refused", "a resize was refused"); }
                else { for (u64 k = 0; k < std::min(n, q.n); k++) EXPECT(((unsigned char*)p)[k] == Blocks::byte(q.tag, k), "resize-lost", "byte %llu changed when a block was resized from %llu to %llu", (unsigned long long)k, (unsigned long long)q.n, (unsigned long long)n); b.v.erase(b.v.begin() + i); b.add(p, n, q.al, "resize", false); }
            }
            else if (what == 4 && arg % 7 == 0) { slog("resize of nothing"); void* p = resize_align(A, nullptr, 0, n, al); if (p) b.add(p, n, al, "resize", true); else EXPECT(g_os_heap.failed > failed, "refused", "a request was refused"); }
            else { slog("alloc %llu aligned %llu", (unsigned long long)n, (unsigned long long)al); void* p = alloc_align(A, n, al); if (!p) EXPECT(g_os_heap.failed > failed, "refused", "a request was refused"); else b.add(p, n, al, "heap", true); }
            EXPECT(g_os_heap.live_blocks == b.v.size(), "leak", "the user holds %zu blocks, the system heap %s", b.v.size(), sim_leaks(&g_os_heap).c_str());
            b.check("heap");
        }
        for (auto& q : b.v) allocator_free(A, q.p); EXPECT(g_os_heap.live_blocks == 0, "leak", "%s", sim_leaks(&g_os_heap).c_str());
    });
    EXPECT(r.kind == APP_RETURNED, "ended", "%s", r.describe().c_str()); nontrivial();
}
SCENARIO(C15, context_default) {
    u32 bucket = pick(3) ? 4096 + pick(5000) : 1 << 20; Failing f = draw_failing(12); vector<u32> ops = draw_ops(3, 60);
    slog("bucket %u", bucket);
    AppResult r = run_app("default allocator", [&] {
        using namespace gen;
        Context ctx = {}; ctx.InitSize_Fallback_Allocator_Bucket_Size = bucket; ctx.CodePool_NumBlocks = 16; ctx.SizePer_StringArena = 1024; ctx.InitSize_BuilderBuffer = 64; ctx.InitSize_LexerTokens = 32; ctx.InitSize_CodePoolsArray = 4; ctx.InitSize_StringArenasArray = 4;
        init(&ctx); arm(g_os_heap, f);
        AllocatorInfo As[4] = {ctx.Allocator_DyanmicContainers, ctx.Allocator_Pool, ctx.Allocator_StrCache, ctx.Allocator_Temp}; Blocks b; vector<std::pair<Code, string>> code;
        for (u32 o : ops) {
            u32 what = o % 8, arg = o / 8; u64 n = arg % 5 == 4 ? arg / 5 % 12000 : 1 + arg / 5 % 200, al = align_of(arg / 1024); op(); AllocatorInfo A = As[arg % 4];
            if (what == 7) { string t = "text_" + std::to_string(o); slog("make code"); code.push_back({untyped_str(env::S(t)), t}); }
            else if (what == 6 && !b.v.empty()) { u32 i = arg % b.v.size(); slog("free"); allocator_free(A, b.v[i].p); b.v.erase(b.v.begin() + i); }
            else if (what == 5 && !b.v.empty()) { u32 i = arg % b.v.size(); Live q = b.v[i]; slog("resize %llu to %llu", (unsigned long long)q.n, (unsigned long long)n); void* p = resize_align(A, q.p, q.n, n, q.al); EXPECT(p, "refused", "a resize gave nothing"); for (u64 k = 0; k < std::min(n, q.n); k++) EXPECT(((unsigned char*)p)[k] == Blocks::byte(q.tag, k), "resize-lost", "byte %llu changed when a block was resized from %llu to %llu", (unsigned long long)k, (unsigned long long)q.n, (unsigned long long)n); b.v.erase(b.v.begin() + i); b.add(p, n, q.al, "resize", false); }
            else { slog("alloc %llu aligned %llu", (unsigned long long)n, (unsigned long long)al); void* p = alloc_align(A, n, al); EXPECT(p, "refused", "a request gave nothing"); b.add(p, n, al, "default allocator", true); }
            b.check("default allocator"); for (auto& c : code) EXPECT(env::str(c.first.ast->Content) == c.second, "code-changed", "code reads %s", quote(env::str(c.first.ast->Content)).c_str());
        }
        g_os_heap.fail_in = 0; deinit(&ctx); EXPECT(g_os_heap.live_blocks == 0, "leak", "%s", sim_leaks(&g_os_heap).c_str());
    });
    ending(r, true); nontrivial();
}
// copying, moving and filling work on words where addresses allow it: every address, length and distance counts
SCENARIO(C15, raw_memory) {
    vector<u32> ops = draw_ops(3, 60); u32 size = 1 + pick(pick(2) ? 40 : 300);
    slog("%u bytes", size);
    AppResult r = run_app("raw memory", [&] {
        using namespace gen;
        SimAlloc h(1, "user"); unsigned char* m = (unsigned char*)sim_alloc(&h, size, 1, false, "the user"); if (!m) return;
        vector<unsigned char> want(size); for (u32 i = 0; i < size; i++) m[i] = want[i] = (unsigned char)mix(i * 31 + size);
        for (u32 o : ops) {
            u32 what = o % 4, arg = o / 4; u64 to = arg % size, from = arg / size % size, room = size - std::max(to, from), n = room ? mix(o) % (room + 1) : 0; if (arg % 3 == 0) n = std::min<u64>(n, 40); op(); void* p = nullptr; char const* nm = "";
            if (what == 0) { nm = "fill"; n = mix(o) % (size - to + 1); unsigned char b = (unsigned char)mix(o + 1); slog("fill %llu at %llu", (unsigned long long)n, (unsigned long long)to); p = mem_set(m + to, b, n); for (u64 i = 0; i < n; i++) want[to + i] = b; }
            else if (what == 1 && (to + n <= from || from + n <= to)) { nm = "copy"; slog("copy %llu from %llu to %llu", (unsigned long long)n, (unsigned long long)from, (unsigned long long)to); p = mem_copy(m + to, m + from, n); memcpy(want.data() + to, want.data() + from, n); }
            else { nm = "move"; slog("move %llu from %llu to %llu", (unsigned long long)n, (unsigned long long)from, (unsigned long long)to); p = mem_move(m + to, m + from, n); memmove(want.data() + to, want.data() + from, n); }
            EXPECT(p == m + to, "moved-elsewhere", "a %s says it went somewhere else", nm);
            for (u32 i = 0; i < size; i++) EXPECT(m[i] == want[i], "bytes-wrong", "after a %s of %llu bytes (%llu to %llu of %u) byte %u is %u, expected %u", nm, (unsigned long long)n, (unsigned long long)from, (unsigned long long)to, size, i, m[i], want[i]);
        }
        sim_free(&h, m, "the user");
    });
    EXPECT(r.kind == APP_RETURNED, "ended", "%s", r.describe().c_str()); nontrivial();
}
SCENARIO(C15, virtual_memory) {
    vector<u32> ops = draw_ops(2, 20); Failing f = draw_failing(4);
    AppResult r = run_app("virtual memory", [&] {
        using namespace gen;
        arm(g_os_vm, f); struct M { VirtualMemory vm; u64 tag; }; vector<M> v; u64 next = 1; gen::ssize al = 0, page = virtual_memory_page_size(&al);
        EXPECT(page >= 4096 && !(page & (page - 1)) && al >= page, "page-size", "page size %lld, alignment %lld", (long long)page, (long long)al);
        auto paint = [&](M& m) { m.tag = next++; for (u64 i = 0; i < (u64)m.vm.size; i += 64) ((u64*)m.vm.data)[i / 8] = mix(m.tag * 977 + i); };
        auto intact = [&](M& m, char const* when) { EXPECT(sim_in_live(m.vm.data, m.vm.size), "block-dead", "%s: memory is no longer mapped", when); for (u64 i = 0; i < (u64)m.vm.size; i += 64) EXPECT(((u64*)m.vm.data)[i / 8] == mix(m.tag * 977 + i), "bytes-changed", "%s: byte %llu changed", when, (unsigned long long)i); };
        auto mapped = [&] { u64 t = 0; for (auto& m : v) t += m.vm.size; return t; };
        for (u32 o : ops) {
            u32 what = o % 6, arg = o / 6; op(); u64 failed = g_os_vm.failed;
            if (what < 3 || v.empty()) {
                M m; m.vm = vm_alloc(nullptr, page * (1 + arg % 6)); slog("vm_alloc %u pages", 1 + arg % 6);
                if (!m.vm.data) { EXPECT(g_os_vm.failed > failed, "refused", "virtual memory was refused"); count("probe:vm_refused"); }
                else { EXPECT(g_os_vm.failed == failed, "failure-not-reported", "virtual memory was handed out although the system refused it"); EXPECT(((u64)m.vm.data & (page - 1)) == 0 && m.vm.size == page * (1 + arg % 6), "vm-wrong", "%lld bytes at %p", (long long)m.vm.size, m.vm.data); for (u64 i = 0; i < (u64)m.vm.size; i += 512) EXPECT(((char*)m.vm.data)[i] == 0, "not-zeroed", "fresh virtual memory is not zero"); paint(m); v.push_back(m); }
            } else if (what == 3) { u32 i = arg % v.size(); slog("vm_free"); EXPECT(vm_free(v[i].vm), "free-refused", "freeing virtual memory was refused"); v.erase(v.begin() + i); }
            else if (what == 4) {
                u32 i = arg % v.size(); u64 pages = v[i].vm.size / page, lead = arg / 8 % pages, keep = 1 + arg / 64 % (pages - lead); slog("vm_trim %llu + %llu of %llu pages", (unsigned long long)lead, (unsigned long long)keep, (unsigned long long)pages);
                M m = v[i]; VirtualMemory t = vm_trim(m.vm, lead * page, keep * page); v.erase(v.begin() + i);
                if (t.data) { EXPECT((char*)t.data == (char*)m.vm.data + lead * page && t.size == (gen::ssize)(keep * page), "trim-wrong", "trimmed to %lld bytes at offset %lld", (long long)t.size, (long long)((char*)t.data - (char*)m.vm.data)); for (u64 q = 0; q < keep * page; q += 64) EXPECT(((u64*)t.data)[q / 8] == mix(m.tag * 977 + lead * page + q), "trim-lost", "byte %llu changed", (unsigned long long)q); M k; k.vm = t; paint(k); v.push_back(k); }
                else count("probe:vm_trim_refused");
            } else { u32 i = arg % v.size(); slog("vm_purge"); EXPECT(vm_purge(v[i].vm), "purge-refused", "purging was refused"); paint(v[i]); }
            for (auto& m : v) intact(m, "then");
            EXPECT(vm_mapped() == mapped(), "vm-leak", "%llu bytes are mapped, the user holds %llu", (unsigned long long)vm_mapped(), (unsigned long long)mapped());
        }
        for (auto& m : v) EXPECT(vm_free(m.vm), "free-refused", "freeing virtual memory was refused"); EXPECT(vm_mapped() == 0, "vm-leak", "%llu bytes stay mapped", (unsigned long long)vm_mapped());
    });
    EXPECT(r.kind == APP_RETURNED, "ended", "%s", r.describe().c_str()); nontrivial();
}
