// C04 interning, C20 templates, C21 bodies and lists, C22 macro registry, C23 clock.
#include "gen_env.hpp"
#include "srcgen.hpp"
#include "jobs.hpp"
using namespace sim; using std::string; using std::vector; using env::S; using jobs::Lent; using jobs::text_of;
static vector<u32> draw_ops(u32 lo, u32 hi) { u32 n = range(lo, hi); vector<u32> v; for (u32 i = 0; i < n; i++) v.push_back(pick(1u << 24)); return v; }
struct Fail { i64 at; bool forever; int heap; };
static Fail draw_fail(u32 span) { Fail f; f.at = pick(4) == 3 ? 1 + pick(span) : 0; f.forever = pick(2); f.heap = pick(4); return f; }
static void ending(AppResult const& r, bool may_stop) {
    if (r.kind == APP_RETURNED) return;
    EXPECT(r.stopped() && may_stop && counted("fault:alloc_failure"), "ended", "%s", r.describe().c_str());
    EXPECT(!r.err.empty(), "silent-stop", "stopped without a message"); count("probe:failure_reported");
}
// texts with a chosen crc32: prefix plus four forged bytes
static u32 g_crc[256]; static void crc_init() { if (g_crc[1]) return; for (u32 i = 0; i < 256; i++) { u32 c = i; for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; g_crc[i] = c; } }
static string forge(string prefix, u32 want) {
    crc_init(); u32 c = ~0u; for (unsigned char ch : prefix) c = (c >> 8) ^ g_crc[(c ^ ch) & 255];
    u32 t = ~want; unsigned char idx[4]; for (int i = 3; i >= 0; i--) { int k = 0; while ((g_crc[k] >> 24) != (t >> 24)) k++; idx[i] = k; t = (t ^ g_crc[k]) << 8; }
    for (int i = 0; i < 4; i++) { unsigned char b = (c & 255) ^ idx[i]; prefix += (char)b; c = (c >> 8) ^ g_crc[idx[i]]; }
    return prefix;
}

// ---------------------------------------------------------------- C04
SCENARIO_W(C04, interning, 60) {
    u32 nctx = range(1, 2), fam = 1 + pick(12), mode = pick(4); Fail f = draw_fail(30);
    env::Cfg cfg[2]; for (u32 i = 0; i < nctx; i++) cfg[i] = env::random_cfg(false);
    vector<u32> ops = draw_ops(4, pick(3) ? 60 : 400);
    for (u32 i = 0; i < nctx; i++) slog("cfg %s cache_len %u", env::cfg_str(cfg[i]).c_str(), cfg[i].cache_len);
    AppResult r = run_app("interning", [&] {
        using namespace gen;
        static env::Heaps h[2]; static Context cx[2]; struct Seen { char const* p; }; std::map<string, Seen> ref[2]; vector<std::pair<gen::Str, string>> all[2]; u64 hits = 0, clash = 0, grown = 0;
        for (u32 i = 0; i < nctx; i++) { env::init_heaps(h[i], 10 + 10 * i); cx[i] = env::make_context(cfg[i], h[i]); gen::init(&cx[i]); }
        if (f.at) { h[0].a[f.heap].fail_in = f.at; h[0].a[f.heap].fail_forever = f.forever; }
        std::map<u32, u32> crcs[2];
        auto draw = [&](u32 x) -> string {
            u32 k = x % 64;
            switch (mode == 3 ? x / 64 % 4 : mode) {
                case 0: return "name_" + std::to_string(k % (4 + fam * 4));
                case 1: { string s = forge("t" + std::to_string(k % (fam + 2)), 0xABCD0000u + x / 4096 % 3); return s; }                    // families of equal crc32
                case 2: { u32 n = mix(x) % 8 == 7 ? 500 + mix(x + 1) % 6000 : mix(x) % 90; return string(n, (char)('a' + x % 5)); }             // lengths, including none and more than an arena holds
                default: { string s; u32 n = 1 + x % 20; for (u32 i = 0; i < n; i++) s += (char)(1 + mix(x / 7 * 31 + i) % 255); return s; }
            }
        };
        auto look = [&](u32 c, char const* when) { for (auto& p : all[c]) EXPECT(env::str(p.first) == p.second, "interned-changed", "interned text %s reads %s %s", quote(p.second).c_str(), quote(env::str(p.first)).c_str(), when); };
        for (u32 o : ops) {
            u32 c = nctx == 1 ? 0 : o % 2, what = o / 2 % 16, arg = o / 32; op(); set_context(&cx[c]);
            if (what == 15 && arg % 8 == 7) { slog("reset %u", c); gen::reset(&cx[c]); ref[c].clear(); all[c].clear(); crcs[c].clear(); continue; }
            if (what >= 13) { slog("other work %u", c); Lent n(draw(arg)); if (n.n && n.n < 200) { Code v = untyped_str(n); (void)v; } Lent t("int other" + std::to_string(arg % 50) + ";\n"); parse_global_body(t); look(c, "after other work"); continue; }
            string t = draw(arg); Lent l(t); slog("intern %u %s", c, quote(t, 40).c_str());
            u64 before = array_num(cx[c].StringArenas);
            gen::Str s = cache_str(l);
            if (array_num(cx[c].StringArenas) > before) grown++;
            EXPECT(env::str(s) == t, "text-wrong", "interning %s gave %s", quote(t).c_str(), quote(env::str(s)).c_str());
            EXPECT(t.empty() || (s.Ptr != l.p && sim_in_live(s.Ptr, t.size())), "not-owned", "interning %s gave text that is not the context's", quote(t).c_str());
            auto it = ref[c].find(t);
            if ((i64)t.size() <= (cfg[c].cache_len ? (i64)cfg[c].cache_len : std::max<i64>(8192, (i64)cx[c].Max_StrCacheLength))) {   // the limit asked for, or the library's own, which lets ordinary texts in
                if (it != ref[c].end()) { hits++; EXPECT(it->second.p == s.Ptr, "duplicated", "interning %s again gave another string", quote(t).c_str()); }
                else { if (crcs[c][(u32)crc32(t.data(), t.size())]++) clash++; ref[c][t] = {s.Ptr}; all[c].push_back({s, t}); for (size_t i = 0; i + 1 < all[c].size(); i++) { auto& p = all[c][i]; EXPECT(t.empty() || p.second.empty() || s.Ptr + t.size() <= p.first.Ptr || p.first.Ptr + p.second.size() <= s.Ptr, "storage-shared", "%s and %s share storage", quote(t).c_str(), quote(p.second).c_str()); } }
            } else if (it == ref[c].end()) { ref[c][t] = {s.Ptr}; all[c].push_back({s, t}); count("probe:longer_than_cached"); }
        }
        for (u32 c = 0; c < nctx; c++) look(c, "at the end");
        if (hits) count("probe:interned_again", hits); if (clash) count("probe:equal_crc32", clash); if (grown) count("probe:arena_added", grown);
    });
    ending(r, true); nontrivial();
}

// More texts than any ordinary run has: the table and the arenas grow many times over
SCENARIO_W(C04, many, 1) {
    static u32 const sizes[] = {300, 1500, 5000, 20000}; u32 n = sizes[pick(4)] + pick(300), salt = pick(1000), longer = pick(40); env::Cfg cfg = env::random_cfg(false); cfg.cache_len = 0; if (pick(2)) cfg.arena_size = 65536;
    slog("%u texts, cfg %s", n, env::cfg_str(cfg).c_str());
    AppResult r = run_app("many", [&] {
        using namespace gen; static env::Heaps h; static Context cx; env::init_heaps(h, 10); cx = env::make_context(cfg, h); gen::init(&cx); vector<gen::Str> got(n);
        auto text = [&](u32 i) { return i % 50 == 49 ? forge("c" + std::to_string(i), 0x77770000u + i % 7) : "t" + std::to_string(salt * 31 + i) + string(longer && i % 97 == 0 ? longer : 0, '_'); };
        auto same = [&](u32 i, gen::Str s, char const* when) { EXPECT(env::str(s) == text(i), "text-wrong", "text %s reads %s %s", quote(text(i)).c_str(), quote(env::str(s)).c_str(), when); };
        for (u32 i = 0; i < n; i++) {
            { Lent l(text(i)); got[i] = cache_str(l); } same(i, got[i], "when interned");
            if (i % 16 == 15) { u32 k = (u32)(mix(i * 7 + salt) % i); Lent l(text(k)); gen::Str s = cache_str(l); EXPECT(s.Ptr == got[k].Ptr, "duplicated", "interning %s again gave another string, %u texts later", quote(text(k)).c_str(), i - k); }
            if (i % 512 == 511) op();
        }
        std::map<char const*, u32> at; for (u32 i = 0; i < n; i++) { same(i, got[i], "at the end"); Lent l(text(i)); gen::Str s = cache_str(l); EXPECT(s.Ptr == got[i].Ptr, "duplicated", "interning %s again gave another string", quote(text(i)).c_str()); EXPECT(at.emplace(s.Ptr, i).second, "conflated", "%s and %s are the same string", quote(text(i)).c_str(), quote(text(at[s.Ptr])).c_str()); }
        char const* end = nullptr; for (auto& a : at) { EXPECT(a.first >= end, "storage-shared", "%s lies within another text", quote(text(a.second)).c_str()); end = a.first + got[a.second].Len + 1; }
        count("probe:texts", n);
        gen::deinit(&cx);
    });
    ending(r, false); nontrivial();
}

// ---------------------------------------------------------------- C20
static gen::ssize fmt_va(char* buf, gen::usize n, gen::s32 k, ...) { va_list va; va_start(va, k); gen::ssize r = gen::token_fmt_va(buf, n, k, va); va_end(va); return r; }
template<size_t I> static auto nth(char const** n, gen::Str* v) { if constexpr (I % 2) return v[I / 2]; else return n[I / 2]; }
template<size_t... I> static gen::ssize into(std::index_sequence<I...>, char* b, u32 room, char const** n, gen::Str* v, char const* t) { return fmt_va(b, room, sizeof...(I) / 2 + 1, nth<I>(n, v)..., t); }
template<size_t... I> static gen::Str filled(std::index_sequence<I...>, char const** n, gen::Str* v, char const* t) { return gen::token_fmt_impl(sizeof...(I) / 2 + 1, nth<I>(n, v)..., t); }
#define WITH_PAIRS(K, F, ...) switch (K) { case 1: F(std::make_index_sequence<2>(), __VA_ARGS__); break; case 2: F(std::make_index_sequence<4>(), __VA_ARGS__); break; case 3: F(std::make_index_sequence<6>(), __VA_ARGS__); break; case 4: F(std::make_index_sequence<8>(), __VA_ARGS__); break; \
    case 11: F(std::make_index_sequence<22>(), __VA_ARGS__); break; case 34: F(std::make_index_sequence<68>(), __VA_ARGS__); break; case 70: F(std::make_index_sequence<140>(), __VA_ARGS__); break; case 150: F(std::make_index_sequence<300>(), __VA_ARGS__); break; default: abort(); }
static string fill(string const& t, std::map<string, string> const& m) {
    string r; size_t i = 0;
    while (i < t.size()) { if (t[i] == '<') { size_t e = t.find('>', i); if (e != string::npos) { auto it = m.find(t.substr(i + 1, e - i - 1)); if (it != m.end()) { r += it->second; i = e + 1; continue; } } } r += t[i++]; }
    return r;
}
SCENARIO(C20, templates) {
    u32 nctx = range(1, 2); env::Cfg cfg[2]; for (u32 i = 0; i < nctx; i++) cfg[i] = env::random_cfg(false); Fail f = draw_fail(12);
    struct Call { u32 ctx, pairs, buf, other; vector<string> names, vals; string tmpl; }; vector<Call> calls; u32 n = range(2, 14);
    static char const* const nm[] = {"x", "y", "type", "name", "plumless", "buckeroo", "long_name_of_a_token", "a b", "", "0"};
    for (u32 i = 0; i < n; i++) {
        Call c; c.ctx = pick(nctx); c.pairs = range(1, 4); if (pick(24) == 23) { static u32 const many[] = {11, 34, 70, 150}; c.pairs = many[pick(4)]; count("probe:many_names"); } c.names.resize(c.pairs); c.vals.resize(c.pairs); c.buf = pick(3) == 2 ? 1 + pick(120) : 0; c.other = pick(6); std::set<string> used;
        for (u32 k = 0; k < c.pairs; k++) { do c.names[k] = c.pairs > 4 ? "t" + std::to_string(k * 7 % 1000) : string(nm[pick(10)]); while (used.count(c.names[k])); used.insert(c.names[k]); u32 v = pick(8); c.vals[k] = v == 0 ? "" : v == 1 ? "<x>" : v == 2 ? string(pick(pick(4) == 3 ? 30000 : 300), 'v') : v == 3 ? "a<" : v == 4 ? ">b" : v == 5 ? string("a\0b\n", 4) : "val" + std::to_string(pick(100)); }
        u32 parts = pick(9); for (u32 k = 0; k < parts; k++) switch (pick(8)) { case 0: c.tmpl += "text "; break; case 1: c.tmpl += "<"; break; case 2: c.tmpl += ">"; break; case 3: c.tmpl += string("<") + nm[pick(10)] + ">"; break; case 4: c.tmpl += pick(2) ? "a < b " : "c <\nd "; break; case 5: c.tmpl += "%d%s\n"; break; default: c.tmpl += "<" + c.names[pick(c.pairs)] + ">"; break; }
        calls.push_back(c);
    }
    AppResult r = run_app("templates", [&] {
        using namespace gen; static env::Heaps h[2]; static Context cx[2];
        for (u32 i = 0; i < nctx; i++) { env::init_heaps(h[i], 10 + 10 * i); cx[i] = env::make_context(cfg[i], h[i]); gen::init(&cx[i]); }
        if (f.at) { h[0].a[f.heap].fail_in = f.at; h[0].a[f.heap].fail_forever = f.forever; }
        vector<std::pair<Code, string>> kept;
        for (auto& c : calls) {
            op(); set_context(&cx[c.ctx]); std::map<string, string> m; for (u32 k = 0; k < c.pairs; k++) m[c.names[k]] = c.vals[k]; string want = fill(c.tmpl, m), got; gen::ssize len;
            vector<std::unique_ptr<Lent>> L; for (u32 k = 0; k < c.pairs; k++) { L.emplace_back(new Lent(c.names[k])); L.emplace_back(new Lent(c.vals[k])); } Lent T(c.tmpl);
            char const* nn[150]; gen::Str vv[150]; for (u32 k = 0; k < c.pairs; k++) { nn[k] = L[2 * k]->p; vv[k] = *L[2 * k + 1]; }
            slog("fill %s with %u names into %u", quote(c.tmpl, 60).c_str(), c.pairs, c.buf);
            size_t room = 0; if (want.size() >= (c.buf ? c.buf : GEN_PRINTF_MAXLEN)) count("probe:result_too_long");
            if (c.buf) {
                room = c.buf; char* b = new char[c.buf];
                WITH_PAIRS(c.pairs, len = into, b, c.buf, nn, vv, T.p);
                EXPECT(len >= 0 && len <= (gen::ssize)c.buf, "length-wrong", "a result of %lld bytes for %u", (long long)len, c.buf); got.assign(b, len); delete[] b;
            } else {
                room = GEN_PRINTF_MAXLEN; gen::Str s;
                WITH_PAIRS(c.pairs, s = filled, nn, vv, T.p);
                EXPECT(s.Len >= 0 && s.Len <= (gen::ssize)room, "length-wrong", "a result of %lld bytes", (long long)s.Len); got = env::str(s);
                if (c.other == 5 && s.Len > 0 && s.Len < 2000) { Code k = untyped_str(s); kept.push_back({k, got}); }
            }
            if (want.size() <= room) EXPECT(got == want, "text-wrong", "%s filled gives %s instead of %s", quote(c.tmpl).c_str(), quote(got, 400).c_str(), quote(want, 400).c_str());
            else { EXPECT(got == want.substr(0, got.size()), "text-wrong", "%s filled and cut gives %s instead of %s", quote(c.tmpl).c_str(), quote(got, 400).c_str(), quote(want, 400).c_str()); count("probe:result_cut"); }
            if (c.other == 1) { Lent t("int between;\n"); parse_global_body(t); }
            if (c.other == 2) { gen::reset(&cx[c.ctx]); vector<std::pair<Code, string>> k2; for (auto& k : kept) if (nctx == 1) k2.clear(); kept.clear(); }
        }
        for (auto& k : kept) EXPECT(text_of(k.first) == k.second, "kept-changed", "code made of a filled template changed");
    });
    if (r.stopped() && counted("probe:result_too_long")) { EXPECT(!r.err.empty(), "silent-stop", "stopped without a message"); count("probe:failure_reported"); } else ending(r, true);
    nontrivial();
}

// ---------------------------------------------------------------- C22
SCENARIO(C22, macros) {
    u32 nctx = range(1, 2), names = 2 + (pick(16) == 15 ? pick(300) : pick(30)), mode = pick(3); env::Cfg cfg[2]; for (u32 i = 0; i < nctx; i++) cfg[i] = env::random_cfg(false); Fail f = draw_fail(20); vector<u32> ops = draw_ops(3, pick(4) == 3 ? 200 : 50);
    AppResult r = run_app("macros", [&] {
        using namespace gen; static env::Heaps h[2]; static Context cx[2]; struct R { int t, f; }; std::map<string, R> ref[2];
        for (u32 i = 0; i < nctx; i++) { env::init_heaps(h[i], 10 + 10 * i); cx[i] = env::make_context(cfg[i], h[i]); gen::init(&cx[i]); }
        if (f.at) { h[0].a[f.heap].fail_in = f.at; h[0].a[f.heap].fail_forever = f.forever; }
        auto mname = [&](u32 x) -> string { u32 k = x % names; switch (mode) { case 0: return k == 0 ? "plumless" : k == 1 ? "buckeroo" : "MACRO_" + std::to_string(k); case 1: return string(1 + k % 7, (char)('A' + k % 26)) + "_m" + std::to_string(k); default: return forge("f" + std::to_string(k), 0x1234u + k % 3); } };
        auto ident = [](string const& s) { for (char ch : s) if (!(isalnum((unsigned char)ch) || ch == '_')) return false; return true; };
        auto check = [&](char const* when) {
            for (u32 c = 0; c < nctx; c++) { set_context(&cx[c]); for (u32 i = 0; i <= names; i++) {
                string n = i == names ? string("enum_underlying") : mname(i); Lent l(n); Macro* m = lookup_macro(l); auto it = ref[c].find(n); bool want = i == names || it != ref[c].end();
                EXPECT((m != nullptr) == want, m ? "macro-appeared" : "macro-lost", "after %s macro %s is %s in context %u", when, quote(n).c_str(), m ? "registered" : "missing", c);
                if (!m) continue; EXPECT(env::str(m->Name) == n, "name-wrong", "after %s looking %s up finds %s", when, quote(n).c_str(), quote(env::str(m->Name)).c_str());
                if (i < names) EXPECT((int)m->Type == it->second.t && (int)m->Flags == it->second.f, "macro-wrong", "after %s macro %s has kind %d flags %d instead of %d %d", when, quote(n).c_str(), (int)m->Type, (int)m->Flags, it->second.t, it->second.f);
                else EXPECT(m->Type == MT_Expression && m->Flags == MF_Functional, "default-wrong", "after %s the default macro has kind %d flags %d", when, (int)m->Type, (int)m->Flags);
            } }
        };
        check("starting");
        for (u32 o : ops) {
            u32 c = nctx == 1 ? 0 : o % 2, what = o / 2 % 12, arg = o / 32; op(); set_context(&cx[c]); char const* nm = "registering";
            auto mk = [&](u32 x, std::unique_ptr<Lent>& l) { string n = mname(x); l.reset(new Lent(n)); Macro m; m.Name = *l; m.Type = (MacroType)(x / 64 % 6); m.Flags = (MacroFlags)(x / 512 % 4 == 3 ? MF_Functional | MF_Expects_Body : x / 512 % 4 == 2 ? MF_Expects_Body : x / 512 % 4 ? MF_Functional : 0); ref[c][n] = {(int)m.Type, (int)m.Flags}; return m; };
            static constexpr u32 MANY = 150; std::unique_ptr<Lent> L[MANY]; Macro M[MANY];
            if (what < 5) { M[0] = mk(arg, L[0]); slog("register %s in %u", quote(env::str(M[0].Name)).c_str(), c); register_macro(M[0]); }
            else if (what < 9) { u32 k = 1 + arg % 4; if (what < 7 && arg % 37 == 36) { k = 30 + arg / 37 % (MANY - 30); count("probe:long_list"); } for (u32 i = 0; i < k; i++) M[i] = mk((u32)mix(arg * 7 + i), L[i]); slog("register %u in %u", k, c); if (what < 7) register_macros_arr(k, M); else if (k == 1) register_macros(1, M[0]); else if (k == 2) register_macros(2, M[0], M[1]); else if (k == 3) register_macros(3, M[0], M[1], M[2]); else register_macros(4, M[0], M[1], M[2], M[3]); }
            else if (what < 11) {
                nm = "parsing definitions"; string src; u32 k = 1 + arg % 3; std::map<string, R> add;
                for (u32 i = 0; i < k; i++) { u32 x = (u32)mix(arg * 13 + i); string n = mname(x); if (!ident(n)) continue; bool fn; auto it = ref[c].find(n); if (it != ref[c].end()) fn = it->second.f & MF_Functional; else if (add.count(n)) fn = add[n].f & MF_Functional; else fn = x / 256 % 2; src += "#define " + n + (fn ? "( a, b ) ( a + b )\n" : " " + std::to_string(x % 100) + "\n"); if (it == ref[c].end() && !add.count(n)) add[n] = {MT_Expression, fn ? MF_Functional : 0}; }
                if (src.empty()) continue; slog("parse %s in %u", quote(src).c_str(), c); Lent t(src); CodeBody b = parse_global_body(t); EXPECT(b.ast && b->Type == CT_Global_Body, "parse-failed", "definitions %s did not parse", quote(src).c_str());
                for (auto& a : add) ref[c].insert(a);
            }
            else { if (arg % 3) continue; nm = "a reset"; slog("reset %u", c); gen::reset(&cx[c]); ref[c].clear(); }
            check(nm);
        }
    });
    ending(r, true); nontrivial();
}

// ---------------------------------------------------------------- C21
namespace {
using namespace gen;
struct Piece { Code c; string t; };
struct BodyM { CodeBody b; vector<string> ref; CodeType type; };
}
static Code leaf(u32 x, CodeType kind, string* want) {
    using namespace gen; Lent a("n" + std::to_string(x % 97)), b("v" + std::to_string(x % 89));
    u32 w = x / 97 % 6; if (kind == CT_Enum_Body || kind == CT_Union_Body) w = w % 2;
    Code r;
    switch (w) { case 0: { Lent u("text" + std::to_string(x % 1000) + ","); r = untyped_str(u); break; } case 1: { Lent cm("comment " + std::to_string(x % 1000)); r = (Code)def_comment(cm); break; }
        case 2: r = (Code)def_variable(t_int, a); break; case 3: { Opts_def_variable o = {}; o.value = untyped_str(b); r = (Code)def_variable(t_char, a, o); break; }
        case 4: r = (Code)def_using(a, t_int); break; default: r = (Code)def_typedef(a, (Code)t_char); break; }
    *want = text_of(r); return r;
}
SCENARIO_W(C21, bodies, 8) {
    env::Cfg cfg = env::random_cfg(false); Fail f = draw_fail(60); vector<u32> ops = draw_ops(2, 40); slog("cfg %s", env::cfg_str(cfg).c_str());
    AppResult r = run_app("bodies", [&] {
        using namespace gen; static env::Heaps h; static Context cx; env::init_heaps(h, 10); cx = env::make_context(cfg, h); gen::init(&cx);
        if (f.at) { h.a[f.heap].fail_in = f.at; h.a[f.heap].fail_forever = f.forever; }
        vector<BodyM> bodies; vector<Piece> pieces; u64 longest = 0;
        static CodeType const kinds[] = {CT_Class_Body, CT_Enum_Body, CT_Export_Body, CT_Extern_Linkage_Body, CT_Function_Body, CT_Global_Body, CT_Namespace_Body, CT_Struct_Body, CT_Union_Body};
        auto check = [&](char const* when) {
            for (size_t i = 0; i < bodies.size(); i++) {
                BodyM& m = bodies[i]; EXPECT(m.b->Type == m.type, "kind-wrong", "after %s body %zu is a %s", when, i, codetype_to_str(m.b->Type).Ptr);
                EXPECT(m.b->NumEntries == (s32)m.ref.size(), "count-wrong", "after %s body %zu counts %d pieces of %zu", when, i, (int)m.b->NumEntries, m.ref.size());
                EXPECT(code_has_entries((Code)m.b) == !m.ref.empty(), "count-wrong", "after %s body %zu answers wrongly whether it has entries", when, i);
                size_t k = 0; for (Code e = begin_CodeBody(m.b); e != end_CodeBody(m.b); e = next_CodeBody(m.b, e), k++) { EXPECT(k < m.ref.size(), "too-many", "after %s body %zu visits more than %zu pieces", when, i, m.ref.size()); string t = text_of(e); EXPECT(t == m.ref[k], "piece-wrong", "after %s piece %zu of body %zu is %s instead of %s", when, k, i, quote(t).c_str(), quote(m.ref[k]).c_str()); }
                EXPECT(k == m.ref.size(), "too-few", "after %s body %zu visits %zu of %zu pieces", when, i, k, m.ref.size());
                k = m.ref.size(); for (Code e = ((Code)m.b)->Back; e.ast && k; e = e->Prev) { k--; EXPECT(text_of(e) == m.ref[k], "piece-wrong", "after %s piece %zu of body %zu, from the end, is %s instead of %s", when, k, i, quote(text_of(e)).c_str(), quote(m.ref[k]).c_str()); EXPECT(k || e->Prev.ast == nullptr, "too-many", "after %s something lies before the first piece of body %zu", when, i); EXPECT((void*)e->Parent.ast == (void*)m.b.ast, "parent-wrong", "after %s piece %zu of body %zu has another parent", when, k, i); }
                EXPECT(k == 0, "too-few", "after %s going back from the end of body %zu leaves out %zu of %zu pieces", when, i, k, m.ref.size());
                for (size_t q = 0; q < m.ref.size(); q += 1 + m.ref.size() / 4) { Code* e = code_entry((Code)m.b, (u32)q); EXPECT(e && text_of(*e) == m.ref[q], "entry-wrong", "after %s entry %zu of body %zu is another one", when, q, i); }
                if (m.type != CT_Enum_Body && m.type != CT_Union_Body) { string t = text_of((Code)m.b); size_t at = 0; for (auto& x : m.ref) { size_t p = t.find(x, at); EXPECT(p != string::npos, "print-wrong", "after %s body %zu prints %s, without %s in its place", when, i, quote(t, 600).c_str(), quote(x).c_str()); at = p + x.size(); } }
                longest = std::max<u64>(longest, m.ref.size());
            }
            for (size_t i = 0; i < pieces.size(); i++) EXPECT(text_of(pieces[i].c) == pieces[i].t, "piece-changed", "after %s piece %zu prints %s instead of %s", when, i, quote(text_of(pieces[i].c)).c_str(), quote(pieces[i].t).c_str());
        };
        for (u32 o : ops) {
            u32 what = o % 10, arg = o / 16; op(); char const* nm = "building";
            if (bodies.empty() || what < 3) {
                u32 k = bodies.size() < 8 ? arg % 9 : 100; if (k == 100) continue; u32 n = 1 + arg / 9 % (arg % 5 == 4 ? 12 : 5); Code x[12]; BodyM m; m.type = kinds[k];
                for (u32 i = 0; i < n; i++) { string t; if (!pieces.empty() && arg / 100 % 4 == 3 && i % 2 && k != 1 && k != 8) { u32 pi = (u32)mix(arg + i) % pieces.size(); x[i] = pieces[pi].c; t = pieces[pi].t; } else { x[i] = leaf((u32)mix(arg * 31 + i), m.type, &t); pieces.push_back({x[i], t}); } m.ref.push_back(t); }
                bool arr = arg / 50 % 2;
                #define BODY(KIND, ARR) (arr || n > 6 ? ARR(n, x) : n == 1 ? KIND(1, x[0]) : n == 2 ? KIND(2, x[0], x[1]) : n == 3 ? KIND(3, x[0], x[1], x[2]) : n == 4 ? KIND(4, x[0], x[1], x[2], x[3]) : n == 5 ? KIND(5, x[0], x[1], x[2], x[3], x[4]) : KIND(6, x[0], x[1], x[2], x[3], x[4], x[5]))
                if (arg / 200 % 6 == 5) { m.b = def_body(k == 3 ? CT_Global_Body : m.type); m.type = k == 3 ? CT_Global_Body : m.type; m.ref.clear(); slog("empty body of kind %u", k); }
                else { slog("body of kind %u with %u pieces, %s", k, n, arr ? "array" : "list");
                switch (k) { case 0: m.b = BODY(def_class_body, def_class_body_arr); break; case 1: m.b = BODY(def_enum_body, def_enum_body_arr); break; case 2: m.b = BODY(def_export_body, def_export_body_arr); break; case 3: m.b = BODY(def_extern_link_body, def_extern_link_body_arr); break; case 4: m.b = BODY(def_function_body, def_function_body_arr); break; case 5: m.b = BODY(def_global_body, def_global_body_arr); break; case 6: m.b = BODY(def_namespace_body, def_namespace_body_arr); break; case 7: m.b = BODY(def_struct_body, def_struct_body_arr); break; default: m.b = BODY(def_union_body, def_union_body_arr); break; } }
                EXPECT(m.b.ast && m.b->Type != CT_Invalid, "refused", "a body of kind %u with %u pieces was refused", k, n);
                bodies.push_back(m);
            } else {
                BodyM& m = bodies[arg % bodies.size()]; u32 x = (u32)mix(arg);
                if (what < 6) { nm = "appending"; string t; Code c = leaf(x, m.type, &t); pieces.push_back({c, t}); m.ref.push_back(t); if (x % 2) body_append(m.b, c); else code_append((Code)m.b, c); }
                else if (what == 6) { nm = "appending a used piece"; if (pieces.empty() || m.type == CT_Enum_Body || m.type == CT_Union_Body) continue; Piece& p = pieces[x % pieces.size()]; m.ref.push_back(p.t); if (x / 8 % 2) body_append(m.b, p.c); else code_append((Code)m.b, p.c); }
                else if (what == 7 || what == 8) { nm = "merging"; BodyM& s = bodies[x % bodies.size()]; if (&s == &m || s.ref.size() + m.ref.size() > 150) continue; m.ref.insert(m.ref.end(), s.ref.begin(), s.ref.end()); if (x / 8 % 2) body_append(m.b, (Code)s.b); else body_append_body(m.b, s.b); }
                else { nm = "appending a duplicate"; if (pieces.empty() || m.type == CT_Enum_Body || m.type == CT_Union_Body) continue; Piece p = pieces[x % pieces.size()]; Code d = code_duplicate(p.c); EXPECT(d.ast != p.c.ast, "duplicate-same", "a duplicate is the original"); EXPECT(text_of(d) == p.t, "duplicate-wrong", "a duplicate prints %s instead of %s", quote(text_of(d)).c_str(), quote(p.t).c_str()); m.ref.push_back(p.t); body_append(m.b, d); }
            }
            slog("%s", nm); check(nm);
        }
        if (longest > 20) count("probe:long_body");
    });
    ending(r, true); nontrivial();
}
// ---------------------------------------------------------------- C21: pieces far larger than any buffer of the library
// every piece carries numbered markers; the printed code must hold all of them, once, in order
SCENARIO_W(C21, large_pieces, 1) {
    env::Cfg cfg = pick(2) ? env::roomy() : env::random_cfg(false); if (cfg.arena_size && pick(2)) cfg.arena_size = 1 << 20;
    u32 kind = pick(18), wrap = pick(4), style = pick(3); if (kind == 5 && wrap == 2) wrap = 0; u32 target = pick(3) == 0 ? 131000 + pick(140) : 20000 + pick(280000);
    slog("kind %u of %u bytes, wrapped %u", kind, target, wrap);
    AppResult r = run_app("large", [&] {
        using namespace gen; static env::Heaps h; static Context cx; env::init_heaps(h, 10); cx = env::make_context(cfg, h); gen::init(&cx);
        u32 k = 0; auto mark = [&] { char b[16]; snprintf(b, sizeof b, "mk%07u", k++); return string(b); };
        auto fill = [&](string const& before, string const& after) { string t; while (t.size() + before.size() + after.size() + 9 < target || t.empty()) t += before + mark() + after; return t; };
        string src; u32 first = 0; Code c{};
        switch (kind) {
            case 0: src = "void f()\n{\n" + fill("\tcall( ", " );\n") + "}\n"; break;
            case 1: src = "struct S\n{\n" + fill("\tint ", ";\n") + "};\n"; break;
            case 2: src = "class C\n{\npublic:\n" + fill("\tvoid ", "();\n") + "};\n"; break;
            case 3: src = "enum E\n{\n" + fill("\t", ",\n") + "};\n"; break;
            case 4: src = "union U\n{\n" + fill("\tfloat ", ";\n") + "};\n"; break;
            case 5: src = "extern \"C\"\n{\n" + fill("\tint ", "( int a );\n") + "}\n"; break;
            case 6: src = "#define BIG \\\n" + fill("\t", " + \\\n") + "\t1\n"; break;
            case 7: src = "static_assert( " + fill("", " + ") + "1, \"m\" );\n"; break;
            case 8: src = "/* " + fill("", style ? "\n" : " ") + " */\n"; break;
            case 9: src = "int v = " + fill("", " + ") + "0;\n"; break;
            case 10: src = "void f( " + fill("int ", ", ") + "int last );\n"; break;
            case 11: src = "template< " + fill("typename ", ", ") + "typename Last >\nstruct S\n{\n};\n"; break;
            case 12: src = "#if A\n" + fill("int ", ";\n") + "#endif\n"; break;
            case 13: src = "struct S\n{\n\tvoid f()\n\t{\n" + fill("\t\tcall( ", " );\n") + "\t}\n};\n"; break;
            case 14: src = "int a[ " + fill("", " + ") + "1 ];\n"; break;
            case 15: src = "namespace N\n{\n" + fill("int ", ";\n") + "}\n"; break;
            default: break;
        }
        string was = src;
        if (kind < 16) {
            if (wrap == 1) src = "namespace Outer\n{\n" + src + "}\n"; else if (wrap == 2) src = "extern \"C\"\n{\n" + src + "}\n"; else if (wrap == 3) src = "namespace A\n{\nnamespace B\n{\n" + src + "}\n}\n";
            Lent t(src); c = (Code)parse_global_body(t);
        } else {
            string body = fill(style ? "text " : "", style == 2 ? "\n" : " "); Lent t(body), n("f"); 
            if (kind == 16) c = (Code)untyped_fmt(style ? "%s" : "<%s>", string(t.p, t.n).c_str());
            else { Opts_def_function o = {}; o.ret_type = t_void; o.body = def_execution(t); c = (Code)def_function(n, o); }
            if (wrap) { Code two[2] = {c, untyped_str(txt("tail"))}; CodeBody b = wrap == 1 ? def_global_body_arr(2, two) : def_namespace_body_arr(2, two); Opts_def_namespace on = {}; Lent nn("N"); c = wrap == 3 ? (Code)def_namespace(nn, b) : (Code)b; }
        }
        (void)first;
        EXPECT(c.ast && c->Type != CT_Invalid, "refused", "code with a large piece was refused");
        for (int again = 0; again < 2; again++) {
            string t = text_of(c); size_t at = 0; u32 seen = 0;
            for (size_t p = t.find("mk", 0); p != string::npos; p = t.find("mk", p + 1)) { if (p + 9 > t.size() || !isdigit((unsigned char)t[p + 2])) continue; u32 x = (u32)atoi(t.substr(p + 2, 7).c_str()); EXPECT(x == seen, "piece-lost", "the printed code (%zu bytes) goes from marker %d to %u of %u", t.size(), (int)seen - 1, x, k); seen++; at = p; }
            EXPECT(seen == k, "piece-lost", "the printed code (%zu bytes) ends after %u of %u markers", t.size(), seen, k); (void)at;
            if (kind == 13) count("probe:nested_large");
        }
        op(); gen::deinit(&cx);
    });
    EXPECT(r.kind == APP_RETURNED, "ended", "%s", r.describe().c_str()); count("probe:pieces_beyond_128k", target > 131072); nontrivial();
}
SCENARIO_W(C21, lists, 8) {
    env::Cfg cfg = env::random_cfg(false); Fail f = draw_fail(40); vector<u32> ops = draw_ops(2, 40);
    AppResult r = run_app("lists", [&] {
        using namespace gen; static env::Heaps h; static Context cx; env::init_heaps(h, 10); cx = env::make_context(cfg, h); gen::init(&cx);
        if (f.at) { h.a[f.heap].fail_in = f.at; h.a[f.heap].fail_forever = f.forever; }
        struct PM { CodeParams p; vector<string> ref; }; struct SM { CodeSpecifiers s; vector<Specifier> ref; }; struct IM { CodeClass c; CodeStruct s; vector<string> ref; }; struct XM { Code c; string t; };
        vector<PM> ps; vector<SM> ss; vector<IM> is; vector<XM> singles;
        static Specifier const sp[] = {Spec_Const, Spec_Inline, Spec_Static, Spec_Volatile, Spec_Constexpr, Spec_External_Linkage, Spec_Mutable, Spec_Explicit};
        auto param = [&](u32 x, string* t) { Lent n("p" + std::to_string(x % 50)), ty("T" + std::to_string(x / 50 % 20)); Opts_def_param o = {}; if (x / 1000 % 3 == 2) { Lent v(std::to_string(x % 77)); o.value = untyped_str(v); } CodeParams p = def_param(def_type(ty), n, o); *t = text_of((Code)p); return p; };
        auto check = [&](char const* when) {
            for (size_t i = 0; i < ps.size(); i++) {
                PM& m = ps[i]; size_t k = 0; string all; for (auto& x : m.ref) all += (k++ ? ", " : "") + x; string t = text_of((Code)m.p); EXPECT(t == all, "params-wrong", "after %s parameter list %zu prints %s instead of %s", when, i, quote(t, 400).c_str(), quote(all, 400).c_str());
                k = 0; for (CodeParams e = begin_CodeParams(m.p); e != end_CodeParams(m.p); e = next_CodeParams(m.p, e), k++) { EXPECT(k < m.ref.size(), "too-many", "after %s parameter list %zu visits more than %zu", when, i, m.ref.size()); string n = env::str(e->Name); EXPECT(m.ref[k].find(" " + n) != string::npos, "param-wrong", "after %s parameter %zu of list %zu is %s instead of %s", when, k, i, n.c_str(), m.ref[k].c_str()); }
                EXPECT(k == m.ref.size(), "too-few", "after %s parameter list %zu visits %zu of %zu", when, i, k, m.ref.size());
                for (k = 0; k < m.ref.size(); k++) { CodeParams e = params_get(m.p, (s32)k); EXPECT(e.ast && m.ref[k].find(" " + env::str(e->Name)) != string::npos, "param-wrong", "after %s asking list %zu for parameter %zu gives another", when, i, k); }
                EXPECT(m.p->NumEntries == (s32)m.ref.size() && params_has_entries(m.p), "count-wrong", "after %s parameter list %zu counts %d of %zu", when, i, (int)m.p->NumEntries, m.ref.size());
                EXPECT(params_get(m.p, (s32)m.ref.size()).ast == nullptr, "too-many", "after %s list %zu has a parameter behind its last", when, i);
            }
            for (size_t i = 0; i < ss.size(); i++) {
                SM& m = ss[i]; EXPECT(m.s->NumEntries == (s32)m.ref.size(), "count-wrong", "after %s specifier list %zu counts %d of %zu", when, i, (int)m.s->NumEntries, m.ref.size()); size_t k = 0;
                for (Specifier* e = begin_CodeSpecifiers(m.s); e != end_CodeSpecifiers(m.s); e = next_CodeSpecifiers(m.s, e), k++) EXPECT(k < m.ref.size() && *e == m.ref[k], "specifier-wrong", "after %s specifier %zu of list %zu is another", when, k, i);
                for (Specifier x : sp) { bool want = std::find(m.ref.begin(), m.ref.end(), x) != m.ref.end(); EXPECT(specifiers_has(m.s, x) == want, "has-wrong", "after %s specifier list %zu answers wrongly for %s", when, i, spec_to_str(x).Ptr); s32 at = specifiers_index_of(m.s, x); EXPECT(want ? at == std::find(m.ref.begin(), m.ref.end(), x) - m.ref.begin() : at == -1, "index-wrong", "after %s specifier list %zu finds %s at %d", when, i, spec_to_str(x).Ptr, (int)at); }
                string t = text_of((Code)m.s), all; for (auto x : m.ref) all += env::str(spec_to_str(x)) + " "; EXPECT(t == all || m.ref.empty(), "specifiers-wrong", "after %s specifier list %zu prints %s instead of %s", when, i, quote(t).c_str(), quote(all).c_str());
            }
            for (size_t i = 0; i < is.size(); i++) { IM& m = is[i]; string t = text_of(m.c.ast ? (Code)m.c : (Code)m.s); size_t b = t.find(':'), e = t.find('{'); if (m.ref.empty()) { EXPECT(b == string::npos || b > e, "parents-wrong", "after %s class %zu without parents prints %s", when, i, quote(t).c_str()); continue; } EXPECT(b < e, "parents-wrong", "after %s class %zu prints no parents: %s", when, i, quote(t).c_str()); size_t at = b, k = 0; string head = t.substr(0, e); for (auto& x : m.ref) { size_t p = head.find(" " + x, at); EXPECT(p != string::npos, "parents-wrong", "after %s class %zu prints %s, without %s in its place", when, i, quote(t).c_str(), x.c_str()); at = p + x.size(); k++; } EXPECT((size_t)std::count(head.begin() + b, head.end(), ',') + 1 == k, "parents-wrong", "after %s class %zu prints %s for %zu parents", when, i, quote(t).c_str(), k); }
            for (auto& x : singles) EXPECT(text_of(x.c) == x.t, "piece-changed", "after %s a parameter prints %s instead of %s", when, quote(text_of(x.c)).c_str(), quote(x.t).c_str());
        };
        for (u32 o : ops) {
            u32 what = o % 9, arg = o / 16, x = (u32)mix(arg); op(); char const* nm = "";
            switch (what) {
                case 0: { if (ps.size() > 5) continue; nm = "making a parameter list"; u32 n = 1 + arg % 5; CodeParams q[5]; PM m; for (u32 i = 0; i < n; i++) { string t; if (!singles.empty() && x / 64 % 3 == 2 && i == 1) { auto& s = singles[x % singles.size()]; q[i] = (CodeParams)s.c; t = s.t; } else { q[i] = param((u32)mix(x + i), &t); if (i) singles.push_back({(Code)q[i], t}); } m.ref.push_back(t); }
                    slog("list of %u", n); m.p = x % 2 ? def_params_arr(n, q) : n == 1 ? def_params(1, q[0]) : n == 2 ? def_params(2, q[0], q[1]) : n == 3 ? def_params(3, q[0], q[1], q[2]) : n == 4 ? def_params(4, q[0], q[1], q[2], q[3]) : def_params(5, q[0], q[1], q[2], q[3], q[4]); EXPECT(m.p.ast && m.p->Type == CT_Parameters, "refused", "a parameter list was refused"); ps.push_back(m);
                    // pieces appended here belong to this list now: they print with what follows them only through the list
                    for (u32 i = 1; i < n; i++) {} singles.clear(); break; }
                case 1: case 2: { if (ps.empty()) continue; nm = "appending a parameter"; PM& m = ps[arg % ps.size()]; string t; CodeParams p = param(x, &t); m.ref.push_back(t); params_append(m.p, p); break; }
                case 3: { if (ps.empty()) continue; nm = "appending a parameter of another list"; PM& m = ps[arg % ps.size()]; PM& s = ps[x % ps.size()]; if (s.ref.size() < 2 || m.ref.size() > 30) continue; u32 k = 1 + x / 16 % (u32)(s.ref.size() - 1); string t = s.ref[k]; params_append(m.p, params_get(s.p, (s32)k)); m.ref.push_back(t); break; }
                case 4: { if (ss.size() > 5) continue; nm = "making specifiers"; u32 n = 1 + arg % 5; Specifier q[5]; SM m; for (u32 i = 0; i < n; i++) { q[i] = sp[mix(x + i) % 8]; m.ref.push_back(q[i]); } m.s = x % 2 ? def_specifiers_arr(n, q) : n == 1 ? (x / 2 % 2 ? def_specifier(q[0]) : def_specifiers(1, q[0])) : n == 2 ? def_specifiers(2, q[0], q[1]) : n == 3 ? def_specifiers(3, q[0], q[1], q[2]) : n == 4 ? def_specifiers(4, q[0], q[1], q[2], q[3]) : def_specifiers(5, q[0], q[1], q[2], q[3], q[4]); EXPECT(m.s.ast && m.s->Type == CT_Specifiers, "refused", "specifiers were refused"); ss.push_back(m); break; }
                case 5: { if (ss.empty()) continue; nm = "adding a specifier"; SM& m = ss[arg % ss.size()]; Specifier s = sp[x % 8]; bool ok = specifiers_append(m.s, s); EXPECT(ok == (m.ref.size() < AST_ArrSpecs_Cap), "append-result", "adding a specifier to %zu says %d", m.ref.size(), ok); if (ok) m.ref.push_back(s); break; }
                case 6: { if (ss.empty()) continue; nm = "removing a specifier"; SM& m = ss[arg % ss.size()]; Specifier s = sp[x % 8]; bool had = std::find(m.ref.begin(), m.ref.end(), s) != m.ref.end(); s32 at = specifiers_remove(m.s, s); EXPECT((at >= 0) == had, "remove-result", "removing a specifier that %s says %d", had ? "is there" : "is not there", (int)at); m.ref.erase(std::remove(m.ref.begin(), m.ref.end(), s), m.ref.end()); break; }
                case 7: { if (is.size() > 4) continue; nm = "making a class"; Lent n("Cls" + std::to_string(is.size())); IM m; m.c.ast = nullptr; m.s.ast = nullptr; string t; Code mem = leaf(x, CT_Struct_Body, &t); Opts_def_struct so = {}; Lent pn("Par" + std::to_string(x % 30)); bool par = x / 32 % 2; if (par) { m.ref.push_back("Par" + std::to_string(x % 30)); so.parent = def_type(pn); so.parent_access = AccessSpec_Public; } u32 ni = par ? x / 64 % 4 : 0; CodeTypename ifs[4]; for (u32 i = 0; i < ni; i++) { Lent q("If" + std::to_string(i)); ifs[i] = def_type(q); m.ref.push_back("If" + std::to_string(i)); } if (ni) { so.interfaces = ifs; so.num_interfaces = ni; }
                    if (x % 2) { so.body = def_class_body(1, mem); m.c = def_class(n, so); } else { so.body = def_struct_body(1, mem); m.s = def_struct(n, so); } is.push_back(m); break; }
                case 8: { if (is.empty()) continue; nm = "adding an interface"; IM& m = is[arg % is.size()]; if (m.ref.size() > 12) continue; string n = "Add" + std::to_string(x % 100); Lent l(n); CodeTypename ty = def_type(l); m.ref.push_back(n); if (m.c.ast) class_add_interface(m.c, ty); else struct_add_interface(m.s, ty); break; }
            }
            slog("%s", nm); check(nm);
        }
    });
    ending(r, true); nontrivial();
}

// ---------------------------------------------------------------- C23
SCENARIO(C23, clock) {
    vector<u32> ops = draw_ops(2, 60); u32 start = pick(3); { static u64 const fq[] = {10000000, 3579545, 2343750, 1000, 24000000, 14318180, 1193182}; g_perf_freq = fq[pick(7)]; } sim_ns_start(start == 0 ? 0 : start == 1 ? 1 + pick(1u << 30) : (u64)pick(1u << 30) * 1000000000ull);
    AppResult r = run_app("clock", [&] {
        u64 base = 0, last = 0; bool first = true; double lasts = 0;
        for (u32 o : ops) {
            u32 what = o % 6, arg = o / 8; op();
            if (what == 0 && arg % 5 == 4) { u64 d = 1000000000ull - sim_mono() % 1000000000ull; d -= std::min<u64>(d, arg / 5 % 3 == 0 ? 1 + arg / 15 % 700000 : arg / 15 % 3); slog("time passes %llu ns, to the end of a second", (unsigned long long)d); sim_advance(d); continue; }
            if (what == 0) { u64 d = arg % 4 == 3 ? (u64)(arg / 4 % 100000) * 1000000000ull : arg / 4 % 4 == 0 ? arg % 1000000 : (u64)(arg / 16) * 1000; slog("time passes %llu ns", (unsigned long long)d); sim_advance(d); continue; }
            if (what == 1) { i64 d = ((i64)arg - (1 << 20)) * 1000000000ll; slog("the wall clock is set by %lld ns", (long long)d); sim_set_wall(d); continue; }
            u64 before = sim_mono(), ms; if (what == 5) { double s = gen::time_rel(); EXPECT(s >= lasts, "backwards", "time_rel went from %f to %f", lasts, s); ms = (u64)(s * 1000 + 0.5); } else ms = gen::time_rel_ms();
            u64 after = sim_mono(); slog("time_rel_ms %llu", (unsigned long long)ms);
            if (first) { first = false; base = before; EXPECT(ms <= (after - before) / 1000000 + 1, "start-wrong", "the first reading is %llu", (unsigned long long)ms); }
            EXPECT(ms >= last, "backwards", "the relative clock went from %llu to %llu ms", (unsigned long long)last, (unsigned long long)ms);
            u64 lo = (before - base) / 1000000, hi = (after - base) / 1000000; EXPECT(ms + 2 >= lo && ms <= hi + 2, "elapsed-wrong", "%llu..%llu ms passed, the clock says %llu", (unsigned long long)lo, (unsigned long long)hi, (unsigned long long)ms);
            last = ms; lasts = ms / 1000.0 - 0.0006;
        }
    });
    EXPECT(r.kind == APP_RETURNED, "ended", "%s", r.describe().c_str()); nontrivial();
}
