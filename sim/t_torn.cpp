// C25: a source file torn or damaged on its way to the parser.
#include "jobs.hpp"
using namespace sim; using namespace jobs;

static string damage(string s) {
    u32 n = 1 + (pick(4) == 3 ? pick(3) : 0);
    while (n-- && s.size()) {
        u32 len = (u32)s.size(), at = pick(len);
        if (pick(4) == 3) { u32 k = (u32)s.find_first_of("\"'/*#\\<>([{:=&|.\r\n", at); if (k < s.size()) at = std::min<u32>(len - 1, k + pick(3)); } // next to a character that begins or ends something
        switch (pick(10)) {
            case 0: case 1: s.resize(at); count("fault:tail_lost"); break;
            case 2: s.erase(at, 1 + pick(8)); count("fault:span_lost"); break;
            case 3: { static char const* const t[] = {"}", "{", ";", ")", "(", "struct ", "=", "<", "::", "#", "\"", "operator", ":", "*", "/*", "]", "[", ",", "~", "template", "'", "\\", ">", "...", "#if", "\n", "enum ", "const ", "static ", "inline ", "&", "...", "::", "GEN_API ", "GEN_API inline GEN_API "}; s.insert(at, t[pick(sizeof t / sizeof *t)]); count("fault:stray_bytes"); break; }
            case 4: std::swap(s[at], s[pick(len)]); count("fault:bytes_swapped"); break;
            case 5: { u32 k = std::min<u32>(len - at, 1 + pick(16)); char c = pick(2) ? (char)pick(256) : 0; for (u32 i = 0; i < k; i++) s[at + i] = c; count("fault:sector_overwritten"); break; }
            case 6: s.insert(at, s.substr(pick(len), 1 + pick(20))); count("fault:span_doubled"); break;
            case 7: { string k = s.substr(at, 1 + pick(12)); u32 n = 2 + pick(40); string r; while (n--) r += k; s.insert(at, r); count("fault:span_repeated"); break; }
            case 8: { // the tail is lost, within something that reaches further
                static char const* const t[] = {"\"x\\", "\"", "'\\", "'", "/", "//", "// x\r", "/*", "/* x *", "#", "#include <", "#include \"x", "#define A \\", "#define A \"\\", "#define A(", "#if X \\", "#if 'x", "#pragma \\\r", "<<", "::", ".", "..", "0x", "1.", "-", "->", "&", "|", "!", "%", "*", "+", "=", "^", "~", "[[", "[[a", "__attribute__((", "__declspec(", "alignas(", "decltype(", "operator", "operator\"\"", "R\"(", "x\\", "\r", "#define A b \\\r", "#elif", "#endif", "#error \"x", "\"\\\\", "@", "?", "[", "template<", "template< class A = b<", "using A =", "x = {", "enum class A :", "A::~", "A::operator"};
                s.resize(at); s += t[pick(sizeof t / sizeof *t)]; count("fault:tail_lost_within"); break; }
            default: s[at] = (char)(s[at] ^ (1 << pick(8))); count("fault:bit_flipped"); break;
        }
    }
    return s;
}
static Code parse_as(u32 k, gen::Str t) {
    using namespace gen;
    switch (k) {
        default: return (Code)parse_global_body(t); case 1: return (Code)parse_variable(t); case 2: return (Code)parse_function(t); case 3: return (Code)parse_struct(t); case 4: return (Code)parse_class(t);
        case 5: return (Code)parse_enum(t); case 6: return (Code)parse_union(t); case 7: return (Code)parse_typedef(t); case 8: return (Code)parse_using(t); case 9: return (Code)parse_namespace(t); case 10: return (Code)parse_template(t);
        case 11: return (Code)parse_extern_link(t); case 12: return (Code)parse_destructor(t); case 13: return (Code)parse_operator(t); case 14: return (Code)parse_operator_cast(t); case 15: return (Code)parse_friend(t);
        case 16: return (Code)parse_constructor(t); case 17: return (Code)parse_type(t); case 21: return (Code)parse_define(t); case 22: return (Code)parse_export_body(t);
    }
}
static string whole(u32 k, srcgen::Gen& g) {
    switch (k) {
        default: return g.file(range(1, 4)); case 1: return g.variable(); case 2: return g.function(pick(2)); case 3: return g.struct_(1); case 4: return g.class_(1); case 5: return g.enum_(); case 6: return g.union_(); case 7: return g.typedef_(); case 8: return g.using_();
        case 9: return g.namespace_(1); case 10: return g.template_(); case 11: return g.extern_(0); case 12: return pick(2) ? "~" + g.ident("S_") + "();\n" : "virtual ~" + g.ident("S_") + "()\n{\n" + g.body() + "}\n";
        case 13: return g.ident("S_") + " operator +( " + g.ident("S_") + " a )" + (pick(2) ? ";\n" : "\n{\n" + g.body() + "}\n"); case 14: return "operator " + string(pick(2) ? "int" : "char*") + "() const" + (pick(2) ? ";\n" : "\n{\n" + g.body() + "}\n");
        case 15: return "friend " + string(pick(2) ? "class " : "struct ") + g.ident("C_") + ";\n"; case 16: return g.ident("C_") + "( int a ) : x( a )\n{\n" + g.body() + "}\n"; case 17: return g.type(); case 18: return g.preprocess(); case 19: return g.preprocess() + g.comment() + g.preprocess(); case 20: return g.comment() + g.variable() + g.preprocess();
        case 21: return g.define(); case 22: return "{\n" + g.file(range(1, 3)) + "}\n";
    }
}
struct Seen { AppResult r; string text; };
SCENARIO(C25, torn) {
    u32 k = pick(3) ? 0 : pick(23); bool from_disk = k == 0 && pick(2); srcgen::Gen g("bad"); string was = whole(k, g), s = damage(was);
    bool later = pick(3) == 2 && s.find("define") == string::npos; Job j; if (later) j = make_job("k", 1, 4, Allow{false, true});
    slog("source %s", quote(s, 3000).c_str());
    Out want; if (later) { AppResult a = run_app("alone", [&] { env::Heaps h; env::init_heaps(h, 1); gen::Context ctx = env::make_context(env::roomy(), h); gen::init(&ctx); Run run(j); while (!run.done()) run.step(); run.hand_over(); gen::deinit(&ctx); }); if (a.kind != APP_RETURNED) discard("job does not run alone"); ShmReader rd; want = read_out(rd); }
    auto go = [&](char const* name) {
        if (from_disk) disk_put("src/torn.hpp", s);
        Seen v; v.r = run_app(name, [&] {
            env::Heaps h; env::init_heaps(h, 1); gen::Context ctx = env::make_context(env::roomy(), h); gen::init(&ctx); dirty_stack(); Code c;
            if (from_disk) c = (Code)gen::parse_file("src/torn.hpp"); else { Lent t(s); c = parse_as(k, t); }
            string text = !c.ast ? string("<null>") : c.ast->Type == gen::CT_Invalid ? string("<invalid>") : text_of(c);
            if (c.ast && c.ast->Type != gen::CT_Invalid) { string again = text_of(c); EXPECT(again == text, "printed-differently", "printed %s, and then %s", quote(text, 400).c_str(), quote(again, 400).c_str()); }
            shm_put_str(text);
            if (later) { Run run(j); while (!run.done()) run.step(); run.hand_over(); if (c.ast && c.ast->Type != gen::CT_Invalid) { string again = text_of(c); EXPECT(again == text, "printed-differently", "printed %s, and after more work %s", quote(text, 400).c_str(), quote(again, 400).c_str()); } }
            gen::deinit(&ctx);
        });
        ShmReader rd; if (v.r.kind == APP_RETURNED) { rd.get_str(&v.text); if (later) { Out o = read_out(rd); same(o, want, "later-work-differs", "after a damaged source was taken", j); } }
        return v;
    };
    Seen a = go("first");
    EXPECT(a.r.kind == APP_RETURNED || a.r.kind == APP_FATAL || a.r.kind == APP_EXIT, "ended", "%s on %s", a.r.describe().c_str(), quote(s, 600).c_str());
    if (a.r.kind != APP_RETURNED) { EXPECT(!a.r.err.empty(), "silent", "the program ended without a message"); count("probe:refused"); } else count("probe:accepted");
    g_fill_seed = 1 + pick(1000); g_fill_mode = pick(4); g_stack_mode = pick(6); g_stack_seed = pick(1000); g_lend_mode = pick(2); g_place_base = pick(64) * 4096;
    Seen b = go("again");
    EXPECT(a.r.kind == b.r.kind && a.text == b.text, "not-reproducible", "with other memory contents: %s %s, before: %s %s", b.r.describe().c_str(), quote(b.text, 600).c_str(), a.r.describe().c_str(), quote(a.text, 600).c_str());
    EXPECT(a.r.err == b.r.err, "other-message", "with other memory contents it says %s, before %s", quote(b.r.err, 700).c_str(), quote(a.r.err, 700).c_str());
    nontrivial();
}
