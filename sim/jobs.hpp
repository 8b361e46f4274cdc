// Workload: a job is a list of library calls a user could make, drawn up front, then executed step by step against
// whatever context is active.  Every step leaves a transcript line; two executions of one job can be compared line by line.
#pragma once
#include "gen_env.hpp"
#include <sanitizer/asan_interface.h>
#include "srcgen.hpp"
namespace jobs {
using namespace sim; using std::string; using std::vector;
using gen::Code;

enum Kind : u32 { K_PARSE_BODY, K_PARSE_ONE, K_UPFRONT, K_UNTYPED, K_INTERN, K_MACRO, K_APPEND, K_REPRINT, K_DUPLICATE, K_BUILDER, K_DISK, K_TOKFMT, K_EQUAL, K_COUNT };
inline char const* kind_name(u32 k) { static char const* n[] = {"parse_body", "parse_one", "upfront", "untyped", "intern", "macro", "append", "reprint", "duplicate", "builder", "disk", "token_fmt", "equal"}; return n[k]; }
struct Step { Kind k; vector<u32> n; vector<string> s; };
struct Job { string tag; vector<Step> steps; };

struct Allow { bool disk = true, macros = true, big = false; };

struct Make {
    srcgen::Gen g; Allow al; u32 serial = 0;
    Make(string tag, Allow a) : g(tag), al(a) {}
    vector<u32> nums(u32 k) { vector<u32> v; for (u32 i = 0; i < k; i++) v.push_back(pick(256)); return v; }
    Step step() {
        Step s; u32 w = pick(26);
        static Kind const tab[] = {K_PARSE_BODY, K_PARSE_BODY, K_PARSE_BODY, K_PARSE_BODY, K_PARSE_ONE, K_PARSE_ONE, K_PARSE_ONE, K_UPFRONT, K_UPFRONT, K_UPFRONT, K_UPFRONT, K_UPFRONT, K_UNTYPED, K_INTERN, K_INTERN, K_MACRO, K_MACRO, K_APPEND, K_REPRINT, K_DUPLICATE, K_DUPLICATE, K_BUILDER, K_DISK, K_TOKFMT, K_TOKFMT, K_EQUAL};
        s.k = tab[w];
        if (!al.disk && (s.k == K_BUILDER || s.k == K_DISK)) s.k = K_PARSE_BODY;
        if (!al.macros && s.k == K_MACRO) s.k = K_UNTYPED;
        switch (s.k) {
            case K_PARSE_BODY: s.s = {g.file(range(1, al.big ? 12 : 4))}; break;
            case K_PARSE_ONE: {
                u32 k = pick(20); s.n = {k};
                switch (k) {
                    case 0: s.s = {g.variable()}; break; case 1: s.s = {g.function(true)}; break; case 2: s.s = {g.struct_(1)}; break; case 3: s.s = {g.class_(1)}; break;
                    case 4: s.s = {g.enum_()}; break; case 5: s.s = {g.union_()}; break; case 6: s.s = {g.typedef_()}; break; case 7: s.s = {g.using_()}; break;
                    case 8: s.s = {g.namespace_(1)}; break; case 9: s.s = {g.template_()}; break; case 12: s.s = {pick(2) ? "~" + g.ident("S_") + "();\n" : "virtual ~" + g.ident("S_") + "()\n{\n" + g.body() + "}\n"}; break; case 13: s.s = {g.ident("S_") + " operator +( " + g.ident("S_") + " a )" + (pick(2) ? ";\n" : "\n{\n" + g.body() + "}\n")}; break; case 14: s.s = {"operator " + string(pick(2) ? "int" : "char*") + "() const" + (pick(2) ? ";\n" : "\n{\n" + g.body() + "}\n")}; break; case 15: s.s = {"friend " + string(pick(2) ? "class " : "struct ") + g.ident("C_") + ";\n"}; break; case 16: s.s = {g.ident("C_") + "( int a ) : x( a )\n{\n" + g.body() + "}\n"}; break; case 10: s.s = {g.extern_(0)}; break; case 17: s.s = {g.define()}; break; case 18: s.s = {"{\n" + g.file(range(1, 3)) + "}\n"}; break; default: s.s = {g.type()}; break;
                }
                break;
            }
            case K_UPFRONT: s.n = nums(10); for (int i = 0; i < 5; i++) s.s.push_back(g.ident("U")); s.s.push_back(g.expr()); break;
            case K_UNTYPED: s.n = nums(1); s.s = {g.body() + g.expr()}; if (pick(8) == 7) s.s[0] += string(200 + pick(3000), 'q'); break;
            case K_INTERN: { u32 k = pick(4); s.s = {k == 0 ? g.ident("I") : k == 1 ? string("plumless") : k == 2 ? string("buckeroo") : string(1 + pick(600), (char)('a' + pick(26)))}; break; }
            case K_MACRO: s.n = nums(4); { u32 k = pick(4); s.s = {k == 2 ? string("plumless") : k == 3 ? string("buckeroo") : g.ident("MAC"), g.ident("mv")}; } break;
            case K_APPEND: case K_REPRINT: case K_DUPLICATE: case K_EQUAL: s.n = nums(3); break;
            case K_BUILDER: { s.n = nums(pick(2) ? 6 : 1 + pick(24)); string e = g.expr(), t = e; for (u32 k = pick(3) == 2 ? pick(40) : 0; k; k--) t += " " + e; s.s = {"gen/" + g.tag + "_" + std::to_string(serial++ % 4) + ".hpp", t}; break; }
            case K_DISK: s.n = nums(1); s.s = {"src/" + g.tag + "_" + std::to_string(pick(3)) + ".hpp", g.file(range(1, 3))}; break;
            case K_TOKFMT: s.n = nums(2); s.s = {g.ident("tv"), g.ident("tw")}; break;
            default: break;
        }
        return s;
    }
};
inline Job make_job(string tag, u32 lo, u32 hi, Allow al = Allow()) { Make m(tag, al); Job j; j.tag = tag; u32 n = range(lo, hi); for (u32 i = 0; i < n; i++) j.steps.push_back(m.step()); return j; }
inline string job_str(Job const& j) { string r; for (auto& s : j.steps) { r += kind_name(s.k); r += ' '; } return r; }
inline void put_inputs(Job const& j) { std::set<string> seen; for (auto& s : j.steps) if (s.k == K_DISK && seen.insert(s.s[0]).second) disk_put(s.s[0].c_str(), s.s[1]); }
inline std::set<string> outputs(Job const& j) { std::set<string> r; for (auto& s : j.steps) if (s.k == K_BUILDER) r.insert(s.s[0]); return r; }

// a string handed to the library and taken away again right after the call
// g_lend_mode 0: every string lies somewhere new; 1: like a program that reads everything into the same few buffers
struct Lent {
    char* p; size_t n; int slot = -1; static constexpr size_t SLOT = 1 << 18; static constexpr int SLOTS = 8;
    static char*& slots() { static char* m = nullptr; if (!m) m = new char[SLOT * SLOTS]; return m; } static int& depth() { static int d = 0; return d; }
    Lent(string const& s) : n(s.size()) {
        if (g_lend_mode == 1 && n < SLOT - 64 && depth() < SLOTS) { slot = depth()++; p = slots() + slot * SLOT; ASAN_UNPOISON_MEMORY_REGION(p, n + 1); ASAN_POISON_MEMORY_REGION(p + n + 1, SLOT - n - 1); }
        else p = new char[n + 1];
        memcpy(p, s.c_str(), n + 1);
    }
    Lent(Lent const&) = delete;
    ~Lent() { memset(p, 0xEE, n); if (slot >= 0) { depth() = slot; ASAN_POISON_MEMORY_REGION(p, SLOT); } else delete[] p; }
    operator gen::Str() const { return gen::Str{p, (gen::ssize)n}; }
};

inline bool g_expect_released = false;      // the allocator of temporaries gives blocks back one by one
inline string text_of(Code c) { if (!c.ast) return "<null>"; gen::StrBuilder b = gen::code_to_strbuilder(c); string r = env::sb(b); gen::strbuilder_free(&b); return r; }

// Executes a job; holds what the user of the library would hold.
struct Run {
    Job const* job; u32 at = 0;
    vector<Code> nodes; vector<string> texts; vector<bool> shared;    // texts: what each node printed when it was made; shared: duplicated (a duplicate shares its entries)
    vector<std::pair<gen::Str, string>> interned;
    vector<string> lines;
    explicit Run(Job const& j) : job(&j) {}
    bool done() const { return at >= job->steps.size(); }

    void add(Code c, string const& t) { nodes.push_back(c); texts.push_back(t); shared.push_back(false); }
    struct Num { vector<u32> const& v; u32 i = 0; u32 operator()(u32 n) { u32 x = v[i++ % v.size()]; return x % n; } };

    Code upfront(Step const& s) {
        using namespace gen; Num nx{s.n};
        Lent a(s.s[0]), b(s.s[1]), c(s.s[2]), d(s.s[3]), e(s.s[4]), v(s.s[5]);
        auto type = [&]() -> CodeTypename { switch (nx(5)) { case 0: return t_int; case 1: return t_auto; case 2: return t_u32; case 3: { Opts_def_type o = {}; o.specifiers = def_specifier(nx(2) ? Spec_Ptr : Spec_Const); return def_type(e, o); } default: return def_type(d); } };
        auto val = [&]() -> Code { return untyped_str(v); };
        auto var = [&](Str n) -> Code { Opts_def_variable o = {}; if (nx(2)) o.value = val(); if (nx(3) == 2) { gen::Specifier sp[] = {Spec_Static, Spec_Constexpr}; o.specifiers = def_specifiers_arr(1 + nx(2), sp); } return (Code)def_variable(type(), n, o); };
        auto params = [&]() -> CodeParams { u32 k = nx(3); if (k == 0) return CodeParams{}; CodeParams p[2]; p[0] = def_param(type(), b); if (k == 1) return p[0]; Opts_def_param o = {}; o.value = val(); p[1] = def_param(type(), c, o); return def_params_arr(2, p); };
        auto fn = [&](Str n, bool body) -> Code { Opts_def_function o = {}; o.params = params(); o.ret_type = type(); if (body) { Code x[3] = {val(), untyped_str(code_("; return 1;")), var(c)}; o.body = def_function_body_arr(1 + nx(3), x); } if (nx(3) == 2) o.specs = def_specifier(Spec_Inline); return (Code)def_function(n, o); };
        auto members = [&](Code* x) -> s32 { s32 k = 1 + nx(4); for (s32 i = 0; i < k; i++) x[i] = i % 2 ? var(b) : nx(2) ? var(c) : (Code)def_variable(t_char, d); return k; };
        Code x[6];
        auto fnbody = [&]() -> CodeBody { Code y[2] = {val(), untyped_str(code_("; step();"))}; return def_function_body_arr(1 + nx(2), y); };
        auto attr = [&]() -> CodeAttributes { CodeAttributes none = {}; return nx(3) ? none : def_attributes(nx(2) ? code_("nodiscard") : (Str)e); };
        switch (nx(40)) {
            default: return var(a);
            case 1: return fn(a, false);
            case 2: return fn(a, true);
            case 3: { s32 k = members(x); Opts_def_struct o = {}; o.body = def_struct_body_arr(k, x); return (Code)def_struct(a, o); }
            case 4: { s32 k = members(x); Opts_def_struct o = {}; o.body = def_class_body_arr(k, x); return (Code)def_class(a, o); }
            case 5: { s32 k = 1 + nx(3); for (s32 i = 0; i < k; i++) x[i] = i == 1 ? (Code)def_comment(c) : untyped_str(i ? (Str)b : (Str)c); return (Code)def_union(a, def_union_body_arr(k, x)); }
            case 6: { s32 k = members(x); return (Code)def_namespace(a, def_namespace_body_arr(k, x)); }
            case 7: { s32 k = 1 + nx(3); for (s32 i = 0; i < k; i++) x[i] = untyped_str(i ? (Str)b : (Str)c); Opts_def_enum o = {}; o.body = def_enum_body_arr(k, x); o.type = t_u32; return (Code)def_enum(a, o); }
            case 8: return (Code)def_using(a, type());
            case 9: return (Code)def_typedef(a, (Code)type());
            case 10: return (Code)def_comment(b);
            case 11: { Opts_def_include o = {}; o.foreign = nx(2); return (Code)def_include(c, o); }
            case 12: { Opts_def_define o = {}; o.content = v; o.dont_register_to_preprocess_macros = nx(2); return (Code)def_define(a, MT_Expression, o); }
            case 13: return (Code)def_pragma(b);
            case 14: { x[0] = (Code)fn(b, false); x[1] = var(c); return (Code)def_extern_link(a, def_extern_link_body_arr(2, x)); }
            case 15: { CodeParams p = def_param(t_typename, d); return (Code)def_template(p, nx(2) ? fn(a, true) : var(a)); }
            case 16: { s32 k = members(x); CodeBody gb = def_global_body_arr(k, x); return (Code)gb; }
            case 17: { CodeTypename up[2]; up[0] = def_type(c); up[1] = def_type(d); Opts_def_struct o = {}; s32 k = members(x); o.body = nx(2) ? def_class_body_arr(k, x) : def_class_body(2, x[0], (k > 1 ? x[1] : var(e))); o.parent = def_type(b); o.parent_access = (AccessSpec)nx(4); o.num_interfaces = nx(3); o.interfaces = up; o.attributes = attr(); return (Code)def_class(a, o); }
            case 18: { Opts_def_struct o = {}; o.attributes = attr(); o.parent = nx(2) ? def_type(b) : CodeTypename{}; o.parent_access = AccessSpec_Public; o.mflags = nx(4) == 3 ? ModuleFlag_Export : ModuleFlag_None; if (nx(2)) { x[0] = var(c); x[1] = (Code)def_friend((Code)def_struct(d)); o.body = def_struct_body(2, x[0], x[1]); } return (Code)def_struct(a, o); }
            case 19: { Opts_def_constructor o = {}; o.params = params(); if (nx(2)) { o.body = (Code)fnbody(); if (nx(2)) o.initializer_list = untyped_str(code_("m( 3 )")); } CodeConstructor k = def_constructor(o); x[0] = (Code)k; x[1] = var(c); Opts_def_struct so = {}; so.body = def_struct_body_arr(2, x); return (Code)def_struct(a, so); }
            case 20: { Opts_def_destructor o = {}; if (nx(2)) o.specifiers = def_specifier(Spec_Virtual); if (nx(2)) o.body = (Code)fnbody(); x[0] = (Code)def_destructor(o); x[1] = var(c); Opts_def_struct so = {}; so.body = def_class_body_arr(2, x); return (Code)def_class(a, so); }
            case 21: { Opts_def_define o = {}; o.content = v; o.dont_register_to_preprocess_macros = nx(2); o.flags = nx(2) ? MF_Functional : MF_Null; return (Code)def_define(a, (MacroType)(1 + nx(3)), o); }
            case 22: { x[0] = untyped_str(b); Opts_def_enum o = {}; o.body = def_enum_body(1, x[0]); o.specifier = nx(2) ? EnumDecl_Class : EnumDecl_Regular; o.attributes = attr(); if (nx(2)) o.type = def_type(c); else o.type = t_u32; return (Code)def_enum(a, o); }
            case 23: return (Code)def_execution(v);
            case 24: return (Code)def_friend(nx(2) ? (Code)def_class(b) : fn(b, false));
            case 25: { Opts_def_module o = {}; o.mflags = nx(2) ? ModuleFlag_Export : ModuleFlag_Import; return (Code)def_module(a, o); }
            case 26: { Opts_def_operator o = {}; static gen::Operator const bin[] = {Op_Add, Op_Subtract, Op_Multiply, Op_BAnd, Op_LShift, Op_Modulo}; CodeTypename ty = def_type(c); o.params = def_param(ty, b); if (nx(2)) { Opts_def_param po = {}; CodeParams two[2] = {o.params, def_param(ty, d, po)}; o.params = def_params_arr(2, two); } o.ret_type = ty; if (nx(2)) o.body = fnbody(); if (nx(3) == 2) o.specifiers = def_specifier(Spec_Inline); return (Code)def_operator(bin[nx(6)], Str{}, o); }
            case 27: { Opts_def_operator o = {}; static gen::Operator const cmp[] = {Op_LEqual, Op_LAnd, Op_Lesser, Op_Greater, Op_LesserEqual, Op_GreaterEqual}; CodeTypename ty = def_type(c); CodeParams two[2] = {def_param(ty, b), def_param(ty, d)}; o.params = def_params_arr(2, two); o.ret_type = t_bool; if (nx(2)) o.body = fnbody(); return (Code)def_operator(cmp[nx(6)], Str{}, o); }
            case 28: { Opts_def_operator_cast o = {}; if (nx(2)) o.specs = def_specifier(Spec_Const); if (nx(2)) o.body = fnbody(); return (Code)def_operator_cast(type(), o); }
            case 29: { static EPreprocessCond const pc[] = {PreprocessCond_If, PreprocessCond_IfDef, PreprocessCond_IfNotDef, PreprocessCond_ElIf}; x[0] = (Code)def_preprocess_cond(pc[nx(4)], nx(2) ? (Str)b : code_("defined( A ) && B")); x[1] = var(a); x[2] = preprocess_endif; return (Code)def_global_body_arr(3, x); }
            case 30: { CodeParams p[2] = {def_param(t_typename, b), def_param(t_int, c)}; CodeParams ps = def_params_arr(1 + nx(2), p); Opts_def_struct o = {}; x[0] = var(d); x[1] = fn(e, true); o.body = def_struct_body_arr(2, x); return (Code)def_template(ps, (Code)def_struct(a, o)); }
            case 31: { Opts_def_type o = {}; o.array_expr = nx(2) ? untyped_str(code_("3 + 4")) : Code{}; o.attributes = attr(); CodeTypename ty = def_type(b, o); return (Code)def_variable(ty, a); }
            case 32: { Opts_def_typedef o = {}; o.attributes = attr(); return (Code)def_typedef(a, nx(2) ? (Code)type() : (Code)def_type(b), o); }
            case 33: { Opts_def_union o = {}; o.attributes = attr(); x[0] = untyped_str(b); x[1] = (Code)def_comment(c); return (Code)def_union(a, def_union_body(2, x[0], x[1]), o); }
            case 34: { Opts_def_using o = {}; o.attributes = attr(); return nx(3) == 2 ? (Code)def_using_namespace(b) : (Code)def_using(a, type(), o); }
            case 35: { Opts_def_variable o = {}; o.attributes = attr(); gen::Specifier sp[] = {nx(2) ? Spec_Inline : Spec_Static, Spec_Const, Spec_Volatile}; o.specifiers = def_specifiers_arr(1 + nx(3), sp); o.mflags = nx(4) == 3 ? ModuleFlag_Export : ModuleFlag_None; if (nx(2)) o.value = val(); return (Code)def_variable(type(), a, o); }
            case 36: { Opts_def_function o = {}; o.attrs = attr(); o.params = params(); o.ret_type = type(); gen::Specifier sp[] = {Spec_Inline, Spec_Static, Spec_Constexpr}; o.specs = def_specifiers(1 + nx(2), sp[0], sp[1]); o.mflags = nx(4) == 3 ? ModuleFlag_Export : ModuleFlag_None; if (nx(2)) { x[0] = (Code)def_execution(v); x[1] = var(d); x[2] = (Code)def_comment(e); o.body = def_function_body(3, x[0], x[1], x[2]); } return (Code)def_function(a, o); }
            case 37: { x[0] = var(a); x[1] = fn(b, nx(2)); x[2] = fmt_newline; x[3] = (Code)def_comment(c); Opts_def_namespace o = {}; o.mflags = nx(4) == 3 ? ModuleFlag_Export : ModuleFlag_None; return (Code)def_namespace(e, def_namespace_body(4, x[0], x[1], x[2], x[3]), o); }
            case 38: { x[0] = var(a); x[1] = fn(b, nx(2)); return nx(2) ? (Code)def_export_body(2, x[0], x[1]) : (Code)def_export_body_arr(2, x); }
            case 39: { CodeBody gb = def_global_body(3, var(a), fn(b, true), (Code)def_comment(c)); code_append((Code)gb, fmt_newline); code_append((Code)gb, var(d)); return (Code)gb; }
        }
    }
    static gen::Str code_(char const* s) { return gen::Str{s, (gen::ssize)strlen(s)}; }

    // one step; the transcript line says everything the caller can see
    void step() { dirty_stack(); act(); }
    void act() {
        using namespace gen;
        Step const& s = job->steps[at]; op();
        if ((s.k == K_PARSE_BODY || s.k == K_PARSE_ONE)) slog("  input of step %u: %s", at, quote(s.s[0], 4000).c_str());
        string out; Code made{}; bool dup = false;
        auto pickn = [&](u32 v) -> u32 { return (u32)(v % nodes.size()); };
        switch (s.k) {
            case K_PARSE_BODY: { Lent t(s.s[0]); made = (Code)parse_global_body(t); break; }
            case K_PARSE_ONE: {
                Lent t(s.s[0]);
                switch (s.n[0]) {
                    case 0: made = (Code)parse_variable(t); break; case 1: made = (Code)parse_function(t); break; case 2: made = (Code)parse_struct(t); break; case 3: made = (Code)parse_class(t); break;
                    case 4: made = (Code)parse_enum(t); break; case 5: made = (Code)parse_union(t); break; case 6: made = (Code)parse_typedef(t); break; case 7: made = (Code)parse_using(t); break;
                    case 8: made = (Code)parse_namespace(t); break; case 9: made = (Code)parse_template(t); break; case 12: made = (Code)parse_destructor(t); break; case 13: made = (Code)parse_operator(t); break; case 14: made = (Code)parse_operator_cast(t); break; case 15: made = (Code)parse_friend(t); break; case 16: made = (Code)parse_constructor(t); break; case 10: made = (Code)parse_extern_link(t); break; case 17: made = (Code)parse_define(t); break; case 18: made = (Code)parse_export_body(t); break; default: made = (Code)parse_type(t); break;
                }
                break;
            }
            case K_UPFRONT: made = upfront(s); break;
            case K_UNTYPED: { Lent t(s.s[0]); made = s.n[0] % 3 == 2 && s.s[0].size() < 4000 ? untyped_fmt("%.*s /* %d */", (int)t.n, t.p, (int)s.n[0]) : untyped_str(t); break; }
            case K_INTERN: { Lent t(s.s[0]); Str r = cache_str(t); out = "interned " + env::str(r); interned.push_back({r, s.s[0]}); break; }
            case K_MACRO: {
                Lent m(s.s[0]), v(s.s[1]);
                u32 k = s.n[0] % 6;
                if (k < 3) { Macro* q = lookup_macro(m); out = q ? "macro " + env::str(q->Name) + " type " + std::to_string((int)q->Type) + " flags " + std::to_string((int)q->Flags) : "no macro"; if (k == 0) break; }
                if (k == 5) {     // used in a declaration
                    Macro q = {}; q.Name = cache_str(m); q.Type = MT_Typename; q.Flags = MF_Null; register_macro(q);
                    Lent src(s.s[0] + " " + s.s[1] + " = 3;\nint " + s.s[1] + "_b;\n"); made = (Code)parse_global_body(src); break;
                }
                Macro q = {}; q.Name = cache_str(m); static MacroType const mt[] = {MT_Statement, MT_Expression, MT_Typename}; q.Type = mt[s.n[1] % 3]; q.Flags = (MacroFlags)(s.n[2] % 2 ? MF_Functional : MF_Null);
                if (s.n[3] % 3 == 0) register_macros_arr(1, &q); else if (s.n[3] % 3 == 1) register_macros(1, q); else register_macro(q);
                Macro* l = lookup_macro(m); out += l ? " now " + env::str(l->Name) + " type " + std::to_string((int)l->Type) + " flags " + std::to_string((int)l->Flags) : " now missing";
                break;
            }
            case K_APPEND: {
                vector<u32> bodies; for (u32 i = 0; i < nodes.size(); i++) if (nodes[i].ast->Type == CT_Global_Body && !shared[i]) bodies.push_back(i);
                if (bodies.empty() || nodes.empty()) { out = "nothing to append to"; break; }
                u32 t = bodies[s.n[0] % bodies.size()], o = pickn(s.n[1]);
                if (nodes[o].ast->Type == CT_Global_Body) { if (o == t) { out = "skip"; break; } }
                Code item = untyped_str(code_(s.n[2] % 2 ? "/*appended*/" : "appended_call();"));
                if (nodes[o].ast->Type == CT_Global_Body && s.n[2] % 3 == 0) body_append_body((CodeBody)nodes[t], (CodeBody)nodes[o]);
                else code_append(nodes[t], item);
                texts[t] = text_of(nodes[t]); out = "appended to " + std::to_string(t) + ": " + texts[t];
                break;
            }
            case K_REPRINT: if (nodes.empty()) { out = "no nodes"; break; } { u32 i = pickn(s.n[0]); out = "again " + text_of(nodes[i]); break; }
            case K_DUPLICATE: if (nodes.empty()) { out = "no nodes"; break; } { u32 i = pickn(s.n[0]); made = code_duplicate(nodes[i]); shared[i] = dup = true; break; }
            case K_EQUAL: if (nodes.empty()) { out = "no nodes"; break; } { u32 i = pickn(s.n[0]); u32 j = pickn(s.n[1]); out = "type " + env::str(code_type_str(nodes[i])) + " valid " + std::to_string(code_is_valid(nodes[i])) ; auto told = [&](u32 x) { switch (nodes[x].ast->Type) { case CT_Variable: case CT_Function: case CT_Function_Fwd: case CT_Struct: case CT_Class: case CT_Typename: case CT_Enum: case CT_Union: case CT_Using: case CT_Typedef: case CT_Namespace: case CT_Untyped: case CT_Comment: return true; default: return false; } };   // the others are not implemented by the library
                if (told(i) && told(j)) out += " same " + std::to_string(code_is_equal(nodes[i], nodes[j])); if (s.n[2] % 2 && told(i)) out += " described " + env::str(code_debug_str(nodes[i])); break; }
            case K_BUILDER: {
                Builder b = builder_open(s.s[0].c_str());
                string want;
                for (u32 i = 0; i + 1 < s.n.size(); i++) {
                    u32 w = s.n[i] % 4;
                    if (w == 0 && !nodes.empty()) builder_print(&b, nodes[pickn(s.n[i] / 4)]);
                    else if (w == 1) builder_pad_lines(&b, s.n[i] / 4 % 4);
                    else if (w == 2) { if (s.n[i] % 8 < 4) builder_print_fmt(&b, "// %s %d\n", s.s[1].c_str(), (int)s.n[i]); else builder_print_fmt(&b, "/*%.*s*/", (int)s.n[i], s.s[1].c_str()); }
                    else { Lent t(s.s[1]); builder_print(&b, untyped_str(t)); }
                }
                void* held = b.Buffer ? (void*)strbuilder_get_header(b.Buffer) : nullptr; bool held_live = held && g_expect_released && sim_in_live(held, 1);
                builder_write(&b);
                if (held_live) EXPECT(!sim_in_live(held, 1), "buffer-kept", "the builder keeps its buffer after it wrote %s", s.s[0].c_str());
                out = "file " + s.s[0] + " holds " + disk_get(s.s[0].c_str());
                break;
            }
            case K_DISK: if (s.n[0] % 2) { made = (Code)parse_file(s.s[0].c_str()); } else { made = scan_file(s.s[0].c_str()); } break;
            case K_TOKFMT: {
                Lent a(s.s[0]), b(s.s[1]);
                Str r = s.n[0] % 2 ? token_fmt_impl(3, "ty", (Str)a, "na", (Str)b, "typedef <ty> <na>;") : token_fmt_impl(2, "x", (Str)a, "<x> one; <x> two; <unknown>");
                if (s.n[1] % 2) made = untyped_str(r); else out = "formatted " + env::str(r);
                break;
            }
            default: break;
        }
        if (made.ast) { string t = text_of(made); add(made, t); shared.back() = dup; out += " made " + env::str(code_type_str(made)) + (made.ast->Name.Len > 0 && made.ast->Type != CT_Untyped ? " named " + env::str(made.ast->Name) : string()) + ": " + t; }
        lines.push_back(string(kind_name(s.k)) + " " + out);
        slog("  step %u of %s: %s", at, job->tag.c_str(), quote(lines.back(), 100).c_str());
        at++;
    }
    // everything made earlier must still be what it was
    void recheck(char const* when) {
        for (u32 i = 0; i < nodes.size(); i++) { string t = text_of(nodes[i]); EXPECT(t == texts[i], "text-changed", "node %u printed %s when it was made, and %s %s", i, quote(texts[i], 500).c_str(), quote(t, 500).c_str(), when); }
        for (auto& p : interned) EXPECT(env::str(p.first) == p.second, "interned-changed", "interned string %s reads %s %s", quote(p.second).c_str(), quote(env::str(p.first)).c_str(), when);
    }
    string final_text() { string r; for (u32 i = 0; i < nodes.size(); i++) r += "[" + std::to_string(i) + "] " + text_of(nodes[i]) + "\n"; for (auto& p : interned) r += "(" + env::str(p.first) + ")"; return r; }
    void hand_over() { u64 n = lines.size(); shm_put(&n, 8); for (auto& l : lines) shm_put_str(l); shm_put_str(final_text()); }
};
struct Out { vector<string> lines; string final; bool ok = false; };
inline Out read_out(ShmReader& r) { Out o; u64 n; if (!r.get(&n, 8) || n > 10000) return o; for (u64 i = 0; i < n; i++) { string s; if (!r.get_str(&s)) return o; o.lines.push_back(s); } o.ok = r.get_str(&o.final); return o; }
inline void same(Out const& a, Out const& b, char const* cls, char const* what, Job const& j) {
    EXPECT(a.ok && b.ok, "no-transcript", "a run handed no transcript over");
    for (size_t i = 0; i < std::max(a.lines.size(), b.lines.size()); i++) {
        string x = i < a.lines.size() ? a.lines[i] : "<missing>", y = i < b.lines.size() ? b.lines[i] : "<missing>";
        if (x != y) violate(cls, "%s: step %zu (%s) gave\n%s\nalone it gives\n%s", what, i, i < j.steps.size() ? kind_name(j.steps[i].k) : "?", quote(x, 900).c_str(), quote(y, 900).c_str());
    }
    EXPECT(a.final == b.final, cls, "%s: at the end the nodes print\n%s\nalone they print\n%s", what, quote(a.final, 900).c_str(), quote(b.final, 900).c_str());
}
inline void log_out(Out const& o) { for (auto& l : o.lines) slog("  %s", quote(l, 160).c_str()); slog("  final %016llx", (unsigned long long)hash_bytes(o.final.data(), o.final.size())); }
}
