// Generates C++ declarations the library supports (workload only, not an oracle).
#pragma once
#include "core.hpp"
#include <string>
#include <vector>
namespace srcgen {
using sim::pick; using sim::range; using sim::u32; using std::string;

inline string num(u32 v) { return std::to_string(v); }
struct Gen {
    string tag;                 // keeps names of different jobs apart (or shared, when equal)
    u32 counter = 0;
    std::vector<string> types;
    explicit Gen(string t) : tag(t) { types = {"const u32*", "const Vec3&", "int", "char", "float", "double", "bool", "u32", "void*", "char const*", "unsigned int", "Vec3", "Vec< int >", "unsigned long long", "std::vector< int >", "Map< char const*, Vec< int > >", "S const*", "Vec3&", "long", "S const* const*", "unsigned char"}; }
    string ident(char const* p) { return p + tag + num(pick(4) == 3 ? pick(8) : counter++); }
    string type() { string t = types[pick((u32)types.size())]; return t; }
    string expr() {
        switch (pick(16)) { case 8: return "p->q - " + num(pick(9)); case 9: return "a ? b : " + num(pick(9)); case 10: return "'\\n'"; case 11: return "\"a\\\"b" + num(pick(9)) + "\\\\\""; case 12: return "sizeof( a ) * b ^ ~c % d & e | !f"; case 13: return "x <= y && z >= w || ! q"; case 14: return "-" + num(pick(99)) + ".25f"; case 15: return "0xFFull + 1e5f"; case 0: return num(pick(100)); case 1: return "a + " + num(pick(50)); case 2: return "f( x, " + num(pick(9)) + " )"; case 3: return "\"str " + tag + num(pick(9)) + "\""; case 4: return "'c'"; case 5: return "1.5f * b"; case 6: return "( x << " + num(pick(31)) + " ) | 0x" + num(pick(99)); default: return "sizeof( " + tag + "x )"; }
    }
    string stmt() {
        switch (pick(6)) { case 0: return "return " + expr() + ";"; case 1: return type() + " v" + num(pick(20)) + " = " + expr() + ";"; case 2: return "if ( a < b ) { a = " + expr() + "; }"; case 3: return "for ( int i = 0; i < " + num(pick(9)) + "; ++i ) call( i );"; case 4: return "x." + tag + "m = " + expr() + ";"; default: return "do_it();"; }
    }
    string params() { u32 n = pick(4); if (pick(12) == 11) return "int a, ..."; if (pick(12) == 11) return "int && r, S const& t"; string r; for (u32 i = 0; i < n; i++) { if (i) r += ", "; r += type() + " p" + num(i); if (pick(5) == 4) r += " = " + num(pick(9)); } return r; }
    string body() { string r; u32 n = pick(4); for (u32 i = 0; i < n; i++) r += "\t" + stmt() + "\n"; return r; }
    string variable() {
        string s; if (pick(4) == 3) s += pick(2) ? "static " : "constexpr ";
        s += type() + " " + ident("var_");
        u32 f = pick(24); if (f == 0) s += "[3][" + num(1 + pick(9)) + "]"; else if (f == 1) s += "[] = { 1, 2, " + num(pick(9)) + " }"; else if (f == 2) s += ", " + ident("var_") + ", " + ident("var_") + " = " + num(pick(9)); else if (f == 3) s += " { " + num(pick(9)) + " }"; else if (f == 4) s += "( " + num(pick(9)) + ", 4 )"; else if (f == 5) s += " = { 1, { 2, 3 } }"; else if (f < 10) s += "[" + num(1 + pick(9)) + "]"; else if (f < 17) s += " = " + expr();
        return s + ";" + (pick(5) == 4 ? " // " + tag + "tail " + num(pick(99)) : string()) + "\n";
    }
    string function(bool def) { string s; u32 k = pick(8); if (k == 7) s += pick(2) ? "GEN_API " : "GEN_API inline "; if (k == 5) s += "inline static "; if (k == 6) s += "constexpr "; if (k == 3) s += "inline "; if (k == 4) s += "static "; s += (pick(4) == 3 ? string("void") : type()) + " " + ident("fn_") + "( " + params() + " )"; return def ? s + "\n{\n" + body() + "}\n" : s + ";\n"; }
    string enum_() { u32 f = pick(10); if (f == 9) return "enum " + ident("E_") + " : u32;\n"; string s = (f == 8 ? "enum class " : "enum ") + ident("E_"); if (pick(2)) s += pick(2) ? " : u32" : " : char"; s += "\n{\n"; u32 n = 1 + pick(5); for (u32 i = 0; i < n; i++) { s += "\t" + ident("K_"); if (pick(2)) s += " = " + num(pick(100)); s += ","; if (pick(6) == 5) s += " // k" + num(pick(9)); s += "\n"; if (pick(8) == 7) s += "\t// alone " + tag + "\n"; } return s + "};\n"; }
    string parents() { if (pick(4) != 3) return ""; string r = pick(2) ? " : public " : " : "; r += ident("Base_"); u32 n = pick(3); for (u32 i = 0; i < n; i++) r += ", " + ident("If_"); return r; }
    string struct_(int depth) {
        string me = ident("S_"), s = "struct " + me + parents();
        s += "\n{\n"; if (pick(4) == 3) s += structors(me); u32 n = 1 + pick(4); for (u32 i = 0; i < n; i++) s += member(depth); return s + "};\n";
    }
    string member(int depth) {
        switch (pick(depth > 0 ? 15 : 12)) { case 12: return struct_(depth - 1); case 13: return union_(); case 14: return enum_(); case 7: return method(); case 8: return nested_decl(); case 9: return preprocess_member(); case 10: return method(); case 11: return type() + " " + ident("m_") + "; // note " + tag + "\n"; case 0: return variable_plain(); case 1: return function(false); case 2: return function(true); case 3: return "// comment " + tag + num(pick(99)) + "\n"; case 4: return "public:\n"; case 5: return special(); default: return bitfield(); }
    }
    string variable_plain() { return type() + " " + ident("m_") + ";\n"; }
    string bitfield() { return "unsigned int " + ident("bf_") + " : " + num(1 + pick(31)) + ";\n"; }
    string method() {
        switch (pick(13)) {
            case 10: case 11: case 12: return attributed();
            case 0: return "virtual " + type() + " " + ident("ov_") + "( " + params() + " ) override;\n"; case 1: return type() + " " + ident("cm_") + "( " + params() + " ) const;\n"; case 2: return type() + " " + ident("cd_") + "( " + params() + " ) const\n{\n" + body() + "}\n";
            case 3: return "S& operator =( S const& o );\n"; case 4: return "S* operator ->();\n"; case 5: return "S& operator []( int i );\n"; case 6: return "bool operator !=( S const& a );\n"; case 7: return "operator int() const\n{\n" + body() + "}\n";
            case 8: return "explicit operator bool() const;\n"; default: return "template< typename " + ident("MT") + " >\n" + type() + " " + ident("mt_") + "( " + params() + " );\n";
        }
    }
    string attributed() { // attributes before and after the specifiers, and after the type
        static char const* const sp[] = {"", "inline ", "static ", "virtual ", "static inline "}; string s = "GEN_API "; u32 k = pick(5); s += sp[k]; if (k && pick(2)) s += "GEN_API ";
        switch (pick(4)) { case 0: return s + type() + " " + ident("ax_") + ";\n"; case 1: return s + type() + " GEN_API " + ident("ay_") + "( " + params() + " );\n"; case 2: return s + type() + " " + ident("ad_") + "( " + params() + " )\n{\n" + body() + "}\n"; default: return s + type() + " " + ident("af_") + "( " + params() + " );\n"; }
    }
    string nested_decl() { switch (pick(6)) { case 0: return using_(); case 1: return typedef_(); case 2: return "enum { " + ident("AK_") + ", " + ident("AK_") + " = " + num(pick(9)) + " };\n"; case 3: return "union { int " + ident("au_") + "; float " + ident("au_") + "; };\n"; case 4: return "struct { int " + ident("as_") + "; };\n"; default: return "static constexpr int " + ident("sk_") + " = " + num(pick(99)) + ";\n"; } }
    string preprocess_member() { switch (pick(3)) { case 0: return "#ifdef " + ident("MC_") + "\n" + variable_plain() + "#else\n" + variable_plain() + "#endif\n"; case 1: return "#pragma region " + ident("MR_") + "\n" + variable_plain() + "#pragma endregion\n"; default: return "/* member note " + tag + " */\n"; } }
    string out_of_class() { return "void " + ident("sep_") + "();\n" + out_of_class_definition(); }    // the parser takes a constructor for part of an earlier declaration without parentheses
    string out_of_class_definition() { string c = ident("S_"); switch (pick(5)) { case 0: return "int " + c + "::" + ident("om_") + "( int a ) const\n{\n" + body() + "}\n"; case 1: return c + "::" + c + "( int a ) : b( a ), c( " + num(pick(9)) + " )\n{\n" + body() + "}\n"; case 2: return c + "::~" + c + "()\n{\n" + body() + "}\n"; case 3: return "int " + c + "::operator +( int a )\n{\n" + body() + "}\n"; default: return c + "::operator int()\n{\n" + body() + "}\n"; } }
    string special() {
        switch (pick(6)) {
            case 0: return "bool operator ==( " + ident("S_") + " const& other ) const;\n";
            case 1: return "operator " + ident("T_") + "() const;\n";
            case 2: return "friend class " + ident("C_") + ";\n";
            case 3: return "virtual " + type() + " " + ident("vf_") + "( " + params() + " ) = 0;\n";
            case 4: return type() + " " + ident("arr_") + "[" + num(1 + pick(9)) + "];\n";
            default: return "static " + type() + " " + ident("sm_") + ";\n";
        }
    }
    string structors(string me) {
        string s; u32 k = pick(8); if (k & 1) s += me + "( " + params() + " );\n"; if (k & 2) s += me + "( int a ) : x( a ), y( " + num(pick(9)) + " )\n{\n" + body() + "}\n";
        switch (pick(5)) { case 0: s += "~" + me + "();\n"; break; case 1: s += "virtual ~" + me + "()\n{\n" + body() + "}\n"; break; case 2: s += "virtual ~" + me + "() = 0;\n"; break; case 3: s += me + "( " + me + " const& o ) = default;\n~" + me + "() = default;\n"; break; default: s += "explicit " + me + "( int a );\n"; }
        return s;
    }
    string class_(int depth) { string me = ident("C_"), s = "class " + me + parents() + "\n{\npublic:\n"; if (pick(4) == 3) s += structors(me); u32 n = 1 + pick(4); for (u32 i = 0; i < n; i++) s += member(depth); return s + "};\n"; }
    string union_() { string s = "union " + ident("U_") + "\n{\n"; u32 n = 1 + pick(3); for (u32 i = 0; i < n; i++) s += "\t" + variable_plain(); return s + "};\n"; }
    string typedef_() {
        switch (pick(10)) { case 0: return "typedef struct { int " + ident("ts_") + "; } " + ident("T_") + ";\n"; case 1: { string n = ident("T_"); return "typedef struct " + n + " " + n + ";\n"; } case 2: { string n = ident("T_"); return "typedef struct " + n + " { int " + ident("ts_") + "; } " + n + ";\n"; } case 3: return "typedef enum { " + ident("TK_") + ", " + ident("TK_") + " } " + ident("T_") + ";\n"; case 4: return "typedef void " + ident("T_") + "( int a, float b );\n"; case 5: return "typedef union { int a; float b; } " + ident("T_") + ";\n"; default: return "typedef " + type() + " " + ident("T_") + ";\n"; }
    }
    string using_() { switch (pick(8)) { case 0: return "using " + ident("A_") + " = void (*)( int );\n"; case 1: return "using namespace " + ident("ns_") + ";\n"; case 2: return "using " + ident("A_") + " = int[" + num(1 + pick(9)) + "];\n"; case 3: return "using " + ident("A_") + " = Vec< int >::type;\n"; default: return "using " + ident("A_") + " = " + type() + ";\n"; } }
    string namespace_(int depth) { string s = "namespace " + ident("ns_") + (pick(6) == 5 ? "::in" : "") + "\n{\n"; u32 n = 1 + pick(3); for (u32 i = 0; i < n; i++) s += decl(depth); return s + "}\n"; }
    string template_() { u32 f = pick(10); if (f == 0) return "template<>\nstruct " + ident("S_") + "< int >\n{\n" + member(0) + "};\n"; if (f == 1) return "template< typename... Ts >\nvoid " + ident("vt_") + "( Ts... ts );\n"; if (f == 2) return "template< typename T >\nusing " + ident("A_") + " = Vec< T, " + num(pick(9)) + " >;\n"; if (f == 3) return "template< typename T, typename U = int >\nstruct " + ident("S_") + "\n{\n" + member(0) + "};\n"; string h = "template< typename " + ident("TP") + (pick(2) ? ", int N" : "") + " >\n"; switch (pick(3)) { case 0: return h + struct_(0); case 1: return h + function(true); default: return h + class_(0); } }
    string extern_(int depth) { string s = "extern \"C\"\n{\n"; u32 n = 1 + pick(3); for (u32 i = 0; i < n; i++) s += pick(2) ? function(false) : variable_plain(); return s + "}\n"; }
    string define() { switch (pick(4)) { case 0: return "#define " + ident("DEF_") + " " + num(pick(1000)) + "\n"; case 1: return "#define " + ident("FN_") + "( a, b ) ( a + b )\n"; case 2: return "#define " + ident("ML_") + "() do { \\\n\tx = 1; \\\n} while ( 0 )\n"; default: return "#define " + ident("FLAG_") + "\n"; } }
    string preprocess() {
        switch (pick(13)) { case 7: return "#define " + ident("ML_") + "( a, b ) do { \\\n\tx = a; \\\n} while ( " + num(pick(9)) + " )\n"; case 8: return "#define " + ident("VA_") + "( a, ... ) call( a, __VA_ARGS__ )\n"; case 9: return "#if defined( " + ident("PA_") + " ) && \\\n    " + ident("PB_") + "\n" + variable_plain() + "#elif " + ident("PC_") + "\n" + variable_plain() + "#else\n" + variable_plain() + "#endif\n"; case 10: return "#include <" + tag + "/inc" + num(pick(9)) + ".hpp>\n"; case 11: return "#ifndef " + ident("PG_") + "\n#define " + ident("PG_") + "\n#endif\n"; case 12: return "#pragma once\n#if 1 // " + tag + "\n#endif // end\n"; case 5: { string d = "#define " + ident("FN_") + "( p" + tag; u32 n = pick(3); for (u32 i = 0; i < n; i++) d += ", q" + num(i); return d + " ) ( p" + tag + " + " + num(pick(99)) + " )\n"; }
            case 6: return "#define " + ident("NOARG_") + "() call( " + num(pick(99)) + " )\n#undef " + ident("UN_") + "\n";
            case 0: return "#define " + ident("DEF_") + " " + num(pick(1000)) + "\n"; case 1: return "#include \"" + ident("inc_") + ".hpp\"\n"; case 2: return "#pragma region " + ident("R_") + "\n"; case 3: return "#ifdef " + ident("COND_") + "\n" + variable_plain() + "#endif\n"; default: return "#if " + num(pick(2)) + "\n" + typedef_() + "#else\n" + using_() + "#endif\n"; }
    }
    string operator_() {
        static char const* const ops[] = {"+", "-", "*", "/", "%", "^", "|", "&", "<<", ">>"}; static char const* const asg[] = {"+=", "-=", "*=", "|="}; static char const* const cmp[] = {"==", "!=", "<", ">", "<=", ">=", "&&", "||"};
        string s = ident("S_"); switch (pick(9)) { case 3: return s + " operator " + ops[pick(10)] + "( " + s + " a, " + s + " b );\n"; case 4: return s + "& operator " + asg[pick(4)] + "( " + s + "& a, " + s + " b );\n"; case 5: return string("bool operator ") + cmp[pick(8)] + "( " + s + " a, " + s + " b )\n{\n" + body() + "}\n"; case 6: return s + " operator -( " + s + " a );\n" + s + " operator ++( " + s + " a );\n"; case 7: return "static_assert( sizeof( int ) == " + num(pick(9)) + ", \"" + tag + "\" );\n"; case 8: return out_of_class(); case 0: return "bool operator " + string(pick(2) ? "<" : "!=") + "( " + ident("S_") + " a, " + ident("S_") + " b );\n"; case 1: return "extern int " + ident("ex_") + ";\n"; default: return "typedef int (* " + ident("FP_") + ")( int a, char b );\n"; } }
    string comment() { if (pick(8) == 7) return "/* " + string(pick(300), 'c') + tag + " */\n"; return pick(2) ? "// " + tag + " note " + num(pick(999)) + "\n" : "/* block " + tag + num(pick(999)) + "\n   second line */\n"; }
    string decl(int depth) {
        switch (pick(depth > 0 ? 16 : 12)) {
            case 0: return variable(); case 1: return function(false); case 2: return function(true); case 3: return enum_(); case 4: return typedef_(); case 5: return using_(); case 6: return union_(); case 7: return comment(); case 8: return "\n"; case 9: return preprocess();
            case 10: return "struct " + ident("F_") + ";\n"; case 11: return operator_();
            case 12: return struct_(depth - 1); case 13: return class_(depth - 1); case 14: return namespace_(depth - 1); default: return template_();
        }
    }
    string file(u32 n) { string s; for (u32 i = 0; i < n; i++) { s += i ? decl(2) : variable(); if (pick(3) == 2) s += "\n"; } return s; }
};
}
