// C19 tables and data trees.
#include "gen_env.hpp"
using namespace sim; using std::string; using std::vector;

// ---------------------------------------------------------------- tables
namespace {
struct Cell { int kind; string text; long long num; string read() const { return kind == 2 ? std::to_string(num) : text; } };   // 0 quoted, 1 bare, 2 number
struct Column { string name; bool bare; vector<Cell> cells; };
struct Table { vector<Column> cols; u32 rows; bool header; char delim; };
}
static string cell_text(bool bare, char delim, u32 big) {
    static char const* const q[] = {"", " ", "\"", "\"\"", "a\"b", "\"x", "x\"", "one,two", "a;b\tc|d", "line\nbreak", "\n", "  spaced  ", "0x1F", "12", "\r\n", "'single'", "\"\"\"", "tail\\", "\xc3\xa9", "%d%s", "a,\"b\",c"};
    if (!bare) { u32 k = pick(24); if (k < 21) return q[k]; if (k == 21) return string(1 + pick(big), 'v'); string s; u32 n = pick(30); for (u32 i = 0; i < n; i++) s += "ab\",\n; x"[pick(8)]; return s; }
    static char const* const b[] = {"x", "abc", "a b", "3", "-7", "a'b", "q\"q", "1.5", "true", "%s", "x=y", "0x", "00x1"};
    u32 k = pick(16); string s = k < 13 ? b[k] : k == 13 ? string(1 + pick(big), 'w') : "cell" + std::to_string(pick(1000));
    for (char& c : s) if (c == delim) c = '_'; return s;
}
static Table draw_table() {
    static char const delims[] = {',', ';', '\t', '|', ':'}; Table t; t.delim = delims[pick(5)]; t.header = pick(2); bool wide = pick(60) == 59; u32 n = wide ? 30 + pick(270) : range(1, pick(5) == 4 ? 12 : 4); t.rows = range(t.header ? 0 : 1, wide ? 3 : pick(5) == 4 ? 80 : 6); u32 big = pick(6) == 5 ? 70000 : 40;
    for (u32 i = 0; i < n; i++) { Column c; c.bare = pick(3) == 2; c.name = cell_text(c.bare, t.delim, 20); for (u32 r = 0; r < t.rows; r++) { Cell x; x.kind = pick(3); x.num = 0; if (x.kind == 2) x.num = pick(3) ? (long long)pick(2000) - 1000 : ((long long)pick(1u << 30) << 31) * (pick(2) ? 1 : -1); else { x.text = cell_text(x.kind == 1, t.delim, big); if (x.kind == 1 && n > 1 && pick(6) == 5) x.text = ""; } c.cells.push_back(x); } t.cols.push_back(c); }
    if (t.rows && !wide && big == 40 && pick(80) == 79) { u32 more = std::min<u32>(200 + pick(2300), 1500 / n), first = t.rows; t.rows += more; for (auto& c : t.cols) for (u32 r = 0; r < more; r++) { Cell x = c.cells[(r * 7 + r / 5) % first]; c.cells.push_back(x); } }
    g_syscall_limit = 100000 + (u64)n * (t.rows + 1) * 400;     // every quote and separator is a write of its own
    return t;
}
// the text the table has, written down independently of the library
static string table_text(Table const& t, char const* nl, bool last_nl) {
    string o; auto put = [&](bool bare, string const& s) { if (bare) o += s; else { o += '"'; for (char c : s) { if (c == '"') o += '"'; o += c; } o += '"'; } };
    if (t.header) { for (size_t i = 0; i < t.cols.size(); i++) { if (i) o += t.delim; put(t.cols[i].bare, t.cols[i].name); } o += nl; }
    for (u32 r = 0; r < t.rows; r++) { for (size_t i = 0; i < t.cols.size(); i++) { if (i) o += t.delim; Cell const& c = t.cols[i].cells[r]; put(c.kind != 0, c.read()); } o += nl; }
    if (!last_nl && o.size()) o.resize(o.size() - strlen(nl)); return o;
}
static void check_table(gen::CSV_Object& root, Table const& t, char const* when) {
    using namespace gen;
    EXPECT(root.nodes, "table-missing", "%s there is no table", when); EXPECT(array_num(root.nodes) == t.cols.size(), "columns-wrong", "%s the table has %llu columns of %zu", when, (unsigned long long)array_num(root.nodes), t.cols.size());
    for (size_t i = 0; i < t.cols.size(); i++) {
        ADT_Node& c = root.nodes[i]; EXPECT(c.parent == &root, "parent-wrong", "%s column %zu has another parent", when, i); EXPECT(array_num(c.nodes) == t.rows, "rows-wrong", "%s column %zu has %llu rows of %u", when, i, (unsigned long long)array_num(c.nodes), t.rows);
        if (t.header) EXPECT(c.name && t.cols[i].name == c.name, "header-wrong", "%s column %zu is called %s instead of %s", when, i, c.name ? quote(c.name).c_str() : "nothing", quote(t.cols[i].name).c_str()); else EXPECT(!c.name, "header-wrong", "%s column %zu has a name", when, i);
        for (u32 r = 0; r < t.rows; r++) { ADT_Node& n = c.nodes[r]; string want = t.cols[i].cells[r].read(); EXPECT(n.type == EADT_TYPE_STRING, "cell-kind", "%s cell %u of column %zu is of kind %d", when, r, i, (int)n.type); EXPECT(n.string && want == n.string, "cell-wrong", "%s cell %u of column %zu is %s instead of %s", when, r, i, n.string ? quote(n.string, 100).c_str() : "nothing", quote(want, 100).c_str()); }
    }
}
struct Text { char* p; Text(string const& s) { p = new char[s.size() + 1]; memcpy(p, s.c_str(), s.size() + 1); } ~Text() { delete[] p; } };
static u8 parse_text(gen::CSV_Object* o, char* p, SimAlloc* a, Table const& t) { return t.delim == ',' ? gen::csv_parse(o, p, env::info(a), t.header) : gen::csv_parse_delimiter(o, p, env::info(a), t.header, t.delim); }
SCENARIO(C19, tables) {
    Table t = draw_table(); i64 fail = pick(4) == 3 ? 1 + pick(12) : 0; bool forever = pick(2); u32 move = pick(3) * 500, reread = range(1, 2); bool keep_style = pick(2);
    char const* nl = pick(3) == 2 ? "\r\n" : "\n"; bool last = pick(4) != 3; slog("table of %zu columns, %u rows, header %d", t.cols.size(), t.rows, t.header);
    if (!last && t.cols.size() == 1 && t.rows && t.cols[0].cells.back().read().empty()) last = true;
    AppResult r = run_app("tables", [&] {
        using namespace gen; SimAlloc a(1, "tables"), b(2, "reader"); a.move_permille = b.move_permille = move;
        CSV_Object root = {}; EXPECT(!adt_make_branch(&root, env::info(&a), nullptr, !t.header), "refused", "no table could be made");
        for (auto& c : t.cols) { ADT_Node* n = adt_append_arr(&root, t.header ? c.name.c_str() : nullptr); EXPECT(n, "refused", "no column"); if (c.bare) n->name_style = EADT_NAME_STYLE_NO_QUOTES; op(); }
        for (size_t i = 0; i < t.cols.size(); i++) for (auto& x : t.cols[i].cells) { ADT_Node* n = x.kind == 2 ? adt_append_int(&root.nodes[i], nullptr, x.num) : adt_append_str(&root.nodes[i], nullptr, x.text.c_str()); EXPECT(n, "refused", "no cell"); if (x.kind == 1) n->name_style = EADT_NAME_STYLE_NO_QUOTES; op(); }
        StrBuilder s = t.delim == ',' ? csv_write_string(env::info(&a), &root) : csv_write_strbuilder_delimiter(env::info(&a), &root, t.delim); string text = env::sb(s), want = table_text(t, "\n", true);
        EXPECT(text == want, "text-wrong", "the table is written as %s instead of %s", quote(text, 400).c_str(), quote(want, 400).c_str());
        FileInfo f; EXPECT(file_open_mode(&f, EFileMode_WRITE, "out/t.csv") == EFileError_NONE, "refused", "no file"); if (t.delim == ',') csv_write(&f, &root); else csv_write_delimiter(&f, &root, t.delim); file_close(&f);
        EXPECT(disk_get("out/t.csv") == want, "file-wrong", "the file holds %s instead of %s", quote(disk_get("out/t.csv"), 400).c_str(), quote(want, 400).c_str());
        strbuilder_free(&s); csv_free(&root); EXPECT(a.live_blocks == 0, "leak", "%s", sim_leaks(&a).c_str()); EXPECT(g_os_heap.live_blocks == 0, "leak", "%s", sim_leaks(&g_os_heap).c_str());
        // a foreign line end or a missing last one mean the same
        string src = table_text(t, nl, last); bool multi = false;
        for (u32 k = 0; k < reread; k++) {
            Text x(src); if (k == 0) { b.fail_in = fail; b.fail_forever = forever; } else { b.fail_in = 0; b.fail_forever = false; }
            CSV_Object o; memset(&o, 0xEE, sizeof o); u8 e = parse_text(&o, x.p, &b, t); u64 failed = b.failed; slog("reading says %d", e);
            if (e) { EXPECT(failed, "refused", "a well-formed table %s is refused with %d", quote(src, 300).c_str(), e); EXPECT(e == ECSV_Error__INTERNAL, "error-wrong", "missing memory is reported as %d", e); count("probe:failure_reported"); csv_free(&o); EXPECT(b.live_blocks == 0, "leak", "after a failed read %s", sim_leaks(&b).c_str()); b.failed = 0; continue; }
            check_table(o, t, "after reading"); op();
            if (keep_style) { StrBuilder w = csv_write_strbuilder_delimiter(env::info(&a), &o, t.delim); string again = env::sb(w); strbuilder_free(&w); Table u = t; for (auto& c : u.cols) { c.bare = false; for (auto& q : c.cells) if (q.kind == 2) { q.text = q.read(); q.kind = 1; } } string want2 = table_text(u, "\n", true); if (!t.rows || t.cols.size() > 1 || true) EXPECT(again == want2, "rewrite-wrong", "the table read is written as %s instead of %s", quote(again, 300).c_str(), quote(want2, 300).c_str()); count("probe:rewritten"); }
            csv_free(&o); EXPECT(b.live_blocks == 0, "leak", "%s", sim_leaks(&b).c_str());
        }
    });
    EXPECT(r.kind == APP_RETURNED, "ended", "%s", r.describe().c_str()); nontrivial();
}
SCENARIO(C19, malformed) {
    Table t = draw_table(); u32 how = pick(5); i64 fail = pick(4) == 3 ? 1 + pick(12) : 0; bool forever = pick(2); string src, why; t.rows = std::min<u32>(t.rows, 20);
    auto line_of = [&](u32 r, u32 ncell) { Table u; u.header = false; u.delim = t.delim; u.rows = 1; for (u32 i = 0; i < ncell; i++) { Column c; c.cells.push_back(t.cols[i % t.cols.size()].cells[r]); u.cols.push_back(c); } return table_text(u, "\n", true); };
    if (how == 0 && t.rows + t.header >= 2 && t.rows) { u32 bad = pick(t.rows), n = t.cols.size(), m = n > 1 && pick(2) ? 1 + pick(n - 1) : n + 1 + pick(3); if (!t.header && bad == 0) bad = t.rows - 1; Table h = t; h.rows = 0; src = table_text(h, "\n", true); bool visible = true; for (u32 r = 0; r < t.rows; r++) { string l = line_of(r, r == bad ? m : n); if (l.find_first_not_of(" \t\n\r") == string::npos) visible = false; src += l; } if (!visible) discard("empty line"); why = "a row is of another length"; }
    else if (how == 1) { Column& c = t.cols.back(); Cell x = {0, cell_text(false, t.delim, 40), 0}; Table u = t; src = table_text(u, "\n", true); for (size_t i = 0; i < t.cols.size(); i++) { if (i) src += t.delim; src += "\""; string q = cell_text(false, t.delim, 10); for (char ch : q) { if (ch == '"') src += '"'; src += ch; } if (i + 1 < t.cols.size()) src += "\""; } if (pick(2)) src += "\n"; why = "a quote is not closed"; }
    else if (how == 2) { src = table_text(t, "\n", true); src += "\"cell\""; src += "xq7%"[pick(4)]; src += "\n"; why = "text behind a quote"; }
    else if (how == 3) { static char const* const e[] = {"", " ", "\n", "\n\n  \n", "\t \r\n"}; if (t.delim == '\t') t.delim = ','; src = e[pick(5)]; why = "there is no table"; }
    else { u32 n = pick(60); static char const al[] = "ab01xXfF\"\",;|\t\n\n \r.e+-'"; for (u32 i = 0; i < n; i++) src += al[pick(sizeof al - 1)]; if (pick(4) == 3) { src += "\n0x"; u32 k = pick(80); for (u32 i = 0; i < k; i++) src += "0123456789abcdefF"[pick(17)]; src += pick(2) ? "\n" : ""; } }
    slog("%s: %s", why.empty() ? "any text" : why.c_str(), quote(src, 300).c_str());
    AppResult r = run_app("malformed", [&] {
        using namespace gen; SimAlloc b(1, "reader"); b.fail_in = fail; b.fail_forever = forever; Text x(src); CSV_Object o; memset(&o, 0xEE, sizeof o); u8 e = parse_text(&o, x.p, &b, t); op(); slog("reading says %d", e);
        if (!why.empty()) { EXPECT(e, "accepted", "%s, yet %s is read without an error", why.c_str(), quote(src, 300).c_str()); count("probe:malformed_reported"); }
        if (!e) { u64 rows = array_num(o.nodes[0].nodes); for (u64 i = 0; i < array_num(o.nodes); i++) { ADT_Node& c = o.nodes[i]; EXPECT(array_num(c.nodes) == rows, "ragged", "a ragged table from %s", quote(src, 300).c_str()); for (u64 k = 0; k < rows; k++) if (c.nodes[k].type == EADT_TYPE_STRING) EXPECT(c.nodes[k].string && strlen(c.nodes[k].string) <= src.size(), "cell-wrong", "a cell without text"); } count("probe:any_text_accepted"); }
        csv_free(&o); EXPECT(b.live_blocks == 0, "leak", "%s", sim_leaks(&b).c_str());
    });
    EXPECT(r.kind == APP_RETURNED, "ended", "%s", r.describe().c_str()); nontrivial();
}
SCENARIO(C19, table_files) {
    Table t = draw_table(); t.delim = ','; t.header = false; bool two = pick(2); if (t.rows == 0) discard("no rows"); env::Cfg cfg = env::random_cfg(true); if (two && t.cols.size() < 2) t.cols.push_back(t.cols[0]); if (t.cols.size() == 1) for (auto& x : t.cols[0].cells) if (x.kind && x.read().empty()) x.text = "e";
    for (auto& c : t.cols) for (auto& x : c.cells) if (x.kind == 1) for (char& ch : x.text) if (ch == ',') ch = '_';
    string src = table_text(t, "\n", true); bool there = pick(10) != 9, ragged = pick(8) == 7 && t.cols.size() > 1 && t.rows > 1; if (ragged) src += "\"x\"\n"; if (there) disk_put("data/t.csv", src);
    FaultPlan& p = sh->plan; auto rt = [] { static u32 const r[] = {0, 0, 100, 400}; return r[pick(4)]; }; p.open_fail = rt(); p.read_err = rt(); p.read_short = rt(); p.read_eof_early = rt(); p.seek_err = rt() / 2; p.size_err = rt() / 2; p.eintr = rt() / 2; p.budget = pick(3); i64 fail = pick(5) == 4 ? 1 + pick(8) : 0; bool forever = pick(2);
    AppResult r = run_app("table_files", [&] {
        using namespace gen; static env::Heaps h; static Context cx; env::init_heaps(h, 10); cx = env::make_context(cfg, h); gen::init(&cx); SimAlloc b(1, "reader"); b.fail_in = fail; b.fail_forever = forever; op();
        auto col = [&](Array<ADT_Node> got, u32 k) { EXPECT(array_num(got) == t.rows, "rows-wrong", "column %u has %llu rows of %u", k, (unsigned long long)array_num(got), t.rows); for (u32 i = 0; i < t.rows; i++) EXPECT(got[i].string && t.cols[k].cells[i].read() == got[i].string, "cell-wrong", "cell %u of column %u is %s instead of %s", i, k, quote(got[i].string ? got[i].string : "nothing", 100).c_str(), quote(t.cols[k].cells[i].read(), 100).c_str()); };
        if (two) { CSV_Columns2 c = parse_csv_two_columns(env::info(&b), "data/t.csv"); EXPECT(there && !ragged, "accepted", "a table from %s", there ? "ragged text" : "a missing file"); col(c.Col_1, 0); col(c.Col_2, 1); }
        else { CSV_Column c = parse_csv_one_column(env::info(&b), "data/t.csv"); EXPECT(there && !ragged, "accepted", "a table from %s", there ? "ragged text" : "a missing file"); col(c.Content, 0); }
        EXPECT(open_handles() == 0, "handle-leak", "the file is still open"); count("probe:table_read");
    });
    if (r.kind != APP_RETURNED) { bool cause = !there || ragged; for (char const* k : {"fault:alloc_failure", "fault:open_failure", "fault:read_error", "fault:short_read", "fault:early_eof", "fault:seek_error", "fault:size_query_error", "fault:read_interrupted"}) cause |= counted(k) > 0; EXPECT(r.stopped() && cause, "ended", "%s", r.describe().c_str()); EXPECT(r.err.find("parse_csv") != string::npos || counted("fault:alloc_failure"), "silent-stop", "stopped with the message %s", quote(r.err).c_str()); count("probe:failure_reported"); }
    nontrivial();
}

// ---------------------------------------------------------------- trees
namespace {
struct M { string name; int kind; string s; long long i; double f; vector<M*> kids; M* up; };     // kinds as in the library
}
static char const* keep(string const& s) { static std::set<string>* all = new std::set<string>; return all->insert(s).first->c_str(); }
SCENARIO(C19, trees) {
    bool arr = pick(2); i64 fail = pick(3) == 2 ? 1 + pick(30) : 0; bool forever = pick(2); u32 move = pick(3) * 500, nops = range(3, pick(4) == 3 ? 150 : 50); vector<u32> ops; for (u32 i = 0; i < nops; i++) ops.push_back(pick(1u << 24));
    u32 depth = pick(3); AppResult r = run_app("trees", [&] {
        using namespace gen; SimAlloc a(1, "tree"); a.move_permille = move; ADT_Node root; memset(&root, 0, sizeof root); bool ok = arr ? !adt_set_arr(&root, "root", env::info(&a)) : !adt_set_obj(&root, "root", env::info(&a)); EXPECT(ok, "refused", "no root");
        M mr = {"root", arr ? (int)EADT_TYPE_ARRAY : (int)EADT_TYPE_OBJECT}; mr.up = nullptr; a.fail_in = fail; a.fail_forever = forever; u32 serial = 0;
        auto branch = [](M* m) { return m->kind == EADT_TYPE_ARRAY || m->kind == EADT_TYPE_OBJECT; };
        std::function<void(M*, vector<M*>&)> all = [&](M* m, vector<M*>& v) { v.push_back(m); for (M* k : m->kids) all(k, v); };
        std::function<ADT_Node*(M*)> real = [&](M* m) -> ADT_Node* { if (!m->up) return &root; ADT_Node* p = real(m->up); size_t i = std::find(m->up->kids.begin(), m->up->kids.end(), m) - m->up->kids.begin(); return p->nodes + i; };
        auto within = [](M* m, M* of) { for (; m; m = m->up) if (m == of) return true; return false; };
        auto value = [](M* m) { return m->kind == EADT_TYPE_STRING ? m->s : std::to_string(m->i); };
        std::function<void(M*, ADT_Node*, ADT_Node*, char const*)> same = [&](M* m, ADT_Node* n, ADT_Node* up, char const* when) {
            EXPECT(n->parent == up, "parent-wrong", "after %s node %s points to another parent", when, m->name.c_str()); EXPECT(n->name && m->name == n->name, "name-wrong", "after %s a node is called %s instead of %s", when, n->name ? n->name : "nothing", m->name.c_str()); EXPECT((int)n->type == m->kind, "kind-wrong", "after %s node %s is of kind %d", when, n->name, (int)n->type);
            if (m->kind == EADT_TYPE_STRING) EXPECT(m->s == n->string, "value-wrong", "after %s node %s is %s", when, n->name, quote(n->string).c_str()); if (m->kind == EADT_TYPE_INTEGER) EXPECT(m->i == n->integer, "value-wrong", "after %s node %s is %lld", when, n->name, (long long)n->integer); if (m->kind == EADT_TYPE_REAL) EXPECT(m->f == n->real, "value-wrong", "after %s node %s is %f", when, n->name, n->real);
            if (!branch(m)) return; EXPECT(n->nodes && array_num(n->nodes) == m->kids.size(), "count-wrong", "after %s node %s holds %llu nodes of %zu", when, n->name, n->nodes ? (unsigned long long)array_num(n->nodes) : 0ull, m->kids.size()); for (size_t i = 0; i < m->kids.size(); i++) same(m->kids[i], n->nodes + i, n, when);
        };
        std::function<M*(M*, string const&, bool)> find = [&](M* m, string const& s, bool deep) -> M* { if (m->kind != EADT_TYPE_OBJECT) return nullptr; for (M* k : m->kids) if (k->name == s) return k; if (deep) for (M* k : m->kids) if (M* f = find(k, s, true)) return f; return nullptr; };
        for (u32 o : ops) {
            u32 what = o % 16, x = o / 16; op(); vector<M*> v; all(&mr, v); vector<M*> br; for (M* m : v) if (branch(m)) br.push_back(m); M* p = depth ? br[br.size() - 1 - x % std::min<size_t>(br.size(), depth * 2)] : br[x % br.size()]; M* n = v[mix(x) % v.size()]; char const* nm = ""; u64 f0 = a.failed;
            if (what < 8) {
                if (v.size() > 120) continue; M* m = new M(); m->name = "n" + std::to_string(serial++); m->up = p; m->i = (long long)(mix(x + 1) % 7) - 3; m->s = "v" + std::to_string(mix(x + 2) % 5); m->f = (mix(x + 3) % 9) + 0.5; u32 k = mix(x + 4) % 5; m->kind = k == 0 ? EADT_TYPE_OBJECT : k == 1 ? EADT_TYPE_ARRAY : k == 2 ? EADT_TYPE_STRING : k == 3 ? EADT_TYPE_INTEGER : EADT_TYPE_REAL; char const* name = keep(m->name); ADT_Node* rp = real(p); ADT_Node* q;
                if (what == 7) { nm = "placing a node"; u32 at = mix(x + 5) % (p->kids.size() + 1); q = adt_alloc_at(rp, at); if (q) { EXPECT(q == rp->nodes + at, "place-wrong", "a node placed at %u is elsewhere", at); if (k < 2) { m->kind = k = EADT_TYPE_STRING; } if (m->kind == EADT_TYPE_STRING) adt_set_str(q, name, keep(m->s)); else if (m->kind == EADT_TYPE_INTEGER) adt_set_int(q, name, m->i); else adt_set_flt(q, name, m->f); p->kids.insert(p->kids.begin() + at, m); } slog("place %s at %u in %s: %s", name, at, p->name.c_str(), q ? "ok" : "refused"); }
                else { nm = "appending a node"; q = k == 0 ? adt_append_obj(rp, name) : k == 1 ? adt_append_arr(rp, name) : k == 2 ? adt_append_str(rp, name, keep(m->s)) : k == 3 ? adt_append_int(rp, name, m->i) : adt_append_flt(rp, name, m->f); if (q) { EXPECT(q == rp->nodes + p->kids.size(), "place-wrong", "an appended node is not the last one"); p->kids.push_back(m); } slog("append %s to %s: %s", name, p->name.c_str(), q ? "ok" : "refused"); }
                if (!q) { EXPECT(a.failed > f0, "refused", "%s was refused without a reason", nm); count("probe:refused"); }
            }
            else if (what == 8) { nm = "adding to a leaf"; if (branch(n)) continue; EXPECT(!adt_append_int(real(n), "no", 1) && !adt_alloc_at(real(n), 0), "accepted", "a leaf took a child"); EXPECT(!adt_alloc_at(real(p), -1) && !adt_alloc_at(real(p), p->kids.size() + 1), "accepted", "a node was placed outside of its parent"); }
            else if (what < 12) {
                nm = "moving a node"; if (n == &mr || within(p, n)) continue; u32 at = p->kids.size(); ADT_Node* q; if (what == 9) q = adt_move_node(real(n), real(p)); else { at = mix(x + 6) % (p->kids.size() + 1); q = adt_move_node_at(real(n), real(p), at); } slog("move %s to %s at %u: %s", n->name.c_str(), p->name.c_str(), at, q ? "ok" : "refused");
                if (!q) { EXPECT(a.failed > f0, "refused", "moving was refused without a reason"); count("probe:refused"); }
                else { M* up = n->up; size_t i = std::find(up->kids.begin(), up->kids.end(), n) - up->kids.begin(); p->kids.insert(p->kids.begin() + at, n); if (up == p && at <= i) i++; up->kids.erase(up->kids.begin() + i); n->up = p; EXPECT(q == real(n), "place-wrong", "moving gives a node that is not the moved one"); if (up == p) count("probe:moved_within"); }
            }
            else if (what == 12) { nm = "swapping nodes"; M* m = v[mix(x + 7) % v.size()]; if (n == &mr || m == &mr || n == m || within(n, m) || within(m, n)) continue; slog("swap %s and %s", n->name.c_str(), m->name.c_str()); adt_swap_nodes(real(n), real(m)); auto i = std::find(n->up->kids.begin(), n->up->kids.end(), n), j = std::find(m->up->kids.begin(), m->up->kids.end(), m); std::swap(*i, *j); std::swap(n->up, m->up); }
            else if (what == 13) { nm = "removing a node"; if (n == &mr) continue; slog("remove %s", n->name.c_str()); ADT_Node c = *real(n); adt_remove_node(real(n)); n->up->kids.erase(std::find(n->up->kids.begin(), n->up->kids.end(), n)); adt_destroy_branch(&c); }
            else if (what == 14) {
                nm = "looking for nodes"; for (u32 k = 0; k < 4; k++) { M* t = v[mix(x + 8 + k) % v.size()]; string nme = k == 3 ? "absent" : t->name; M* w = find(n, nme, k % 2); ADT_Node* g = adt_find(real(n), nme.c_str(), k % 2); EXPECT(g == (w ? real(w) : nullptr), "find-wrong", "looking for %s in %s finds %s", nme.c_str(), n->name.c_str(), g ? g->name : "nothing"); }
                string uri; for (M* m = n; m->up; m = m->up) uri = "/" + (m->up->kind == EADT_TYPE_OBJECT ? m->name : std::to_string(std::find(m->up->kids.begin(), m->up->kids.end(), m) - m->up->kids.begin())) + uri; if (uri.size() && x % 2) uri = uri.substr(1);
                ADT_Node* g = adt_query(&root, uri.c_str()); EXPECT(g == real(n), "query-wrong", "asking for %s finds %s", uri.c_str(), g ? g->name : "nothing");
                string no = uri + (uri.empty() || uri.back() == '/' ? "absent7" : "/absent7"); if (n->kind != EADT_TYPE_ARRAY) { g = adt_query(&root, no.c_str()); EXPECT(!g, "query-wrong", "asking for %s finds %s", no.c_str(), g ? g->name : ""); }
            }
            else {
                nm = "asking by value"; if (p->kids.empty()) continue; string uri; for (M* m = p; m->up; m = m->up) uri = "/" + (m->up->kind == EADT_TYPE_OBJECT ? m->name : std::to_string(std::find(m->up->kids.begin(), m->up->kids.end(), m) - m->up->kids.begin())) + uri; M* w = nullptr; M* t = p->kids[mix(x) % p->kids.size()];
                if (p->kind == EADT_TYPE_ARRAY && !(t->kind == EADT_TYPE_OBJECT && !t->kids.empty())) { string val = t->kind == EADT_TYPE_STRING || t->kind == EADT_TYPE_INTEGER ? value(t) : "v1"; uri += "/[" + val + "]"; for (M* k : p->kids) if ((k->kind == EADT_TYPE_STRING || k->kind == EADT_TYPE_INTEGER) && value(k) == val) { w = k; break; } }
                else if (p->kind == EADT_TYPE_ARRAY) { M* f = t->kids[0]; string val = f->kind == EADT_TYPE_STRING || f->kind == EADT_TYPE_INTEGER ? value(f) : "v1"; uri += "/[" + f->name + "=" + val + "]"; for (M* k : p->kids) if (k->kind == EADT_TYPE_OBJECT && !w) for (M* g : k->kids) if (g->name == f->name && (g->kind == EADT_TYPE_STRING || g->kind == EADT_TYPE_INTEGER) && value(g) == val) w = k; if (w) { uri += "/" + f->name; w = f; } }
                else { string val = t->kind == EADT_TYPE_STRING || t->kind == EADT_TYPE_INTEGER ? value(t) : "v2"; if (x % 3 == 0) val = "v3"; uri += "/[" + t->name + "=" + val + "]"; if ((t->kind == EADT_TYPE_STRING || t->kind == EADT_TYPE_INTEGER) && value(t) == val) w = p; }
                ADT_Node* g = adt_query(&root, uri.c_str()); EXPECT(g == (w ? real(w) : nullptr), "query-wrong", "asking for %s finds %s instead of %s", uri.c_str(), g ? g->name : "nothing", w ? w->name.c_str() : "nothing"); count("probe:asked_by_value");
            }
            same(&mr, &root, nullptr, nm);
        }
        adt_destroy_branch(&root); EXPECT(a.live_blocks == 0, "leak", "%s", sim_leaks(&a).c_str()); EXPECT(g_os_heap.live_blocks == 0, "leak", "%s", sim_leaks(&g_os_heap).c_str());
    });
    EXPECT(r.kind == APP_RETURNED, "ended", "%s", r.describe().c_str()); nontrivial();
}
