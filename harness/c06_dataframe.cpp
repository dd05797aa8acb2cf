// C06: data frames against a table model, and through CSV files.
#include "csv_model.hpp"
#include "virg/nexus/nx_alloc.h"
using namespace vh;
struct MCell { bool na = true; std::string s; int i = 0; double d = 0; bool b = false; };
struct MCol { int type; std::string label; std::vector<MCell> cells; std::vector<std::string> levels; };
struct Model { std::vector<MCol> cols; int rows = 0; };
static void lvl(MCol &k, const std::string &s) { if (std::find(k.levels.begin(), k.levels.end(), s) == k.levels.end()) k.levels.push_back(s); }
static void judge(Ctx &c, const NXDataFrame *df, const Model &m) {
    REQ(c, nx_data_frame_n_rows(df) == m.rows, "row count %d expected %d", nx_data_frame_n_rows(df), m.rows); REQ(c, nx_data_frame_n_columns(df) == (int)m.cols.size(), "column count");
    for (size_t k = 0; k < m.cols.size(); ++k) { const MCol &mc = m.cols[k]; const NXDataColumn *dc = nx_data_frame_column(df, k); REQ(c, (int)nx_data_column_type(dc) == mc.type, "type of column %zu is %d expected %d", k, (int)nx_data_column_type(dc), mc.type); REQ(c, mc.label == nx_data_column_label(dc), "label of column %zu", k); REQ(c, nx_data_column_n_factor_levels(dc) == (int)mc.levels.size(), "level count of column %zu is %d expected %zu", k, nx_data_column_n_factor_levels(dc), mc.levels.size());
        for (size_t l = 0; l < mc.levels.size(); ++l) REQ(c, mc.levels[l] == nx_data_column_factor_level(dc, l), "level %zu of column %zu is '%s'", l, k, escape(nx_data_column_factor_level(dc, l)).c_str());
        for (int r = 0; r < m.rows; ++r) { const MCell &x = mc.cells[r]; REQ(c, (nx_data_frame_is_na(df, r, k) != 0) == x.na, "missing mark at %d,%zu", r, k); if (x.na) continue; switch (mc.type) { case NX_DCT_STRING: REQ(c, x.s == nx_data_frame_get_string(df, r, k), "string at %d,%zu is '%s'", r, k, escape(nx_data_frame_get_string(df, r, k)).c_str()); break; case NX_DCT_FACTOR: REQ(c, x.s == nx_data_frame_get_factor(df, r, k), "factor at %d,%zu", r, k); break; case NX_DCT_INT: REQ(c, x.i == nx_data_frame_get_int(df, r, k), "int at %d,%zu", r, k); break; case NX_DCT_BOOL: REQ(c, x.b == (nx_data_frame_get_bool(df, r, k) != 0), "bool at %d,%zu", r, k); break; default: { double g = nx_data_frame_get_double(df, r, k); REQ(c, memcmp(&g, &x.d, 8) == 0 || g == x.d, "real at %d,%zu is %.17g expected %.17g", r, k, g, x.d); } } c.ev("cell"); } }
}
static double rreal(Rng &r) { switch (r.i(0, 6)) { case 0: return r.i(-9, 9); case 1: return r.gauss() * std::pow(10, r.i(-307, 307)); case 2: return 4.9e-324 * r.i(1, 1000); case 3: return r.coin() ? DBL_MAX : -DBL_MIN; case 4: return (double)(int64_t)r.next(); case 5: return r.gauss() / 3; default: return r.coin() ? 0.0 : 1e9 + 0.5; } }
static std::string rstr(Rng &r) { static const std::vector<std::string> w = {"", "a", "b", "true", "12", "1.5", ",", "\"", "\n", "a,b", "x\"\"y", "NA"}; return r.coin() ? r.pick(w) : gen_bytes(r, r.coin(1, 1500) ? r.logsize(25, 9000) : r.size(25), r.i(0, 4)); }
static MCell cell_for(Rng &r, int type) { MCell x; x.na = false; x.s = rstr(r); x.i = r.coin() ? r.i(-5, 5) : (int)r.next(); x.d = rreal(r); x.b = r.coin(); (void)type; return x; }
static void set(Ctx &c, NXDataFrame *df, Model &m, int row, int k) {
    auto &r = c.rng; MCol &mc = m.cols[k]; MCell x = cell_for(r, mc.type);
    switch (mc.type) {
    case NX_DCT_STRING: if (!mc.cells[row].na && r.coin(1, 6)) { x.s = mc.cells[row].s; int off = r.i(0, (int)x.s.size()); nx_data_frame_set_string(df, row, k, nx_data_frame_get_string(df, row, k) + off); x.s = x.s.substr(off); c.ev("self_assignment"); } else { std::vector<char> t(x.s.begin(), x.s.end()); t.push_back(0); nx_data_frame_set_string(df, row, k, t.data()); } break;
    case NX_DCT_FACTOR: { if (!mc.cells[row].na && r.coin(1, 8)) { x.s = mc.cells[row].s; nx_data_frame_set_factor(df, row, k, nx_data_frame_get_factor(df, row, k)); } else { if (mc.levels.size() && r.coin()) x.s = r.pick(mc.levels); std::vector<char> t(x.s.begin(), x.s.end()); t.push_back(0); nx_data_frame_set_factor(df, row, k, t.data()); } lvl(mc, x.s); break; }
    case NX_DCT_INT: nx_data_frame_set_int(df, row, k, x.i); break; case NX_DCT_BOOL: nx_data_frame_set_bool(df, row, k, x.b ? NX_TRUE : NX_FALSE); break; default: nx_data_frame_set_double(df, row, k, x.d);
    }
    mc.cells[row] = x;
}
static void addcol(Ctx &c, NXDataFrame *df, Model &m) { auto &r = c.rng; MCol k; k.type = r.i(NX_DCT_STRING, NX_DCT_FACTOR); k.label = rstr(r); k.cells.resize(m.rows); m.cols.push_back(k); std::vector<char> t(k.label.begin(), k.label.end()); t.push_back(0); nx_data_frame_add_column(df, (NXDataColumnType)k.type, t.data()); }
template <class F> static void setrow(Ctx &c, Model &m, int row, F f) { // up to three columns through the variadic calls, of every type
    auto &r = c.rng; std::vector<MCell> x; for (auto &k : m.cols) { MCell q = cell_for(r, k.type); x.push_back(q); }
    f(x); for (size_t k = 0; k < m.cols.size(); ++k) { m.cols[k].cells[row] = x[k]; if (m.cols[k].type == NX_DCT_FACTOR) lvl(m.cols[k], x[k].s); }
}
static void ops(Ctx &c) {
    auto &r = c.rng; NXDataFrame *df = nx_data_frame_alloc(); Model m; int n = r.i(1, r.coin(1, 8) ? 300 : 60), maxc = r.coin(1, 30) ? r.i(8, 60) : r.i(1, 7); c.desc("ops=%d ", n); if (n > 5) c.nt();
    for (int s = 0; s < n; ++s) {
        int op = r.i(0, 11); c.mix(op); c.ev("operation");
        if (m.cols.empty() || (op == 0 && (int)m.cols.size() < maxc)) { if (r.coin(1, 4)) { int q = r.i(0, 3); std::vector<NXDataColumnType> ty; std::vector<std::string> la; std::vector<const char *> lp; for (int i = 0; i < q; ++i) { ty.push_back((NXDataColumnType)r.i(0, 4)); la.push_back(rstr(r)); } for (auto &l : la) lp.push_back(l.c_str()); NXDataColumnType d1; const char *d2; nx_data_frame_add_columns(df, q, q ? ty.data() : &d1, q ? lp.data() : &d2); for (int i = 0; i < q; ++i) { MCol k; k.type = ty[i]; k.label = la[i]; k.cells.resize(m.rows); m.cols.push_back(k); } } else addcol(c, df, m); }
        else if (op <= 2) { int id = nx_data_frame_add_row(df); REQ(c, id == m.rows, "new row id %d", id); ++m.rows; for (auto &k : m.cols) k.cells.resize(m.rows); }
        else if (op == 3 && m.cols.size() <= 2) { ++m.rows; for (auto &k : m.cols) k.cells.resize(m.rows); int row = m.rows - 1, id = -1;
            setrow(c, m, row, [&](std::vector<MCell> &x) { auto go1 = [&](auto... pre) { MCell &q = x.back(); switch (m.cols.back().type) { case NX_DCT_INT: id = nx_data_frame_append_row(df, pre..., q.i); break; case NX_DCT_BOOL: id = nx_data_frame_append_row(df, pre..., q.b ? NX_TRUE : NX_FALSE); break; case NX_DCT_DOUBLE: id = nx_data_frame_append_row(df, pre..., q.d); break; default: id = nx_data_frame_append_row(df, pre..., q.s.c_str()); } };
                if (m.cols.size() == 1) go1(); else switch (m.cols[0].type) { case NX_DCT_INT: go1(x[0].i); break; case NX_DCT_BOOL: go1(x[0].b ? NX_TRUE : NX_FALSE); break; case NX_DCT_DOUBLE: go1(x[0].d); break; default: go1(x[0].s.c_str()); } }); REQ(c, id == row, "appended row id"); c.ev("append_row"); }
        else if (m.rows == 0) continue;
        else if (op == 4 && m.cols.size() == 2) { int row = r.i(0, m.rows - 1); setrow(c, m, row, [&](std::vector<MCell> &x) { auto go1 = [&](auto pre) { MCell &q = x[1]; switch (m.cols[1].type) { case NX_DCT_INT: nx_data_frame_set(df, row, pre, q.i); break; case NX_DCT_BOOL: nx_data_frame_set(df, row, pre, q.b ? NX_TRUE : NX_FALSE); break; case NX_DCT_DOUBLE: nx_data_frame_set(df, row, pre, q.d); break; default: nx_data_frame_set(df, row, pre, q.s.c_str()); } }; switch (m.cols[0].type) { case NX_DCT_INT: go1(x[0].i); break; case NX_DCT_BOOL: go1(x[0].b ? NX_TRUE : NX_FALSE); break; case NX_DCT_DOUBLE: go1(x[0].d); break; default: go1(x[0].s.c_str()); } }); c.ev("set_row"); }
        else if (op == 5) { int row = r.i(0, m.rows - 1), k = r.i(0, (int)m.cols.size() - 1); nx_data_frame_set_na(df, row, k); m.cols[k].cells[row].na = true; }
        else if (op == 6 && r.coin(1, 3)) { int k = r.i(0, (int)m.cols.size() - 1); MCol &mc = m.cols[k]; nx_data_frame_make_factor(df, k); if (mc.type != NX_DCT_FACTOR) { int ot = mc.type; mc.type = NX_DCT_FACTOR; mc.levels.clear(); for (auto &x : mc.cells) if (!x.na) { x.s = ot == NX_DCT_STRING ? x.s : ot == NX_DCT_INT ? fmt("%d", x.i) : ot == NX_DCT_BOOL ? (x.b ? "true" : "false") : fmt("%.17g", x.d); lvl(mc, x.s); } } c.ev("make_factor"); }
        else set(c, df, m, r.i(0, m.rows - 1), r.i(0, (int)m.cols.size() - 1));
        if (r.coin(1, 6)) judge(c, df, m);
    }
    judge(c, df, m);
    // wrong type or missing access must be an explicit error
    if (m.rows && m.cols.size() && r.coin(1, 4)) { int row = r.i(0, m.rows - 1), k = r.i(0, (int)m.cols.size() - 1), t = r.i(0, 4); bool good = m.cols[k].type == t && !m.cols[k].cells[row].na; bool ret = returns(c, [&] { switch (t) { case NX_DCT_STRING: nx_data_frame_get_string(df, row, k); break; case NX_DCT_INT: nx_data_frame_get_int(df, row, k); break; case NX_DCT_DOUBLE: nx_data_frame_get_double(df, row, k); break; case NX_DCT_BOOL: nx_data_frame_get_bool(df, row, k); break; default: nx_data_frame_get_factor(df, row, k); } }); REQ(c, ret == good, "checked access of type %d at %d,%d (type %d) %s", t, row, k, m.cols[k].type, ret ? "returned" : "failed"); c.ev("checked_access");
        bool goods = m.cols[k].type == t; ret = returns(c, [&] { switch (t) { case NX_DCT_STRING: nx_data_frame_set_string(df, row, k, "v"); break; case NX_DCT_INT: nx_data_frame_set_int(df, row, k, 1); break; case NX_DCT_DOUBLE: nx_data_frame_set_double(df, row, k, 1); break; case NX_DCT_BOOL: nx_data_frame_set_bool(df, row, k, NX_TRUE); break; default: nx_data_frame_set_factor(df, row, k, "v"); } }); REQ(c, ret == goods, "setting type %d in a column of type %d %s", t, m.cols[k].type, ret ? "returned" : "failed"); if (!ret) judge(c, df, m); }
    nx_data_frame_free(df);
}
static void saveload(Ctx &c) {
    auto &r = c.rng; NXDataFrame *df = nx_data_frame_alloc(); Model m; int nc = r.coin(1, 60) ? r.logsize(6, 80) : r.i(1, 6), nr = nc > 6 ? r.i(0, 15) : r.size(r.coin(1, 10) ? 300 : 20, 2000, 9000); c.desc("%dx%d", nr, nc); if (nr) c.nt(); for (int k = 0; k < nc; ++k) addcol(c, df, m); for (int i = 0; i < nr; ++i) { nx_data_frame_add_row(df); ++m.rows; for (auto &k : m.cols) k.cells.resize(m.rows); for (int k = 0; k < nc; ++k) if (r.coin(4, 5)) set(c, df, m, i, k); }
    std::string txt; NXDataFrame *g; bool f = r.coin(1, 3);
    if (r.coin()) { FILE *t = tmpfile(); REQ(c, nx_data_frame_save_csv_stream(df, t), "save failed"); rewind(t); int ch; while ((ch = fgetc(t)) != EOF) txt += (char)ch; rewind(t); g = nx_data_frame_load_csv_stream(t, f ? NX_TRUE : NX_FALSE); fclose(t); }
    else { std::string fn = scratch() + "/d.csv"; if (r.coin()) REQ(c, nx_data_frame_save_csv(df, fn.c_str()), "save failed"); else nx_data_frame_xsave_csv(df, fn.c_str()); read_file(fn, txt); g = nx_data_frame_load_csv(fn.c_str(), f ? NX_TRUE : NX_FALSE); }
    c.mixb(txt.data(), txt.size()); judge(c, df, m);
    CSV v; REQ(c, csv_read(txt, v), "saved text is not well-formed CSV: %s", escape(txt).c_str()); REQ(c, (int)v.size() == nr + 1 && (int)v[0].size() == nc, "saved text has %zu records of %zu fields", v.size(), v[0].size());
    REQ(c, g && nx_data_frame_n_rows(g) == nr && nx_data_frame_n_columns(g) == nc, "loaded geometry");
    for (int k = 0; k < nc; ++k) { MCol &mc = m.cols[k]; const NXDataColumn *dc = nx_data_frame_column(g, k); REQ(c, mc.label == nx_data_column_label(dc), "label '%s' loaded as '%s'", escape(mc.label).c_str(), escape(nx_data_column_label(dc)).c_str()); int ty = nx_data_column_type(dc); bool any = false; for (auto &x : mc.cells) any |= !x.na;
        if (any) switch (mc.type) { case NX_DCT_STRING: case NX_DCT_FACTOR: REQ(c, ty == (f ? NX_DCT_FACTOR : NX_DCT_STRING), "text column %d loaded with type %d", k, ty); break; case NX_DCT_INT: case NX_DCT_BOOL: REQ(c, ty == mc.type, "column of type %d loaded with type %d", mc.type, ty); break; default: REQ(c, ty == NX_DCT_DOUBLE || ty == NX_DCT_INT, "real column loaded with type %d", ty); }
        for (int i = 0; i < nr; ++i) { MCell &x = mc.cells[i]; REQ(c, (nx_data_frame_is_na(g, i, k) != 0) == x.na, "missing mark at %d,%d after load", i, k); if (x.na) { c.ev("missing_cell"); continue; } switch (mc.type) { case NX_DCT_STRING: case NX_DCT_FACTOR: { const char *s = f ? nx_data_frame_get_factor(g, i, k) : nx_data_frame_get_string(g, i, k); REQ(c, x.s == s, "text at %d,%d loaded as '%s'", i, k, escape(s).c_str()); break; } case NX_DCT_INT: REQ(c, x.i == nx_data_frame_get_int(g, i, k), "int at %d,%d", i, k); break; case NX_DCT_BOOL: REQ(c, x.b == (nx_data_frame_get_bool(g, i, k) != 0), "bool at %d,%d", i, k); break; default: { double d = ty == NX_DCT_INT ? nx_data_frame_get_int(g, i, k) : nx_data_frame_get_double(g, i, k); REQ(c, d == x.d, "real at %d,%d loaded as %.17g expected %.17g", i, k, d, x.d); } } c.ev("cell_reloaded"); } }
    nx_data_frame_free(g); nx_data_frame_free(df);
}
static void separators(Ctx &c) { // the general printer: one line per row, requested separator
    auto &r = c.rng; NXDataFrame *df = nx_data_frame_alloc(); Model m; int nc = r.i(1, 5), nr = r.i(0, 10); static const std::vector<std::string> seps = {",", " ", "\t", ";", " | "}; std::string sep = r.pick(seps); c.desc("%dx%d sep '%s'", nr, nc, sep.c_str()); c.nt(); for (int k = 0; k < nc; ++k) { MCol q; q.type = r.i(1, 3); q.label = fmt("L%d", k); m.cols.push_back(q); nx_data_frame_add_column(df, (NXDataColumnType)q.type, q.label.c_str()); }
    std::string e; for (int k = 0; k < nc; ++k) { if (k) e += sep; e += "\"" + m.cols[k].label + "\""; } e += "\n"; for (int i = 0; i < nr; ++i) { nx_data_frame_add_row(df); ++m.rows; for (int k = 0; k < nc; ++k) { m.cols[k].cells.resize(m.rows); if (k) e += sep; if (r.coin(4, 5)) { set(c, df, m, i, k); MCell &x = m.cols[k].cells[i]; e += m.cols[k].type == NX_DCT_INT ? fmt("%d", x.i) : m.cols[k].type == NX_DCT_BOOL ? (x.b ? "true" : "false") : fmt("%.17g", x.d); } } e += "\n"; }
    char *b = nullptr; size_t l = 0; FILE *f = open_memstream(&b, &l); REQ(c, nx_data_frame_fprintf(df, f, sep.c_str()), "print failed"); fclose(f); std::string g(b, l); free(b); size_t h1 = g.find('\n'), h2 = e.find('\n'); REQ(c, g.substr(h1) == e.substr(h2), "printed table '%s' expected '%s'", escape(g).c_str(), escape(e).c_str()); c.mixb(g.data(), g.size()); nx_data_frame_free(df); c.ev("table_printed");
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"ops", ops, 8000, 150000}, {"saveload", saveload, 8000, 150000}, {"separators", separators, 2000, 20000}}); }
