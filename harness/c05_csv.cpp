// C05: CSV text -> table, judged by an independent reader of the same text.
#include "csv_model.hpp"
#include "virg/nexus/nx_csv_parser.h"
#include "virg/nexus/nx_alloc.h"
using namespace vh;
static NXDataFrame *load(const std::string &t, int how, bool factors) {
    if (how == 0 && !factors) { std::vector<char> b(t.begin(), t.end()); b.push_back(0); NXCSVLexer *lx = nx_csv_lexer_new(b.data()); NXCSVParser *p = nx_csv_parser_new(lx); NXDataFrame *df = nx_csv_parser_parse(p); nx_csv_parser_free(p); nx_csv_lexer_free(lx); return df; }
    if (how == 1) { FILE *f = tmpfile(); fwrite(t.data(), 1, t.size(), f); rewind(f); NXDataFrame *d = nx_data_frame_load_csv_stream(f, factors ? NX_TRUE : NX_FALSE); fclose(f); return d; }
    std::string fn = scratch() + "/t.csv"; write_file(fn, t.data(), t.size()); return how == 2 ? nx_data_frame_load_csv(fn.c_str(), factors ? NX_TRUE : NX_FALSE) : nx_data_frame_xload_csv(fn.c_str(), factors ? NX_TRUE : NX_FALSE);
}
static void judge(Ctx &c, const NXDataFrame *df, const CSV &v, bool factors) {
    REQ(c, df, "no table"); REQ(c, nx_data_frame_n_rows(df) == (int)v.size() - 1, "%d rows, expected %zu", nx_data_frame_n_rows(df), v.size() - 1); REQ(c, nx_data_frame_n_columns(df) == (int)v[0].size(), "%d columns, expected %zu", nx_data_frame_n_columns(df), v[0].size());
    for (size_t k = 0; k < v[0].size(); ++k) {
        const NXDataColumn *dc = nx_data_frame_column(df, k); int ty = column_type(v, k); if (factors && ty == NX_DCT_STRING) ty = NX_DCT_FACTOR;
        REQ(c, v[0][k].text == nx_data_column_label(dc), "label of column %zu is '%s'", k, escape(nx_data_column_label(dc)).c_str()); REQ(c, (int)nx_data_column_type(dc) == ty, "type of column %zu is %d, expected %d", k, (int)nx_data_column_type(dc), ty); c.ev(ty == NX_DCT_STRING ? "string_column" : ty == NX_DCT_INT ? "int_column" : ty == NX_DCT_DOUBLE ? "double_column" : ty == NX_DCT_BOOL ? "bool_column" : "factor_column");
        for (size_t r = 1; r < v.size(); ++r) { const Cell &x = v[r][k]; int row = (int)r - 1; REQ(c, (nx_data_frame_is_na(df, row, k) != 0) == x.na, "missing mark at %d,%zu", row, k); if (x.na) { c.ev("missing_cell"); continue; }
            switch (ty) { case NX_DCT_STRING: REQ(c, x.text == nx_data_frame_get_string(df, row, k), "cell %d,%zu is '%s'", row, k, escape(nx_data_frame_get_string(df, row, k)).c_str()); break; case NX_DCT_FACTOR: REQ(c, x.text == nx_data_frame_get_factor(df, row, k), "factor cell %d,%zu", row, k); break; case NX_DCT_BOOL: REQ(c, (nx_data_frame_get_bool(df, row, k) != 0) == (x.text == "true"), "bool cell %d,%zu", row, k); break; case NX_DCT_INT: { long long l; is_int_text(x.text, l); REQ(c, nx_data_frame_get_int(df, row, k) == l, "int cell %d,%zu is %d, text '%s'", row, k, nx_data_frame_get_int(df, row, k), x.text.c_str()); break; } default: { double d; is_real_text(x.text, d); double g = nx_data_frame_get_double(df, row, k); REQ(c, g == d || (std::isnan(g) && std::isnan(d)), "real cell %d,%zu is %.17g, text '%s'", row, k, g, x.text.c_str()); } } c.ev("cell"); } }
}
static std::string number(Rng &r) { switch (r.i(0, 7)) { case 0: return fmt("%d", r.i(-9, 9)); case 1: return fmt("%d", (int)r.next()); case 2: return r.coin() ? "2147483647" : "-2147483648"; case 3: return fmt("%s%d", r.coin() ? "+" : "0", r.i(0, 99)); case 4: return fmt("%lld", (long long)r.range(-9999999999ll, 9999999999ll)); case 5: return "2147483648"; case 6: return fmt(" %d", r.i(0, 99)); default: return fmt("%d", r.i(-1000, 1000)); } }
static std::string real(Rng &r) { switch (r.i(0, 9)) { case 0: return fmt("%g", r.gauss()); case 1: return fmt("%.17g", r.gauss() * std::pow(10, r.i(-300, 300))); case 2: return fmt("%.3e", r.gauss()); case 3: return fmt("%d.", r.i(0, 99)); case 4: return fmt(".%d", r.i(0, 99)); case 5: return "1e-320"; case 6: return "0x1.8p3"; case 7: return r.coin() ? "nan" : "-inf"; case 8: return "0x10"; default: return fmt("%f", r.gauss() * 100); } }
static std::string word(Rng &r) { static const std::vector<std::string> w = {"abc", "True", "FALSE", "truefalse", "12a", "1e", "--1", "+", "-", ".", "1 2", " ", "e5", "NA", "1e999", "hello world", "0xg", "tru", "1,", "x\xff"}; if (r.coin()) { std::string s = r.pick(w); if (s.find(',') != std::string::npos) s = "1;"; return s; } std::string s = gen_bytes(r, r.coin(1, 1500) ? r.logsize(12, 4000) : r.i(1, 12), r.i(0, 3)); for (char &ch : s) if (ch == '"' || ch == ',' || ch == '\n' || ch == '\r') ch = '_'; return s; }
static std::string gen_csv(Rng &r) {
    int nc = r.coin(1, 4) ? 1 : r.coin(1, 60) ? r.logsize(8, 150) : r.i(1, 8), nr = nc > 8 ? r.i(0, 20) : r.size(r.coin(1, 10) ? 400 : 25, 2500, 20000); std::string t; auto q = [&](int style) { return csv_quote(gen_bytes(r, r.coin(1, 2000) ? r.logsize(20, 20000) : r.size(20), style)); };
    for (int k = 0; k < nc; ++k) { if (k) t += ','; int h = r.i(0, 5); t += h == 0 ? q(r.i(0, 4)) : h == 1 && nc > 1 ? std::string() : h == 2 ? number(r) : fmt("c%d", k); }
    std::vector<int> kind(nc), na(nc); for (int k = 0; k < nc; ++k) { kind[k] = r.i(0, 9); na[k] = r.coin() ? 0 : r.i(1, 10); }
    for (int i = 0; i < nr; ++i) { t += '\n'; for (int k = 0; k < nc; ++k) { if (k) t += ','; if (r.i(0, 9) < na[k]) continue; int z = kind[k]; if (z >= 7) { static const int mixk[3][4] = {{0, 1, 0, 0}, {0, 0, 2, 0}, {0, 1, 2, 3}}; z = mixk[z - 7][r.i(0, 3)]; } switch (z) { case 0: t += number(r); break; case 1: t += real(r); break; case 2: t += r.coin() ? "true" : "false"; break; case 3: t += word(r); break; case 4: t += q(r.i(0, 4)); break; case 5: t += csv_quote(number(r)); break; default: t += fmt("%d", r.i(0, 5)); } } }
    if (r.coin()) t += '\n'; return t;
}
static void wellformed(Ctx &c) {
    auto &r = c.rng; std::string t = gen_csv(r); c.descbytes(t.data(), t.size(), "csv"); CSV v; if (!csv_read(t, v)) c.skip(); if (v.size() > 1) c.nt();
    bool f = r.coin(1, 3); int how = r.i(f ? 1 : 0, 3); NXDataFrame *df = load(t, how, f); judge(c, df, v, f); nx_data_frame_free(df);
}
static void corrupt(Ctx &c) {
    auto &r = c.rng; std::string t = gen_csv(r); int k = r.i(1, 4); if (t.size() > 200) t.resize(200);
    while (k-- && !t.empty()) { size_t p = r.next() % t.size(); static const char ch[] = "\"\",,\n\n a1.\xff"; switch (r.i(0, 4)) { case 0: t.erase(p, 1); break; case 1: t.insert(p, 1, ch[r.next() % (sizeof ch - 1)]); break; case 2: t[p] = ch[r.next() % (sizeof ch - 1)]; break; case 3: t.resize(p); break; default: t.insert(p, "\"\""); } }
    c.descbytes(t.data(), t.size(), "csv"); c.nt(); CSV v; bool ok = csv_read(t, v); bool f = r.coin(1, 4); int how = r.i(f ? 1 : 0, 3); NXDataFrame *df = nullptr; std::string msg;
    bool ret = returns(c, [&] { df = load(t, how, f); }, &msg); REQ(c, ret == ok, "%s text was %s %s", ok ? "well-formed" : "malformed", ret ? "accepted" : "rejected:", msg.c_str()); c.ev(ret ? "variant_accepted" : "variant_rejected"); if (ret) { judge(c, df, v, f); nx_data_frame_free(df); }
}
static void tokens(Ctx &c) {
    auto &r = c.rng; int n = r.size(25, 800); std::string t; struct T { int ty; std::string s; }; std::vector<T> e;
    for (int i = 0; i < n; ++i) { bool lastf = !e.empty() && (e.back().ty == NX_CTT_FIELD || e.back().ty == NX_CTT_QUOTED_FIELD); int k = lastf ? r.i(0, 1) : r.i(0, 4); if (k == 0) { t += ','; e.push_back({NX_CTT_COMMA, ""}); } else if (k == 1) { t += '\n'; e.push_back({NX_CTT_EOR, ""}); } else if (k == 2) { std::string s = word(r); t += s; e.push_back({NX_CTT_FIELD, s}); } else { std::string s = gen_bytes(r, r.size(20, 6000), r.i(0, 4)); t += csv_quote(s); e.push_back({NX_CTT_QUOTED_FIELD, s}); } }
    c.descbytes(t.data(), t.size(), "csv"); if (n) c.nt(); std::vector<char> b(t.begin(), t.end()); b.push_back(0); NXCSVLexer *lx = nx_csv_lexer_new(b.data()); NXCSVToken k; k.type = NX_CTT_INVALID; k.text = nullptr;
    for (size_t i = 0; i < e.size(); ++i) { nx_csv_lexer_next_token(lx, &k); REQ(c, (int)k.type == e[i].ty, "token %zu is %s", i, nx_csv_token_name(&k)); if (e[i].ty == NX_CTT_FIELD || e[i].ty == NX_CTT_QUOTED_FIELD) REQ(c, k.text && e[i].s == k.text, "token %zu text '%s'", i, k.text ? escape(k.text).c_str() : "NULL"); char *s = nx_csv_token_to_string(&k); REQ(c, s && strstr(s, nx_csv_token_name(&k)) && !strcmp(nx_csv_token_name(&k), nx_csv_token_type_name(k.type)) && strstr(s, e[i].s.c_str()), "token %zu shown as %s", i, s); nx_free(s); c.ev("token"); }
    nx_csv_lexer_next_token(lx, &k); REQ(c, k.type == NX_CTT_EOF, "no end"); nx_csv_token_free_data(&k); nx_csv_lexer_free(lx);
}
static void missing(Ctx &c) { std::string fn = scratch() + "/absent.csv"; c.mix(1); REQ(c, nx_data_frame_load_csv(fn.c_str(), NX_FALSE) == nullptr, "absent file loaded"); REQ(c, !returns(c, [&] { nx_data_frame_xload_csv(fn.c_str(), NX_FALSE); }), "absent file loaded"); c.ev("missing_file_reported"); }
int main(int argc, char **argv) { return run_main(argc, argv, {{"wellformed", wellformed, 30000, 500000}, {"corrupt", corrupt, 60000, 1000000}, {"tokens", tokens, 10000, 150000}, {"missing", missing, 3, 3}}); }
