// C03: JSON text <-> tree.
#include "json_model.hpp"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_json_parser.h"
#include "virg/nexus/nx_lexer.h"
using namespace vh;
static bool eq(const JV &a, const JV &b) { if (a.type != b.type || a.text != b.text || a.names != b.names || a.items.size() != b.items.size()) return false; for (size_t i = 0; i < a.items.size(); ++i) if (!eq(a.items[i], b.items[i])) return false; return true; }
static NXJSONNode *parse(Ctx &c, const std::string &t, int how) {
    if (how == 0) { char *p = strdup(t.c_str()); NXJSONNode *n = nx_json_tree_from_string(p); REQ(c, t == p, "input text modified"); free(p); return n; }
    if (how == 1) { FILE *f = tmpfile(); fwrite(t.data(), 1, t.size(), f); rewind(f); NXJSONNode *n = nx_json_tree_from_stream(f); fclose(f); return n; }
    std::string fn = scratch() + "/j.json"; write_file(fn, t.data(), t.size()); return nx_json_tree_from_file(fn.c_str());
}
static void roundtrip(Ctx &c) {
    auto &r = c.rng; int budget = 60; JV v = gen_json(r, r.i(1, 6), true, budget); std::string t = ws(r); write_json(r, v, t); t += ws(r); c.descbytes(t.data(), t.size(), "json"); if (v.items.size()) c.nt();
    NXJSONNode *n = parse(c, t, r.i(0, 2)); cmp_json(c, n, v, "$");
    for (int pp : {0, 1, r.i(2, 6)}) {
        std::string s = print_tree(n, pp); JReader rd(s); JV w = rd.value(true); rd.skip(); REQ(c, rd.ok && rd.p == s.size(), "printed text is not well formed: %s", escape(s).c_str()); REQ(c, eq(v, w), "printed text denotes a different document: %s", escape(s).c_str());
        NXJSONNode *m = parse(c, s, 0); cmp_json(c, m, v, "$"); REQ(c, print_tree(m, pp) == s, "second print differs"); nx_json_tree_free(m); c.ev("print_parse_roundtrip");
    }
    nx_json_tree_free(n);
}
static void built(Ctx &c) {
    auto &r = c.rng; int budget = 60; JV v = gen_json(r, r.i(1, 5), true, budget); NXJSONNode *n = build(r, v); cmp_json(c, n, v, "$"); std::string s = print_tree(n, r.i(0, 3)); c.descbytes(s.data(), s.size(), "json"); if (v.items.size()) c.nt();
    JReader rd(s); JV w = rd.value(true); REQ(c, rd.ok && eq(v, w), "printed text denotes a different document: %s", escape(s).c_str()); NXJSONNode *m = parse(c, s, r.i(0, 1)); cmp_json(c, m, v, "$"); nx_json_tree_free(m); nx_json_tree_free(n); c.ev("built_roundtrip");
}
static void corrupt(Ctx &c) {
    auto &r = c.rng; std::string t;
    if (r.coin(1, 4)) { static const char *tok[] = {"{", "}", "[", "]", ",", ":", "\"a\"", "1", "-", "0", "01", "1.", ".5", "1e", "true", "tru", "null", "false", " ", "\"", "\\", "-0", "1e5", "\"\\x\"", "\"\\u0041\"", "'", "\xff", "\n", "-1.5E+2"}; int n = r.i(1, 12); t = r.coin() ? "[" : "{"; while (n--) t += tok[r.next() % (sizeof tok / sizeof *tok)]; if (r.coin()) t += r.coin() ? "]" : "}"; }
    else { int budget = 25; JV v = gen_json(r, r.i(1, 4), true, budget); write_json(r, v, t); int k = r.i(1, 3);
        while (k-- && !t.empty()) { size_t p = r.next() % t.size(); static const char ch[] = "{}[],:\"\\ 01-.eEtfn\xff\x80x/"; switch (r.i(0, 4)) { case 0: t.erase(p, 1); break; case 1: t.insert(p, 1, ch[r.next() % (sizeof ch - 1)]); break; case 2: t[p] = ch[r.next() % (sizeof ch - 1)]; break; case 3: t.resize(p); break; default: { size_t q = r.next() % t.size(); std::swap(t[p], t[q]); } } } }
    c.descbytes(t.data(), t.size(), "json"); c.nt();
    JReader rd(t); JV v = rd.value(true); bool whole = false; if (rd.ok) { rd.skip(); whole = rd.p == t.size(); }
    NXJSONNode *n = nullptr; std::string msg; bool ret = returns(c, [&] { n = parse(c, t, r.i(0, 1)); }, &msg);
    if (rd.ok && whole) { REQ(c, ret, "well-formed text rejected: %s", msg.c_str()); }
    if (!rd.ok) REQ(c, !ret, "malformed text accepted");
    if (ret) { cmp_json(c, n, v, "$"); nx_json_tree_free(n); c.ev("variant_accepted"); } else c.ev("variant_rejected");
}
static void flat(Ctx &c) {
    auto &r = c.rng; int n = r.i(20000, 300000); bool obj = r.coin(); c.desc("flat %s n=%d", obj ? "object" : "array", n); c.mix(n); c.nt(); std::string t = obj ? "{" : "["; for (int i = 0; i < n; ++i) { if (i) t += ','; if (obj) t += "\"k\":"; t += "1"; } t += obj ? "}" : "]";
    std::vector<char> b(t.begin(), t.end()); b.push_back(0); NXJSONNode *x = nx_json_tree_from_string(b.data()); REQ(c, nx_json_node_n_children(x) == (obj ? 2 * n : n), "child count"); nx_json_tree_free(x); c.ev("flat_document");
}
static void nested(Ctx &c) { int d = c.rng.i(1, 400); c.desc("depth %d", d); c.mix(d); c.nt(); std::string t; for (int i = 0; i < d; ++i) t += i % 2 ? "{\"a\":" : "["; t += "[]"; for (int i = d - 1; i >= 0; --i) t += i % 2 ? "}" : "]"; NXJSONNode *x = parse(c, t, 0); NXJSONNode *y = x; for (int i = 0; i < d; ++i) { y = i % 2 ? nx_json_object_get(y, "a", NX_JNT_COMPOSITE) : nx_json_array_get(y, 0, NX_JNT_COMPOSITE); REQ(c, y, "nesting lost at %d", i); } std::string s = print_tree(x, 0); JReader rd(s); rd.value(true); REQ(c, rd.ok, "printed nesting malformed"); nx_json_tree_free(x); c.ev("nested_document"); }
static void tokens(Ctx &c) {
    auto &r = c.rng; int n = r.size(30, 600); std::string t; struct T { int type; std::string text; int line; }; std::vector<T> e; int line = 1;
    for (int i = 0; i < n; ++i) { std::string w = ws(r); if (w.empty()) w = " "; t += w; T k; switch (r.i(0, 9)) { case 0: t += '['; k = {NX_JTT_LSBRAC, "", 0}; break; case 1: t += ']'; k = {NX_JTT_RSBRAC, "", 0}; break; case 2: t += '{'; k = {NX_JTT_LCBRAC, "", 0}; break; case 3: t += '}'; k = {NX_JTT_RCBRAC, "", 0}; break; case 4: t += ','; k = {NX_JTT_COMMA, "", 0}; break; case 5: t += ':'; k = {NX_JTT_COLON, "", 0}; break; case 6: { int q = r.i(0, 2); t += q == 0 ? "true" : q == 1 ? "false" : "null"; k = {q == 0 ? NX_JTT_TRUE : q == 1 ? NX_JTT_FALSE : NX_JTT_NULL, "", 0}; break; } case 7: { bool isi; std::string s = gen_number(r, isi); t += s; k = {isi ? NX_JTT_INTEGER : NX_JTT_FPNUM, s, 0}; break; } default: { std::string s = gen_bytes(r, r.size(30, 6000), r.i(0, 4)); t += quote(r, s); k = {NX_JTT_STRING, s, 0}; } } e.push_back(k); }
    t += ws(r); c.descbytes(t.data(), t.size(), "text"); if (n) c.nt(); (void)line;
    std::vector<char> b(t.begin(), t.end()); b.push_back(0); NXJSONLexer *lx = nx_json_lexer_new(b.data()); NXJSONToken k; k.type = NX_JTT_INVALID; k.text = nullptr;
    for (size_t i = 0; i < e.size(); ++i) { nx_json_lexer_next_token(lx, &k); REQ(c, (int)k.type == e[i].type, "token %zu is %s", i, nx_json_token_name(&k)); if (!e[i].text.empty()) REQ(c, k.text && e[i].text == k.text, "token %zu text %s expected %s", i, k.text ? escape(k.text).c_str() : "", escape(e[i].text).c_str()); char *ts = nx_json_token_to_string(&k); REQ(c, ts && strstr(ts, nx_json_token_name(&k)) && !strcmp(nx_json_token_name(&k), nx_json_token_type_name(k.type)) && (e[i].text.empty() || strstr(ts, e[i].text.c_str())), "token %zu shown as %s", i, ts); nx_free(ts); c.ev("token"); }
    for (int i = 0; i < 2; ++i) { nx_json_lexer_next_token(lx, &k); REQ(c, k.type == NX_JTT_EOF, "no end of text"); } nx_json_token_free_data(&k); nx_json_lexer_free(lx);
}
static void scanner(Ctx &c) { // the character scanner: position, line and column; failed matches leave no trace
    auto &r = c.rng; std::string t; int n = r.size(40, 2000); for (int i = 0; i < n; ++i) t += r.coin(1, 3) ? "tfn\n\nrue\t\r"[r.i(0, 9)] : (char)r.i(1, 255); if (r.coin()) t += "true"; if (r.coin(1, 3)) t = "null" + t; c.descbytes(t.data(), t.size(), "text"); if (t.size() > 1) c.nt();
    std::vector<char> b(t.begin(), t.end()); b.push_back(0); NXLexer *lx = nx_lexer_new(b.data()); size_t p = 0; REQ(c, nx_lexer_text(lx) == b.data(), "text");
    auto check = [&](const char *op) { int line = 1, col = 0; bool odd = false; for (size_t i = 0; i <= p; ++i) { if (i < t.size() && t[i] == '\n') ++line, col = 0, odd = false; else { ++col; if (i < t.size() && (t[i] == '\t' || t[i] == '\r')) odd = true; } }
        REQ(c, nx_lexer_position(lx) == (int)p, "after %s at position %d, expected %zu", op, nx_lexer_position(lx), p); REQ(c, nx_lexer_current_char(lx) == (p < t.size() ? (unsigned char)t[p] : EOF), "after %s current character %d at %zu", op, nx_lexer_current_char(lx), p); REQ(c, nx_lexer_line_no(lx) == line, "after %s line %d, expected %d", op, nx_lexer_line_no(lx), line); if (!odd) REQ(c, nx_lexer_column_no(lx) == col, "after %s column %d, expected %d", op, nx_lexer_column_no(lx), col); c.ev("scanner_state"); };
    check("start"); int ops = r.i(1, 60); while (ops--) { if (r.coin()) { int q = nx_lexer_consume(lx); if (p < t.size()) ++p; REQ(c, q == nx_lexer_current_char(lx), "consume result"); check("consume"); } else { std::string s = r.coin() ? "true" : r.coin() ? "null" : r.coin() ? "" : t.substr(p, r.i(0, 6)); if (r.coin(1, 3) && !s.empty()) s.back() ^= 1; if (s.find('\0') != std::string::npos) continue; bool e = t.compare(p, s.size(), s) == 0; bool g = nx_lexer_match(lx, s.c_str()); REQ(c, g == e, "match of '%s' %s", escape(s).c_str(), g ? "succeeded" : "failed"); if (e) p += s.size(); check(e ? "match" : "failed match"); c.ev(e ? "scanner_match" : "scanner_mismatch"); } }
    nx_lexer_free(lx); nx_lexer_free(nullptr);
}
static void literals(Ctx &c) { // numbers and quoted strings taken from the scanner, against the JSON grammar
    auto &r = c.rng; std::string pre; for (int i = r.i(0, 5); i > 0; --i) pre += "ab \n,["[r.i(0, 5)]; auto digits = [&](int lo) { std::string d; for (int i = lo + r.size(6); i > 0; --i) d += (char)('0' + r.i(0, 9)); return d; }; bool str = r.coin(); std::string tok; if (!str) { if (r.coin(1, 3)) tok += '-'; if (!r.coin(1, 12)) tok += r.coin(1, 4) ? "0" : digits(1); if (r.coin(1, 3)) { tok += '.'; if (!r.coin(1, 8)) tok += digits(1); } if (r.coin(1, 3)) { tok += r.coin() ? 'e' : 'E'; if (r.coin()) tok += r.coin() ? '+' : '-'; if (!r.coin(1, 8)) tok += digits(1); } } else { tok = "\""; for (int i = r.size(20, 300); i > 0; --i) { if (r.coin(1, 4)) { tok += '\\'; tok += r.coin(1, 60) ? (char)r.i(1, 255) : "\"\\/bfnrt"[r.i(0, 7)]; } else { char ch = (char)r.i(1, 255); if (ch == '\\' || ch == '"') ch = 'q'; tok += ch; } } if (!r.coin(1, 10)) tok += '"'; }
    static const char *SUF[] = {"", " ", ",", "]", "x", "\"", "\\", "-1", "}\n", "+", ".", "e"}; std::string suf = SUF[r.i(0, 11)], t = pre + tok + suf, rest = tok + suf; c.descbytes(t.data(), t.size(), "text"); c.mix(pre.size()); c.nt(); if (rest.empty() || (!str && rest[0] != '-' && !isdigit((unsigned char)rest[0]))) { c.ev("no_literal"); return; }
    // reference
    bool ok = true, real = false; size_t n = 0, L = rest.size(); auto at = [&](size_t k) { return k < L ? (unsigned char)rest[k] : 0; }; if (!str) { size_t a = at(0) == '-' ? 1 : 0; n = a; while (isdigit(at(n))) ++n; if (n == a || (at(a) == '0' && n > a + 1)) ok = false; if (ok && at(n) == '.') { real = true; size_t b = ++n; while (isdigit(at(n))) ++n; ok = n > b; } if (ok && (at(n) == 'e' || at(n) == 'E')) { real = true; ++n; if (at(n) == '+' || at(n) == '-') ++n; size_t b = n; while (isdigit(at(n))) ++n; ok = n > b; } } else { n = 1; for (;;) { if (n >= L) { ok = false; break; } if (at(n) == '"') break; if (at(n) == '\\') { ++n; if (n >= L || !strchr("\"\\/bfnrt", at(n))) { ok = false; break; } } ++n; } }
    std::vector<char> b(t.begin(), t.end()); b.push_back(0); NXLexer *lx = nx_lexer_new(b.data()); for (size_t i = 0; i < pre.size(); ++i) nx_lexer_consume(lx); int len = -7; NXLexerNumberType ty = NX_LNT_INTEGER; const char *g = nullptr; bool ret = returns(c, [&] { g = str ? nx_lexer_QUOTED_STRING(lx, &len) : nx_lexer_NUMBER(lx, &len, &ty); }); REQ(c, ret == ok, "literal %s", ret ? "accepted" : "rejected");
    if (ok) { const char *e = b.data() + pre.size() + (str ? 1 : 0); size_t el = str ? n - 1 : n; REQ(c, g == e && len == (int)el, "literal at %td length %d, expected %td length %zu", g - b.data(), len, e - b.data(), el); size_t q = pre.size() + n + (str ? 1 : 0); REQ(c, nx_lexer_position(lx) == (int)q && nx_lexer_current_char(lx) == (q < t.size() ? (unsigned char)t[q] : EOF), "scanner at %d after the literal, expected %zu", nx_lexer_position(lx), q); if (!str) REQ(c, (ty == NX_LNT_FLOATING_POINT) == real, "number type %d", ty); c.ev("literals"); } else c.ev("literals_refused"); nx_lexer_free(lx);
}
int main(int argc, char **argv) {
    return run_main(argc, argv, {{"roundtrip", roundtrip, 6000, 100000}, {"built", built, 4000, 60000}, {"corrupt", corrupt, 40000, 600000}, {"checked_get", checked_get, 5000, 80000}, {"flat", flat, 16, 100}, {"nested", nested, 200, 1000}, {"tokens", tokens, 4000, 60000}, {"scanner", scanner, 4000, 60000}, {"literals", literals, 6000, 90000}});
}
