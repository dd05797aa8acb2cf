// C01: text helpers are lossless, malformed text is rejected.
#include "vh.hpp"
#include "gen_text.hpp"
#include "virg/nexus/nx_string.h"
#include "virg/nexus/nx_io.h"
#include "virg/nexus/nx_alloc.h"
using namespace vh;

static std::string slurp(FILE *f) { fflush(f); rewind(f); std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); return s; }
// exact-size heap copy so that an over-read is visible to ASan
struct Exact { char *p; size_t n; Exact(const std::string &s) : n(s.size()) { p = (char *)malloc(n ? n : 1); memcpy(p, s.data(), n); } ~Exact() { free(p); } };

static void readable(Ctx &c) {
    std::string s = gen_bytes(c.rng, c.rng.size(300, 20000, 400000), (int)(c.rng.next() % 5)); c.descbytes(s.data(), s.size()); if (s.size() > 1) c.nt();
    if (c.rng.coin(1, 50)) { FILE *z = tmpfile(); REQ(c, nx_fputs_readable(nullptr, z) == 0, "absent string not written"); REQ(c, slurp(z) == "null", "absent string written as '%s'", slurp(z).c_str()); fclose(z); c.ev("absent_string"); }
    FILE *f = tmpfile(); REQ(c, nx_fputs_readable(s.c_str(), f) == 0, "nx_fputs_readable failed"); std::string w = slurp(f); fclose(f);
    // reference encoding
    std::string ref = "\""; for (char ch : s) switch (ch) { case '\n': ref += "\\n"; break; case '\r': ref += "\\r"; break; case '\t': ref += "\\t"; break; case '\b': ref += "\\b"; break; case '\f': ref += "\\f"; break; case '"': ref += "\\\""; break; case '\\': ref += "\\\\"; break; default: ref += ch; } ref += "\"";
    REQ(c, w == ref, "readable form is %s, expected %s", escape(w).c_str(), escape(ref).c_str());
    Exact e(w.substr(1, w.size() - 2)); char *d = nx_xstr_from_readable(e.n, e.p);
    REQ(c, s == d, "readable round trip gives %s", escape(d).c_str()); nx_free(d); c.ev("readable_roundtrip");
}
static void dquoted(Ctx &c) {
    std::string s = gen_bytes(c.rng, c.rng.size(300, 20000, 400000), (int)(c.rng.next() % 5)); c.descbytes(s.data(), s.size()); if (s.size() > 1) c.nt();
    FILE *f = tmpfile(); REQ(c, nx_fputs_double_quoted(s.c_str(), f) == 0, "nx_fputs_double_quoted failed"); std::string w = slurp(f); fclose(f);
    std::string ref = "\""; for (char ch : s) { ref += ch; if (ch == '"') ref += ch; } ref += "\"";
    REQ(c, w == ref, "double-quoted form is %s", escape(w).c_str());
    Exact e(w.substr(1, w.size() - 2)); char *d = nx_xstr_from_double_quoted(e.n, e.p);
    REQ(c, s == d, "double-quoted round trip gives %s", escape(d).c_str()); nx_free(d); c.ev("dquoted_roundtrip");
}
// arbitrary (often malformed) encoded text against a reference decoder
static void decode_any(Ctx &c) {
    bool rd = c.rng.coin(); size_t n = c.rng.size(40, 5000); std::string s;
    static const char A[] = "\\\\\\ntrbf\"/xu0a \xff\x80q", B[] = "\"\"\"\"ab,\n\xff";
    for (size_t i = 0; i < n; ++i) s += rd ? A[c.rng.next() % (sizeof A - 1)] : B[c.rng.next() % (sizeof B - 1)];
    c.desc("%s ", rd ? "readable" : "dquoted"); c.descbytes(s.data(), s.size()); if (n > 1) c.nt();
    std::string ref; bool ok = true, either = false;
    for (size_t i = 0; i < s.size() && ok; ++i) {
        if (rd && s[i] == '\\') {
            if (++i == s.size()) { ok = false; break; }
            switch (s[i]) { case 'r': ref += '\r'; break; case 't': ref += '\t'; break; case 'n': ref += '\n'; break; case '\\': ref += '\\'; break; case 'f': ref += '\f'; break; case 'b': ref += '\b'; break; case '"': ref += '"'; break;
                case '/': ref += '/'; either = true; break; // \/ is legal JSON
                default: ok = false; }
        } else if (!rd && s[i] == '"') { if (++i == s.size() || s[i] != '"') { ok = false; break; } ref += '"'; }
        else ref += s[i];
    }
    Exact e(s); char *d = nullptr; std::string msg;
    bool r = returns(c, [&] { d = rd ? nx_xstr_from_readable(e.n, e.p) : nx_xstr_from_double_quoted(e.n, e.p); }, &msg);
    if (ok) { REQ(c, r || either, "well-formed text rejected: %s", msg.c_str()); if (r) { REQ(c, ref == d, "decoded to %s, expected %s", escape(d).c_str(), escape(ref).c_str()); nx_free(d); } c.ev("decode_accepted"); }
    else { REQ(c, !r, "malformed text accepted as %s", r && d ? escape(d).c_str() : ""); c.ev("decode_rejected"); }
}
static void binio(Ctx &c) {
    int k = c.rng.i(1, 6); std::vector<std::string> v; FILE *f = tmpfile(); std::vector<long> ends;
    for (int i = 0; i < k; ++i) { v.push_back(gen_bytes(c.rng, c.rng.size(200, 20000, 400000), (int)(c.rng.next() % 5))); c.descbytes(v[i].data(), v[i].size(), "s"); REQ(c, nx_strwrite(v[i].c_str(), f) == 0, "nx_strwrite failed"); ends.push_back(ftell(f)); }
    c.nt(); rewind(f);
    bool reuse = c.rng.coin(); char *buf = nullptr; size_t cap = 0;
    if (reuse) { cap = c.rng.i(1, 100); buf = NX_NEW_C(cap); }
    for (int i = 0; i < k; ++i) {
        if (reuse) { REQ(c, nx_strread(&buf, cap, f) == 0, "nx_strread failed"); REQ(c, v[i] == buf, "read %s", escape(buf).c_str()); if (v[i].size() >= cap) cap = v[i].size() + 1; }
        else { char *s = nx_strread0(f); REQ(c, s != nullptr, "nx_strread0 failed"); REQ(c, v[i] == s, "read %s", escape(s).c_str()); nx_free(s); }
    }
    nx_free(buf);
    REQ(c, nx_strread0(f) == nullptr, "reading past the end of the stream gave a string"); c.ev("string_stream_roundtrip");
    // truncation at a random point: strings before the cut are intact, the cut one is reported
    rewind(f); std::string all = slurp(f); fclose(f); size_t cut = c.rng.i(0, (int)all.size() - 1); c.desc(" cut=%zu", cut);
    FILE *g = tmpfile(); if (cut) fwrite(all.data(), 1, cut, g); rewind(g);
    for (int i = 0; i < k; ++i) {
        char *s = nx_strread0(g);
        if ((size_t)ends[i] <= cut) { REQ(c, s && v[i] == s, "string before the truncation point not returned"); nx_free(s); }
        else { REQ(c, s == nullptr, "truncated string returned as success"); c.ev("truncation_reported"); break; }
    }
    fclose(g);
}
static void formatted(Ctx &c) {
    std::string a = gen_bytes(c.rng, c.rng.coin() ? c.rng.i(40, 90) : c.rng.size(2000, 70000, 400000), 1); int x = (int)c.rng.next(); double d = c.rng.gauss() * 1e6; c.desc("%d %g ", x, d); c.descbytes(a.data(), a.size()); c.nt();
    std::string ref = fmt("%d|%s|%.17g|%5s", x, a.c_str(), d, "q"); char *s = nx_fstr("%d|%s|%.17g|%5s", x, a.c_str(), d, "q");
    REQ(c, ref == s, "formatted string is %s", escape(s).c_str());
    char *t = nx_strdup(s); REQ(c, ref == t && t != s, "strdup differs"); nx_strredup(&t, a.c_str()); REQ(c, a == t, "strredup differs"); nx_strredup(&t, nullptr); REQ(c, t == nullptr, "strredup(NULL) differs"); nx_strredup(&t, s); REQ(c, ref == t, "strredup differs"); nx_free(t); nx_free(s); c.ev("format");
}
static void lines(Ctx &c) {
    int k = c.rng.i(0, 8); std::string text; std::vector<std::string> L;
    for (int i = 0; i < k; ++i) { std::string s = gen_bytes(c.rng, c.rng.size(150, 20000, 400000), (int)(c.rng.next() % 5)); s.erase(std::remove(s.begin(), s.end(), '\n'), s.end()); bool nl = i + 1 < k || c.rng.coin(); if (!nl && s.empty()) s = "x"; if (nl) s += '\n'; L.push_back(s); text += s; }
    c.descbytes(text.data(), text.size()); if (k > 1) c.nt();
    FILE *f = tmpfile(); if (!text.empty()) fwrite(text.data(), 1, text.size(), f); rewind(f);
    char *line = nullptr; size_t n = 0; if (c.rng.coin()) { n = c.rng.i(1, 50); line = NX_NEW_C(n); }
    for (auto &e : L) { ssize_t r = nx_getline(&line, &n, f); REQ(c, r == (ssize_t)e.size(), "line length %zd, expected %zu", r, e.size()); REQ(c, std::string(line, r) == e && line[r] == 0, "line is %s expected %s", escape(std::string(line, r)).c_str(), escape(e).c_str()); REQ(c, n > (size_t)r, "reported buffer size %zu too small for %zd", n, r); c.ev("line"); }
    ssize_t r = nx_getline(&line, &n, f); REQ(c, r <= 0, "line returned after the end"); nx_free(line); fclose(f);
}
static void gather(Ctx &c) {
    int k = c.rng.i(1, 8); std::vector<std::string> v; std::string all; std::vector<const void *> src; std::vector<size_t> l;
    std::vector<char *> bufs;
    for (int i = 0; i < k; ++i) { v.push_back(gen_bytes(c.rng, c.rng.coin(1, 4) ? 0 : c.rng.i(0, 60), 3)); all += v.back(); }
    for (auto &s : v) { char *b = (char *)malloc(s.size() ? s.size() : 1); memcpy(b, s.data(), s.size()); bufs.push_back(b); src.push_back(b); l.push_back(s.size()); c.desc("%zu,", s.size()); }
    c.mixb(all.data(), all.size()); if (all.size()) c.nt();
    int so = 0; size_t off = 0; std::string got; int guard = 0;
    while (true) {
        size_t n = c.rng.i(1, 70); char *d = (char *)malloc(n);
        size_t m = nx_memncpy_multi(d, k, src.data(), l.data(), n, &so, &off);
        size_t expect = std::min(n, all.size() - got.size());
        REQ(c, m == expect, "gathered %zu bytes, expected %zu", m, expect);
        got.append(d, m); free(d); c.ev("gather_call");
        if (m < n) break; REQ(c, ++guard < 10000, "no progress");
    }
    REQ(c, got == all, "gathered bytes differ"); for (auto b : bufs) free(b);
    // hash to text
    std::vector<uint8_t> h(c.rng.i(0, 40)); std::string ref; for (auto &b : h) { b = (uint8_t)c.rng.next(); ref += fmt("%02x", b); }
    uint8_t dummy = 0; char *s = nx_hash_to_str((int)h.size(), h.empty() ? &dummy : h.data()); REQ(c, ref == s, "hash text %s expected %s", s, ref.c_str()); nx_free(s); c.ev("hash_text");
}
int main(int argc, char **argv) {
    return run_main(argc, argv, {
        {"readable", readable, 4000, 60000}, {"dquoted", dquoted, 3000, 50000}, {"decode_any", decode_any, 8000, 200000},
        {"binio", binio, 2500, 40000}, {"formatted", formatted, 2500, 40000}, {"lines", lines, 2500, 40000}, {"gather", gather, 3000, 60000}});
}
