// C04: bundling / logging values as JSON and restoring them.
#define NX_ENABLE_JLOG 1
#include "json_model.hpp"
#include "virg/nexus/nx_json_bundle.h"
#include "virg/nexus/nx_json_log.h"
#include "virg/nexus/nx_alloc.h"
using namespace vh;
template <class T> static bool same_bits(T a, T b) { return a == b && std::signbit(a) == std::signbit(b); } // the sign of zero is part of the value
static double gen_d(Rng &r) { switch (r.i(0, 6)) { case 0: return 0; case 1: return r.i(-100, 100); case 2: return r.gauss(); case 3: return r.gauss() * std::pow(10.0, r.i(-300, 300)); case 4: { uint64_t b = r.next(); double d; memcpy(&d, &b, 8); return std::isfinite(d) ? d : 0.1; } case 5: return r.coin() ? DBL_MAX : -DBL_MIN; default: return r.i(1, 9) / 10.0; } }
static float gen_f(Rng &r) { switch (r.i(0, 3)) { case 0: return (float)r.i(-1000, 1000); case 1: { uint32_t b = (uint32_t)r.next(); float d; memcpy(&d, &b, 4); return std::isfinite(d) ? d : 0.1f; } case 2: return r.coin() ? FLT_MAX : FLT_MIN; default: return (float)r.gauss(); } }
static int gen_i(Rng &r) { switch (r.i(0, 3)) { case 0: return r.i(-10, 10); case 1: return r.coin() ? INT_MAX : INT_MIN; default: return (int)r.next(); } }
static NXKeypoint gen_k(Rng &r) { NXKeypoint k; memset((void *)&k, 0, sizeof k); k.x = gen_i(r); k.y = gen_i(r); k.xs = gen_f(r); k.ys = gen_f(r); k.level = gen_i(r); k.scale = gen_f(r); k.sigma = gen_f(r); k.score = r.i(-100000, 100000); k.ori = gen_f(r); k.id = r.coin() ? r.next() : (uint64_t)r.i(0, 100); return k; }
static bool keq(const NXKeypoint &a, const NXKeypoint &b) { return a.x == b.x && a.y == b.y && a.xs == b.xs && a.ys == b.ys && a.level == b.level && a.scale == b.scale && a.sigma == b.sigma && a.score == b.score && a.ori == b.ori && a.id == b.id; }
// passes a bundled node through text and back; the result is owned by *root
static NXJSONNode *through(Ctx &c, NXJSONNode *n, NXJSONNode **root) {
    NXJSONNode *o = nx_json_node_new_object(); nx_json_object_add(o, "v", n); std::string s = print_tree(o, c.rng.i(0, 2)); c.mixb(s.data(), s.size()); c.desc(" %s", escape(s.substr(0, 200)).c_str()); nx_json_tree_free(o);
    JReader rd(s); rd.value(true); rd.skip(); REQ(c, rd.ok && rd.p == s.size(), "bundled text is not well formed: %s", escape(s).c_str());
    std::vector<char> b(s.begin(), s.end()); b.push_back(0); *root = nx_json_tree_from_string(b.data()); NXJSONNode *v = nx_json_object_fget(*root, "v", 255); return v;
}
static void values(Ctx &c) {
    auto &r = c.rng; NXJSONNode *root = nullptr, *n; c.nt(); int k = r.i(0, 7); c.mix(k);
    switch (k) {
    case 0: { NXBool b = r.coin() ? NX_TRUE : NX_FALSE; n = through(c, nx_json_bundle_bool(b), &root); REQ(c, nx_json_node_is_a(n, NX_JNT_BOOL), "not a boolean"); REQ(c, (nx_json_unbundle_bool(n) != 0) == (b != 0), "bool changed"); break; }
    case 1: { char ch = (char)r.i(1, 255); n = through(c, nx_json_bundle_char(ch), &root); REQ(c, nx_json_unbundle_char(n) == ch, "char %d became %d", ch, nx_json_unbundle_char(n)); break; }
    case 2: { uchar u = (uchar)r.next(); n = through(c, nx_json_bundle_uchar(u), &root); REQ(c, nx_json_unbundle_uchar(n) == u, "uchar changed"); nx_json_tree_free(root); root = nullptr; int big = gen_i(r); if (r.coin()) big = r.i(-300, 600); n = through(c, nx_json_bundle_int(big), &root); int got = nx_json_unbundle_uchar(n); REQ(c, got == std::min(255, std::max(0, big)), "number %d read as an unsigned char became %d", big, got); break; }
    case 3: { int i = gen_i(r); n = through(c, nx_json_bundle_int(i), &root); REQ(c, nx_json_node_is(n, NX_JNT_INTEGER) && nx_json_unbundle_int(n) == i, "int %d became %d", i, nx_json_unbundle_int(n)); break; }
    case 4: { size_t z = r.coin() ? r.next() : (size_t)r.i(0, 1000); n = through(c, nx_json_bundle_size_t(z), &root); REQ(c, nx_json_unbundle_size_t(n) == z, "size %zu became %zu", z, nx_json_unbundle_size_t(n)); break; }
    case 5: { float f = gen_f(r); n = through(c, nx_json_bundle_float(f), &root); REQ(c, nx_json_node_is(n, NX_JNT_FPNUMBER) && same_bits(nx_json_unbundle_float(n), f), "float %.9g became %.9g", f, nx_json_unbundle_float(n)); break; }
    case 6: { double f = gen_d(r); n = through(c, nx_json_bundle_double(f), &root); REQ(c, nx_json_node_is(n, NX_JNT_FPNUMBER) && same_bits(nx_json_unbundle_double(n), f), "double %.17g became %.17g", f, nx_json_unbundle_double(n)); break; }
    default: { std::string s = gen_bytes(r, r.size(100, 8000), r.i(0, 4)); n = through(c, nx_json_bundle_string(s.c_str()), &root); char *t = nx_json_unbundle_string(n); REQ(c, s == t, "string became %s", escape(t).c_str()); nx_free(t); } }
    nx_json_tree_free(root); c.ev("value_roundtrip");
}
static void arrays(Ctx &c) {
    auto &r = c.rng; NXJSONNode *root = nullptr, *n; int m = r.size(60, 1500), q = -1; int k = r.i(0, 4); c.desc("kind %d n=%d", k, m); if (m > 1) c.nt();
    switch (k) {
    case 0: { std::vector<int> v(m + 1); for (auto &x : v) x = gen_i(r); n = through(c, nx_json_bundle_int_array(m, v.data()), &root); int *p = nx_json_unbundle_int_array(n, &q); REQ(c, q == m, "length"); for (int i = 0; i < m; ++i) REQ(c, p[i] == v[i], "element %d is %d expected %d", i, p[i], v[i]); nx_free(p); break; }
    case 1: { std::vector<float> v(m + 1); for (auto &x : v) x = gen_f(r); n = through(c, nx_json_bundle_float_array(m, v.data()), &root); float *p = nx_json_unbundle_float_array(n, &q); REQ(c, q == m, "length"); for (int i = 0; i < m; ++i) REQ(c, same_bits(p[i], v[i]), "element %d is %.9g expected %.9g", i, p[i], v[i]); nx_free(p); break; }
    case 2: { std::vector<double> v(m + 1); for (auto &x : v) x = gen_d(r); n = through(c, nx_json_bundle_double_array(m, v.data()), &root); double *p = nx_json_unbundle_double_array(n, &q); REQ(c, q == m, "length"); for (int i = 0; i < m; ++i) REQ(c, same_bits(p[i], v[i]), "element %d is %.17g expected %.17g", i, p[i], v[i]); nx_free(p); break; }
    case 3: { std::vector<std::string> v(m); std::vector<char *> pv(m + 1); for (int i = 0; i < m; ++i) { v[i] = gen_bytes(r, r.i(0, 15), r.i(0, 4)); pv[i] = &v[i][0]; } n = through(c, nx_json_bundle_string_array(m, pv.data()), &root); char **p = nx_json_unbundle_string_array(n, &q); REQ(c, q == m, "length"); for (int i = 0; i < m; ++i) { REQ(c, v[i] == p[i], "element %d", i); nx_free(p[i]); } nx_free(p); NXStringArray *sa = nx_json_unbundle_as_string_array(n); REQ(c, nx_string_array_size(sa) == m, "length"); for (int i = 0; i < m; ++i) REQ(c, v[i] == nx_string_array_get(sa, i), "element %d", i); nx_string_array_free(sa); break; }
    default: { std::vector<NXKeypoint> v(m + 1); for (auto &x : v) x = gen_k(r); n = through(c, nx_json_bundle_keypoint_array(m, v.data()), &root); NXKeypoint *p = nx_json_unbundle_keypoint_array(n, &q); REQ(c, q == m, "length"); for (int i = 0; i < m; ++i) REQ(c, keq(p[i], v[i]), "keypoint %d changed", i); nx_free(p);
        NXJSONNode *r2 = nullptr; NXJSONNode *one = through(c, nx_json_bundle_keypoint(&v[0]), &r2); REQ(c, keq(nx_json_unbundle_keypoint(one), v[0]), "keypoint changed"); nx_json_tree_free(r2); } }
    nx_json_tree_free(root); c.ev("array_roundtrip");
}
static void log_streams(Ctx &c) {
    auto &r = c.rng; NX_JLOG_CLEAR_ALL(); std::map<int, JV> model; int ops = r.coin(1, 50) ? r.i(100, 600) : r.i(1, 40); c.desc("ops=%d", ops); c.nt(); char buf[64];
    for (int k = 0; k < ops; ++k) {
        int id = r.coin() ? r.i(0, 31) : r.i(0, 2); JV &o = model[id]; o.type = NX_JNT_OBJECT; std::string key = fmt("k%d", r.i(0, 5)); int op = r.i(0, 12); c.mix(op * 100 + id); JV v;
        auto put = [&](JV x) { o.names.push_back(key); o.items.push_back(x); };
        auto app = [&](JV x) { for (size_t i = 0; i < o.names.size(); ++i) if (o.names[i] == key) { if (o.items[i].type == NX_JNT_ARRAY) { o.items[i].items.push_back(x); return; } break; } JV a; a.type = NX_JNT_ARRAY; a.items.push_back(x); put(a); };
        auto num = [&](double d) { JV x; x.type = NX_JNT_FPNUMBER; snprintf(buf, 64, "%.17g", d); x.text = buf; return x; }; auto in = [&](int i) { JV x; x.type = NX_JNT_INTEGER; x.text = std::to_string(i); return x; }; auto st = [&](const std::string &s) { JV x; x.type = NX_JNT_STRING; x.text = s; return x; };
        int i = gen_i(r); float f = gen_f(r); double d = gen_d(r); std::string s = gen_bytes(r, r.i(0, 10), r.i(0, 4)); int n = r.coin(1, 60) ? r.i(5, 200) : r.i(0, 5);
        bool first_is_array = true; for (size_t q = 0; q < o.names.size(); ++q) if (o.names[q] == key) { first_is_array = o.items[q].type == NX_JNT_ARRAY; break; }
        switch (op) {
        case 0: NX_JLOG_I(id, key.c_str(), i); put(in(i)); break; case 1: NX_JLOG_F(id, key.c_str(), f); put(num(f)); break; case 2: NX_JLOG_D(id, key.c_str(), d); put(num(d)); break; case 3: NX_JLOG_S(id, key.c_str(), s.c_str()); put(st(s)); break;
        case 4: if (first_is_array) { NX_JLOG_ADDI(id, key.c_str(), i); app(in(i)); } break; case 5: if (first_is_array) { NX_JLOG_ADDF(id, key.c_str(), f); app(num(f)); } break; case 6: if (first_is_array) { NX_JLOG_ADDD(id, key.c_str(), d); app(num(d)); } break; case 7: if (first_is_array) { NX_JLOG_ADDS(id, key.c_str(), s.c_str()); app(st(s)); } break;
        case 8: { std::vector<int> a(n + 1, i); NX_JLOG_IA(id, key.c_str(), n, a.data()); JV x; x.type = NX_JNT_ARRAY; for (int q = 0; q < n; ++q) x.items.push_back(in(i)); put(x); break; }
        case 9: { std::vector<double> a(n + 1, d); NX_JLOG_DA(id, key.c_str(), n, a.data()); JV x; x.type = NX_JNT_ARRAY; for (int q = 0; q < n; ++q) x.items.push_back(num(d)); put(x); break; }
        case 10: { std::vector<float> a(n + 1, f); NX_JLOG_FA(id, key.c_str(), n, a.data()); JV x; x.type = NX_JNT_ARRAY; for (int q = 0; q < n; ++q) x.items.push_back(num(f)); put(x); break; }
        case 11: if (r.coin(1, 3)) { NX_JLOG_CLEAR(id); o.names.clear(); o.items.clear(); } break;
        default: if (r.coin(1, 10)) { NX_JLOG_CLEAR_ALL(); model.clear(); } else { int bad = r.coin() ? -r.i(1, 5) : 32 + r.i(0, 5); REQ(c, !returns(c, [&] { nx_json_log_get_stream(bad); }), "log stream %d accepted", bad); c.noleak = false; } }
    }
    for (auto &p : model) {
        char *b = nullptr; size_t z = 0; FILE *f = open_memstream(&b, &z); NX_JLOG_FPRINT(p.first, f); fclose(f); std::string s(b, z); free(b);
        if (r.coin(1, 4)) { std::string fn = scratch() + "/log.json"; NX_JLOG_XWRITE(p.first, fn.c_str()); std::string t; read_file(fn, t); REQ(c, t == s, "file differs from printed log"); }
        JReader rd(s); JV w = rd.value(true); REQ(c, rd.ok, "log is not well formed: %s", escape(s).c_str()); REQ(c, w.names == p.second.names && w.items.size() == p.second.items.size(), "log members differ: %s", escape(s).c_str());
        std::function<void(const JV &, const JV &)> cmp = [&](const JV &a, const JV &e) { REQ(c, a.type == e.type && a.items.size() == e.items.size(), "log value type/length differs"); if (a.type == NX_JNT_FPNUMBER) REQ(c, strtod(a.text.c_str(), 0) == strtod(e.text.c_str(), 0), "log number %s expected %s", a.text.c_str(), e.text.c_str()); else REQ(c, a.text == e.text, "log text differs"); for (size_t i = 0; i < a.items.size(); ++i) cmp(a.items[i], e.items[i]); };
        for (size_t i = 0; i < w.items.size(); ++i) cmp(w.items[i], p.second.items[i]); c.ev("log_stream_checked");
    }
    NX_JLOG_CLEAR_ALL();
}
static void missing(Ctx &c) { // a keypoint record with a missing or mistyped member is refused
    auto &r = c.rng; NXKeypoint k = gen_k(r); NXJSONNode *root = nullptr; NXJSONNode *n = nx_json_bundle_keypoint(&k); std::string s = print_tree(n, 0); nx_json_tree_free(n); JReader rd(s); JV v = rd.value(true); size_t at = r.next() % v.items.size(); bool del = r.coin(); if (del) { v.items.erase(v.items.begin() + at); v.names.erase(v.names.begin() + at); } else { v.items[at] = JV(); v.items[at].type = r.coin() ? NX_JNT_STRING : NX_JNT_NULL; v.items[at].text = v.items[at].type == NX_JNT_STRING ? "1" : ""; }
    std::string t; write_json(r, v, t); c.descbytes(t.data(), t.size()); c.nt(); std::vector<char> b(t.begin(), t.end()); b.push_back(0); root = nx_json_tree_from_string(b.data()); REQ(c, !returns(c, [&] { nx_json_unbundle_keypoint(root); }), "record with a bad member accepted"); nx_json_tree_free(root); c.ev("bad_record_refused"); }
int main(int argc, char **argv) { return run_main(argc, argv, {{"values", values, 16000, 300000}, {"arrays", arrays, 5000, 80000}, {"log_streams", log_streams, 4000, 60000}, {"checked_get", checked_get, 6000, 80000}, {"missing", missing, 2000, 20000}}); }
