// C07: option parsing (C and C++ interfaces) against a reference interpretation of argv.
#include "gen_text.hpp"
#include "virg/nexus/nx_options.h"
#include "virg/nexus/nx_log.h"
#include "virg/nexus/vg_options.hpp"
using namespace vh; using virg::nexus::VGOptions;
static const std::string NUL = "\x01<null>"; // an absent default (C interface)
struct Opt { char type; bool req; std::string sn, ln, sw; bool db; int di; double dd; std::string ds; bool set; bool b; int i; double d; std::string s; void def() { set = false; b = db; i = di; d = dd; s = ds; } };
struct Api { bool cpp; NXOptions *o = nullptr; VGOptions *v = nullptr;
    Api(bool c) : cpp(c) { if (c) v = new VGOptions; else o = nx_options_alloc(); }
    ~Api() { if (cpp) delete v; else nx_options_free(o); }
    void add(const Opt &q) { auto rq = q.req ? VGOptions::REQUIRED : VGOptions::NOT_REQUIRED; std::string sw = q.sw, hp = "help text"; char f[2] = {q.req ? (char)toupper(q.type) : q.type, 0};
        switch (q.type) { case 'b': if (cpp) v->add_bool(sw, hp, rq, q.db); else nx_options_add(o, f, sw.c_str(), hp.c_str(), q.db ? NX_TRUE : NX_FALSE); break; case 'i': if (cpp) v->add_int(sw, hp, rq, q.di); else nx_options_add(o, f, sw.c_str(), hp.c_str(), q.di); break; case 'd': if (cpp) v->add_double(sw, hp, rq, q.dd); else nx_options_add(o, f, sw.c_str(), hp.c_str(), q.dd); break; default: if (cpp) v->add_string(sw, hp, rq, q.ds); else { std::string t = q.ds; nx_options_add(o, f, sw.c_str(), hp.c_str(), q.ds == NUL ? nullptr : t.c_str()); } } }
    void rest(bool req) { if (cpp) v->add_rest("files", req ? VGOptions::REQUIRED : VGOptions::NOT_REQUIRED); else nx_options_add(o, req ? "R" : "r", "files"); }
    void parse(std::vector<std::string> &a) { std::vector<std::vector<char>> st; std::vector<char *> p; for (auto &s : a) { st.emplace_back(s.begin(), s.end()); st.back().push_back(0); } for (auto &s : st) p.push_back(s.data()); p.push_back(nullptr); if (cpp) v->set_from_args((int)a.size(), p.data()); else nx_options_set_from_args(o, (int)a.size(), p.data()); }
    bool is_set(const std::string &n) { return cpp ? v->is_set(n) : nx_options_is_set(o, n.c_str()) != 0; }
    bool gb(const std::string &n) { return cpp ? v->get_bool(n) : nx_options_get_bool(o, n.c_str()) != 0; }
    int gi(const std::string &n) { return cpp ? v->get_int(n) : nx_options_get_int(o, n.c_str()); }
    double gd(const std::string &n) { return cpp ? v->get_double(n) : nx_options_get_double(o, n.c_str()); }
    std::string gs(const std::string &n) { return cpp ? v->get_string(n) : cstr(nx_options_get_string(o, n.c_str())); }
    static std::string cstr(const char *p) { return p ? std::string(p) : NUL; }
    std::vector<std::string> gr() { if (cpp) return v->get_rest(); std::vector<std::string> r; char **p = nx_options_get_rest(o); if (p) while (*p) r.push_back(*p++); return r; }
};
static std::string numi(Rng &r, int v) { switch (r.i(0, 3)) { case 0: return fmt("%+d", v); case 1: return v >= 0 ? fmt("0%d", v) : fmt("%d", v); default: return fmt("%d", v); } }
static void declare(Ctx &c, std::vector<Opt> &os, int n) {
    auto &r = c.rng; std::set<std::string> used; used.insert("-h"); used.insert("--help");
    for (int k = 0; k < n; ++k) { Opt q; q.type = "bids"[r.i(0, 3)]; q.req = r.coin(1, 6); q.sn = std::string("-") + "abcdefgijklmnopqrstuvwxyzABCDEFGHIJ0123456789"[r.next() % 45]; q.ln = "--" + gen_bytes(r, r.coin(1, 60) ? r.i(30, 200) : r.i(1, r.coin() ? 4 : 30), 0); for (char &ch : q.ln) if (ch == ' ' || ch == '|') ch = '_'; int form = r.i(0, 2); if (form == 0 || used.count(q.sn)) q.sn = ""; if (form == 1 && !q.sn.empty()) q.ln = ""; if ((!q.ln.empty() && used.count(q.ln)) || (q.sn.empty() && q.ln.empty())) { --k; continue; }
        if (!q.sn.empty()) used.insert(q.sn); if (!q.ln.empty()) used.insert(q.ln); q.sw = q.sn.empty() ? q.ln : q.ln.empty() ? q.sn : r.coin() ? q.sn + "|" + q.ln : q.ln + "|" + q.sn;
        q.db = r.coin(); q.di = (int)r.next(); q.dd = r.gauss() * 100; q.ds = r.coin(1, 8) ? NUL : gen_bytes(r, r.size(12, 400), r.i(0, 3)); q.def(); os.push_back(q); }
}
static std::string junk(Rng &r) { static const std::vector<std::string> w = {"", "-", "--", "---", "file.png", "-zz", "--unknown", "-1", "-1.5", "a b", "--a=b", "x", "|", "-|"}; return r.coin(2, 3) ? r.pick(w) : gen_bytes(r, r.coin(1, 100) ? r.logsize(20, 5000) : r.i(1, 20), r.i(0, 3)); }
static void parse(Ctx &c) {
    auto &r = c.rng; std::vector<Opt> os; declare(c, os, r.i(0, r.coin(1, 4) ? 30 : 6)); int restk = r.i(0, 3); // 0,1 none/optional ...
    bool cpp = r.coin(); Api a(cpp); bool hasrest = restk >= 1, restreq = restk == 3; auto name = [&](const Opt &o) { return o.ln.empty() ? o.sn : o.sn.empty() ? o.ln : r.coin() ? o.sn : o.ln; };
    size_t restpos = r.next() % (os.size() + 1); for (size_t k = 0; k <= os.size(); ++k) { if (hasrest && k == restpos) a.rest(restreq); if (k < os.size()) a.add(os[k]); }
    for (auto &o : os) { std::string n = name(o); bool ok = o.type == 'b' ? a.gb(n) == o.db : o.type == 'i' ? a.gi(n) == o.di : o.type == 'd' ? a.gd(n) == o.dd : a.gs(n) == o.ds; REQ(c, ok && !a.is_set(n), "default of %s before parsing", n.c_str()); }
    int rounds = r.i(1, 3); for (int q = 0; q < rounds; ++q) {
        bool oddprog = !os.empty() && r.coin(1, 8); /* the program name is never an argument */ std::vector<std::string> av = {oddprog ? name(os[r.next() % os.size()]) : fmt("prog%d", q)}; std::vector<std::string> rest; for (auto &o : os) o.def(); int n = r.size(14, 400); bool bad = false; std::string text;
        for (int k = 0; k < n; ++k) {
            if (os.empty() || r.coin(1, 3)) { std::string j = junk(r); bool isopt = false; for (auto &o : os) isopt |= j == o.sn && !o.sn.empty(); for (auto &o : os) isopt |= j == o.ln && !o.ln.empty(); if (isopt) continue; av.push_back(j); rest.push_back(j); continue; }
            Opt &o = os[r.next() % os.size()]; av.push_back(name(o)); o.set = true;
            if (o.type == 'b') o.b = true; else if (o.type == 'i') { o.i = r.coin(1, 6) ? (r.coin() ? INT_MAX : INT_MIN) : (int)r.next() >> r.i(0, 30); av.push_back(numi(r, o.i)); } else if (o.type == 'd') { double d = r.gauss() * std::pow(10, r.i(-20, 20)); std::string t = r.coin() ? fmt("%.17g", d) : fmt("%g", d); o.d = strtod(t.c_str(), nullptr); av.push_back(t); } else { o.s = r.coin(1, 4) ? name(os[r.next() % os.size()]) : junk(r); av.push_back(o.s); }
        }
        if (r.coin(1, 8)) for (auto &o : os) if (o.type != 'b') { av.push_back(name(o)); bad = true; break; }   // value missing
        for (auto &o : os) if (o.req && !o.set) bad = true; if (hasrest && restreq && rest.empty()) bad = true;
        for (auto &s : av) text += escape(s) + "|"; c.desc("%s ", text.c_str()); c.mixb(text.data(), text.size()); if (av.size() > 1) c.nt();
        std::string msg; auto before = av; bool ret; if (bad) { ret = returns(c, [&] { a.parse(av); }, &msg); REQ(c, !ret, "missing value or required option accepted"); c.ev("rejected_command_line"); return; }
        a.parse(av); c.ev("command_line");
        for (auto &o : os) for (const std::string &nm : {o.sn, o.ln}) if (!nm.empty()) { REQ(c, a.is_set(nm) == o.set, "%s is_set", nm.c_str()); bool ok = o.type == 'b' ? a.gb(nm) == o.b : o.type == 'i' ? a.gi(nm) == o.i : o.type == 'd' ? a.gd(nm) == o.d : a.gs(nm) == o.s; REQ(c, ok, "value of option %s", nm.c_str()); c.ev("option_value"); }
        if (hasrest) { auto g = a.gr(); REQ(c, g == rest, "remaining arguments: got %zu, expected %zu", g.size(), rest.size()); c.ev("rest"); } else REQ(c, a.gr().empty(), "remaining arguments without declaration");
        bool clash = oddprog; /* a value that contains a switch makes the listing ambiguous */ for (auto &o : os) if (o.type == 's') for (auto &q : os) for (auto *nm : {&q.sn, &q.ln}) if (!nm->empty() && (o.s.find(*nm) != std::string::npos || o.ds.find(*nm) != std::string::npos)) clash = true;
        if (!clash && r.coin(1, 3)) { auto grab = [&](bool vals) { char *b = nullptr; size_t l = 0; FILE *f = open_memstream(&b, &l); if (cpp) { if (vals) a.v->print_values(f); else a.v->print_usage(f); } else { if (vals) nx_options_print_values(a.o, f); else nx_options_print_usage(a.o, f); } fclose(f); std::string s(b, l); free(b); return s; };
            std::string vals = grab(true), us = grab(false); size_t pv = 0, pu = 0; auto next = [&](const std::string &s, size_t &p, const std::string &t, const char *w, const Opt &o) { size_t k = s.find(t, p); REQ(c, k != std::string::npos, "%s of option %s: '%s' is missing in '%s'", w, o.sw.c_str(), escape(t).c_str(), escape(s.substr(p), 600).c_str()); p = k + t.size(); };
            auto show = [&](const Opt &o, bool def) { return o.type == 'b' ? std::string((def ? o.db : o.b) ? "true" : "false") : o.type == 'i' ? fmt("%d", def ? o.di : o.i) : o.type == 's' ? (def ? o.ds : o.s) == NUL && !cpp ? std::string() : (def ? o.ds : o.s).substr(0, 60) : std::string(); };
            auto shownum = [&](const std::string &s, size_t &p, double d, const char *w, const Opt &o) { size_t e = s.find('\n', p); bool ok = false; for (size_t k = p; k < e && k < s.size() && !ok; ++k) if (isdigit((unsigned char)s[k]) || s[k] == '-') { double v = strtod(s.c_str() + k, nullptr); ok = std::fabs(v - d) <= 1e-5 * std::fabs(d) + 1e-6; } REQ(c, ok, "%s of option %s: %.10g is missing in '%s'", w, o.sw.c_str(), d, escape(s.substr(p, 200)).c_str()); };
            auto eol = [](const std::string &s, size_t &p) { p = s.find('\n', p); if (p == std::string::npos) p = s.size(); };
            for (auto &o : os) { bool both = !o.sn.empty() && !o.ln.empty(); size_t a1 = pv, a2 = pu; if (both) { next(vals, a1, o.sn, "value list", o); next(us, a2, o.sn, "usage", o); } const std::string &nm = o.ln.empty() ? o.sn : o.ln; next(vals, pv, nm, "value list", o); next(us, pu, nm, "usage", o); pv = std::max(pv, a1); pu = std::max(pu, a2);
                if (o.type == 'd') { if (std::fabs(o.d) < 1e12) shownum(vals, pv, o.d, "value list", o); eol(vals, pv); if (!o.req) shownum(us, pu, o.dd, "usage", o); } else { next(vals, pv, show(o, false), "value list", o); }
                next(us, pu, "help text", "usage", o); if (o.req) next(us, pu, "REQUIRED", "usage", o); else if (o.type != 'd') next(us, pu, show(o, true), "usage", o); else eol(us, pu); }
            if (hasrest) { REQ(c, us.find("<files>") != std::string::npos && vals.find("files", pv) != std::string::npos, "remaining arguments are not listed"); Opt o; o.sw = "remaining arguments"; for (auto &t : rest) next(vals, pv, t, "value list", o); } REQ(c, us.find(av[0]) != std::string::npos, "usage lacks the program name"); c.ev("usage_printed"); }
    }
}
static void access(Ctx &c) {
    auto &r = c.rng; std::vector<Opt> os; declare(c, os, r.i(1, 6)); bool cpp = r.coin(); Api a(cpp); for (auto &o : os) { o.req = false; a.add(o); } std::vector<std::string> av = {"p"}; a.parse(av); Opt &o = os[r.next() % os.size()]; std::string n = o.sn.empty() ? o.ln : o.sn; char t = "bids"[r.i(0, 3)]; if (r.coin(1, 4)) { n += "?"; t = "bidsz"[r.i(0, 4)]; } bool good = n.back() != '?' && t == o.type; c.desc("%s as %c", n.c_str(), t); c.mix(t); c.mixb(n.data(), n.size()); c.nt();
    bool ret = returns(c, [&] { switch (t) { case 'b': a.gb(n); break; case 'i': a.gi(n); break; case 'd': a.gd(n); break; case 's': a.gs(n); break; default: a.is_set(n); } }); REQ(c, ret == good, "access %s", ret ? "returned" : "failed"); c.ev("typed_access");
}
static void bad_decl(Ctx &c) {
    auto &r = c.rng; static const std::vector<std::string> bad = {"x", "", "-", "name", "-ab", "-abc|-x", "a|--b", "--ok|bad", "-x|yy"}; c.nt();
    if (r.coin()) { std::string s = r.pick(bad); c.desc("%s", s.c_str()); c.mixb(s.data(), s.size()); NXOptions *o = nullptr; bool ret = returns(c, [&] { o = nx_options_new("b", s.c_str(), "h", NX_FALSE); }); REQ(c, !ret, "ill-formed switch '%s' accepted", s.c_str()); c.ev("declaration_rejected"); }
    else { std::vector<Opt> os; declare(c, os, r.i(1, 8)); Api a(r.coin()); for (auto &o : os) a.add(o); Opt d = os[r.next() % os.size()]; d.type = "bids"[r.i(0, 3)]; std::string extra = r.coin() ? "--zzzzzzzzz" : "-%"; if (r.coin()) d.sw = d.sn.empty() ? d.ln : d.sn; else if (!d.sn.empty() && extra[1] == '-') d.sw = d.sn + "|" + extra; c.desc("dup %s", d.sw.c_str()); c.mixb(d.sw.data(), d.sw.size()); bool ret = returns(c, [&] { a.add(d); }); REQ(c, !ret, "duplicate switch accepted"); c.ev("duplicate_rejected"); }
}
static void help(Ctx &c) { auto &r = c.rng; std::vector<Opt> os; declare(c, os, r.i(0, 4)); bool cpp = r.coin(); Api a(cpp); for (auto &o : os) a.add(o); if (cpp) a.v->add_help(); else nx_options_add_help(a.o); std::string hd = gen_bytes(r, 10, 0), ft = gen_bytes(r, 12, 0); if (cpp) { a.v->set_usage_header(hd); a.v->set_usage_footer(ft); } else { nx_options_set_usage_header(a.o, hd.c_str()); nx_options_set_usage_footer(a.o, ft.c_str()); } std::vector<std::string> av = {"p"}; if (r.coin()) av.push_back("x"); av.push_back(r.coin() ? "-h" : "--help"); c.mixb(hd.data(), hd.size()); c.nt(); c.noleak = true; Outcome o = fork_run([&] { a.parse(av); }); REQ(c, o.kind == EXITED && o.code == EXIT_FAILURE, "help switch ended with %s %d", kind_name(o.kind), o.code); REQ(c, o.err.find(hd) != std::string::npos && o.err.find(ft) != std::string::npos && o.err.find("--help") != std::string::npos, "usage text incomplete"); c.ev("help"); }
static void multi_format(Ctx &c) { auto &r = c.rng; int i1 = (int)r.next(); double d1 = r.gauss(); bool b1 = r.coin(); c.mix(i1); c.nt(); NXOptions *o = nx_options_new("bidsr", "-b|--bool", "h", b1 ? NX_TRUE : NX_FALSE, "-i", "h", i1, "--dbl", "h", d1, "-s|--str", "h", "dflt", "rest"); char a0[] = "p", a1[] = "-i", a2[] = "17", a3[] = "q"; char *av[] = {a0, a1, a2, a3, nullptr}; nx_options_set_from_args(o, 4, av); REQ(c, (nx_options_get_bool(o, "--bool") != 0) == b1 && nx_options_get_int(o, "-i") == 17 && nx_options_get_double(o, "--dbl") == d1 && !strcmp(nx_options_get_string(o, "-s"), "dflt") && !strcmp(nx_options_get_rest(o)[0], "q") && !nx_options_get_rest(o)[1], "declared list"); nx_options_free(o); REQ(c, !returns(c, [&] { nx_options_new("x", "-x", "h", 1); }), "unknown format character accepted"); c.ev("format_list"); }
int main(int argc, char **argv) { nx_log_verbosity(NX_LOG_SILENT); return run_main(argc, argv, {{"parse", parse, 40000, 600000}, {"access", access, 5000, 50000}, {"bad_decl", bad_decl, 2000, 20000}, {"help", help, 200, 1000}, {"multi_format", multi_format, 200, 2000}}); }
