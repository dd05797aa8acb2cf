#pragma once
#include "vh.hpp"
#include "gen_text.hpp"
#include "virg/nexus/nx_json_tree.h"
// independent JSON model: generator, text writer, reader, comparison with the library's tree
struct JV { int type; std::string text; std::vector<JV> items; std::vector<std::string> names; };
inline std::string gen_number(vh::Rng &r, bool &isint) {
    std::string s; if (r.coin(1, 3)) s += '-';
    switch (r.i(0, 3)) { case 0: s += '0'; break; case 1: s += std::to_string(r.i(1, 99)); break; case 2: s += std::to_string(r.range(1, 2147483647)); break; default: { s += (char)('1' + r.i(0, 8)); int n = r.coin(1, 60) ? r.i(25, 400) : r.i(0, 25); while (n--) s += (char)('0' + r.i(0, 9)); } }
    isint = true;
    if (r.coin(1, 3)) { isint = false; s += '.'; int n = r.i(1, 18); while (n--) s += (char)('0' + r.i(0, 9)); }
    if (r.coin(1, 5)) { isint = false; s += "eE"[r.i(0, 1)]; int k = r.i(0, 2); if (k == 1) s += '+'; if (k == 2) s += '-'; int n = r.i(1, 3); while (n--) s += (char)('0' + r.i(0, 9)); }
    return s;
}
inline JV gen_json(vh::Rng &r, int depth, bool root, int &budget) {
    JV v; int k = root ? r.i(0, 1) : (depth <= 0 || budget <= 0) ? r.i(2, 6) : r.i(0, 6); --budget;
    switch (k) {
    case 0: { v.type = NX_JNT_OBJECT; int n = r.size(8, 300); for (int i = 0; i < n; ++i) { v.names.push_back(gen_bytes(r, r.coin(1, 200) ? r.logsize(10, 3000) : r.i(0, 10), r.i(0, 4))); v.items.push_back(gen_json(r, depth - 1, false, budget)); } break; }
    case 1: { v.type = NX_JNT_ARRAY; int n = r.size(8, 300); for (int i = 0; i < n; ++i) v.items.push_back(gen_json(r, depth - 1, false, budget)); break; }
    case 2: v.type = NX_JNT_STRING; v.text = gen_bytes(r, r.size(40, 6000), r.i(0, 4)); break;
    case 3: { bool i; v.text = gen_number(r, i); v.type = i ? NX_JNT_INTEGER : NX_JNT_FPNUMBER; break; }
    case 4: v.type = NX_JNT_TRUE; break;
    case 5: v.type = NX_JNT_FALSE; break;
    default: v.type = NX_JNT_NULL; break;
    }
    return v;
}
inline std::string ws(vh::Rng &r) { std::string s; while (r.coin(1, 3)) s += " \t\n\r"[r.i(0, 3)]; return s; }
inline std::string quote(vh::Rng &r, const std::string &t) {
    std::string s = "\"";
    for (char ch : t) switch (ch) { case '"': s += "\\\""; break; case '\\': s += "\\\\"; break;
        case '\n': s += r.coin() ? "\\n" : "\n"; break; case '\r': s += r.coin() ? "\\r" : "\r"; break; case '\t': s += r.coin() ? "\\t" : "\t"; break; case '\b': s += r.coin() ? "\\b" : "\b"; break; case '\f': s += r.coin() ? "\\f" : "\f"; break; case '/': s += r.coin() ? "\\/" : "/"; break; default: s += ch; }
    return s + "\"";
}
inline void write_json(vh::Rng &r, const JV &v, std::string &o) {
    switch (v.type) {
    case NX_JNT_OBJECT: o += "{" + ws(r); for (size_t i = 0; i < v.items.size(); ++i) { if (i) o += "," + ws(r); o += quote(r, v.names[i]) + ws(r) + ":" + ws(r); write_json(r, v.items[i], o); o += ws(r); } o += "}"; break;
    case NX_JNT_ARRAY: o += "[" + ws(r); for (size_t i = 0; i < v.items.size(); ++i) { if (i) o += "," + ws(r); write_json(r, v.items[i], o); o += ws(r); } o += "]"; break;
    case NX_JNT_STRING: o += quote(r, v.text); break;
    case NX_JNT_TRUE: o += "true"; break; case NX_JNT_FALSE: o += "false"; break; case NX_JNT_NULL: o += "null"; break;
    default: o += v.text;
    }
}
// independent recogniser of the supported language (no \u escapes; raw control characters allowed in strings)
struct JReader {
    const std::string &s; size_t p = 0; bool ok = true; int depth = 0;
    JReader(const std::string &t) : s(t) {}
    int cur() { return p < s.size() ? (unsigned char)s[p] : -1; }
    void skip() { while (cur() == ' ' || cur() == '\t' || cur() == '\n' || cur() == '\r') ++p; }
    bool lit(const char *l) { size_t n = strlen(l); if (s.compare(p, n, l) == 0) { p += n; return true; } ok = false; return false; }
    bool str(std::string &o) {
        if (cur() != '"') { ok = false; return false; } ++p;
        while (true) { int c = cur(); if (c < 0) { ok = false; return false; } ++p; if (c == '"') return true;
            if (c == '\\') { int d = cur(); ++p; switch (d) { case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break; default: ok = false; return false; } }
            else o += (char)c; }
    }
    JV value(bool root) {
        JV v; v.type = 0; skip(); int c = cur();
        if (root && c != '{' && c != '[') { ok = false; return v; }
        if (c == '{') { v.type = NX_JNT_OBJECT; ++p; skip(); if (cur() == '}') { ++p; return v; }
            while (ok) { skip(); std::string n; if (!str(n)) return v; skip(); if (cur() != ':') { ok = false; return v; } ++p; v.names.push_back(n); v.items.push_back(value(false)); if (!ok) return v; skip(); if (cur() == ',') { ++p; continue; } if (cur() == '}') { ++p; return v; } ok = false; } }
        else if (c == '[') { v.type = NX_JNT_ARRAY; ++p; skip(); if (cur() == ']') { ++p; return v; }
            while (ok) { v.items.push_back(value(false)); if (!ok) return v; skip(); if (cur() == ',') { ++p; continue; } if (cur() == ']') { ++p; return v; } ok = false; } }
        else if (c == '"') { v.type = NX_JNT_STRING; str(v.text); }
        else if (c == 't') { v.type = NX_JNT_TRUE; lit("true"); } else if (c == 'f') { v.type = NX_JNT_FALSE; lit("false"); } else if (c == 'n') { v.type = NX_JNT_NULL; lit("null"); }
        else if (c == '-' || (c >= '0' && c <= '9')) {
            size_t b = p; v.type = NX_JNT_INTEGER; auto dig = [&] { return cur() >= '0' && cur() <= '9'; };
            if (c == '-') ++p; if (!dig()) { ok = false; return v; } if (cur() == '0') { ++p; if (dig()) { ok = false; return v; } } else while (dig()) ++p;
            if (cur() == '.') { v.type = NX_JNT_FPNUMBER; ++p; if (!dig()) { ok = false; return v; } while (dig()) ++p; }
            if (cur() == 'e' || cur() == 'E') { v.type = NX_JNT_FPNUMBER; ++p; if (cur() == '+' || cur() == '-') ++p; if (!dig()) { ok = false; return v; } while (dig()) ++p; }
            v.text = s.substr(b, p - b);
        } else ok = false;
        return v;
    }
};
inline void cmp_json(vh::Ctx &c, NXJSONNode *n, const JV &v, const std::string &path) {
    REQ(c, n != nullptr, "%s: missing", path.c_str());
    REQ(c, nx_json_node_type(n) == v.type, "%s: type %d, expected %d", path.c_str(), nx_json_node_type(n), v.type);
    REQ(c, nx_json_node_is(n, v.type) && nx_json_node_is_a(n, v.type | NX_JNT_STRING) && !nx_json_node_is_a(n, 255 & ~v.type), "%s: type predicates", path.c_str());
    c.ev("json_node_compared");
    if (v.type == NX_JNT_OBJECT) {
        REQ(c, nx_json_node_n_children(n) == (int)(2 * v.items.size()), "%s: %d children, expected %zu pairs", path.c_str(), nx_json_node_n_children(n), v.items.size());
        std::set<std::string> seen;
        for (size_t i = 0; i < v.items.size(); ++i) if (seen.insert(v.names[i]).second) cmp_json(c, nx_json_object_get(n, v.names[i].c_str(), 255), v.items[i], path + "." + vh::escape(v.names[i], 20));
    } else if (v.type == NX_JNT_ARRAY) {
        REQ(c, nx_json_node_n_children(n) == (int)v.items.size(), "%s: %d elements, expected %zu", path.c_str(), nx_json_node_n_children(n), v.items.size());
        for (size_t i = 0; i < v.items.size(); ++i) cmp_json(c, nx_json_array_get(n, (int)i, 255), v.items[i], path + vh::fmt("[%zu]", i));
        REQ(c, nx_json_array_get(n, (int)v.items.size(), 255) == nullptr && nx_json_array_get(n, -1, 255) == nullptr, "%s: element outside the array", path.c_str());
    } else if (v.type & (NX_JNT_STRING | NX_JNT_NUMBER)) {
        const char *t = nx_json_node_text(n); REQ(c, t && v.text == t, "%s: text %s, expected %s", path.c_str(), t ? vh::escape(t).c_str() : "NULL", vh::escape(v.text).c_str());
    }
}
inline std::string print_tree(NXJSONNode *n, int pp) { char *b = nullptr; size_t z = 0; FILE *f = open_memstream(&b, &z); nx_json_tree_fprint(f, n, pp); fclose(f); std::string s(b, z); free(b); return s; }
inline NXJSONNode *build(vh::Rng &r, const JV &v) {
    switch (v.type) {
    case NX_JNT_OBJECT: { auto *n = nx_json_node_new_object(); for (size_t i = 0; i < v.items.size(); ++i) nx_json_object_add(n, v.names[i].c_str(), build(r, v.items[i])); return n; }
    case NX_JNT_ARRAY: { auto *n = nx_json_node_new_array(); for (auto &x : v.items) nx_json_array_add(n, build(r, x)); return n; }
    case NX_JNT_STRING: return nx_json_node_new_string(v.text.c_str());
    case NX_JNT_INTEGER: return nx_json_node_new_integer(v.text.c_str());
    case NX_JNT_FPNUMBER: return nx_json_node_new_fpnumber(v.text.c_str());
    case NX_JNT_TRUE: return nx_json_node_new_true(); case NX_JNT_FALSE: return nx_json_node_new_false(); default: return nx_json_node_new_null();
    }
}
inline void checked_get(vh::Ctx &c) {
    auto &r = c.rng; int budget = 30; JV v = gen_json(r, 3, true, budget); NXJSONNode *n = build(r, v); std::string s = print_tree(n, 0); c.descbytes(s.data(), s.size(), "json"); if (v.items.size()) c.nt(); int mask = r.coin() ? 1 << r.i(0, 7) : r.i(1, 255);
    if (v.type == NX_JNT_ARRAY) { int p = r.coin(1, 10) ? r.i(0, 1 << 20) : r.i(-2, (int)v.items.size() + 1); bool in = p >= 0 && p < (int)v.items.size() && (v.items[p].type & mask); NXJSONNode *g = nullptr; bool ret = vh::returns(c, [&] { g = nx_json_array_fget(n, p, mask); }); REQ(c, ret == in, "checked get of element %d with types %d %s", p, mask, ret ? "returned" : "failed"); REQ(c, (nx_json_array_get(n, p, mask) != nullptr) == in, "get of element %d", p); if (ret) cmp_json(c, g, v.items[p], "$[]"); std::string nm = "x"; REQ(c, !nx_json_object_get(n, "x", 255), "named get on an array"); }
    else { std::string nm = v.names.size() && r.coin(3, 4) ? r.pick(v.names) : v.items.size() && r.coin() ? r.pick(v.items).text /* a value must not be taken for a name */ : gen_bytes(r, r.i(0, 3), 1); int at = -1; for (size_t i = 0; i < v.names.size(); ++i) if (v.names[i] == nm) { at = (int)i; break; } bool in = at >= 0 && (v.items[at].type & mask); NXJSONNode *g = nullptr; bool ret = vh::returns(c, [&] { g = nx_json_object_fget(n, nm.c_str(), mask); }); REQ(c, ret == in, "checked get of member '%s' with types %d %s", vh::escape(nm).c_str(), mask, ret ? "returned" : "failed"); REQ(c, (nx_json_object_get(n, nm.c_str(), mask) != nullptr) == in, "get of member"); if (ret) cmp_json(c, g, v.items[at], "$."); REQ(c, !nx_json_array_get(n, 0, 255), "indexed get on an object"); }
    nx_json_tree_free(n); c.ev("checked_get");
}
