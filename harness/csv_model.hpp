#pragma once
// Independent reading of the CSV dialect (RFC 4180 with '\n' record ends).
#include "gen_text.hpp"
#include "virg/nexus/nx_data_frame.h"
struct Cell { bool na = true, quoted = false; std::string text; };
typedef std::vector<std::vector<Cell>> CSV;
inline bool csv_read(const std::string &t, CSV &out) {   // false: not well formed
    size_t p = 0; if (t.empty()) return false;
    while (p < t.size()) {
        std::vector<Cell> row;
        if (t[p] == '\n') { if (out.empty() || out[0].size() != 1) return false; row.push_back(Cell()); ++p; out.push_back(row); continue; }
        for (;;) {
            Cell c;
            if (p < t.size() && t[p] == '"') {
                ++p; c.na = false; c.quoted = true; bool closed = false;
                while (p < t.size()) { if (t[p] == '"') { if (p + 1 < t.size() && t[p + 1] == '"') { c.text += '"'; p += 2; continue; } ++p; closed = true; break; } c.text += t[p++]; }
                if (!closed) return false;
                if (p < t.size() && t[p] != ',' && t[p] != '\n') return false;
            } else {
                while (p < t.size() && t[p] != ',' && t[p] != '\n') { if (t[p] == '"') return false; c.text += t[p++]; }
                c.na = c.text.empty();
            }
            row.push_back(c);
            if (p < t.size() && t[p] == ',') { ++p; continue; }
            if (p < t.size()) ++p; // newline
            break;
        }
        if (!out.empty() && row.size() != out[0].size()) return false;
        out.push_back(row);
    }
    return true;
}
// decimal integer / real syntax, written out rather than delegated
inline bool is_int_text(const std::string &s, long long &v) {
    size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) ++i; bool neg = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
    if (i >= s.size()) return false; v = 0; for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); if (v > 99999999999ll) v = 99999999999ll; } if (neg) v = -v; return v >= INT_MIN && v <= INT_MAX;
}
inline bool is_real_text(const std::string &s, double &v) { char *e; v = strtod(s.c_str(), &e); return !s.empty() && e != s.c_str() && *e == 0 && !(std::isinf(v) && s.find_first_of("nN") == std::string::npos); }
inline int cell_type(const Cell &c) {
    if (c.quoted) return NX_DCT_STRING; if (c.text == "true" || c.text == "false") return NX_DCT_BOOL; long long l; double d; if (is_int_text(c.text, l)) return NX_DCT_INT; if (is_real_text(c.text, d)) return NX_DCT_DOUBLE; return NX_DCT_STRING;
}
inline int column_type(const CSV &v, size_t c) {
    bool s = false, b = false, d = false, i = false; for (size_t r = 1; r < v.size(); ++r) if (!v[r][c].na) switch (cell_type(v[r][c])) { case NX_DCT_STRING: s = true; break; case NX_DCT_BOOL: b = true; break; case NX_DCT_DOUBLE: d = true; break; default: i = true; }
    if (s || (b && (d || i)) || !(b || d || i)) return NX_DCT_STRING; return b ? NX_DCT_BOOL : d ? NX_DCT_DOUBLE : NX_DCT_INT;
}
inline std::string csv_quote(const std::string &s) { std::string o = "\""; for (char c : s) { if (c == '"') o += '"'; o += c; } return o + "\""; }
