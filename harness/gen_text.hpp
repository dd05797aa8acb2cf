#pragma once
#include "vh.hpp"
// byte strings without NUL.  style 0: letters/space, 1: printable, 2: escapes-heavy,
// 3: any byte 1..255, 4: quotes, backslashes and separators
inline std::string gen_bytes(vh::Rng &r, size_t n, int style) {
    std::string s; s.reserve(n);
    for (size_t i = 0; i < n; ++i) {
        switch (style) {
        case 0: s += "abcdefghijklmnop qrstuvwxyz_0123"[r.next() % 32]; break;
        case 1: s += (char)r.i(32, 126); break;
        case 2: { static const char t[] = "\n\r\t\b\f\"\\/ab'\x01\x1f\x7f"; s += t[r.next() % (sizeof t - 1)]; break; }
        case 3: s += (char)r.i(1, 255); break;
        default: { static const char t[] = "\"\"\\\\,;:{}[]'\n\t #%ab\xff\xe9"; s += t[r.next() % (sizeof t - 1)]; break; }
        }
    }
    return s;
}
