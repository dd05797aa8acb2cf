// Double-precision reference filters (constant border extension).
#pragma once
#include "img.hpp"
namespace rf {
typedef std::vector<double> VD;
inline VD gauss(double sigma, double tf) { int n = (int)(2.0 * (float)tf * (float)sigma + 1.0f); if (n % 2 == 0) ++n; n = std::max(n, 3); VD k(n / 2 + 1); double s = 0; for (size_t i = 0; i < k.size(); ++i) { k[i] = std::exp(-0.5 * i * i / (sigma * sigma)); s += (i ? 2 : 1) * k[i]; } for (auto &v : k) v /= s; return k; }
inline VD conv(const VD &a, const VD &k) { int n = (int)a.size(); VD o(n); auto at = [&](int i) { return a[std::min(n - 1, std::max(0, i))]; }; for (int i = 0; i < n; ++i) { double s = k[0] * a[i]; for (int j = 1; j < (int)k.size(); ++j) s += k[j] * (at(i - j) + at(i + j)); o[i] = s; } return o; }
inline std::vector<VD> grid(const vi::Px &p) { std::vector<VD> o(p.h, VD(p.w)); for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) o[y][x] = p.at(x, y); return o; }
inline std::vector<VD> sep(std::vector<VD> o, const VD &kx, const VD &ky) { int h = (int)o.size(), w = h ? (int)o[0].size() : 0; if (!kx.empty()) for (auto &l : o) l = conv(l, kx); if (!ky.empty()) for (int x = 0; x < w; ++x) { VD l(h); for (int y = 0; y < h; ++y) l[y] = o[y][x]; l = conv(l, ky); for (int y = 0; y < h; ++y) o[y][x] = l[y]; } return o; }
} // namespace rf
