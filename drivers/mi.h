// reference for multi-indices: a dense vector
#pragma once
#include "common.h"
#include <sstream>
#include <algorithm>
#include "MParT/MultiIndices/MultiIndex.h"
namespace drv {
typedef std::vector<unsigned> DV;
inline std::string show(DV const& v) { std::string s = "("; for (auto x : v) s += std::to_string(x) + " "; return s + ")"; }
inline unsigned vsum(DV const& v) { unsigned s = 0; for (auto x : v) s += x; return s; }
inline unsigned vmax(DV const& v) { unsigned s = 0; for (auto x : v) s = std::max(s, x); return s; }
inline unsigned vnnz(DV const& v) { unsigned s = 0; for (auto x : v) s += x > 0; return s; }
inline bool vless(DV const& a, DV const& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    if (vsum(a) != vsum(b)) return vsum(a) < vsum(b);
    if (vmax(a) != vmax(b)) return vmax(a) < vmax(b);
    return a < b;
}
inline void same(mpart::MultiIndex const& m, DV const& v, const char* how) {
    std::string h = how; h += " " + show(v);
    check(m.Length() == v.size(), "length", h); check(m.Sum() == vsum(v), "sum", h); check(m.Max() == vmax(v), "maximum", h); check(m.NumNz() == vnnz(v), "nonzero count", h);
    DV w = m.Vector(); check(w == v, "dense form", h + " reported " + show(w));
    for (unsigned i = 0; i < v.size(); ++i) { unsigned g = ~0u; nothrow([&] { g = m.Get(i); }, "reading inside does not raise", h); check(g == v[i], "entry", h); }
    for (unsigned i : {0u, 1u, 2u, 1000000u, 4294967295u - (unsigned)v.size()}) throws([&] { m.Get((unsigned)v.size() + i); }, "reading outside raises", h);
    std::string s; for (unsigned i = 0; i < v.size(); ++i) s += (i ? " " : "") + std::to_string(v[i]);
    check(m.String() == s, "text form", h + " printed '" + m.String() + "'"); std::ostringstream o; o << m; check(o.str() == s, "printed form", h);
}
inline DV rvec(int maxlen, int maxval) { DV v(RI(0, maxlen)); int dens = RI(0, 4); for (auto& x : v) x = RI(0, 4) < dens ? RI(0, maxval) : 0; if (v.size() && RI(0, 20) == 0) v[RI(0, v.size() - 1)] = 4000000000u / 8; return v; }
// the same vector by any of the ways of building it
inline mpart::MultiIndex build(DV const& v, std::string& how) {
    using mpart::MultiIndex;
    switch (RI(0, 5)) {
        case 0: how = "vector"; return MultiIndex(v);
        case 1: { how = "memory"; DV w(v); w.push_back(77); return MultiIndex(w.data(), (unsigned)v.size()); }
        case 2: { how = "matrix"; if (RI(0, 1)) { Eigen::Matrix<unsigned, Eigen::Dynamic, 1> e(v.size()); for (size_t i = 0; i < v.size(); ++i) e(i) = v[i]; return MultiIndex(e); }
                  Eigen::Matrix<int, 1, Eigen::Dynamic> e(v.size()); for (size_t i = 0; i < v.size(); ++i) e(i) = (int)v[i]; return MultiIndex(e); }
        case 3: { how = "list"; if (v.size() == 0) return MultiIndex(std::initializer_list<unsigned>{}); if (v.size() == 1) return MultiIndex{v[0]}; if (v.size() == 2) return MultiIndex(std::initializer_list<unsigned>{v[0], v[1]});
                  if (v.size() == 3) return MultiIndex{v[0], v[1], v[2]}; if (v.size() == 4) return MultiIndex{v[0], v[1], v[2], v[3]}; return MultiIndex(v); }
        case 4: { how = "constant then writes"; unsigned c = RI(0, 3); MultiIndex m((unsigned)v.size(), c); std::vector<unsigned> ord(v.size()); for (size_t i = 0; i < ord.size(); ++i) ord[i] = i; std::shuffle(ord.begin(), ord.end(), rng);
                  for (auto i : ord) { if (RI(0, 2) == 0) m.Set(i, RI(0, 5)); if (v[i] != c || RI(0, 1)) m.Set(i, v[i]); else m.Set(i, c); } return m; }
        default: { how = "copied and assigned"; MultiIndex a(v), b(a), c(2, 3); c = b; b = MultiIndex(3, 1); return c; }
    }
}
}
