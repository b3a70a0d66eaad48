// random multi-index sets
#pragma once
#include "common.h"
#include "MParT/MultiIndices/MultiIndexSet.h"
namespace drv {
inline std::string show(std::vector<double> const& v) { std::string s = "["; for (auto x : v) s += num(x) + " "; return s + "]"; }
inline std::string show(std::vector<unsigned> const& v) { std::string s = "("; for (auto x : v) s += std::to_string(x) + " "; return s + ")"; }
inline std::string show(std::vector<std::vector<unsigned>> const& m) { std::string s; for (size_t i = 0; i < m.size() && i < 12; ++i) s += show(m[i]); if (m.size() > 12) s += "..."; return s; }
inline Eigen::Matrix<int, Eigen::Dynamic, Eigen::Dynamic> toMat(std::vector<std::vector<unsigned>> const& m) {
    Eigen::Matrix<int, Eigen::Dynamic, Eigen::Dynamic> M(m.size(), m[0].size());
    for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m[0].size(); ++j) M(i, j) = m[i][j];
    return M;
}
// distinct multi-indices in arbitrary order, degrees <= ord
inline std::vector<std::vector<unsigned>> random_list(int dim, int ord) {
    int n = RI(1, 14);
    std::set<std::vector<unsigned>> s; std::vector<std::vector<unsigned>> out;
    for (int i = 0; i < n; ++i) { std::vector<unsigned> m(dim); for (auto& v : m) v = RI(0, 2) ? 0 : RI(0, ord); if (RI(0, 3) == 0) m[dim - 1] = RI(0, ord); if (s.insert(m).second) out.push_back(m); }
    return out;
}
// the same, as ordered in a library set (total order or arbitrary)
inline std::vector<std::vector<unsigned>> random_multis(int dim, int ord) {
    std::vector<std::vector<unsigned>> l = random_list(dim, ord);
    mpart::MultiIndexSet s(toMat(l));
    std::vector<std::vector<unsigned>> out;
    for (unsigned i = 0; i < s.Size(); ++i) out.push_back(s.at(i).Vector());
    return out;
}
}
