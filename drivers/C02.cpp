// LINK: src/MultiIndices/MultiIndex.cpp src/Utilities/Miscellaneous.cpp
// C02: comparisons of multi-indices built in different ways against the order of dense vectors
#include "mi.h"
using namespace mpart; using namespace drv;
static void cmp(MultiIndex const& a, MultiIndex const& b, DV const& x, DV const& y) {
    bool l = vless(x, y), g = vless(y, x), e = x == y;
    check((a < b) == l, "less"); check((a > b) == g, "greater"); check((a == b) == e, "equal"); check((a != b) == !e, "not equal"); check((a <= b) == !g, "at most"); check((a >= b) == !l, "at least");
    check(l + g + e == 1, "reference is total");
}
static DV near(DV v) { int k = RI(0, 4); if (v.empty()) return rvec(3, 2); unsigned i = RI(0, v.size() - 1), j = RI(0, v.size() - 1); if (k == 0) v[i]++; else if (k == 1) std::swap(v[i], v[j]); else if (k == 2 && v[i]) { v[i]--; v[j]++; } else if (k == 3) v.push_back(RI(0, 1)); return v; }
static void one() {
    DV x = rvec(5, 3), y = RI(0, 2) ? near(x) : rvec(5, 3), z = RI(0, 1) ? near(y) : rvec(5, 3); std::string h1, h2, h3;
    Case("%s %s %s", show(x).c_str(), show(y).c_str(), show(z).c_str());
    MultiIndex a = build(x, h1), b = build(y, h2), c = build(z, h3), a2 = build(x, h3); Case("%s (%s) against %s (%s)", show(x).c_str(), h1.c_str(), show(y).c_str(), h2.c_str());
    cmp(a, b, x, y); cmp(b, a, y, x); cmp(b, c, y, z); cmp(a, c, x, z); cmp(a, a2, x, x); cmp(a, a, x, x);
    check(!(a < b && b < c) || a < c, "transitive");
}
int main(int argc, char** argv) { return run(argc, argv, [] {
    int reps = thorough ? 1000000 : 60000; for (int it = 0; it < reps; ++it) section(one);
    std::vector<DV> all; for (int n = 0; n <= 3; ++n) { DV v(n, 0); for (;;) { all.push_back(v); int q = 0; while (q < n && v[q] == 3) v[q++] = 0; if (q == n) break; v[q]++; } }      // every vector up to length 3 and degree 3
    for (auto& x : all) for (auto& y : all) { Case("%s against %s", show(x).c_str(), show(y).c_str()); cmp(MultiIndex(x), MultiIndex(y), x, y); }
}); }
