// LINK: src/MultiIndices/MultiIndex.cpp src/MultiIndices/MultiIndexSet.cpp src/MultiIndices/MultiIndexNeighborhood.cpp src/MultiIndices/MultiIndexLimiter.cpp src/MultiIndices/FixedMultiIndexSet.cpp src/Utilities/Miscellaneous.cpp
// C05: fixed index sets against a list of dense vectors
#include "mi.h"
#include "MParT/MultiIndices/FixedMultiIndexSet.h"
#include "MParT/MultiIndices/MultiIndexSet.h"
using namespace mpart; using namespace drv;
typedef FixedMultiIndexSet<Kokkos::HostSpace> FS; typedef Kokkos::View<unsigned int*, Kokkos::HostSpace> UV;
static UV view(std::vector<unsigned> const& v) { UV r("v", v.size()); for (size_t i = 0; i < v.size(); ++i) r(i) = v[i]; return r; }
// set s holds exactly the vectors of ref, in this order
static void holds(FS const& s, unsigned dim, std::vector<DV> const& ref, std::string const& how) {
    check(s.Length() == dim, "length", how); check(s.Size() == ref.size(), "size", how + " reported " + std::to_string(s.Size())); if (s.Size() != ref.size()) return;
    auto md = s.MaxDegrees(); check(md.extent(0) == dim, "one maximum per coordinate", how);
    for (unsigned d = 0; d < dim; ++d) { unsigned m = 0; for (auto& v : ref) m = std::max(m, v[d]); check(md(d) == m, "maximum degree", how + " coordinate " + std::to_string(d)); }
    for (size_t i = 0; i < ref.size(); ++i) {
        DV w = s.IndexToMulti(i); check(w == ref[i], "number to multi-index", how + " " + show(ref[i]) + " reported " + show(w));
        int k = s.MultiToIndex(ref[i]); bool first = k >= 0 && k <= (int)i && ref[k] == ref[i]; check(first, "multi-index to number", how + " " + show(ref[i]) + " reported " + std::to_string(k));
    }
    for (int it = 0; it < 12; ++it) {
        DV w(dim); for (auto& x : w) x = RI(0, 2) ? RI(0, 3) : 0;
        if (ref.size() && RI(0, 1)) { w = ref[RI(0, ref.size() - 1)]; unsigned i = RI(0, dim - 1), j = RI(0, dim - 1); int k = RI(0, 3); if (k == 0) w[i]++; else if (k == 1) std::swap(w[i], w[j]); else if (k == 2 && w[i]) { w[i]--; w[j]++; } else w[i] = 0; }
        bool in = std::find(ref.begin(), ref.end(), w) != ref.end(); int k = -2; nothrow([&] { k = s.MultiToIndex(w); }, "looking up does not raise", how + show(w));
        check(in ? (k >= 0 && k < (int)ref.size() && ref[k] == w) : k == -1, "looking up any multi-index", how + show(w) + " reported " + std::to_string(k));
    }
    unsigned nnz = 0; for (auto& v : ref) nnz += vnnz(v);
    check(s.nzStarts.extent(0) == ref.size() + 1, "one start per term and one end", how);
}
static void total(unsigned dim, unsigned order) {
    Case("total order %u in %u dimensions", order, dim);
    FS s(dim, order); std::vector<DV> all; std::set<DV> want; DV v(dim, 0);
    std::function<void(unsigned, unsigned)> rec = [&](unsigned d, unsigned left) { if (d == dim) { want.insert(v); return; } for (unsigned p = 0; p <= left; ++p) { v[d] = p; rec(d + 1, left - p); } v[d] = 0; };
    rec(0, order);
    check(s.Size() == want.size(), "total order: number of terms", "reported " + std::to_string(s.Size()) + " expected " + std::to_string(want.size()));
    std::set<DV> got; for (unsigned i = 0; i < s.Size(); ++i) { DV w = s.IndexToMulti(i); got.insert(w); all.push_back(w); check(w.size() == dim && vsum(w) <= order, "total order: degree", show(w)); }
    check(got == want, "total order: every multi-index exactly once");
    unsigned nnz = 0; for (auto& w : want) nnz += vnnz(w);
    check(s.nzDims.extent(0) == nnz && s.nzOrders.extent(0) == nnz && s.nzStarts(s.Size()) == nnz, "total order: number of nonzero entries");
    if (all.size() <= 400) holds(s, dim, all, "total order");
}
static std::vector<DV> rlist(unsigned dim, int n, int mx, bool distinct) {
    std::vector<DV> r; for (int t = 0; t < n; ++t) { DV v(dim, 0); int dens = RI(0, 4); for (auto& x : v) x = RI(0, 4) < dens ? RI(0, mx) : 0; if (!distinct || std::find(r.begin(), r.end(), v) == r.end()) r.push_back(v); } return r; }
static void one() {
    unsigned dim = RI(1, 6); int n = RI(0, 12), mx = RI(1, 7); auto ref = rlist(dim, n, mx, RI(0, 3)); std::string d; for (auto& v : ref) d += show(v); Case("dimension %u: %s", dim, d.substr(0, 4000).c_str());
    { std::vector<unsigned> o; for (auto& v : ref) o.insert(o.end(), v.begin(), v.end()); UV ov = view(o); FS s(dim, ov); holds(s, dim, ref, "dense"); FS c(s); holds(c, dim, ref, "dense copy"); for (size_t i = 0; i < o.size(); ++i) check(ov(i) == o[i], "building leaves the data alone"); }
    { std::vector<unsigned> st, di, od; bool shuf = RI(0, 1);      // entries of a term may be listed in any order
      for (auto& v : ref) { st.push_back(di.size()); std::vector<unsigned> p; for (unsigned i = 0; i < dim; ++i) if (v[i]) p.push_back(i); if (shuf) std::shuffle(p.begin(), p.end(), rng); for (auto i : p) { di.push_back(i); od.push_back(v[i]); } }
      st.push_back(di.size()); FS s(dim, view(st), view(di), view(od)); holds(s, dim, ref, "compressed"); }
    { MultiIndexSet g(dim); std::vector<DV> act; for (auto& v : ref) { int k = g.AddActive(MultiIndex(v)); auto it = std::find(act.begin(), act.end(), v); if (it == act.end()) act.push_back(v); }
      holds(g.Fix(true), dim, act, "converted, compressed"); holds(g.Fix(false), dim, act, "converted, dense");
      for (int e = 0; e < 2 && act.size(); ++e) { auto nw = g.Expand(RI(0, g.Size() - 1)); for (auto k : nw) act.push_back(g.IndexToMulti(k).Vector()); holds(g.Fix(true), dim, act, "expanded, compressed"); holds(g.Fix(false), dim, act, "expanded, dense"); }
      FS f = g.Fix(true), h = f.ToDevice<Kokkos::HostSpace>(); holds(h, dim, act, "moved"); }
}
int main(int argc, char** argv) { return run(argc, argv, [] {
    for (unsigned dim = 1; dim <= 8; ++dim) for (unsigned o = 0; o <= (dim <= 2 ? 12u : dim <= 4 ? 6u : dim <= 6 ? 4u : 3u); ++o) section([&] { total(dim, o); });
    if (thorough) for (unsigned dim = 1; dim <= 12; ++dim) section([&] { total(dim, 5); });
    int reps = thorough ? 60000 : 4000; for (int it = 0; it < reps; ++it) section(one);
}); }
