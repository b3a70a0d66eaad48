// LINK: src/MultiIndices/MultiIndex.cpp src/MultiIndices/MultiIndexSet.cpp src/MultiIndices/MultiIndexLimiter.cpp src/MultiIndices/MultiIndexNeighborhood.cpp src/MultiIndices/FixedMultiIndexSet.cpp src/ParameterizedFunctionBase.cpp src/ConditionalMapBase.cpp src/IdentityMap.cpp src/AffineMap.cpp src/TriangularMap.cpp src/ComposedMap.cpp src/Utilities/LinearAlgebra.cpp src/Utilities/Miscellaneous.cpp src/Initialization.cpp src/MapFactory.cpp src/MapFactoryImpl5.cpp src/MapObjective.cpp src/TrainMap.cpp src/TrainMapAdaptive.cpp src/Distributions/GaussianSamplerDensity.cpp src/Distributions/DensityBase.cpp src/Distributions/PullbackDensity.cpp
// FLAGS: -UMPART_HAS_CEREAL
// C22: adaptive training with an objective that records every map it is asked about.
#include "sets.h"
#include "MParT/TrainMapAdaptive.h"
#include "MParT/MonotoneComponent.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/PositiveBijectors.h"
#include "MParT/Quadrature.h"
#include "MParT/MultivariateExpansionWorker.h"
#include "MParT/Distributions/GaussianSamplerDensity.h"
using namespace mpart; using namespace drv;
typedef Kokkos::HostSpace HS; typedef std::shared_ptr<ConditionalMapBase<HS>> CP; typedef std::vector<unsigned> M; typedef std::vector<M> Ms;
typedef MonotoneComponent<MultivariateExpansionWorker<ProbabilistHermite, HS>, SoftPlus, ClenshawCurtisQuadrature<HS>, HS> Comp;
static std::vector<Ms> setsOf(CP m, unsigned out) {
    auto t = std::dynamic_pointer_cast<TriangularMap<HS>>(m); std::vector<Ms> r; if (!t) return r;
    for (unsigned k = 0; k < out; ++k) { auto c = std::dynamic_pointer_cast<Comp>(t->GetComponent(k)); if (!c) { fail("components have the type the options ask for", ""); return r; } auto f = c->GetMultiIndexSet(); Ms s; for (unsigned i = 0; i < f.Size(); ++i) s.push_back(f.IndexToMulti(i)); r.push_back(s); }
    return r;
}
static size_t total(std::vector<Ms> const& v) { size_t n = 0; for (auto& s : v) n += s.size(); return n; }
struct Ev { char what; std::vector<Ms> sets; double err; std::vector<double> grad, coeffs; };
struct Logged : MapObjective<HS> {
    std::shared_ptr<MapObjective<HS>> in; unsigned out; int mode; bool testing = false; mutable std::vector<Ev> log; StridedMatrix<const double, HS> te;
    Logged(StridedMatrix<const double, HS> tr, StridedMatrix<const double, HS> te_, unsigned out_, int mode_) : MapObjective<HS>(tr, te_), in(ObjectiveFactory::CreateGaussianKLObjective<HS>(tr, te_, out_)), out(out_), mode(mode_), te(te_) {}
    unsigned MapOutputDim() const override { return out; }
    double ObjectiveImpl(StridedMatrix<const double, HS> d, CP m) const override {
        double v = mode == 1 ? 1.0 : in->ObjectiveImpl(d, m);
        if (d.data() == te.data()) { if (mode == 2) v = -1.0 * (log.size() % 7 == 3) + 0.5 * (log.size() % 3); Ev e; e.what = 't'; e.sets = setsOf(m, out); e.err = v; auto c = m->Coeffs(); for (unsigned i = 0; i < c.extent(0); ++i) e.coeffs.push_back(c(i)); log.push_back(e); }
        return v;
    }
    void grad(StridedMatrix<const double, HS> d, StridedVector<double, HS> g, CP m) const { if (mode == 1) for (unsigned i = 0; i < g.extent(0); ++i) g(i) = 0; else in->CoeffGradImpl(d, g, m); }
    void CoeffGradImpl(StridedMatrix<const double, HS> d, StridedVector<double, HS> g, CP m) const override { grad(d, g, m); Ev e; e.what = 'g'; e.sets = setsOf(m, out); e.err = 0; for (unsigned i = 0; i < g.extent(0); ++i) e.grad.push_back(g(i)); auto c = m->Coeffs(); for (unsigned i = 0; i < c.extent(0); ++i) e.coeffs.push_back(c(i)); log.push_back(e); }
    double ObjectivePlusCoeffGradImpl(StridedMatrix<const double, HS> d, StridedVector<double, HS> g, CP m) const override { grad(d, g, m); return mode == 1 ? 1.0 : in->ObjectiveImpl(d, m); }
};
static Ms reducedMargin(Ms const& s) {          // not members, all backward neighbours members, at least one of them
    std::set<M> in(s.begin(), s.end()), cand; Ms r; for (auto const& m : s) for (size_t i = 0; i < m.size(); ++i) { M c = m; c[i]++; if (!in.count(c)) cand.insert(c); }
    for (auto const& c : cand) { bool ok = true; for (size_t i = 0; i < c.size(); ++i) if (c[i]) { M b = c; b[i]--; ok &= in.count(b); } if (ok) r.push_back(c); } return r;
}
static Ms members(MultiIndexSet const& s) { Ms r; for (unsigned i = 0; i < s.Size(); ++i) r.push_back(s.at(i).Vector()); return r; }
static void one() {
    int in = RI(1, 3), out = RI(1, in), N = RI(5, 25), T = RI(3, 9), mode = RI(0, 5); if (mode > 2) mode = 0;
    Kokkos::View<double**, HS> tr("train", in, N), te("test", in, T); for (auto* v : {&tr, &te}) for (unsigned j = 0; j < v->extent(1); ++j) { double z = N01(); for (int i = 0; i < in; ++i) (*v)(i, j) = 0.7 * N01() + 0.4 * z * z * (i % 2) - 0.3 * z; }
    auto mk = [&] { return std::make_shared<Logged>(StridedMatrix<const double, HS>(tr), StridedMatrix<const double, HS>(te), out, mode); };
    std::vector<MultiIndexSet> ms; bool lim = RI(0, 4) == 0; std::string d;
    for (int k = 0; k < out; ++k) { int dim = in - out + 1 + k; MultiIndexSet s = lim ? MultiIndexSet::CreateTotalOrder(dim, RI(0, 1), MultiIndexLimiter::TotalOrder(RI(1, 2))) : MultiIndexSet::CreateTotalOrder(dim, RI(0, 1)); for (int q = RI(0, 1); q > 0; --q) { auto e = s.ReducedMargin(); if (e.size()) s += e[RI(0, (int)e.size() - 1)]; } ms.push_back(s); d += show(members(s)) + " "; }
    ATMOptions o; o.basisType = BasisTypes::ProbabilistHermite; o.quadType = QuadTypes::ClenshawCurtis; o.quadPts = 5; o.posFuncType = PosFuncTypes::SoftPlus; o.opt_maxeval = RI(3, 15); o.verbose = 0; size_t n0 = 0; for (auto& s : ms) n0 += s.Size();
    o.maxSize = RI(0, 7) == 0 ? RI(0, (int)n0) : (int)n0 + RI(0, 5); o.maxPatience = RI(0, 4) ? 10 : RI(0, 2); M bound; if (RI(0, 2) == 0) { for (int i = 0; i < in; ++i) bound.push_back(RI(1, 3)); o.maxDegrees = MultiIndex(bound); }
    Case("%d inputs, %d outputs, %d training and %d test points, objective %d, initial sets %s, at most %u terms, patience %u, degrees below %s, %d evaluations", in, out, N, T, mode, d.c_str(), o.maxSize, o.maxPatience, bound.empty() ? "any" : show(bound).c_str(), o.opt_maxeval);
    auto ob = mk(); auto s0 = ms; std::vector<Ms> init; for (auto& s : ms) init.push_back(members(s)); CP map;
    try { map = TrainMapAdaptive<HS>(ms, ob, o); } catch (std::exception const& e) { fail("adaptive training of valid input raises no exception", e.what()); return; }
    std::vector<Ev> ts; std::vector<Ev const*> gs; for (auto& e : ob->log) { if (e.what == 't') ts.push_back(e); else gs.push_back(&e); } if (ts.size() < 2) { fail("the test error of the initial and of the final map is computed", ""); return; }
    Ev fin = ts.back(); ts.pop_back(); check(ts[0].sets == init, "training starts from the given sets");
    size_t lim_ = std::max<size_t>(o.maxSize, n0), best = 0, wait = 0; for (size_t k = 0; k < ts.size(); ++k) check(total(ts[k].sets) <= lim_, "the configured number of terms is never exceeded");
    for (size_t k = 1; k < ts.size(); ++k) {
        auto &a = ts[k - 1].sets, &b = ts[k].sets; int grown = -1, n = 0; for (int q = 0; q < out; ++q) { if (b[q].size() != a[q].size()) { grown = q; ++n; } else check(b[q] == a[q], "components that are not refined keep their sets"); } check(n == 1 && b[grown].size() == a[grown].size() + 1, "each step adds one term"); if (n != 1) return;
        check(Ms(b[grown].begin(), b[grown].end() - 1) == a[grown], "terms are only added"); M t = b[grown].back(); auto rm = reducedMargin(a[grown]); check(std::count(rm.begin(), rm.end(), t) == 1, "the added term is in the reduced margin"); for (size_t i = 0; i < t.size(); ++i) if (!bound.empty()) check(t[i] < bound[i], "the added term respects the maximum degrees");
        check(wait < o.maxPatience, "training stops when its patience is exhausted"); if (ts[k].err < ts[best].err) { best = k; wait = 0; } else ++wait;
        if (k - 1 < gs.size()) { auto& g = *gs[k - 1]; size_t off = 0; double chosen = -1, mx = -1; for (int q = 0; q < out; ++q) { auto rmq = reducedMargin(a[q]); for (size_t i = 0; i < g.sets[q].size(); ++i) { auto const& c = g.sets[q][i]; if (std::count(a[q].begin(), a[q].end(), c)) continue; check(std::count(rmq.begin(), rmq.end(), c), "only the reduced margin is considered"); bool ok = true; for (size_t x = 0; x < c.size(); ++x) if (!bound.empty() && c[x] >= bound[x]) ok = false; if (!ok) continue; double v = std::fabs(g.grad[off + i]); mx = std::max(mx, v); if (q == grown && c == t) chosen = v; } off += g.sets[q].size(); } check(chosen == mx, "the term with the largest gradient is added");
            size_t o1 = 0, o2 = 0; bool keep = g.coeffs.size() >= ts[k - 1].coeffs.size(); for (int q = 0; q < out && keep; ++q) { for (size_t i = 0; i < g.sets[q].size(); ++i) { auto it = std::find(a[q].begin(), a[q].end(), g.sets[q][i]); double want = it == a[q].end() ? 0.0 : ts[k - 1].coeffs[o2 + (it - a[q].begin())]; keep &= g.coeffs[o1 + i] == want; } o1 += g.sets[q].size(); o2 += a[q].size(); } check(keep, "the gradient is taken at the trained coefficients, extended by zeros"); }
    }
    if (total(ts.back().sets) < o.maxSize && wait < o.maxPatience) { bool left = false; for (int q = 0; q < out; ++q) for (auto& c : reducedMargin(ts.back().sets[q])) { bool ok = true; for (size_t x = 0; x < c.size(); ++x) if (!bound.empty() && c[x] >= bound[x]) ok = false; if (ok && !lim) left = true; } check(!left || mode == 1, "training only stops early when no term can be added"); }
    check(fin.sets == ts[best].sets, "the returned map has the sets with the smallest test error"); auto rs = setsOf(map, out); check(rs == fin.sets, "the returned map is the trained one"); for (int q = 0; q < out; ++q) check(members(ms[q]) == fin.sets[q], "the sets of the returned map are handed back");
    auto c = map->Coeffs(); check(c.extent(0) == map->numCoeffs && total(rs) == map->numCoeffs, "the returned map has its coefficients set"); bool same = c.extent(0) == fin.coeffs.size(); for (unsigned i = 0; same && i < c.extent(0); ++i) same = c(i) == fin.coeffs[i]; check(same, "the returned map has the trained coefficients");
    auto ob2 = mk(); auto ms2 = s0; CP m2 = TrainMapAdaptive<HS>(ms2, ob2, o); bool eq = ob2->log.size() == ob->log.size(); auto c2 = m2->Coeffs(); eq &= c2.extent(0) == c.extent(0); for (unsigned i = 0; eq && i < c.extent(0); ++i) eq = c(i) == c2(i); check(eq, "identical inputs give identical results");
}
static void bad() {
    int in = RI(1, 3), N = 6; Kokkos::View<double**, HS> tr("train", in, N); for (int i = 0; i < in; ++i) for (int j = 0; j < N; ++j) tr(i, j) = N01(); auto ob = std::make_shared<Logged>(StridedMatrix<const double, HS>(tr), StridedMatrix<const double, HS>(tr), in, 0); std::vector<MultiIndexSet> ms; for (int k = 0; k < in; ++k) ms.push_back(MultiIndexSet::CreateTotalOrder(k + 1, 1)); ATMOptions o; o.quadType = QuadTypes::ClenshawCurtis; o.verbose = 0; int k = RI(0, 2);
    Case("invalid adaptive training %d with %d inputs", k, in); if (k == 0) ms.push_back(MultiIndexSet::CreateTotalOrder(in + 1, 1)); else if (k == 1) { int q = RI(0, in - 1); std::vector<MultiIndexSet> w; for (int i = 0; i < in; ++i) w.push_back(i == q ? MultiIndexSet::CreateTotalOrder(in + 1, 1) : ms[i]); ms.clear(); for (auto& x : w) ms.push_back(x); } else o.maxDegrees = MultiIndex(M(in + 1, 3));
    throws([&] { TrainMapAdaptive<HS>(ms, ob, o); }, "mismatching sets or degrees are rejected");
}
int main(int argc, char** argv) { return run(argc, argv, [] { int reps = thorough ? 900 : 200; for (int it = 0; it < reps; ++it) section(one); for (int it = 0; it < 20; ++it) section(bad); }); }
