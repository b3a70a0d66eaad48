// LINK: src/ParameterizedFunctionBase.cpp src/ConditionalMapBase.cpp src/AffineMap.cpp src/IdentityMap.cpp src/SummarizedMap.cpp src/TriangularMap.cpp src/ComposedMap.cpp src/Utilities/LinearAlgebra.cpp src/Initialization.cpp src/Utilities/Miscellaneous.cpp src/Distributions/DensityBase.cpp src/Distributions/PullbackDensity.cpp src/Distributions/GaussianSamplerDensity.cpp
// C16: Gaussian, pullback and pushforward densities against their formulas in forward-mode long double arithmetic.
#include "gauss.h"
#include "MParT/Distributions/PullbackDensity.h"
#include "MParT/Distributions/PushforwardDensity.h"
using namespace mpart; using namespace drv;
static void check_density(DensityBase<HS>& d, DenF f, int n, SM p, double tol, bool grad) {
    int np = p.extent(1), lay = RI(0, 3); CM pts = p; Vec o(np); SM keep = mk(n, np); Kokkos::deep_copy(keep, p);
    d.LogDensityImpl(pts, o.v); o.guard();
    auto o2 = d.LogDensity(pts); Eigen::RowMatrixXd ep(n, np); for (int i = 0; i < n; ++i) for (int j = 0; j < np; ++j) ep(i, j) = p(i, j);
    Eigen::VectorXd o3 = d.LogDensity(ep);
    check((int)o2.extent(0) == np && o3.size() == np, "one log density per point");
    for (int j = 0; j < np; ++j) { ld e = f(lift(col(pts, j))).v; cmpm(o.v(j), e, tol, "LogDensityImpl"); cmpm(o2(j), e, tol, "LogDensity"); cmpm(o3(j), e, tol, "LogDensity of a matrix"); }
    if (grad) {
        SM g = mk(n, np, lay); d.LogDensityInputGradImpl(pts, g); auto g2 = d.LogDensityInputGrad(pts); Eigen::RowMatrixXd g3 = d.LogDensityInputGrad(ep);
        check((int)g2.extent(0) == n && (int)g2.extent(1) == np && g3.rows() == n && g3.cols() == np, "gradient shape");
        for (int j = 0; j < np; ++j) for (int q = 0; q < n; ++q) { ld e = f(seed(col(pts, j), q)).d; cmpm(g(q, j), e, tol, "LogDensityInputGradImpl"); cmpm(g2(q, j), e, tol, "LogDensityInputGrad"); cmpm(g3(q, j), e, tol, "LogDensityInputGrad of a matrix"); }
    }
    for (int i = 0; i < n; ++i) for (int j = 0; j < np; ++j) check(keep(i, j) == p(i, j), "the points are not modified");
}
static void gauss_case() {
    int d = RI(1, 6), np = RI(0, 5) ? RI(1, 7) : 0; Den g = gaussian(d); Case("Gaussian, %s, points=%d", g.desc.c_str(), np);
    check((int)g.d->Dim() == d, "dimension"); check_density(*g.d, g.f, d, mkr(d, np, 1.5, RI(0, 3)), 1e-7, true);
    int b = d + (RI(0, 1) && d > 1 ? -1 : 1); SM p = mkr(b, np + 1); SV o = mkv(np + 1); SM go = mk(b, np + 1);
    throws([&] { g.d->LogDensityImpl(p, o); }, "points of another dimension are rejected"); throws([&] { g.d->LogDensityInputGradImpl(p, go); }, "points of another dimension are rejected");
}
static void pull_case() {
    int n = RI(1, 4), m = RI(1, n), np = RI(0, 5) ? RI(1, 5) : 0; Node t = randNode(n, m, RI(0, 2)); setn(t, 0.25); Den g = gaussian(m);
    std::vector<D> c; if (t.map->numCoeffs) c = lift(vec(t.map->Coeffs()));
    Case("pullback of %s by %s, points=%d", g.desc.c_str(), t.desc.c_str(), np);
    PullbackDensity<HS> pb(t.map, g.d); SM p = mkr(n, np, 0.6, RI(0, 3)); CM pts = p;
    check_density(pb, [=](std::vector<D> const& x) { return g.f(t.ev(c, x)) + t.lg(c, x); }, n, p, 1e-6, true);
    int k = t.map->numCoeffs; SM o = mk(k, np, RI(0, 3)); pb.LogDensityCoeffGradImpl(pts, o); auto o2 = pb.LogDensityCoeffGrad(pts);
    Eigen::RowMatrixXd ep(n, np); for (int i = 0; i < n; ++i) for (int j = 0; j < np; ++j) ep(i, j) = p(i, j);
    Eigen::RowMatrixXd o3 = pb.LogDensityCoeffGrad(ep); check((int)o2.extent(0) == k && (int)o2.extent(1) == np && o3.rows() == k && o3.cols() == np, "coefficient gradient shape");
    std::vector<ld> cv; for (auto& q : c) cv.push_back(q.v);
    for (int j = 0; j < np; ++j) for (int q = 0; q < k; ++q) { auto x = lift(col(pts, j)); auto s = seed(cv, q); ld e = (g.f(t.ev(s, x)) + t.lg(s, x)).d;
        cmpm(o(q, j), e, 1e-6, "LogDensityCoeffGradImpl"); cmpm(o2(q, j), e, 1e-6, "LogDensityCoeffGrad"); cmpm(o3(q, j), e, 1e-6, "LogDensityCoeffGrad of a matrix"); }
    Den w = gaussian(m + 1); throws([&] { PullbackDensity<HS> bad(t.map, w.d); }, "pullback of a density of another dimension is rejected");
}
static void push_case() {
    int n = RI(1, 4), np = RI(0, 5) ? RI(1, 5) : 0; Node t = randNode(n, n, RI(0, 2)); setn(t, 0.25); Den g = gaussian(n);
    std::vector<D> c; if (t.map->numCoeffs) c = lift(vec(t.map->Coeffs()));
    Case("pushforward of %s by %s, points=%d", g.desc.c_str(), t.desc.c_str(), np);
    PushforwardDensity<HS> pf(t.map, g.d); SM x = mkr(n, np, 0.6), y = mk(n, np, RI(0, 3)); t.map->EvaluateImpl(x, y);
    int lay = RI(0, 3); (void)lay; Vec o(np); pf.LogDensityImpl(y, o.v); o.guard(); auto o2 = pf.LogDensity(CM(y));
    for (int j = 0; j < np; ++j) { auto xj = lift(col(x, j)); ld e = (g.f(xj) - t.lg(c, xj)).v; cmpm(o.v(j), e, 1e-6, "pushforward LogDensityImpl"); cmpm(o2(j), e, 1e-6, "pushforward LogDensity"); }
    SM go = mk(n, np); throws([&] { pf.LogDensityInputGradImpl(y, go); }, "pushforward gradient is not available");
    Den w = gaussian(n + 1); throws([&] { PushforwardDensity<HS> bad(t.map, w.d); }, "pushforward of a density of another dimension is rejected");
    Node r = randNode(n + 1, n, 0); Den w2 = gaussian(n + 1); throws([&] { PushforwardDensity<HS> bad(r.map, w2.d); }, "pushforward by a non-square map is rejected"); throws([&] { PushforwardDensity<HS> bad(r.map, g.d); }, "pushforward by a non-square map is rejected");
}
int main(int argc, char** argv) {
    return run(argc, argv, [] {
        int reps = thorough ? 40000 : 4000;
        for (int it = 0; it < reps; ++it) { section(gauss_case); section(pull_case); section(push_case); }
    });
}
