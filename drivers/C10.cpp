// LINK: src/MultiIndices/MultiIndex.cpp src/MultiIndices/MultiIndexSet.cpp src/MultiIndices/MultiIndexLimiter.cpp src/MultiIndices/MultiIndexNeighborhood.cpp src/MultiIndices/FixedMultiIndexSet.cpp src/ParameterizedFunctionBase.cpp src/ConditionalMapBase.cpp
// FLAGS: -UMPART_HAS_CEREAL
#include "common.h"
#include "ref.h"
#include "sets.h"
#include "maps.h"
#include "MParT/MonotoneComponent.h"
#include "MParT/Quadrature.h"
#include "MParT/PositiveBijectors.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/HermiteFunction.h"
#include "MParT/LinearizedBasis.h"
using namespace mpart; using namespace drv;
struct G { ld v, d, dd; };
G gexp(ld x) { ld e = expl(x); return {e, e, e}; }
G gsoft(ld x) { ld s = 1 / (1 + expl(-x)); return {x > 0 ? x + log1pl(expl(-x)) : log1pl(expl(x)), s, s * (1 - s)}; }
// interpolatory weights at the Chebyshev extrema, on [0,1]
void rule(int n, std::vector<ld>& t, std::vector<ld>& w) {
    t.assign(n, 0); w.assign(n, 0); int N = n - 1;
    if (n == 1) { t[0] = 0.5; w[0] = 1; return; }
    for (int k = 0; k <= N; ++k) {
        ld th = k * ref::PI() / N, s = 0;
        for (int j = 0; 2 * j <= N; ++j) { ld b = (j == 0 || 2 * j == N) ? 1 : 2; s += b / (1 - 4.0L * j * j) * cosl(2 * j * th); }
        t[k] = (1 - cosl(th)) / 2; w[k] = ((k == 0 || k == N) ? 1 : 2) * s / N / 2;
    }
}
struct Ref {
    ref::Basis b; std::vector<std::vector<unsigned>> mi; std::function<G(ld)> g; ld nug; std::vector<ld> t, w; int d;
    typedef std::vector<double> V;
    ld term(int k, V const& x, ld xd, int der, int i = -1) const { ld v = 1; for (int q = 0; q < d; ++q) { int e = (q == d - 1 ? der : 0) + (q == i ? 1 : 0); unsigned m = mi[k][q]; if (m == 0) { if (e) return 0; continue; } v *= b(m, q == d - 1 ? xd : (ld)x[q], e); } return v; }
    ld f(V const& c, V const& x, ld xd, int der, int i = -1) const { ld s = 0; for (size_t k = 0; k < mi.size(); ++k) s += c[k] * term(k, x, xd, der, i); return s; }
    template<class F> ld S(F fn) const { ld s = 0; for (size_t q = 0; q < t.size(); ++q) s += w[q] * fn(t[q]); return s; }
    ld T(V const& c, V const& x, ld xd) const { return f(c, x, 0, 0) + S([&](ld s) { return xd * (g(f(c, x, s * xd, 1)).v + nug); }); }
    ld dT(V const& c, V const& x, ld xd) const { return S([&](ld s) { G a = g(f(c, x, s * xd, 1)); return a.v + nug + xd * s * a.d * f(c, x, s * xd, 2); }); }
    ld cT(V const& c, V const& x, ld xd, int k) const { return term(k, x, 0, 0) + S([&](ld s) { return xd * g(f(c, x, s * xd, 1)).d * term(k, x, s * xd, 1); }); }
    ld iT(V const& c, V const& x, ld xd, int i) const { if (i == d - 1) return dT(c, x, xd); return f(c, x, 0, 0, i) + S([&](ld s) { return xd * g(f(c, x, s * xd, 1)).d * f(c, x, s * xd, 1, i); }); }
    ld cdT(V const& c, V const& x, ld xd, int k) const { return S([&](ld s) { ld y = s * xd; G a = g(f(c, x, y, 1)); return a.d * term(k, x, y, 1) + xd * s * (a.dd * f(c, x, y, 2) * term(k, x, y, 1) + a.d * term(k, x, y, 2)); }); }
    G slope(V const& c, V const& x, ld xd) const { G a = g(f(c, x, xd, 1)); a.v += nug; return a; }
};
bool moderate = false;
template<class Pos, class Q, class B> void one(Q const& quad, std::vector<ld> t, std::vector<ld> w, B const& basis, ref::Basis rb, std::function<G(ld)> g, double tol, const char* what) {
    int dim = RI(1, 4), ord = RI(0, dim > 2 ? 2 : 3);
    auto mi = random_multis(dim, ord); if (mi.size() > 10) return;
    int N = mi.size(), np = RI(1, 6); bool cont = RI(0, 1); double nug = RI(0, 1) ? 0 : U(0, 0.7);
    Ref r{rb, mi, g, nug, t, w, dim};
    FixedMultiIndexSet<HS> fs = MultiIndexSet(toMat(mi)).Fix(true);
    MultivariateExpansionWorker<B, HS> ex(fs, basis);
    MonotoneComponent<MultivariateExpansionWorker<B, HS>, Pos, Q, HS> comp(ex, quad, cont, nug);
    std::vector<double> c(N); Kokkos::View<double*, HS> cv("c", N); for (int k = 0; k < N; ++k) cv(k) = c[k] = (moderate ? 0.2 : 0.5) * N01();
    comp.SetCoeffs(Kokkos::View<const double*, HS>(cv));
    int lay = RI(0, 3); SM pts = mkr(dim, np, moderate ? 0.7 : 1.0, lay);
    if (RI(0, 3) == 0) pts(dim - 1, 0) = 0;
    Case("%s dim=%d terms=%s points=%d continuous=%d nugget=%g layout=%s c=%s", what, dim, show(mi).c_str(), np, (int)cont, nug, g_lay[lay], show(c).c_str());
    StridedVector<const double, HS> cc = cv; CM P = pts; std::vector<std::vector<double>> X(np, std::vector<double>(dim)); for (int j = 0; j < np; ++j) for (int i = 0; i < dim; ++i) X[j][i] = pts(i, j);
    auto xd = [&](int j) { return (ld)X[j][dim - 1]; };
    SM o = mk(1, np, lay); comp.EvaluateImpl(P, o);
    SV a = mkv(np), b = mkv(np); comp.EvaluateImpl(P, cc, a); for (int j = 0; j < np; ++j) { ld T = r.T(c, X[j], xd(j)); cmpm(o(0, j), T, tol, "Evaluate"); cmpm(a(j), T, tol, "EvaluateImpl"); }
    SV d = mkv(np); comp.ContinuousDerivative(P, cc, d);
    SV dd = mkv(np), ev = mkv(np); comp.DiscreteDerivative(P, cc, ev, dd);
    for (int j = 0; j < np; ++j) {
        ld s = r.slope(c, X[j], xd(j)).v; check(d(j) > 0, "ContinuousDerivative positive", num(d(j))); cmpm(d(j), s, tol, "ContinuousDerivative");
        cmpm(ev(j), r.T(c, X[j], xd(j)), tol, "DiscreteDerivative value"); cmpm(dd(j), r.dT(c, X[j], xd(j)), tol, "DiscreteDerivative");
    }
    SM sens = mkr(1, np); SM gr = mk(dim, np, lay); comp.GradientImpl(P, sens, gr); SM cg = mk(N, np, lay); comp.CoeffGradImpl(P, sens, cg);
    SM ij = mk(dim, np, lay), cj = mk(N, np, lay), mj = mk(N, np, lay), dm = mk(N, np, lay), mi_ = mk(dim, np, lay); SV e1 = mkv(np), e2 = mkv(np);
    comp.InputJacobian(P, cc, e1, ij); comp.CoeffJacobian(P, cc, e2, cj); comp.ContinuousMixedJacobian(P, cc, mj); comp.DiscreteMixedJacobian(P, cc, dm); comp.ContinuousMixedInputJacobian(P, cc, mi_);
    for (int j = 0; j < np; ++j) {
        ld T = r.T(c, X[j], xd(j)); cmpm(e1(j), T, tol, "InputJacobian value"); cmpm(e2(j), T, tol, "CoeffJacobian value"); G sl = r.slope(c, X[j], xd(j));
        for (int i = 0; i < dim; ++i) { ld e = r.iT(c, X[j], xd(j), i); cmpm(ij(i, j), e, tol, "InputJacobian"); cmpm(gr(i, j), sens(0, j) * e, tol, "Gradient"); cmpm(mi_(i, j), sl.d * r.f(c, X[j], xd(j), 1, i), tol, "ContinuousMixedInputJacobian"); }
        for (int k = 0; k < N; ++k) { ld e = r.cT(c, X[j], xd(j), k); cmpm(cj(k, j), e, tol, "CoeffJacobian"); cmpm(cg(k, j), sens(0, j) * e, tol, "CoeffGrad"); cmpm(mj(k, j), sl.d * r.term(k, X[j], xd(j), 1), tol, "ContinuousMixedJacobian"); cmpm(dm(k, j), r.cdT(c, X[j], xd(j), k), tol, "DiscreteMixedJacobian"); }
    }
    SV l = mkv(np); comp.LogDeterminantImpl(P, l); SM lc = mk(N, np, lay); comp.LogDeterminantCoeffGradImpl(P, lc);
    for (int j = 0; j < np; ++j) {
        G sl = r.slope(c, X[j], xd(j)); ld s = cont ? sl.v : r.dT(c, X[j], xd(j)); if (s < 1e-6) continue;
        cmpm(l(j), logl(s), 10 * tol, "LogDeterminant"); for (int k = 0; k < N; ++k) cmpm(lc(k, j), (cont ? sl.d * r.term(k, X[j], xd(j), 1) : r.cdT(c, X[j], xd(j), k)) / s, 100 * tol, "LogDeterminantCoeffGrad");
    }
    if (cont) { SM li = mk(dim, np, lay); comp.LogDeterminantInputGradImpl(P, li); for (int j = 0; j < np; ++j) { G sl = r.slope(c, X[j], xd(j)); for (int i = 0; i < dim; ++i) cmpm(li(i, j), sl.d * r.f(c, X[j], xd(j), 1, i) / sl.v, 100 * tol, "LogDeterminantInputGrad"); } }
    // inversion, with and without the last row, for one point or one point per target
    int rows = dim - RI(0, 1), nx = RI(0, 1) ? np : 1; SM x1 = mk(rows, nx, lay); for (int j = 0; j < nx; ++j) for (int i = 0; i < rows; ++i) x1(i, j) = X[j][i];
    SM y = mk(1, np, lay); std::vector<double> want(np); bool mono = true;
    for (int j = 0; j < np; ++j) { want[j] = X[j][dim - 1]; y(0, j) = r.T(c, X[nx == 1 ? 0 : j], want[j]); for (int q = -12; q <= 12; ++q) if (r.dT(c, X[nx == 1 ? 0 : j], q / 3.0L) < 1e-2) mono = false; }
    if (mono) { SM inv = mk(1, np, lay); comp.InverseImpl(CM(x1), CM(y), inv); for (int j = 0; j < np; ++j) { auto z = X[nx == 1 ? 0 : j]; ld back = r.T(c, z, inv(0, j)); check(std::isfinite(inv(0, j)) && (std::abs((double)back - y(0, j)) <= 1e-5 + 100 * tol || std::abs(inv(0, j) - want[j]) <= 1e-5), "Inverse", "T(inverse) " + num(back) + " target " + num(y(0, j))); } }
}
int main(int c, char** v) { return run(c, v, [] {
    int n = thorough ? 20000 : 2000;
    for (int q = 0; q < n; ++q) section([&] {
        std::vector<ld> t, w; int k = RI(2, 9); rule(k, t, w); ClenshawCurtisQuadrature<HS> cc(k, 1, nullptr);
        moderate = false;
        switch (RI(0, 3)) {
            case 0: one<Exp>(cc, t, w, ProbabilistHermite(false), ref::ProbHermite(false), gexp, 1e-8, "Clenshaw-Curtis Exp Hermite"); break;
            case 1: one<SoftPlus>(cc, t, w, PhysicistHermite(true), ref::PhysHermite(true), gsoft, 1e-8, "Clenshaw-Curtis SoftPlus physicist Hermite"); break;
            case 2: one<SoftPlus>(cc, t, w, HermiteFunction(), ref::HermFun(), gsoft, 1e-8, "Clenshaw-Curtis SoftPlus Hermite function"); break;
            default: one<SoftPlus>(cc, t, w, LinearizedBasis<ProbabilistHermite>(ProbabilistHermite(false), -0.8, 1.1), ref::Linearized(ref::ProbHermite(false), -0.8L, 1.1L), gsoft, 1e-8, "Clenshaw-Curtis SoftPlus linearised Hermite");
        }
    });
    std::vector<ld> t, w; rule(49, t, w); moderate = true;
    for (int q = 0; q < n / 6; ++q) section([&] {
        AdaptiveSimpson<HS> s(30, 1, nullptr, 1e-9, 1e-9, QuadError::First, 3);
        if (RI(0, 1)) one<SoftPlus>(s, t, w, ProbabilistHermite(false), ref::ProbHermite(false), gsoft, 1e-5, "adaptive Simpson SoftPlus Hermite");
        else { AdaptiveClenshawCurtis<HS> a(2, 8, 1, nullptr, 1e-9, 1e-9, QuadError::First, 2); one<SoftPlus>(a, t, w, ProbabilistHermite(false), ref::ProbHermite(false), gsoft, 1e-5, "adaptive Clenshaw-Curtis SoftPlus Hermite"); }
    });
}); }
