// LINK: src/MultiIndices/MultiIndex.cpp src/MultiIndices/MultiIndexSet.cpp src/MultiIndices/MultiIndexLimiter.cpp src/MultiIndices/MultiIndexNeighborhood.cpp src/MultiIndices/FixedMultiIndexSet.cpp src/ParameterizedFunctionBase.cpp
#include "common.h"
#include "ref.h"
#include "sets.h"
#include "MParT/MultivariateExpansion.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/HermiteFunction.h"
#include "MParT/LinearizedBasis.h"
using namespace mpart; using namespace drv; using ref::ld;
typedef Kokkos::HostSpace HS;
template<class B> void one(B const& basis, ref::Basis rb, const char* bname) {
    int dim = RI(1, 5), ord = RI(0, dim > 3 ? 3 : 6);
    auto multis = random_multis(dim, ord);
    FixedMultiIndexSet<HS> fs = MultiIndexSet(toMat(multis)).Fix(true);
    int N = multis.size();
    bool ties = RI(0, 3) == 0;
    std::vector<double> x(dim), c(N);
    for (auto& v : x) v = ties ? RI(-2, 2) : U(-4, 4);
    for (auto& v : c) v = RI(0, 9) == 0 ? 0 : N01();
    Case("basis=%s dim=%d terms=%d first=%s x=%s", bname, dim, N, show(multis).c_str(), show(x).c_str());
    MultivariateExpansionWorker<B, HS> w(fs, basis);
    Kokkos::View<double*, HS> cv("c", N), pt("pt", dim), g("g", dim), cg("cg", N);
    for (int i = 0; i < N; ++i) cv(i) = c[i];
    for (int i = 0; i < dim; ++i) pt(i) = x[i];
    check((int)w.NumCoeffs() == N && (int)w.InputSize() == dim, "sizes");
    std::vector<double> cache(w.CacheSize() + 8, 1e300);
    for (int i = 0; i < 8; ++i) cache[w.CacheSize() + i] = -7.25;
    std::vector<int> z(dim, 0);
    auto sum = [&](std::vector<int> const& der) { ld s = 0, m = 0; for (int t = 0; t < N; ++t) { ld v = c[t] * ref::term(rb, multis[t], x, der); s += v; m += fabsl(v); } return std::make_pair(s, m); };
    auto cmp = [&](double got, std::vector<int> const& der, const char* name) { auto e = sum(der); check(std::abs(got - (double)e.first) <= 1e-9 * (1 + (double)e.second), name, "got " + num(got) + " expected " + num(e.first)); };
    auto fill = [&](DerivativeFlags::DerivativeType f) { std::fill(cache.begin(), cache.begin() + w.CacheSize(), 1e300); w.FillCache1(cache.data(), pt, f); w.FillCache2(cache.data(), pt, x[dim - 1], f); };
    fill(DerivativeFlags::None);
    cmp(w.Evaluate(cache.data(), cv), z, "value");
    fill(DerivativeFlags::Parameters);
    cmp(w.CoeffDerivative(cache.data(), cv, cg), z, "coeff-derivative-value");
    for (int t = 0; t < N; ++t) { ld e = ref::term(rb, multis[t], x, z); check(std::abs(cg(t) - (double)e) <= 1e-9 * (1 + std::abs((double)e)), "coeff-gradient"); }
    for (int i = 0; i < dim; ++i) g(i) = 77.0;
    fill(DerivativeFlags::Input);
    cmp(w.InputDerivative(cache.data(), cv, g), z, "input-derivative-value");
    for (int i = 0; i < dim; ++i) { auto d = z; d[i] = 1; cmp(g(i), d, "input-gradient"); }
    fill(DerivativeFlags::Diagonal);
    { auto d = z; d[dim - 1] = 1; cmp(w.DiagonalDerivative(cache.data(), cv, 1), d, "diagonal-derivative");
      cmp(w.MixedCoeffDerivative(cache.data(), cv, 1, cg), d, "mixed-coeff-value");
      for (int t = 0; t < N; ++t) { ld e = ref::term(rb, multis[t], x, d); check(std::abs(cg(t) - (double)e) <= 1e-9 * (1 + std::abs((double)e)), "mixed-coeff-gradient"); } }
    fill(DerivativeFlags::Diagonal2);
    { auto d = z; d[dim - 1] = 2; cmp(w.DiagonalDerivative(cache.data(), cv, 2), d, "second-diagonal-derivative");
      w.MixedCoeffDerivative(cache.data(), cv, 2, cg);
      for (int t = 0; t < N; ++t) { ld e = ref::term(rb, multis[t], x, d); check(std::abs(cg(t) - (double)e) <= 1e-9 * (1 + std::abs((double)e)), "mixed-coeff-second-gradient"); } }
    fill(DerivativeFlags::MixedInput);
    for (int i = 0; i < dim; ++i) g(i) = 77.0;
    { auto d = z; d[dim - 1] = 1; cmp(w.MixedInputDerivative(cache.data(), cv, g), d, "mixed-input-value");
      for (int i = 0; i < dim; ++i) { auto e = d; e[i] += 1; cmp(g(i), e, "mixed-input-gradient"); } }
    for (int i = 0; i < 8; ++i) check(cache[w.CacheSize() + i] == -7.25, "cache-overrun");
    // whole function object: several points, several outputs
    int od = RI(1, 3), np = RI(1, 5);
    MultivariateExpansion<B, HS> f(od, fs, basis);
    Kokkos::View<double**, Kokkos::LayoutLeft, HS> P("P", dim, np), S("S", od, np);
    Kokkos::View<double*, HS> C("C", N * od);
    for (int i = 0; i < N * od; ++i) C(i) = N01();
    for (int j = 0; j < np; ++j) { for (int i = 0; i < dim; ++i) P(i, j) = U(-3, 3); for (int i = 0; i < od; ++i) S(i, j) = N01(); }
    f.SetCoeffs(Kokkos::View<const double*, HS>(C));
    StridedMatrix<const double, HS> Pc = P, Sc = S;
    auto Y = f.Evaluate(Pc); auto G = f.Gradient(Pc, Sc); auto K = f.CoeffGrad(Pc, Sc);
    check((int)Y.extent(0) == od && (int)Y.extent(1) == np && (int)G.extent(0) == dim && (int)K.extent(0) == N * od, "function-shapes");
    for (int j = 0; j < np; ++j) {
        std::vector<double> xx(dim); for (int i = 0; i < dim; ++i) xx[i] = P(i, j);
        std::vector<ld> gr(dim, 0), gm(dim, 0);
        for (int o = 0; o < od; ++o) {
            ld s = 0, m = 0;
            for (int t = 0; t < N; ++t) {
                ld v = ref::term(rb, multis[t], xx, z); s += C(o * N + t) * v; m += fabsl(C(o * N + t) * v);
                check(std::abs(K(o * N + t, j) - (double)(S(o, j) * v)) <= 1e-9 * (1 + std::abs((double)v)), "function-coeff-gradient");
                for (int i = 0; i < dim; ++i) { auto d = z; d[i] = 1; ld q = S(o, j) * C(o * N + t) * ref::term(rb, multis[t], xx, d); gr[i] += q; gm[i] += fabsl(q); }
            }
            check(std::abs(Y(o, j) - (double)s) <= 1e-9 * (1 + (double)m), "function-value");
        }
        for (int i = 0; i < dim; ++i) check(std::abs(G(i, j) - (double)gr[i]) <= 1e-9 * (1 + (double)gm[i]), "function-gradient");
    }
}
int main(int c, char** v) { return run(c, v, [] {
    int n = thorough ? 4000 : 300;
    for (int i = 0; i < n; ++i) {
        bool nm = RI(0, 1);
        switch (RI(0, 4)) {
            case 0: section([&] { one(ProbabilistHermite(nm), ref::ProbHermite(nm), nm ? "probabilist-normalised" : "probabilist"); }); break;
            case 1: section([&] { one(PhysicistHermite(nm), ref::PhysHermite(nm), nm ? "physicist-normalised" : "physicist"); }); break;
            case 2: section([&] { one(HermiteFunction(), ref::HermFun(), "hermite-function"); }); break;
            case 3: section([&] { one(LinearizedBasis<ProbabilistHermite>(ProbabilistHermite(nm), -2, 1.5), ref::Linearized(ref::ProbHermite(nm), -2, 1.5), "linearised-probabilist"); }); break;
            default: section([&] { one(LinearizedBasis<HermiteFunction>(HermiteFunction(), -1, 2.5), ref::Linearized(ref::HermFun(), -1, 2.5), "linearised-hermite-function"); });
        }
    }
}); }
