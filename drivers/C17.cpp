// LINK: src/ParameterizedFunctionBase.cpp src/ConditionalMapBase.cpp src/AffineMap.cpp src/IdentityMap.cpp src/SummarizedMap.cpp src/TriangularMap.cpp src/ComposedMap.cpp src/Utilities/LinearAlgebra.cpp src/Initialization.cpp src/Utilities/Miscellaneous.cpp src/Distributions/DensityBase.cpp src/Distributions/PullbackDensity.cpp src/Distributions/GaussianSamplerDensity.cpp src/MapObjective.cpp
// C17: Kullback-Leibler objective, gradient and their combination against forward-mode long double arithmetic.
#include "gauss.h"
#include "MParT/MapObjective.h"
using namespace mpart; using namespace drv;
static void one() {
    int n = RI(1, 4), m = RI(1, n), np = RI(1, 9), nt = RI(1, 6); Node t = randNode(n, m, RI(0, 2)); setn(t, 0.25); bool std_ = RI(0, 1) && n == m;
    Den g = gaussian(m); if (std_) { g.d = nullptr; g.f = [m](std::vector<D> const& x) { D q; for (auto& a : x) q = q + a * a; return D(-0.5L) * q - D(0.5L * m * logl(2 * ref::PI())); }; g.desc = "standard normal from the factory"; }
    bool hasTest = RI(0, 1); SM tr = mkr(n, np, 0.7, RI(0, 3)), te = mkr(n, nt, 0.7, RI(0, 3)); int k = t.map->numCoeffs;
    Case("KL objective of %s and %s, %d training samples, %d test samples", g.desc.c_str(), t.desc.c_str(), np, hasTest ? nt : 0);
    std::shared_ptr<MapObjective<HS>> ob;
    if (std_) ob = hasTest ? ObjectiveFactory::CreateGaussianKLObjective<HS>(CM(tr), CM(te), RI(0, 1) ? n : 0) : ObjectiveFactory::CreateGaussianKLObjective<HS>(CM(tr), RI(0, 1) ? n : 0);
    else if (hasTest) ob = std::make_shared<KLObjective<HS>>(CM(tr), CM(te), g.d); else ob = std::make_shared<KLObjective<HS>>(CM(tr), g.d);
    check((int)ob->InputDim() == n && (int)ob->NumSamples() == np && (int)ob->MapOutputDim() == m, "sizes of the objective");
    std::vector<ld> c; if (k) c = vec(t.map->Coeffs());
    auto F = [&](SM d, std::vector<D> const& cc) { D s; int N = d.extent(1); for (int j = 0; j < N; ++j) { auto x = lift(col(d, j)); s = s - g.f(t.ev(cc, x)) - t.lg(cc, x); } return s / D(N); };
    auto same = [&](SV v, SM d, std::vector<ld> const& cc, const char* nm) { check((int)v.extent(0) == k, "one gradient entry per coefficient"); for (int i = 0; i < k; ++i) cmpm(v(i), F(d, seed(cc, i)).d, 1e-6, nm); };
    ld e = F(tr, lift(c)).v; cmpm(ob->TrainError(t.map), e, 1e-7, "TrainError");
    if (hasTest) cmpm(ob->TestError(t.map), F(te, lift(c)).v, 1e-7, "TestError"); else throws([&] { ob->TestError(t.map); }, "test error without test data is an error");
    same(ob->TrainCoeffGrad(t.map), tr, c, "TrainCoeffGrad");
    SM any = mkr(n, nt, 0.7, RI(0, 3)); cmpm(ob->ObjectiveImpl(any, t.map), F(any, lift(c)).v, 1e-7, "ObjectiveImpl");
    { Vec o(k); ob->CoeffGradImpl(any, o.v, t.map); o.guard(); same(o.v, any, c, "CoeffGradImpl"); }
    { Vec o(k); double v = ob->ObjectivePlusCoeffGradImpl(any, o.v, t.map); o.guard(); same(o.v, any, c, "ObjectivePlusCoeffGradImpl gradient"); cmpm(v, F(any, lift(c)).v, 1e-7, "ObjectivePlusCoeffGradImpl value"); }
    { Vec o(k); ob->TrainCoeffGradImpl(t.map, o.v); o.guard(); same(o.v, tr, c, "TrainCoeffGradImpl"); }
    std::vector<double> x(k), gr(k + 2, 5.0); std::vector<ld> xl; for (auto& q : x) { q = 0.25 * N01(); xl.push_back(q); } auto x0 = x;
    double v = (*ob)(k, x.data(), RI(0, 1) ? gr.data() + 1 : nullptr, t.map); bool wrote = k == 0 || gr[1] != 5.0;
    cmpm(v, F(tr, lift(xl)).v, 1e-7, "operator() value"); check(gr[0] == 5 && gr[k + 1] == 5 && x == x0, "operator() writes the gradient only");
    if (wrote) for (int i = 0; i < k; ++i) cmpm(gr[i + 1], F(tr, seed(xl, i)).d, 1e-6, "operator() gradient");
    for (int i = 0; i < k; ++i) check(t.map->Coeffs()(i) == x[i], "operator() sets the coefficients of the map");
    Den w = gaussian(m + 1); KLObjective<HS> bad(CM(tr), w.d); throws([&] { bad.TrainError(t.map); }, "a map of another output dimension is rejected");
}
int main(int argc, char** argv) {
    return run(argc, argv, [] { int reps = thorough ? 30000 : 3000; for (int it = 0; it < reps; ++it) section(one); });
}
