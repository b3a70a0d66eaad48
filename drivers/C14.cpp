// LINK: src/ParameterizedFunctionBase.cpp src/ConditionalMapBase.cpp src/AffineMap.cpp src/IdentityMap.cpp src/SummarizedMap.cpp src/TriangularMap.cpp src/ComposedMap.cpp src/Utilities/LinearAlgebra.cpp src/Initialization.cpp src/Utilities/Miscellaneous.cpp src/MultiIndices/MultiIndex.cpp src/MultiIndices/MultiIndexSet.cpp src/MultiIndices/MultiIndexLimiter.cpp src/MultiIndices/MultiIndexNeighborhood.cpp src/MultiIndices/FixedMultiIndexSet.cpp
// C14: histories of setting, wrapping and misusing coefficients on random trees of maps and on expansions.
#include "composite.h"
#include "MParT/MultivariateExpansion.h"
#include "MParT/OrthogonalPolynomial.h"
using namespace mpart; using namespace drv;
typedef Kokkos::View<double*, HS> V; typedef Kokkos::View<const double*, HS> CV;
static V rv(int n, double s = 0.4) { V v("c", n); for (int i = 0; i < n; ++i) v(i) = s * N01(); return v; }
static Node sumNode(int n, Node comp) {        // summary of the first n-m inputs
    int m = comp.map->outputDim, l = comp.map->inputDim - m; Node r; auto s = std::make_shared<ToyFun>(n - m, l); setc(*s); auto sc = s->c(); ToyF f = s->t;
    r.map = std::make_shared<SummarizedMap<HS>>(s, comp.map); r.desc = "Sum(" + comp.desc + ")";
    auto in = [=](std::vector<D> const& x) { auto y = f.eval(lift(sc), slice(x, 0, n - m)); y.insert(y.end(), x.begin() + (n - m), x.end()); return y; };
    r.ev = [=](std::vector<D> const& c, std::vector<D> const& x) { return comp.ev(c, in(x)); };
    r.lg = [=](std::vector<D> const& c, std::vector<D> const& x) { return comp.lg(c, in(x)); };
    return r;
}
static void uses(Node& t, std::vector<double> const& c, const char* when) {
    auto& f = *t.map; int n = f.inputDim, m = f.outputDim, np = RI(1, 3);
    auto got = f.Coeffs(); check(got.extent(0) == c.size(), "Coeffs reports the length", when);
    for (size_t i = 0; i < c.size() && i < got.extent(0); ++i) check(got(i) == c[i], "Coeffs reports the values set", when);
    if (c.size()) { auto e = f.CoeffMap(); for (size_t i = 0; i < c.size(); ++i) check(e(i) == c[i], "CoeffMap reports the values set", when); }
    std::vector<ld> cl(c.begin(), c.end());
    SM p = mkr(n, np, 0.7); auto o = f.Evaluate(p); auto l = f.LogDeterminant(p);
    for (int j = 0; j < np; ++j) { auto e = t.ev(lift(cl), lift(col(p, j))); for (int i = 0; i < m; ++i) cmpm(o(i, j), e[i].v, 1e-8, when); cmpm(l(j), t.lg(lift(cl), lift(col(p, j))).v, 1e-8, when); }
    auto s = mkr(m, np); auto cg = f.CoeffGrad(p, s); check(cg.extent(0) == c.size(), "CoeffGrad size");
    for (int j = 0; j < np; ++j) for (size_t q = 0; q < c.size(); ++q) { auto d = t.ev(seed(cl, q), lift(col(p, j))); ld e = 0; for (int i = 0; i < m; ++i) e += s(i, j) * d[i].d; cmpm(cg(q, j), e, 1e-8, "CoeffGrad uses the values set"); }
}
static void unset(ConditionalMapBase<HS>& f) {
    int n = f.inputDim, m = f.outputDim, np = RI(1, 3); SM p = mkr(n, np), s = mkr(m, np), x1 = mkr(n, np);
    CM cp = p, cs = s, cx = x1;
    throws([&] { f.Evaluate(cp); }, "Evaluate before coefficients is an error"); throws([&] { f.Gradient(cp, cs); }, "Gradient before coefficients is an error");
    throws([&] { f.CoeffGrad(cp, cs); }, "CoeffGrad before coefficients is an error"); throws([&] { f.LogDeterminant(cp); }, "LogDeterminant before coefficients is an error");
    throws([&] { f.LogDeterminantCoeffGrad(cp); }, "LogDeterminantCoeffGrad before coefficients is an error"); throws([&] { f.LogDeterminantInputGrad(cp); }, "LogDeterminantInputGrad before coefficients is an error");
    throws([&] { f.Inverse(cx, cs); }, "Inverse before coefficients is an error"); throws([&] { f.CoeffMap(); }, "CoeffMap before coefficients is an error");
    Eigen::RowMatrixXd ep = Eigen::RowMatrixXd::Random(n, np), es = Eigen::RowMatrixXd::Random(m, np);
    throws([&] { f.Evaluate(ep); }, "Evaluate(Eigen) before coefficients is an error"); throws([&] { f.Gradient(ep, es); }, "Gradient(Eigen) before coefficients is an error");
    throws([&] { f.CoeffGrad(ep, es); }, "CoeffGrad(Eigen) before coefficients is an error"); throws([&] { f.LogDeterminant(ep); }, "LogDeterminant(Eigen) before coefficients is an error");
    throws([&] { f.Inverse(ep, es); }, "Inverse(Eigen) before coefficients is an error");
    throws([&] { f.LogDeterminantCoeffGrad(ep); }, "LogDeterminantCoeffGrad(Eigen) before coefficients is an error"); throws([&] { f.LogDeterminantInputGrad(ep); }, "LogDeterminantInputGrad(Eigen) before coefficients is an error");
    check(!f.CheckCoefficients(), "CheckCoefficients is false before coefficients are set");
}
static void wrong(ConditionalMapBase<HS>& f) {
    int k = f.numCoeffs;
    for (int b : {k - 1, k + 1, 0, k + RI(2, 5)}) if (b >= 0 && b != k) {
        V v = rv(b); Eigen::VectorXd e = Eigen::VectorXd::Random(b);
        throws([&] { f.SetCoeffs(CV(v)); }, "SetCoeffs rejects a wrong length"); throws([&] { f.WrapCoeffs(v); }, "WrapCoeffs rejects a wrong length");
        throws([&] { f.SetCoeffs(Eigen::Ref<Eigen::VectorXd>(e)); }, "SetCoeffs(Eigen) rejects a wrong length"); throws([&] { f.WrapCoeffs(Eigen::Ref<Eigen::VectorXd>(e)); }, "WrapCoeffs(Eigen) rejects a wrong length");
    }
}
static Node tree(int n, int m, int depth) {
    int k = RI(0, 5);
    if (k == 0 && m == 1) { Node c = randNode(m + RI(1, 2), m, depth); if (n > m) return sumNode(n, c); return c; }
    if (k < 3 && n == m) return randComp(n, depth);
    if (k == 5) return randNode(n, m, 0);
    return randTri(n, m, depth);
}
static void expansion() {
    int dim = RI(1, 3); auto l = random_list(dim, 3); FixedMultiIndexSet<HS> fs = MultiIndexSet(toMat(l)).Fix(true); int out = RI(1, 3);
    MultivariateExpansion<ProbabilistHermite, HS> f(out, fs, ProbabilistHermite()); int k = f.numCoeffs, np = RI(1, 3);
    Case("MultivariateExpansion in=%d out=%d coefficients=%d", dim, out, k);
    check(k == out * (int)l.size(), "number of coefficients of an expansion");
    SM p = mkr(dim, np), s = mkr(out, np); CM cp = p, cs = s;
    throws([&] { f.Evaluate(cp); }, "Evaluate before coefficients is an error"); throws([&] { f.CoeffGrad(cp, cs); }, "CoeffGrad before coefficients is an error"); throws([&] { f.Gradient(cp, cs); }, "Gradient before coefficients is an error");
    V bad = rv(k + 1); throws([&] { f.SetCoeffs(CV(bad)); }, "SetCoeffs rejects a wrong length");
    V c = rv(k); f.SetCoeffs(CV(c)); V c0("c0", k); Kokkos::deep_copy(c0, c); for (int i = 0; i < k; ++i) c(i) = 1e9;
    for (int i = 0; i < k; ++i) check(f.Coeffs()(i) == c0(i), "Coeffs reports the values set");
    auto lin = [&](CV q) { auto o = f.Evaluate(cp); auto g = f.CoeffGrad(cp, cs); for (int j = 0; j < np; ++j) { ld a = 0, b = 0; for (int i = 0; i < out; ++i) a += s(i, j) * o(i, j); for (int t = 0; t < k; ++t) b += (ld)q(t) * g(t, j); cmpm(a, b, 1e-8, "an expansion uses the coefficients set"); } };
    lin(c0);
    V w = rv(k); f.WrapCoeffs(w); lin(w); for (int i = 0; i < k; ++i) w(i) = N01(); lin(w);
}
int main(int argc, char** argv) {
    return run(argc, argv, [] {
        int reps = thorough ? 20000 : 1500;
        for (int it = 0; it < reps; ++it) section([&] {
            if (it % 12 == 0) { expansion(); return; }
            int m = RI(1, 4), n = m + (RI(0, 1) ? RI(0, 2) : 0);
            Node t = tree(n, m, RI(0, 3)); auto& f = *t.map; int k = f.numCoeffs;
            std::string h = t.desc + " coefficients=" + std::to_string(k) + " history:"; auto step = [&](std::string s) { h += " " + s; Case("%s", h.c_str()); }; step("new");
            if (k) unset(f);
            wrong(f);
            if (k) unset(f);
            V ext; std::vector<double> cur(k, 0); bool have = k == 0;
            for (int s = 0; s < RI(2, 5); ++s) {
                int op = RI(0, 6); V v = rv(k); std::vector<double> vs(k); for (int i = 0; i < k; ++i) vs[i] = v(i);
                if (op == 0) { step("SetCoeffs"); f.SetCoeffs(CV(v)); for (int i = 0; i < k; ++i) { v(i) = 77 + i; } cur = vs; have = true; }
                else if (op == 1) { step("SetCoeffs(Eigen)"); Eigen::VectorXd e(k); for (int i = 0; i < k; ++i) e(i) = vs[i]; f.SetCoeffs(Eigen::Ref<Eigen::VectorXd>(e)); e.setConstant(77); cur = vs; have = true; }
                else if (op == 2) { step("WrapCoeffs"); f.WrapCoeffs(v); ext = v; cur = vs; have = true; }
                else if (op == 3 && ext.extent(0) == (size_t)k && k && have) { step("write wrapped memory"); bool same = f.Coeffs().data() == ext.data(); for (int i = 0; i < k; ++i) ext(i) = 0.3 * N01(); if (same) for (int i = 0; i < k; ++i) cur[i] = ext(i); }
                else if (op == 4 && have && k) { step("write CoeffMap"); auto e = f.CoeffMap(); int i = RI(0, k - 1); e(i) = 0.25; cur[i] = 0.25; }
                else if (op == 5) { step("wrong length"); wrong(f); }
                else if (op == 6 && k) { step("WrapCoeffs(Eigen)"); static std::vector<Eigen::VectorXd*> keep; auto e = new Eigen::VectorXd(k); keep.push_back(e); for (int i = 0; i < k; ++i) (*e)(i) = vs[i]; f.WrapCoeffs(Eigen::Ref<Eigen::VectorXd>(*e)); (*e)(0) = -0.125; vs[0] = -0.125; cur = vs; have = true; ext = V(); }
                if (have) uses(t, cur, h.find("Wrap") != std::string::npos ? "evaluation follows the wrapped memory" : "evaluation uses the values set"); else unset(f);
            }
            // construction that moves coefficients already set on the components
            std::vector<Node> cs; std::vector<std::shared_ptr<ConditionalMapBase<HS>>> ms; std::vector<double> all; bool tri = RI(0, 1); int in = RI(0, 2), d = RI(1, 3);
                        for (int q = RI(1, 4); q > 0; --q) { int b = tri ? RI(1, 2) : d; in += b; Node c = tri ? randNode(in, b, 1) : randNode(d, d, 1); setn(c); auto v = c.map->Coeffs(); if (c.map->numCoeffs && v.extent(0)) for (unsigned i = 0; i < c.map->numCoeffs; ++i) all.push_back(v(i)); cs.push_back(c); ms.push_back(c.map); }
            Node g = tri ? triNode(cs) : compNode(cs, -1); Case("%s moving coefficients of its components", g.desc.c_str());
            if (tri) g.map = std::make_shared<TriangularMap<HS>>(ms, true); else g.map = std::make_shared<ComposedMap<HS>>(ms, true); uses(g, all, "coefficients of the components are moved into the composite"); if (g.map->numCoeffs) { int i = RI(0, (int)all.size() - 1); g.map->CoeffMap()(i) = 0.5; all[i] = 0.5; uses(g, all, "coefficients of the components are moved into the composite"); }
        });
    });
}
