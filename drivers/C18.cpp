// LINK: src/MultiIndices/MultiIndex.cpp src/MultiIndices/MultiIndexSet.cpp src/MultiIndices/MultiIndexLimiter.cpp src/MultiIndices/MultiIndexNeighborhood.cpp src/MultiIndices/FixedMultiIndexSet.cpp src/ParameterizedFunctionBase.cpp src/ConditionalMapBase.cpp src/IdentityMap.cpp src/AffineMap.cpp src/TriangularMap.cpp src/ComposedMap.cpp src/Utilities/LinearAlgebra.cpp src/Utilities/Miscellaneous.cpp src/Initialization.cpp src/MapFactory.cpp src/MapFactoryImpl1.cpp src/MapFactoryImpl2.cpp src/MapFactoryImpl3.cpp src/MapFactoryImpl4.cpp src/MapFactoryImpl5.cpp src/MapFactoryImpl6.cpp src/MapFactoryImpl7.cpp src/MapFactoryImpl8.cpp src/MapFactoryImpl9.cpp src/MapFactoryImpl10.cpp src/MapFactoryImpl11.cpp src/MapFactoryImpl12.cpp src/MapFactoryImpl13.cpp src/MapFactoryImpl14.cpp src/MapFactoryImpl15.cpp src/MapFactoryImpl16.cpp src/MapFactoryImpl17.cpp src/MapFactoryImpl18.cpp
// FLAGS: -O0 -fno-sanitize=all
// C18: every serialisable object is written to an archive between two sentinels, read back, and compared bit for bit.
#include <cereal/types/memory.hpp>
#include <cereal/types/vector.hpp>
#include <sstream>
#include "sets.h"
#include "MParT/MapFactory.h"
#include "MParT/MonotoneComponent.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/HermiteFunction.h"
#include "MParT/LinearizedBasis.h"
#include "MParT/PositiveBijectors.h"
#include "MParT/Quadrature.h"
#include "MParT/MultivariateExpansionWorker.h"
#include "MParT/TriangularMap.h"
#include "MParT/Utilities/Serialization.h"
using namespace mpart; using namespace drv;
typedef Kokkos::HostSpace HS; typedef std::shared_ptr<ConditionalMapBase<HS>> CP; typedef std::vector<double> V;
static bool same(double a, double b) { return !std::memcmp(&a, &b, sizeof a) || (std::isnan(a) && std::isnan(b)); }
// save between sentinels, load back
template<class T> void trip(T const& a, T& b, const char* what) {
    std::stringstream ss; unsigned s0 = rng(), s1 = rng(), r0 = 0, r1 = 0;
    { cereal::BinaryOutputArchive ar(ss); ar(s0); ar(a); ar(s1); }
    { cereal::BinaryInputArchive ar(ss); ar(r0); ar(b); ar(r1); }
    check(r0 == s0 && r1 == s1, "what follows an object in the archive is read back", what);
}
static double pickd() { int k = RI(0, 6); return k == 0 ? INFINITY : k == 1 ? -INFINITY : k == 2 ? 0.0 : k == 3 ? -0.0 : k == 4 ? 1e-300 * N01() : N01() * std::pow(10.0, RI(-8, 8)); }
static MapOptions randopts() {
    MapOptions o; o.basisType = (BasisTypes)RI(0, 2); o.basisLB = pickd(); o.basisUB = pickd(); o.posFuncType = (PosFuncTypes)RI(0, 1); o.quadType = (QuadTypes)RI(0, 2);
    o.quadAbsTol = pickd(); o.quadRelTol = pickd(); o.quadMaxSub = rng(); o.quadMinSub = rng(); o.quadPts = rng(); o.contDeriv = RI(0, 1); o.basisNorm = RI(0, 1); o.nugget = pickd(); return o;
}
static bool eqopts(MapOptions const& a, MapOptions const& b) {
    return a.basisType == b.basisType && same(a.basisLB, b.basisLB) && same(a.basisUB, b.basisUB) && a.posFuncType == b.posFuncType && a.quadType == b.quadType && same(a.quadAbsTol, b.quadAbsTol) && same(a.quadRelTol, b.quadRelTol)
        && a.quadMaxSub == b.quadMaxSub && a.quadMinSub == b.quadMinSub && a.quadPts == b.quadPts && a.contDeriv == b.contDeriv && a.basisNorm == b.basisNorm && same(a.nugget, b.nugget);
}
template<class W> void eqview(W const& a, W const& b) { bool ok = a.extent(0) == b.extent(0); for (size_t i = 0; ok && i < a.extent(0); ++i) ok = a(i) == b(i); check(ok, "vectors are restored"); }
static void eqset(FixedMultiIndexSet<HS> const& a, FixedMultiIndexSet<HS> const& b) {
    check(a.Length() == b.Length() && a.Size() == b.Size(), "set length and size are restored"); eqview(a.nzStarts, b.nzStarts); eqview(a.nzDims, b.nzDims); eqview(a.nzOrders, b.nzOrders); eqview(a.MaxDegrees(), b.MaxDegrees());
    if (a.Size() == b.Size()) for (unsigned i = 0; i < a.Size(); ++i) check(a.IndexToMulti(i) == b.IndexToMulti(i), "terms are restored");
}
static FixedMultiIndexSet<HS> randset(int dim, int ord) { if (RI(0, 3) == 0) return FixedMultiIndexSet<HS>(dim, ord); auto s = MultiIndexSet(toMat(random_multis(dim, ord))); return s.Fix(RI(0, 1)); }
static Kokkos::View<double**, HS> pts(int d, int n) { Kokkos::View<double**, HS> p("p", d, n); for (int i = 0; i < d; ++i) for (int j = 0; j < n; ++j) p(i, j) = N01(); return p; }
template<class A, class B> void eqmat(A const& a, B const& b, const char* what) { bool ok = a.extent(0) == b.extent(0) && a.extent(1) == b.extent(1); for (size_t i = 0; ok && i < a.extent(0); ++i) for (size_t j = 0; ok && j < a.extent(1); ++j) ok = same(a(i, j), b(i, j)); check(ok, "the loaded function evaluates identically", what); }
template<class A, class B> void eqvec(A const& a, B const& b, const char* what) { bool ok = a.extent(0) == b.extent(0); for (size_t i = 0; ok && i < a.extent(0); ++i) ok = same(a(i), b(i)); check(ok, "the loaded function evaluates identically", what); }
static void eqmap(ConditionalMapBase<HS>& a, ConditionalMapBase<HS>& b, int depth = 0) {
    check(a.inputDim == b.inputDim && a.outputDim == b.outputDim && a.numCoeffs == b.numCoeffs, "dimensions are restored"); if (a.numCoeffs != b.numCoeffs) return;
    check(a.CheckCoefficients() == b.CheckCoefficients(), "coefficients that were set are restored and unset ones stay unset");
    auto ta = dynamic_cast<TriangularMap<HS>*>(&a); auto tb = dynamic_cast<TriangularMap<HS>*>(&b); check(!ta == !tb, "the loaded function has the same type");
    if (ta && tb) for (unsigned k = 0, o = 0; o < a.outputDim; ++k) { std::shared_ptr<ConditionalMapBase<HS>> p = ta->GetComponent(k), q; try { q = tb->GetComponent(k); } catch (std::exception const&) {} check(!!q, "components are restored"); if (!q) break; eqmap(*p, *q, depth + 1); o += p->outputDim; }
    if (!a.CheckCoefficients() || !b.CheckCoefficients()) return;
    auto ca = a.Coeffs(), cb = b.Coeffs(); check(ca.extent(0) == cb.extent(0), "coefficients are restored"); for (size_t i = 0; i < ca.extent(0) && i < cb.extent(0); ++i) check(same(ca(i), cb(i)), "coefficients are restored");
    check((void*)ca.data() != (void*)cb.data() || ca.extent(0) == 0, "the loaded function has coefficients of its own");
    auto xx = pts(a.inputDim, 2); StridedMatrix<const double, HS> x(xx); eqmat(a.Evaluate(x), b.Evaluate(x), "Evaluate"); eqvec(a.LogDeterminant(x), b.LogDeterminant(x), "LogDeterminant");
    if (depth == 0) { eqmat(a.LogDeterminantCoeffGrad(x), b.LogDeterminantCoeffGrad(x), "LogDeterminantCoeffGrad"); auto ss = pts(a.outputDim, 2); StridedMatrix<const double, HS> s(ss); eqmat(a.CoeffGrad(x, s), b.CoeffGrad(x, s), "CoeffGrad"); }
}
static void tripmap(CP m, const char* what) {
    int how = RI(0, 2);
    try {
        if (how == 0) { CP l; trip(m, l, what); check(!!l, "a function is read back"); if (l) eqmap(*m, *l); }
        else if (how == 1) { std::stringstream ss; std::shared_ptr<ParameterizedFunctionBase<HS>> p = m; p->Save(ss); auto l = std::dynamic_pointer_cast<ConditionalMapBase<HS>>(ParameterizedFunctionBase<HS>::Load(ss)); check(!!l, "a function is read back"); if (l) eqmap(*m, *l); }
        else { std::shared_ptr<ParameterizedFunctionBase<HS>> p = m, l; trip(p, l, what); auto c = std::dynamic_pointer_cast<ConditionalMapBase<HS>>(l); check(!!c, "a function is read back"); if (c) eqmap(*m, *c); }
    } catch (std::exception const& e) { fail("saving and loading raises no exception", std::string(what) + ": " + e.what()); }
}
static void setc(CP m) { Kokkos::View<double*, HS> c("c", m->numCoeffs); for (unsigned i = 0; i < m->numCoeffs; ++i) c(i) = 0.3 * N01(); m->SetCoeffs(c); }
static MapOptions mapopts(int k, std::string& d) {
    MapOptions o; o.basisType = (BasisTypes)(k % 3); o.posFuncType = (PosFuncTypes)(k / 3 % 2); o.quadType = (QuadTypes)(k / 6 % 3); bool lin = k / 18 % 2; if (lin) { o.basisLB = RI(0, 1) ? -1.5 : -INFINITY; o.basisUB = std::isinf(o.basisLB) || RI(0, 1) ? 2.0 : INFINITY; }
    o.basisNorm = RI(0, 1); o.contDeriv = RI(0, 1); o.nugget = RI(0, 1) ? 0.0 : 0.125; o.quadPts = o.quadType == QuadTypes::AdaptiveClenshawCurtis ? 5 : RI(3, 7); o.quadMaxSub = RI(2, 4); o.quadMinSub = RI(0, 1); o.quadAbsTol = 1e-3; o.quadRelTol = 1e-2;
    char b[200]; snprintf(b, sizeof b, "basis %d bijector %d quadrature %d linearised %d", k % 3, k / 3 % 2, k / 6 % 3, lin); d = b; return o;
}
// a component whose coefficients were never set
template<class Basis, class Pos, class Quad> CP bare(FixedMultiIndexSet<HS> const& s, Basis b, Quad q, bool set) {
    MultivariateExpansionWorker<Basis, HS> e(s, b); CP m = std::make_shared<MonotoneComponent<decltype(e), Pos, Quad, HS>>(e, q, RI(0, 1), RI(0, 1) ? 0.0 : 0.25); if (set) setc(m); return m;
}
static CP barepick(FixedMultiIndexSet<HS> const& s, bool set) {
    switch (RI(0, 3)) { case 0: return bare<ProbabilistHermite, SoftPlus>(s, ProbabilistHermite(RI(0, 1)), AdaptiveSimpson<HS>(3, 1, nullptr, 1e-3, 1e-2, QuadError::First), set);
        case 1: return bare<PhysicistHermite, Exp>(s, PhysicistHermite(RI(0, 1)), ClenshawCurtisQuadrature<HS>(RI(2, 6), 1, nullptr), set);
        case 2: return bare<HermiteFunction, SoftPlus>(s, HermiteFunction(), AdaptiveClenshawCurtis<HS>(RI(1, 2), 3, 1, nullptr, 1e-3, 1e-2, QuadError::First, RI(0, 1)), set);
        default: return bare<LinearizedBasis<ProbabilistHermite>, SoftPlus>(s, LinearizedBasis<ProbabilistHermite>(ProbabilistHermite(RI(0, 1)), -1.0, 1.5), ClenshawCurtisQuadrature<HS>(RI(2, 6), 1, nullptr), set); }
}
static CP comp(int dim, bool set, std::string& d) {
    auto s = randset(dim, 2); if (!set || RI(0, 1)) { d += " component(set=" + std::to_string(set) + ")"; return barepick(s, set); }
    std::string e; CP m = MapFactory::CreateComponent<HS>(s, mapopts(RI(0, 35), e)); setc(m); d += " factory(" + e + ")"; return m;
}
static CP tri(int depth, int& in, bool set, std::string& d) {
    d += " triangular["; std::vector<CP> cs; int n = RI(1, 3), cur = in;
    for (int k = 0; k < n; ++k) { if (depth < 2 && RI(0, 3) == 0) { int j = cur; cs.push_back(tri(depth + 1, j, set, d)); cur = j + 1; } else { cs.push_back(comp(cur, set, d)); ++cur; } }
    d += "]"; in = cur - 1; CP m = std::make_shared<TriangularMap<HS>>(cs, false); if (set && RI(0, 2)) setc(m); else if (set) d += "(components only)"; return m;
}
template<class P> void poly(const char* nm) {
    P a(RI(0, 1)), b(RI(0, 1)); Case("basis %s", nm); trip(a, b, nm); double x = N01(); for (unsigned n = 0; n < 6; ++n) check(same(a.Evaluate(n, x), b.Evaluate(n, x)) && same(a.Derivative(n, x), b.Derivative(n, x)), "the loaded basis evaluates identically", nm);
    double lb = -std::fabs(pickd()) - 0.1, ub = std::fabs(pickd()) + 0.1; LinearizedBasis<P> la(P(RI(0, 1)), lb, ub), l2(P(RI(0, 1)), -0.5, 0.5); Case("linearised %s on [%g,%g]", nm, lb, ub); trip(la, l2, nm);
    for (int k = 0; k < 4; ++k) { double y = 3 * N01(); for (unsigned n = 0; n < 5; ++n) check(same(la.Evaluate(n, y), l2.Evaluate(n, y)), "the loaded basis evaluates identically", "linearised"); }
}
struct F { int d; void operator()(double x, double* y) const { for (int i = 0; i < d; ++i) y[i] = std::exp(0.3 * (i + 1) * x) + i; } };
template<class Q> void quad(Q const& a, Q& b, int d, int ws, const char* nm) {
    trip(a, b, nm); double lb = N01(), ub = N01(); V w(4000, 0), r(d), s(d);
    if (ws == 0) { a.Integrate(F{d}, lb, ub, r.data()); b.Integrate(F{d}, lb, ub, s.data()); } else { a.Integrate(w.data(), F{d}, lb, ub, r.data()); std::fill(w.begin(), w.end(), 7.0); b.Integrate(w.data(), F{d}, lb, ub, s.data()); }
    check(a.WorkspaceSize() == b.WorkspaceSize(), "workspace size is restored", nm); for (int i = 0; i < d; ++i) check(same(r[i], s[i]), "the loaded rule integrates identically", nm);
}
int main(int argc, char** argv) {
    return run(argc, argv, [] {
        int reps = thorough ? 1500 : 150;
        for (int it = 0; it < reps * 4; ++it) section([&] {
            MapOptions a = randopts(), b = RI(0, 1) ? MapOptions() : randopts(); Case("map options: %s", a.String().c_str()); trip(a, b, "options"); check(eqopts(a, b), "options are restored"); check(a == b || std::isnan(a.nugget), "restored options compare equal");
            MapOptions c = a; switch (RI(0, 12)) { case 0: c.basisType = (BasisTypes)(((int)c.basisType + 1) % 3); break; case 1: c.basisLB = 0.123; break; case 2: c.basisUB = 0.321; break; case 3: c.posFuncType = (PosFuncTypes)(1 - (int)c.posFuncType); break; case 4: c.quadType = (QuadTypes)(((int)c.quadType + 1) % 3); break;
                case 5: c.quadAbsTol = 0.77; break; case 6: c.quadRelTol = 0.78; break; case 7: c.quadMaxSub++; break; case 8: c.quadMinSub++; break; case 9: c.quadPts++; break; case 10: c.contDeriv = !c.contDeriv; break; case 11: c.basisNorm = !c.basisNorm; break; default: c.nugget = 0.99; }
            check(!(a == c) || eqopts(a, c), "options that differ compare different");
        });
        for (int it = 0; it < reps * 4; ++it) section([&] {
            int n = RI(0, 9), m = RI(0, 5); Case("views with extents %d, %d", n, m); bool emp = RI(0, 5) == 0;
            Kokkos::View<double*, HS> a("some label", n), b; if (emp) a = Kokkos::View<double*, HS>(); if (RI(0, 1)) b = Kokkos::View<double*, HS>("old", RI(0, 9)); for (size_t i = 0; i < a.extent(0); ++i) a(i) = pickd();
            trip(a, b, "vector"); check(a.extent(0) == b.extent(0), "extent is restored"); for (size_t i = 0; i < a.extent(0) && i < b.extent(0); ++i) check(same(a(i), b(i)), "elements are restored"); if (a.extent(0)) check(a.data() != b.data(), "the loaded array has memory of its own");
            Kokkos::View<unsigned*, HS> ua("u", n), ub; for (int i = 0; i < n; ++i) ua(i) = rng(); trip(ua, ub, "unsigned"); eqview(ua, ub);
            Kokkos::View<double**, Kokkos::LayoutLeft, HS> la("l", n, m), lb; Kokkos::View<double**, Kokkos::LayoutRight, HS> ra("r", n, m), rb; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { la(i, j) = pickd(); ra(i, j) = pickd(); }
            if (n > 1 && RI(0, 1)) { int r0 = RI(0, 1), r1 = RI(r0, n - 1); Case("part of a %d x %d matrix starting at row %d", n, m, r0); int c0 = RI(0, m), c1 = RI(c0, m); auto rr = std::make_pair(r0, r1), cc = std::make_pair(c0, c1); la = Kokkos::subview(la, rr, cc); ra = Kokkos::subview(ra, rr, cc); n = r1 - r0; m = c1 - c0; }
            trip(la, lb, "matrix"); trip(ra, rb, "matrix"); check(lb.extent(0) == (size_t)n && lb.extent(1) == (size_t)m && rb.extent(0) == (size_t)n && rb.extent(1) == (size_t)m, "extents are restored");
            if (lb.extent(0) == (size_t)n && lb.extent(1) == (size_t)m && rb.extent(0) == (size_t)n && rb.extent(1) == (size_t)m) for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) check(same(la(i, j), lb(i, j)) && same(ra(i, j), rb(i, j)), "elements are restored");
        });
        for (int it = 0; it < reps * 2; ++it) section([&] {
            int d = RI(1, 4); auto a = randset(d, RI(1, 4)); FixedMultiIndexSet<HS> b; if (RI(0, 1)) b = randset(RI(1, 3), 2); Case("fixed multi-index set of dimension %d with %d terms", d, (int)a.Size()); trip(a, b, "set"); eqset(a, b);
            if (b.Length() == a.Length() && b.Size() == a.Size()) { auto m = a.IndexToMulti(RI(0, (int)a.Size() - 1)); check(a.MultiToIndex(m) == b.MultiToIndex(m), "lookups are restored"); }
            MultivariateExpansionWorker<ProbabilistHermite, HS> e(a, ProbabilistHermite(RI(0, 1))), f; trip(e, f, "expansion"); check(e.CacheSize() == f.CacheSize() && e.NumCoeffs() == f.NumCoeffs() && e.InputSize() == f.InputSize(), "expansion sizes are restored"); eqset(e.GetMultiIndexSet(), f.GetMultiIndexSet());
            if (e.CacheSize() == f.CacheSize() && e.NumCoeffs() == f.NumCoeffs()) { V x(d), c1(e.CacheSize(), 0), c2(e.CacheSize(), 0); for (auto& v : x) v = N01(); Kokkos::View<const double*, HS> p(x.data(), d); V cf(e.NumCoeffs()); for (auto& v : cf) v = N01(); Kokkos::View<const double*, HS> c(cf.data(), cf.size());
                e.FillCache1(c1.data(), p, DerivativeFlags::Diagonal); f.FillCache1(c2.data(), p, DerivativeFlags::Diagonal); e.FillCache2(c1.data(), p, x[d - 1], DerivativeFlags::Diagonal); f.FillCache2(c2.data(), p, x[d - 1], DerivativeFlags::Diagonal);
                check(same(e.Evaluate(c1.data(), c), f.Evaluate(c2.data(), c)) && same(e.DiagonalDerivative(c1.data(), c, 1), f.DiagonalDerivative(c2.data(), c, 1)), "the loaded expansion evaluates identically"); }
        });
        for (int it = 0; it < reps; ++it) section([&] { poly<ProbabilistHermite>("probabilist"); poly<PhysicistHermite>("physicist"); HermiteFunction a, b; trip(a, b, "hermite functions"); double x = N01(); for (unsigned n = 0; n < 7; ++n) check(same(a.Evaluate(n, x), b.Evaluate(n, x)), "the loaded basis evaluates identically", "hermite functions"); });
        for (int it = 0; it < reps; ++it) section([&] {
            int md = RI(1, 3), d = RI(1, md), ws = RI(0, 1), ms = RI(2, 6), mn = RI(0, 1), n = RI(1, 9), lv = RI(1, 3); double at = std::pow(10.0, RI(-6, -1)), rt = std::pow(10.0, RI(-6, -1)); auto et = (QuadError::Type)RI(0, 3); V w(4000, 0);
            Case("quadrature dim %d of %d, points %d, maxSub %d, minSub %d, level %d, tolerances %g %g, metric %d, own workspace %d", d, md, n, ms, mn, lv, at, rt, (int)et, !ws);
            if (ws) { ClenshawCurtisQuadrature<HS> a(n, md, nullptr), b(2, 1); a.SetDim(d); quad(a, b, d, ws, "Clenshaw-Curtis"); AdaptiveSimpson<HS> c(ms, md, nullptr, at, rt, et, mn), e(2, 1, 1, 1, QuadError::First); c.SetDim(d); quad(c, e, d, ws, "adaptive Simpson"); AdaptiveClenshawCurtis<HS> f(lv, ms, md, nullptr, at, rt, et, mn), g(1, 2, 1, 1, 1, QuadError::First); f.SetDim(d); quad(f, g, d, ws, "adaptive Clenshaw-Curtis"); }
            else { ClenshawCurtisQuadrature<HS> a(n, md), b; a.SetDim(d); quad(a, b, d, ws, "Clenshaw-Curtis"); AdaptiveSimpson<HS> c(ms, md, at, rt, et, mn), e; c.SetDim(d); quad(c, e, d, ws, "adaptive Simpson"); AdaptiveClenshawCurtis<HS> f(lv, ms, md, at, rt, et, mn), g; f.SetDim(d); quad(f, g, d, ws, "adaptive Clenshaw-Curtis"); }
        });
        for (int k = 0; k < 36 * (thorough ? 10 : 1); ++k) section([&] { std::string d; int dim = RI(1, 3); auto s = randset(dim, 2); MapOptions o = mapopts(k, d); Case("component from the factory: %s, %d inputs, %d terms", d.c_str(), dim, (int)s.Size()); CP m = MapFactory::CreateComponent<HS>(s, o); if (RI(0, 4)) setc(m); tripmap(m, "component"); });
        for (int it = 0; it < reps; ++it) section([&] { std::string d; int dim = RI(1, 3); bool set = RI(0, 1); CP m = comp(dim, set, d); Case("%s, %d inputs", d.c_str(), dim); tripmap(m, "component"); });
        for (int it = 0; it < reps; ++it) section([&] { std::string d; int in = RI(1, 2); bool set = RI(0, 2); CP m = tri(0, in, set, d); Case("%s", d.c_str()); tripmap(m, "triangular map"); });
        for (int it = 0; it < reps / 4; ++it) section([&] {
            std::string d; int in = RI(1, 2), in2 = RI(1, 2); CP a = tri(1, in, true, d), b = RI(0, 1) ? tri(1, in2, true, d) : comp(2, true, d), c = RI(0, 1) ? a : b; Case("several functions in one archive: %s", d.c_str());
            std::vector<CP> v{a, b, c}, w; try { trip(v, w, "several functions"); check(w.size() == 3, "all functions are read back"); for (size_t i = 0; i < w.size() && i < 3; ++i) if (w[i]) eqmap(*v[i], *w[i]); } catch (std::exception const& e) { fail("saving and loading raises no exception", e.what()); }
        });
    });
}
