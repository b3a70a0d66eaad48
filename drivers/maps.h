// dense matrices in every memory layout, analytic test maps and forward-mode derivatives
#pragma once
#include "common.h"
#include "sets.h"
#include "MParT/ConditionalMapBase.h"
#include "MParT/ParameterizedFunctionBase.h"
namespace drv {
typedef Kokkos::HostSpace HS; typedef long double ld;
typedef mpart::StridedMatrix<double, HS> SM; typedef mpart::StridedMatrix<const double, HS> CM;
typedef mpart::StridedVector<double, HS> SV;
typedef std::vector<std::vector<ld>> Mx;              // [row][col]
inline double garbage() { int k = RI(0, 3); return k == 0 ? 0.0 : (k == 1 ? 1e30 * N01() : (k == 2 ? N01() : std::nan(""))); }
// rows x cols view: 0 row major, 1 column major, 2/3 the same as a window of a larger array
inline const char* g_lay[] = {"row-major", "column-major", "row-major window", "column-major window"};
inline SM mk(int r, int c, int lay) {
    SM v;
    if (lay == 0) v = Kokkos::View<double**, Kokkos::LayoutRight, HS>("m", r, c);
    else if (lay == 1) v = Kokkos::View<double**, Kokkos::LayoutLeft, HS>("m", r, c);
    else if (lay == 2) { Kokkos::View<double**, Kokkos::LayoutRight, HS> b("m", r + 2, c + 3); v = Kokkos::subview(b, std::make_pair(1, r + 1), std::make_pair(2, c + 2)); }
    else { Kokkos::View<double**, Kokkos::LayoutLeft, HS> b("m", r + 2, c + 3); v = Kokkos::subview(b, std::make_pair(1, r + 1), std::make_pair(2, c + 2)); }
    double g = garbage();
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) v(i, j) = g;
    return v;
}
inline SM mk(int r, int c) { return mk(r, c, RI(0, 1)); }
inline SM mkr(int r, int c, double s = 1, int lay = -1) { SM v = lay < 0 ? mk(r, c) : mk(r, c, lay); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) v(i, j) = s * N01(); return v; }
inline SV mkv(int n) { SV v = Kokkos::View<double*, HS>("v", n); double g = garbage(); for (int i = 0; i < n; ++i) v(i) = g; return v; }
inline std::vector<ld> col(CM const& m, int j) { std::vector<ld> v(m.extent(0)); for (size_t i = 0; i < v.size(); ++i) v[i] = m(i, j); return v; }
inline std::vector<ld> vec(Kokkos::View<const double*, HS> c) { std::vector<ld> v(c.extent(0)); for (size_t i = 0; i < v.size(); ++i) v[i] = c(i); return v; }
// forward mode
struct D { ld v, d; D(ld a = 0, ld b = 0) : v(a), d(b) {} };
inline D operator+(D a, D b) { return D(a.v + b.v, a.d + b.d); } inline D operator-(D a, D b) { return D(a.v - b.v, a.d - b.d); }
inline D operator*(D a, D b) { return D(a.v * b.v, a.v * b.d + a.d * b.v); } inline D operator/(D a, D b) { return D(a.v / b.v, (a.d * b.v - a.v * b.d) / (b.v * b.v)); }
inline D exp(D a) { return D(expl(a.v), expl(a.v) * a.d); } inline D sin(D a) { return D(sinl(a.v), cosl(a.v) * a.d); } inline D log(D a) { return D(logl(a.v), a.d / a.v); }
inline std::vector<D> seed(std::vector<ld> const& x, int k) { std::vector<D> r; for (size_t i = 0; i < x.size(); ++i) r.push_back(D(x[i], (int)i == k)); return r; }
// a nonlinear block lower triangular map with inDim inputs, outDim outputs, known in closed form
struct Toy {
    int n, m;
    static int ncoef(int n, int m) { int s = 0; for (int i = 0; i < m; ++i) s += n - m + i + 1; return s; }
    std::vector<D> h(std::vector<D> const& c, std::vector<D> const& x, std::vector<D>* out) const {
        std::vector<D> hs; int p = 0;
        for (int i = 0; i < m; ++i) {
            int t = n - m + i; D s, q;
            for (int j = 0; j < t; ++j) { s = s + x[j] * D(j + 1); q = q + c[p + j] * (sin(x[j]) + D(0.3L) * x[j]); }
            D hh = c[p + t] * (D(1) + D(0.3L) * sin(s));
            if (out) out->push_back(exp(hh) * x[t] + q);
            hs.push_back(hh); p += t + 1;
        }
        return hs;
    }
    std::vector<D> eval(std::vector<D> const& c, std::vector<D> const& x) const { std::vector<D> o; h(c, x, &o); return o; }
    D logdet(std::vector<D> const& c, std::vector<D> const& x) const { D s; for (auto& a : h(c, x, nullptr)) s = s + a; return s; }
};
inline std::vector<D> lift(std::vector<ld> const& x) { return seed(x, -1); }
class ToyMap : public mpart::ConditionalMapBase<HS> {
public:
    Toy t;
    mutable long evals = 0;
    ToyMap(int n, int m) : mpart::ConditionalMapBase<HS>(n, m, Toy::ncoef(n, m)), t{n, m} {}
    std::vector<ld> c() const { return vec(this->savedCoeffs); }
    void EvaluateImpl(CM const& p, SM o) override { auto C = lift(c()); for (size_t j = 0; j < p.extent(1); ++j) { auto r = t.eval(C, lift(col(p, j))); for (int i = 0; i < t.m; ++i) o(i, j) = r[i].v; } }
    void GradientImpl(CM const& p, CM const& s, SM o) override { auto C = lift(c()); for (size_t j = 0; j < p.extent(1); ++j) { std::vector<ld> sj = col(s, j); for (int k = 0; k < t.n; ++k) { auto r = t.eval(C, seed(col(p, j), k)); ld a = 0; for (int i = 0; i < t.m; ++i) a += sj[i] * r[i].d; o(k, j) = a; } } }
    void CoeffGradImpl(CM const& p, CM const& s, SM o) override { auto cc = c(); for (size_t j = 0; j < p.extent(1); ++j) { std::vector<ld> sj = col(s, j); for (size_t k = 0; k < cc.size(); ++k) { auto r = t.eval(seed(cc, k), lift(col(p, j))); ld a = 0; for (int i = 0; i < t.m; ++i) a += sj[i] * r[i].d; o(k, j) = a; } } }
    void LogDeterminantImpl(CM const& p, SV o) override { auto C = lift(c()); for (size_t j = 0; j < p.extent(1); ++j) o(j) = t.logdet(C, lift(col(p, j))).v; }
    void LogDeterminantCoeffGradImpl(CM const& p, SM o) override { auto cc = c(); for (size_t j = 0; j < p.extent(1); ++j) for (size_t k = 0; k < cc.size(); ++k) o(k, j) = t.logdet(seed(cc, k), lift(col(p, j))).d; }
    void LogDeterminantInputGradImpl(CM const& p, SM o) override { auto C = lift(c()); for (size_t j = 0; j < p.extent(1); ++j) for (int k = 0; k < t.n; ++k) o(k, j) = t.logdet(C, seed(col(p, j), k)).d; }
    void InverseImpl(CM const& x1, CM const& r, SM o) override {
        auto cc = c();
        for (size_t j = 0; j < r.extent(1); ++j) {
            std::vector<ld> x(t.n, 0); std::vector<ld> rj = col(r, j);
            for (int i = 0; i < t.n - t.m; ++i) x[i] = x1(i, j);
            int p = 0;
            for (int i = 0; i < t.m; ++i) {
                int q = t.n - t.m + i; ld s = 0, a = 0;
                for (int k = 0; k < q; ++k) { s += x[k] * (k + 1); a += cc[p + k] * (sinl(x[k]) + 0.3L * x[k]); }
                x[q] = (rj[i] - a) * expl(-cc[p + q] * (1 + 0.3L * sinl(s))); o(i, j) = x[q]; p += q + 1;
            }
        }
    }
};
// an arbitrary smooth vector function with inputs, outputs and coefficients
struct ToyF {
    int n, m;
    std::vector<D> eval(std::vector<D> const& c, std::vector<D> const& x) const { std::vector<D> o; for (int i = 0; i < m; ++i) { D s; for (int j = 0; j < n; ++j) s = s + c[i * n + j] * sin(x[j] + D(0.5L * i)) + D(0.1L * (i + 1)) * x[j]; o.push_back(s); } return o; }
};
class ToyFun : public mpart::ParameterizedFunctionBase<HS> {
public:
    ToyF t;
    ToyFun(int n, int m) : mpart::ParameterizedFunctionBase<HS>(n, m, n * m), t{n, m} {}
    std::vector<ld> c() const { return vec(this->savedCoeffs); }
    void EvaluateImpl(CM const& p, SM o) override { auto C = lift(c()); for (size_t j = 0; j < p.extent(1); ++j) { auto r = t.eval(C, lift(col(p, j))); for (int i = 0; i < t.m; ++i) o(i, j) = r[i].v; } }
    void GradientImpl(CM const& p, CM const& s, SM o) override { auto C = lift(c()); for (size_t j = 0; j < p.extent(1); ++j) { std::vector<ld> sj = col(s, j); for (int k = 0; k < t.n; ++k) { auto r = t.eval(C, seed(col(p, j), k)); ld a = 0; for (int i = 0; i < t.m; ++i) a += sj[i] * r[i].d; o(k, j) = a; } } }
    void CoeffGradImpl(CM const& p, CM const& s, SM o) override { auto cc = c(); for (size_t j = 0; j < p.extent(1); ++j) { std::vector<ld> sj = col(s, j); for (size_t k = 0; k < cc.size(); ++k) { auto r = t.eval(seed(cc, k), lift(col(p, j))); ld a = 0; for (int i = 0; i < t.m; ++i) a += sj[i] * r[i].d; o(k, j) = a; } } }
};
template<class F> void setc(F& f, double s = 0.5) { Kokkos::View<double*, HS> c("c", f.numCoeffs); for (unsigned i = 0; i < f.numCoeffs; ++i) c(i) = s * N01(); f.SetCoeffs(Kokkos::View<const double*, HS>(c)); }
// eval: (coefs, x) -> outputs, logd: (coefs, x) -> log determinant
typedef std::function<std::vector<D>(std::vector<D> const&, std::vector<D> const&)> EvalF; typedef std::function<D(std::vector<D> const&, std::vector<D> const&)> LogF;
inline void cmpm(double got, ld e, double tol, const char* name) { g_cover[name]++; if (!(std::abs(got - (double)e) <= tol * (1 + std::abs((double)e)))) fail(name, "got " + num(got) + " expected " + num((double)e)); }
// Evaluate/Gradient/CoeffGrad of f against the reference, output in layout lay
inline void check_fun(mpart::ParameterizedFunctionBase<HS>& f, EvalF ev, CM pts, int lay, double tol) {
    int n = f.inputDim, m = f.outputDim, k = f.numCoeffs, np = pts.extent(1);
    std::vector<ld> c; if (k) c = vec(f.Coeffs());
    SM o = mk(m, np, lay); f.EvaluateImpl(pts, o);
    SM s = mkr(m, np); SM g = mk(n, np, lay); f.GradientImpl(pts, s, g);
    SM cg = mk(k, np, lay); f.CoeffGradImpl(pts, s, cg);
    for (int j = 0; j < np; ++j) {
        auto x = col(pts, j); auto r = ev(lift(c), lift(x));
        for (int i = 0; i < m; ++i) cmpm(o(i, j), r[i].v, tol, "Evaluate");
        for (int q = 0; q < n; ++q) { auto d = ev(lift(c), seed(x, q)); ld e = 0; for (int i = 0; i < m; ++i) e += s(i, j) * d[i].d; cmpm(g(q, j), e, tol, "Gradient"); }
        for (int q = 0; q < k; ++q) { auto d = ev(seed(c, q), lift(x)); ld e = 0; for (int i = 0; i < m; ++i) e += s(i, j) * d[i].d; cmpm(cg(q, j), e, tol, "CoeffGrad"); }
    }
}
inline void check_map(mpart::ConditionalMapBase<HS>& f, EvalF ev, LogF lg, CM pts, int lay, double tol, bool inv = true) {
    check_fun(f, ev, pts, lay, tol);
    int n = f.inputDim, m = f.outputDim, k = f.numCoeffs, np = pts.extent(1);
    std::vector<ld> c; if (k) c = vec(f.Coeffs());
    SV l = mkv(np); f.LogDeterminantImpl(pts, l);
    SM g = mk(n, np, lay); f.LogDeterminantInputGradImpl(pts, g);
    SM cg = mk(k, np, lay); f.LogDeterminantCoeffGradImpl(pts, cg);
    for (int j = 0; j < np; ++j) {
        auto x = col(pts, j);
        cmpm(l(j), lg(lift(c), lift(x)).v, tol, "LogDeterminant");
        for (int q = 0; q < n; ++q) cmpm(g(q, j), lg(lift(c), seed(x, q)).d, tol, "LogDeterminantInputGrad");
        for (int q = 0; q < k; ++q) cmpm(cg(q, j), lg(seed(c, q), lift(x)).d, tol, "LogDeterminantCoeffGrad");
    }
    if (!inv) return;
    SM r = mk(m, np); f.EvaluateImpl(pts, r);
    bool full = RI(0, 1); SM x1 = mk(full ? n : n - m, np); for (size_t i = 0; i < x1.extent(0); ++i) for (int j = 0; j < np; ++j) x1(i, j) = pts(i, j);
    SM o = mk(m, np, lay); f.InverseImpl(x1, r, o);
    for (int i = 0; i < m; ++i) for (int j = 0; j < np; ++j) cmpm(o(i, j), pts(n - m + i, j), tol * 100, "Inverse");
}
// random composite maps together with their reference functions of (coefficients, input)
struct Node { std::shared_ptr<mpart::ConditionalMapBase<HS>> map; EvalF ev; LogF lg; std::string desc; };
inline std::vector<D> slice(std::vector<D> const& v, int a, int b) { return std::vector<D>(v.begin() + a, v.begin() + b); }
inline Node toyNode(int n, int m) { Node r; auto t = std::make_shared<ToyMap>(n, m); Toy f = t->t; r.map = t; r.ev = [f](std::vector<D> const& c, std::vector<D> const& x) { return f.eval(c, x); }; r.lg = [f](std::vector<D> const& c, std::vector<D> const& x) { return f.logdet(c, x); }; r.desc = "T" + std::to_string(n) + ">" + std::to_string(m); return r; }
}
