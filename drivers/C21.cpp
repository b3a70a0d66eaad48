// LINK: src/Initialization.cpp
// C21: quadrature rules against their defining sums and a recursive reference of the adaptive rules.
#include "common.h"
#include "MParT/Quadrature.h"
using namespace mpart; using namespace drv;
typedef Kokkos::HostSpace HS; typedef std::vector<double> V;
typedef std::function<void(double, double*)> Fn;
struct Call { Fn f; void operator()(double x, double* y) const { f(x, y); } };
static double bad() { int k = RI(0, 2); return k == 0 ? 0.0 : (k == 1 ? 1e30 : std::nan("")); }
// the rule, from its definition
static void rule(int n, V& w, V& p) {
    w.assign(n, 0); p.assign(n, 0); if (n == 1) { w[0] = 2; return; }
    const long double pi = 3.14159265358979323846264338327950288L; int m = n - 1;
    for (int i = 0; i < n; ++i) {
        p[i] = (double)cosl((m - i) * pi / m);
        long double s = 1; for (int j = 1; j <= m / 2; ++j) s -= (2 * j == m ? 1.0L : 2.0L) * cosl(2.0L * j * i * pi / m) / (4.0L * j * j - 1);
        w[i] = (double)(s * ((i == 0 || i == m) ? 1.0L : 2.0L) / m);
    }
    p[0] = -1; p[m] = 1; if (n % 2) p[m / 2] = 0;
}
static V apply(V const& w, V const& p, Fn f, int d, double lb, double ub) { std::vector<long double> r(d, 0); V y(d); for (size_t i = 0; i < w.size(); ++i) { f(0.5 * (ub + lb + (ub - lb) * p[i]), y.data()); for (int j = 0; j < d; ++j) r[j] += 0.5L * (ub - lb) * w[i] * y[j]; } return V(r.begin(), r.end()); }
static void err(QuadError::Type t, V const& c, V const& f, double at, double rt, double& e, double& tol) {
    double r = 0; e = 0; int d = c.size();
    if (t == QuadError::First) { e = fabs(f[0] - c[0]); r = fabs(c[0]); }
    else for (int i = 0; i < d; ++i) { double a = fabs(f[i] - c[i]), b = fabs(c[i]); if (t == QuadError::NormInf) { e = fmax(e, a); r = fmax(r, b); } else if (t == QuadError::Norm2) { e += a * a; r += b * b; } else { e += a; r += b; } }
    if (t == QuadError::Norm2) { e = sqrt(e); r = sqrt(r); }
    tol = fmax(rt * r, at);
}
struct Ref { int kind, d, maxSub, minSub; double at, rt; QuadError::Type t; V wc, pc, wf, pf; Fn f; long leaves = 0; bool doubtful = false; double slack = 0; bool tiny;
    V go(int lev, double a, double b) {
        V c(d), fi(d), y(d), l(d), m(d), r(d), lm(d), rm(d); double mid = 0.5 * (a + b);
        if (kind == 0) { f(a, l.data()); f(b, r.data()); f(mid, m.data()); f(0.5 * (a + mid), lm.data()); f(0.5 * (mid + b), rm.data());
            for (int i = 0; i < d; ++i) { c[i] = ((b - a) / 6.0) * (l[i] + 4.0 * m[i] + r[i]); fi[i] = ((mid - a) / 6.0) * (l[i] + 4.0 * lm[i] + m[i]); fi[i] += ((b - mid) / 6.0) * (m[i] + 4.0 * rm[i] + r[i]); } }
        else { c = apply(wc, pc, f, d, a, b); fi = apply(wf, pf, f, d, a, b); }
        double e, tol; err(t, c, fi, at, rt, e, tol); double scale = 0; for (int i = 0; i < d; ++i) scale = fmax(scale, fabs(c[i]) + fabs(fi[i]));
        bool near = fabs(e - tol) <= 1e-14 * scale + 1e-9 * tol;
        bool acc = (((e < tol) || lev == maxSub - 1) && lev >= minSub) || tiny;
        if (near && lev >= minSub && lev != maxSub - 1 && !tiny) { doubtful = true; slack += 4 * tol + 1e-12 * scale; }
        if (++leaves > 4000000) { doubtful = true; slack = 1e300; return fi; }
        if (acc) return fi;
        V u = go(lev + 1, a, mid), v = go(lev + 1, mid, b); for (int i = 0; i < d; ++i) u[i] += v[i]; return u;
    }
};
static Fn integrand(int d, double lb, double ub, bool wild, std::string& desc) {
    std::vector<std::function<double(double)>> g;
    for (int j = 0; j < d; ++j) { int k = RI(0, wild ? 6 : 3); double a = N01(), b = U(0.3, 3), s = U(lb, ub);
        if (k == 0) g.push_back([=](double x) { return a + b * x - 0.3 * a * x * x; }); else if (k == 1) g.push_back([=](double x) { return a * std::exp(0.5 * b * x); });
        else if (k == 2) g.push_back([=](double x) { return a * std::sin(b * x) + b; }); else if (k == 3) g.push_back([=](double) { return a; });
        else if (k == 4) g.push_back([=](double x) { return b * std::fabs(x - s); }); else if (k == 5) g.push_back([=](double x) { return x < s ? 0.0 : b; }); else g.push_back([=](double) { return 0.0; });
        desc += " g" + std::to_string(k); }
    return [=](double x, double* y) { for (int j = 0; j < d; ++j) y[j] = g[j](x); };
}
int main(int argc, char** argv) {
    return run(argc, argv, [] {
        typedef ClenshawCurtisQuadrature<HS> CC; typedef AdaptiveSimpson<HS> AS; typedef AdaptiveClenshawCurtis<HS> AC;
        for (int n = 0; n <= (thorough ? 300 : 70); ++n) section([&] {
            Case("Clenshaw-Curtis rule with %d points", n);
            V w(n + 1, 77), p(n + 1, 78), rw, rp; CC::GetRule(n, w.data(), p.data()); check(w[n] == 77 && p[n] == 78, "rule writes its own entries only");
            auto pr = CC::GetRule(n); check(pr.first.size() == n && pr.second.size() == n, "rule sizes"); for (int i = 0; i < n; ++i) check(pr.first(i) == w[i] && pr.second(i) == p[i], "both GetRule overloads agree");
            if (!n) return; rule(n, rw, rp); long double s = 0;
            for (int i = 0; i < n; ++i) { close(w[i], rw[i], 1e-13, "weights"); close(p[i], rp[i], 1e-13, "points"); s += w[i]; check(w[i] > 0, "weights are positive"); if (i) check(p[i] > p[i - 1], "points increase"); close(w[i], w[n - 1 - i], 1e-13, "weights are symmetric"); }
            close(s, 2, 1e-13, "weights sum to the length");
            for (int k = 0; k < n; ++k) { long double q = 0; for (int i = 0; i < n; ++i) q += w[i] * powl(p[i], k); close(q, k % 2 ? 0 : 2.0 / (k + 1), 1e-11, "exact for polynomials below the number of points"); }
        });
        int reps = thorough ? 20000 : 2500;
        for (int it = 0; it < reps; ++it) section([&] {
            int maxd = RI(1, 5), d = RI(0, 3) ? maxd : RI(1, maxd), n = RI(0, 3) ? RI(1, 12) : RI(1, 40), how = RI(0, 2);
            double lb = U(-3, 3), ub = RI(0, 9) ? U(-3, 3) : (RI(0, 1) ? lb : lb + 1e-16 * RI(-3, 3)); std::string ds; double lo = std::min(lb, ub), hi = std::max(lb, ub); Fn f = integrand(d, lo, hi + 1e-9, false, ds);
            Case("Clenshaw-Curtis points=%d dim=%d of %d over [%.17g,%.17g] %s workspace %d", n, d, maxd, lb, ub, ds.c_str(), how);
            V ws(maxd + 1, bad()), res(d + 1, bad()); res[d] = 5; ws[maxd] = 6; V w, p; rule(n, w, p); Call c{f};
            Kokkos::View<double*, HS> vp("p", n), vw("w", n);
            if (how == 0) { CC q(n, maxd); q.SetDim(d); q.Integrate(c, lb, ub, res.data()); CC q2 = q; V r2(d + 1, bad()); q2.Integrate(c, lb, ub, r2.data()); for (int j = 0; j < d; ++j) check(r2[j] == res[j], "a copy integrates the same"); check(CC::GetWorkspaceSize(d) <= q.WorkspaceSize() || d != maxd, "workspace size"); }
            else if (how == 1) { CC q(n, maxd, nullptr); q.SetDim(d); if (RI(0, 1)) q.Integrate(ws.data(), c, lb, ub, res.data()); else { q.SetWorkspace(ws.data()); q.Integrate(c, lb, ub, res.data()); } }
            else { CC q(vp, vw, maxd, ws.data()); q.SetDim(d); q.Integrate(c, lb, ub, res.data()); }
            check(res[d] == 5, "writes the requested components only"); check(ws[maxd] == 6, "stays inside its workspace");
            V e = apply(w, p, f, d, lb, ub), z = apply(w, p, f, d, ub, lb);
            for (int j = 0; j < d; ++j) { close(res[j], e[j], 1e-11, "affine image of the rule"); }
            if (how == 0) { CC q(n, maxd); q.SetDim(d); V r2(d); q.Integrate(c, ub, lb, r2.data()); for (int j = 0; j < d; ++j) close(r2[j], -res[j], 1e-11, "reversing the interval changes the sign"); V one(1); CC u(n, 1); u.Integrate(Call{[](double, double* y) { y[0] = 1; }}, lb, ub, one.data()); close(one[0], ub - lb, 1e-12, "constants integrate to the interval length"); }
        });
        for (int it = 0; it < reps; ++it) section([&] {
            int kind = RI(0, 1), maxd = RI(1, 4), d = RI(0, 3) ? maxd : RI(1, maxd), maxSub = RI(0, 5) ? RI(1, 12) : RI(25, 45), minSub = RI(0, 3) ? 0 : RI(0, std::min(3, maxSub - 1)), level = RI(1, 4), how = RI(0, 1);
            if (kind == 1 && RI(0, 4) == 0) how = 2;
            double at = std::pow(10.0, -RI(1, maxSub > 20 ? 13 : 9)), rt = RI(0, 1) ? 0 : std::pow(10.0, -RI(1, 8)); QuadError::Type t = (QuadError::Type)RI(0, 3);
            bool wild = RI(0, 2) > 0; double lb = U(-2, 2), ub = RI(0, 12) ? U(-2, 2) : lb; std::string ds; Fn f = integrand(d, std::min(lb, ub), std::max(lb, ub), wild, ds);
            Case("%s level=%d maxSub=%d minSub=%d dim=%d of %d absTol=%g relTol=%g metric=%d over [%.17g,%.17g] %s workspace %d", kind ? "AdaptiveClenshawCurtis" : "AdaptiveSimpson", level, maxSub, minSub, d, maxd, at, rt, (int)t, lb, ub, ds.c_str(), how);
            Ref R{kind, d, maxSub, minSub, at, rt, t}; R.f = f; R.tiny = std::abs(ub - lb) < 1e-14; if (kind) { rule((1 << level) + 1, R.wc, R.pc); rule((2 << level) + 1, R.wf, R.pf); }
            V e = R.go(0, lb, ub); if (R.leaves > 300000) return;
            int wsz = kind ? AC::GetWorkspaceSize(maxSub, maxd) : AS::GetWorkspaceSize(maxSub, maxd); V ws(wsz + 1, bad()), res(d + 1, bad()); ws[wsz] = 6; res[d] = 5;
            long calls = 0; struct Over {}; Call c{[&](double x, double* y) { if (++calls > 60 * (R.leaves + 50)) throw std::runtime_error("does not terminate"); f(x, y); }};
            if (kind == 0) { if (how == 0) { AS q(maxSub, maxd, at, rt, t, minSub); q.SetDim(d); AS q2 = q; q2.Integrate(c, lb, ub, res.data()); } else { AS q(maxSub, maxd, (double*)nullptr, at, rt, t, minSub); q.SetDim(d); q.Integrate(ws.data(), c, lb, ub, res.data()); } }
            else { if (how == 0) { AC q(level, maxSub, maxd, at, rt, t, minSub); q.SetDim(d); AC q2 = q; q2.Integrate(c, lb, ub, res.data()); } else if (how == 1) { AC q(level, maxSub, maxd, (double*)nullptr, at, rt, t, minSub); q.SetDim(d); q.SetWorkspace(ws.data()); q.Integrate(c, lb, ub, res.data()); }
                else { int nc = (1 << level) + 1, nf = (2 << level) + 1; Kokkos::View<double*, HS> a("a", nc), b("b", nc), g("g", nf), h("h", nf); AC q(a, b, g, h, maxSub, maxd, ws.data(), at, rt, t, minSub); q.SetDim(d); q.Integrate(c, lb, ub, res.data()); } }
            check(res[d] == 5, "writes the requested components only"); check(ws[wsz] == 6, "stays inside its workspace");
            if (R.doubtful) return;   // acceptance decided by rounding
            for (int j = 0; j < d; ++j) close(res[j], e[j], 1e-10, kind ? "adaptive Clenshaw-Curtis equals the sum over its accepted intervals" : "adaptive Simpson equals the sum over its accepted intervals");
        });
    });
}
