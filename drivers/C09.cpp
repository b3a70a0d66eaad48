// LINK: src/ParameterizedFunctionBase.cpp
// C09: positive bijectors and sigmoids against long double references.
#include "common.h"
#include "ref.h"
#include "MParT/PositiveBijectors.h"
#include "MParT/Sigmoid.h"
using namespace drv; using namespace mpart;
typedef long double ld;
static ld sp(ld x) { return x > 0 ? x + log1pl(expl(-x)) : log1pl(expl(x)); }
static ld sg(ld x) { return x > 0 ? 1 / (1 + expl(-x)) : expl(x) / (1 + expl(x)); }
int main(int argc, char** argv) {
    return run(argc, argv, [] {
        std::vector<double> xs = {0.0, -0.0, 1e-300, -1e-300, 1e-9, -1e-9, 30, -30, 36.9, -36.9, 300, -300, 700, -700};
        int N = thorough ? 20000 : 3000;
        for (int i = 0; i < N; ++i) xs.push_back(i % 3 == 0 ? U(-1, 1) : (i % 3 == 1 ? U(-12, 12) : U(-60, 60)));
        for (double x : xs) {
            Case("x=%.17g", x);
            auto rel = [&](double a, ld e, double tol, const char* w) { g_cover[w]++; if (!(fabsl(a - e) <= tol * fabsl(e) + 1e-15)) fail(w, "got " + num(a) + " expected " + num((double)e)); };
            rel(SoftPlus::Evaluate(x), sp(x), 1e-12, "SoftPlus value"); rel(SoftPlus::Derivative(x), sg(x), 1e-12, "SoftPlus derivative");
            rel(SoftPlus::SecondDerivative(x), sg(x) * sg(-x), 1e-12, "SoftPlus second derivative");
            rel(Exp::Evaluate(x), expl(x), 1e-12, "Exp value"); rel(Exp::Derivative(x), expl(x), 1e-12, "Exp derivative"); rel(Exp::SecondDerivative(x), expl(x), 1e-12, "Exp second derivative");
            rel(Logistic::Evaluate(x), sg(x), 1e-11, "Logistic value"); rel(Logistic::Derivative(x), sg(x) * sg(-x), 1e-9, "Logistic derivative");
            if (x > -30) { check(SoftPlus::Evaluate(x) > 0, "SoftPlus positive"); check(SoftPlus::Evaluate(x + 1e-3 * (1 + std::abs(x))) > SoftPlus::Evaluate(x), "SoftPlus increasing"); check(Exp::Evaluate(x) > 0, "Exp positive"); }
            if (std::abs(x) < 30) check(Logistic::Evaluate(x) > 0 && Logistic::Evaluate(x) < 1, "Logistic in the unit interval");
            if (x > -20) close(SoftPlus::Inverse(SoftPlus::Evaluate(x)), x, 1e-6, "SoftPlus inverse");
            if (std::abs(x) < 700) close(Exp::Inverse(Exp::Evaluate(x)), x, 1e-12, "Exp inverse");
            if (std::abs(x) < 15) close(Logistic::Inverse(Logistic::Evaluate(x)), x, 1e-8, "Logistic inverse");
        }
        for (int it = 0; it < (thorough ? 400 : 60); ++it) {
            int n = RI(1, 6), np = RI(1, 5);
            Kokkos::View<double*, Kokkos::HostSpace> c("c", n), w("w", n), co("co", n);
            for (int i = 0; i < n; ++i) { c(i) = U(-2, 2); w(i) = U(0.3, 3); co(i) = U(-1, 2); }
            Sigmoid1d<Kokkos::HostSpace, Logistic> s(c, w);
            s.SetCoeffs(co);
            Kokkos::View<double**, Kokkos::HostSpace> p("p", 1, np), se("se", 1, np);
            for (int j = 0; j < np; ++j) { p(0, j) = U(-4, 4); se(0, j) = U(-2, 2); }
            Case("sigmoid sum n=%d points=%d", n, np);
            StridedMatrix<const double, Kokkos::HostSpace> cp = p, cs = se;
            StridedMatrix<double, Kokkos::HostSpace> o = s.Evaluate(cp);
            // the overriding methods take the sensitivities first
            Kokkos::View<double**, Kokkos::HostSpace> g("g", 1, np), cg("cg", n, np);
            s.GradientImpl(cs, cp, g); s.CoeffGradImpl(cs, cp, cg);
            StridedMatrix<double, Kokkos::HostSpace> gi = s.Gradient(cp, cs);
            for (int j = 0; j < np; ++j) {
                ld v = 0, d = 0;
                for (int i = 0; i < n; ++i) { ld t = w(i) * ((ld)p(0, j) - c(i)); v += co(i) * sg(t); d += co(i) * w(i) * sg(t) * sg(-t); close(cg(i, j), (double)(se(0, j) * sg(t)), 1e-10, "sigmoid sum coefficient gradient"); }
                close(o(0, j), (double)v, 1e-10, "sigmoid sum value"); close(g(0, j), (double)(d * se(0, j)), 1e-10, "sigmoid sum gradient");
                close(gi(0, j), (double)(d * se(0, j)), 1e-10, "sigmoid sum gradient through the common interface");
            }
        }
    });
}
