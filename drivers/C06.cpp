// C06: one-dimensional bases against closed-form references.
#include "common.h"
#include "ref.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/HermiteFunction.h"
using namespace drv; using namespace mpart;
static const int G = 6;           // guard cells
static const double CAN = 1.25e77;
typedef std::vector<double> V;
static ref::Basis R; static double X, TOL;
static void cl(double a, int n, int d, const char* w) {
    g_cover[w]++;
    double e = (double)R(n, X, d);
    double t = TOL * (1 + std::abs(e) + std::abs((double)R(n, X, 0)) + (n ? n * std::abs((double)R(n - 1, X, 0)) : 0));
    if (!(std::abs(a - e) <= t)) fail(w, "order " + std::to_string(n) + " got " + num(a) + " expected " + num(e));
}
template<class B> void all(const char* nm, B const& b, ref::Basis const& r, int maxN, double tol) {
    R = r; TOL = tol;
    for (int m = 0; m <= maxN; ++m) for (int p = 0; p < 5; ++p) {
        double x = X = p == 0 ? 0.0 : U(-3, 3);
        Case("%s maxOrder=%d x=%.17g", nm, m, x);
        V v(m + 1 + G, CAN), d(v), v2(v), d2(v), d3(v), s(v), vv(v);
        b.EvaluateAll(v.data(), m, x);
        b.EvaluateDerivatives(v2.data(), d2.data(), m, x);
        b.EvaluateSecondDerivatives(vv.data(), d3.data(), s.data(), m, x);
        for (int g = m + 1; g < m + 1 + G; ++g) check(v[g] == CAN && d2[g] == CAN && s[g] == CAN && v2[g] == CAN && vv[g] == CAN && d3[g] == CAN, "writes only the requested orders");
        for (int n = 0; n <= m; ++n) {
            cl(v[n], n, 0, "EvaluateAll");
            cl(v2[n], n, 0, "EvaluateDerivatives values"); cl(d2[n], n, 1, "EvaluateDerivatives derivatives");
            cl(vv[n], n, 0, "EvaluateSecondDerivatives values"); cl(d3[n], n, 1, "EvaluateSecondDerivatives derivatives"); cl(s[n], n, 2, "EvaluateSecondDerivatives second derivatives");
        }
        cl(b.Evaluate(m, x), m, 0, "Evaluate"); cl(b.Derivative(m, x), m, 1, "Derivative"); cl(b.SecondDerivative(m, x), m, 2, "SecondDerivative");
    }
}
template<class B> void only(const char* nm, B const& b, ref::Basis const& r, int maxN, double tol) {
    R = r; TOL = tol;
    for (int m = 0; m <= maxN; ++m) for (int p = 0; p < 3; ++p) {
        double x = X = p == 0 ? 0.0 : U(-3, 3);
        Case("%s derivatives only maxOrder=%d x=%.17g", nm, m, x);
        V d(m + 1 + G, CAN);
        b.EvaluateDerivatives(d.data(), m, x);
        for (int g = m + 1; g < m + 1 + G; ++g) check(d[g] == CAN, "writes only the requested orders");
        for (int n = 0; n <= m; ++n) cl(d[n], n, 1, "EvaluateDerivatives (derivatives only)");
    }
}
int main(int argc, char** argv) {
    return run(argc, argv, [] {
        int N = thorough ? 24 : 18;
        for (int norm = 0; norm < 2; ++norm) {
            ProbabilistHermite a(norm); PhysicistHermite b(norm);
            all(norm ? "ProbabilistHermite normalised" : "ProbabilistHermite", a, ref::ProbHermite(norm), N, 1e-9);
            only(norm ? "ProbabilistHermite normalised" : "ProbabilistHermite", a, ref::ProbHermite(norm), N, 1e-9);
            all(norm ? "PhysicistHermite normalised" : "PhysicistHermite", b, ref::PhysHermite(norm), N, 1e-9);
            only(norm ? "PhysicistHermite normalised" : "PhysicistHermite", b, ref::PhysHermite(norm), N, 1e-9);
        }
        HermiteFunction h;
        all("HermiteFunction", h, ref::HermFun(), N + 2, 1e-8);
        for (int n = 0; n < 30; ++n) { Case("Factorial(%d)", n); close((double)Factorial(n), (double)ref::fact(n), 1e-12, "Factorial"); }
    });
}
