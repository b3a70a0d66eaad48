// C07: linearised bases against the piecewise definition.
#include "common.h"
#include "ref.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/HermiteFunction.h"
#include "MParT/LinearizedBasis.h"
using namespace drv; using namespace mpart;
static const double CAN = 1.25e77; static const int G = 4;
typedef std::vector<double> V;
template<class B> void go(const char* nm, B const& base, ref::Basis const& r0, int maxN) {
    for (int bnd = 0; bnd < (thorough ? 12 : 5); ++bnd) {
        double lo = bnd == 0 ? -3 : U(-2.5, 1), hi = bnd == 0 ? 3 : lo + U(0.1, 3);
        LinearizedBasis<B> lb(base, lo, hi);
        ref::Basis r = ref::Linearized(r0, lo, hi);
        for (int m = 0; m <= maxN; ++m) for (int p = 0; p < 17; ++p) {
            double x = p == 0 ? lo : p == 1 ? hi : p == 2 ? std::nextafter(lo, -1e9) : p == 3 ? std::nextafter(hi, 1e9) : p == 4 ? std::nextafter(lo, 1e9) : p == 5 ? U(lo - 4, lo) : p == 6 ? U(hi, hi + 4) : p >= 13 ? hi + std::pow(10., 12 - p) * U(0.2, 1) : p >= 9 ? lo - std::pow(10., 8 - p) * U(0.2, 1) : U(lo, hi);
            Case("%s bounds [%.17g, %.17g] maxOrder=%d x=%.17g", nm, lo, hi, m, x);
            V v(m + 1 + G, CAN), d(v), v2(v), d2(v), d3(v), s(v), vv(v);
            lb.EvaluateAll(v.data(), m, x); lb.EvaluateDerivatives(v2.data(), d2.data(), m, x); lb.EvaluateSecondDerivatives(vv.data(), d3.data(), s.data(), m, x);
            for (int g = m + 1; g < m + 1 + G; ++g) check(v[g] == CAN && d2[g] == CAN && s[g] == CAN && v2[g] == CAN && vv[g] == CAN && d3[g] == CAN, "writes only the requested orders");
            auto cl = [&](double a, int n, int k, const char* w) { g_cover[w]++; double e = (double)r(n, x, k); double t = 1e-9 * (1 + std::abs(e) + std::abs((double)r(n, x, 0)) + (n ? n * std::abs((double)r(n - 1, x, 0)) : 0)); if (!(std::abs(a - e) <= t)) fail(w, "order " + std::to_string(n) + " got " + num(a) + " expected " + num(e)); };
            for (int n = 0; n <= m; ++n) { cl(v[n], n, 0, "EvaluateAll"); cl(v2[n], n, 0, "EvaluateDerivatives values"); cl(vv[n], n, 0, "EvaluateSecondDerivatives values"); cl(d2[n], n, 1, "EvaluateDerivatives derivatives"); cl(d3[n], n, 1, "EvaluateSecondDerivatives derivatives"); cl(s[n], n, 2, "EvaluateSecondDerivatives second derivatives"); }
            cl(lb.Evaluate(m, x), m, 0, "Evaluate"); cl(lb.Derivative(m, x), m, 1, "Derivative"); cl(lb.SecondDerivative(m, x), m, 2, "SecondDerivative");
        }
    }
}
int main(int argc, char** argv) {
    return run(argc, argv, [] {
        for (int norm = 0; norm < 2; ++norm) { go(norm ? "ProbabilistHermite normalised" : "ProbabilistHermite", ProbabilistHermite(norm), ref::ProbHermite(norm), 9); go(norm ? "PhysicistHermite normalised" : "PhysicistHermite", PhysicistHermite(norm), ref::PhysHermite(norm), 9); }
        go("HermiteFunction", HermiteFunction(), ref::HermFun(), 9);
        LinearizedBasis<ProbabilistHermite> dflt(-1.5, 2.5);
        for (double x : {-2.0, -1.5, 0.3, 2.5, 3.5}) { Case("two-argument constructor x=%g", x); auto r = ref::Linearized(ref::ProbHermite(false), -1.5, 2.5); for (int n = 0; n < 5; ++n) close(dflt.Evaluate(n, x), (double)r(n, x, 0), 1e-10, "Evaluate"); }
    });
}
