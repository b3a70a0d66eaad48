// C11: bracketing and scalar inversion on increasing functions of many shapes.
#include "common.h"
#include "MParT/Utilities/RootFinding.h"
using namespace drv; using namespace mpart;
typedef std::function<double(double)> Fn;
typedef Kokkos::HostSpace HS;
struct Shape { const char* name; Fn f; bool easy; };
int main(int argc, char** argv) {
    return run(argc, argv, [] {
        std::vector<Shape> S = {
            {"x", [](double x) { return x; }, true}, {"0.01x-3", [](double x) { return 0.01 * x - 3; }, true}, {"1e6x", [](double x) { return 1e6 * x; }, true},
            {"x+sin/2", [](double x) { return x + 0.5 * std::sin(x); }, true}, {"x^3+x", [](double x) { return x * x * x + x; }, true}, {"sinh", [](double x) { return std::sinh(x); }, true},
            {"exp", [](double x) { return std::exp(x); }, false}, {"atan", [](double x) { return std::atan(x); }, false}, {"tanh", [](double x) { return std::tanh(x); }, false},
            {"-exp(-x)", [](double x) { return -std::exp(-x); }, false}, {"kink", [](double x) { return x < 0 ? 1e-3 * x : 1e3 * x; }, true}, {"kink2", [](double x) { return x < 1 ? 1e3 * (x - 1) : 1e-2 * (x - 1); }, true},
            {"x^5", [](double x) { return std::pow(x, 5); }, true}, {"jump", [](double x) { return x < 0.3 ? x : x + 5; }, true}, {"jump2", [](double x) { return x <= -2.7 ? 0.1 * x - 4 : x + 5; }, true},
            {"slope 1e-13", [](double x) { return 1e-13 * x; }, false}, {"slope 1e-11", [](double x) { return 1e-11 * x; }, false}, {"cbrt", [](double x) { return std::cbrt(x); }, true},
            {"constant", [](double) { return 0.5; }, false}, {"step", [](double x) { return x < 0 ? -1.0 : 1.0; }, false}};
        for (auto& s : S) for (int it = 0; it < (thorough ? 4000 : 500); ++it) {
            double span = std::pow(10.0, RI(-2, 4)), x0 = it % 7 == 0 ? 0.0 : U(-span, span), xr = U(-1, 1) * std::pow(10.0, RI(-2, 3));
            double yd = it % 5 == 0 ? U(-3, 3) : (it % 11 == 0 ? s.f(x0) : s.f(xr));
            if (!std::isfinite(yd)) continue;
            double xtol = std::pow(10.0, RI(-10, -1)), ftol = std::pow(10.0, RI(-10, -1));
            if (it % 13 == 0) xtol = 1e-2 * std::pow(10.0, RI(0, 3)); 
            Case("f=%s x0=%.17g target=%.17g xtol=%g ftol=%g", s.name, x0, yd, xtol, ftol);
            long calls = 0;
            auto f = [&](double x) { ++calls; return s.f(x); };
            double xl = x0, xu = x0, yl = -7, yu = -7; int info = 77;
            RootFinding::FindBracket<HS>(f, xl, yl, xu, yu, yd, info);
            check(info == 0 || info == -1 || info == -2, "bracket status"); check(calls < 300, "bracket work");
            if (info == 0) {
                check(xl < xu, "bracket ordered", num(xl) + " " + num(xu)); check(yl == s.f(xl) && yu == s.f(xu), "bracket values are those of the function");
                check(yl <= yd && yd <= yu, "bracket encloses the root", num(yl) + " " + num(yu));
                g_cover["bracket found"]++;
            } else check(!s.easy, "bracket found for a function that crosses the target");
            calls = 0; int inf = 77;
            double x = RootFinding::InverseSingleBracket<HS>(yd, f, x0, xtol, ftol, inf);
            check(calls < 10400, "inversion work"); check(inf <= 0, "inversion status");
            if (info != 0) check(inf < 0, "a function that is not bracketed is reported");
            if (inf == 0) {
                double e = 4e-16 * std::abs(x), d = xtol * (1 + 1e-9) + e;
                check(std::isfinite(x) && (std::abs(s.f(x) - yd) <= ftol || (s.f(x - d) <= yd && yd <= s.f(x + d))), "solution agrees with the target or is within the tolerance of the root", "x=" + num(x) + " f(x)=" + num(s.f(x)));
            } else if (s.easy && std::abs(x0) < 1e3 && xtol >= 1e-9) check(false, "inversion succeeds on an ordinary function", "info=" + std::to_string(inf));
            if (inf == -2) check(std::isnan(x), "no solution value without a bracket");
        }
        // running out of iterations: tolerances that double precision cannot meet
        for (auto& s : S) for (double x0 : {0.0, 3.0, -250.0, 1e5, 1e12}) for (double xr : {1.0 / 3, 1e9 / 7, -1e13 / 3}) {
            double yd = s.f(xr) + (s.easy ? 1e-3 * std::abs(s.f(xr)) : 0);
            if (!std::isfinite(yd)) continue;
            for (double xtol : {0.0, 1e-300, 1e-17}) {
                Case("f=%s x0=%.17g target=%.17g xtol=%g ftol=1e-300", s.name, x0, yd, xtol);
                int inf = 77; double x = RootFinding::InverseSingleBracket<HS>(yd, s.f, x0, xtol, 1e-300, inf);
                if (inf == 0) check(s.f(x) == yd || (s.f(x - xtol) <= yd && yd <= s.f(x + xtol)), "exhausted iterations are reported", "x=" + num(x) + " f(x)=" + num(s.f(x)));
                else g_cover["failure reported"]++;
            }
        }
    });
}
