// Independent reference definitions used as oracles (closed forms, long double).
#pragma once
#include <cmath>
#include <vector>
#include <functional>
namespace ref {
typedef long double ld;
inline ld fact(int n) { ld r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }
inline ld binom(int n, int k) { return fact(n) / (fact(k) * fact(n - k)); }
// probabilist Hermite by its explicit sum: n! sum_m (-1)^m x^(n-2m) / (m! (n-2m)! 2^m)
inline ld he(int n, ld x) { if (n < 0) return 0; ld s = 0; for (int m = 0; 2 * m <= n; ++m) s += ((m % 2) ? -1 : 1) * powl(x, n - 2 * m) / (fact(m) * fact(n - 2 * m) * powl(2, m)); return s * fact(n); }
inline ld ph(int n, ld x) { if (n < 0) return 0; ld s = 0; for (int m = 0; 2 * m <= n; ++m) s += ((m % 2) ? -1 : 1) * powl(2 * x, n - 2 * m) / (fact(m) * fact(n - 2 * m)); return s * fact(n); }
inline ld PI() { return acosl(-1.0L); }
typedef std::function<ld(int, ld, int)> Basis;   // (order, x, derivative)
inline Basis ProbHermite(bool norm) { return [norm](int n, ld x, int d) { ld v = he(n - d, x); for (int i = 0; i < d; ++i) v *= (n - i > 0 ? n - i : 0); return norm ? v / sqrtl(sqrtl(2 * PI()) * fact(n)) : v; }; }
inline Basis PhysHermite(bool norm) { return [norm](int n, ld x, int d) { ld v = ph(n - d, x); for (int i = 0; i < d; ++i) v *= 2 * (n - i > 0 ? n - i : 0); return norm ? v / sqrtl(sqrtl(PI()) * powl(2, n) * fact(n)) : v; }; }
inline ld psi(int n, ld x) { if (n < 0) return 0; return expl(-x * x / 2) * ph(n, x) / sqrtl(powl(2, n) * fact(n) * sqrtl(PI())); }
inline Basis HermFun() { return [](int n, ld x, int d) -> ld {
    if (n == 0) return d == 0 ? 1 : 0;
    if (n == 1) return d == 0 ? x : (d == 1 ? 1 : 0);
    int k = n - 2;
    if (d == 0) return psi(k, x);
    if (d == 1) return sqrtl(k / 2.0L) * psi(k - 1, x) - sqrtl((k + 1) / 2.0L) * psi(k + 1, x);
    return (x * x - 2 * k - 1) * psi(k, x); }; }
inline Basis Linearized(Basis b, ld lo, ld hi) { return [=](int n, ld x, int d) -> ld {
    if (x >= lo && x <= hi) return b(n, x, d);
    ld a = x < lo ? lo : hi;
    if (d == 0) return b(n, a, 0) + b(n, a, 1) * (x - a);
    if (d == 1) return b(n, a, 1);
    return 0; }; }
// tensor-product term and its partial derivatives (degree-zero factors count as one)
inline ld term(Basis const& b, std::vector<unsigned> const& mi, std::vector<double> const& x, std::vector<int> const& der) {
    ld v = 1;
    for (size_t i = 0; i < mi.size(); ++i) { if (mi[i] == 0) { if (der[i] > 0) return 0; continue; } v *= b(mi[i], x[i], der[i]); }
    return v;
}
}
