// Gaussian reference densities in forward-mode long double arithmetic
#pragma once
#include "composite.h"
#include "ref.h"
#include "MParT/Distributions/GaussianSamplerDensity.h"
namespace drv {
using namespace mpart;
typedef std::vector<std::vector<ld>> MM;
typedef std::function<D(std::vector<D> const&)> DenF;
inline const char* g_n[] = {"zero mean, identity covariance", "given mean, identity covariance", "zero mean, dense covariance", "given mean, dense covariance"};
// inverse and log determinant of a symmetric positive definite matrix by elimination
inline MM inverse(MM a, ld& logdet) {
    int n = a.size(); MM b(n, std::vector<ld>(n)); for (int i = 0; i < n; ++i) b[i][i] = 1;
    logdet = 0;
    for (int k = 0; k < n; ++k) { logdet += logl(a[k][k]); ld p = a[k][k]; for (int j = 0; j < n; ++j) a[k][j] /= p, b[k][j] /= p;
        for (int i = 0; i < n; ++i) if (i != k) { ld f = a[i][k]; for (int j = 0; j < n; ++j) a[i][j] -= f * a[k][j], b[i][j] -= f * b[k][j]; } }
    return b;
}
struct Den { std::shared_ptr<DensityBase<HS>> d; DenF f; std::string desc; };
inline Den gaussian(int d) {
    int kind = RI(0, 3), lay = RI(0, 3); Den r; r.desc = std::string(g_n[kind]) + " of dimension " + std::to_string(d) + " stored " + g_lay[lay];
    SM w = mk(3, d, RI(0, 1)); SV mu = RI(0, 1) ? mkv(d) : SV(Kokkos::subview(w, 1, Kokkos::ALL()));
    for (int i = 0; i < d; ++i) mu(i) = N01();
    SM S = mk(d, d, lay); MM a(d, std::vector<ld>(d)), s = a, inv; ld logdet = 0;
    for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) a[i][j] = 0.5 * N01() + (i == j) * U(0.7, 1.5);
    for (int i = 0; i < d; ++i) for (int j = i; j < d; ++j) { ld v = 0; for (int k = 0; k < d; ++k) v += a[i][k] * a[j][k]; S(i, j) = S(j, i) = (double)(v + (i == j) * 0.1); }
    for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) s[i][j] = kind < 2 ? (i == j) : (ld)S(i, j);
    inv = inverse(s, logdet); std::vector<ld> m(d); if (kind & 1) for (int i = 0; i < d; ++i) m[i] = mu(i);
    if (kind == 0) r.d = std::make_shared<GaussianSamplerDensity<HS>>((unsigned)d); else if (kind == 1) r.d = std::make_shared<GaussianSamplerDensity<HS>>(mu);
    else if (kind == 2) r.d = std::make_shared<GaussianSamplerDensity<HS>>(S); else r.d = std::make_shared<GaussianSamplerDensity<HS>>(mu, S);
    if (kind >= 2) for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) check((ld)S(i, j) == s[i][j], "the given covariance is not modified");
    r.f = [=](std::vector<D> const& x) { D q; for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) q = q + (x[i] - D(m[i])) * D(inv[i][j]) * (x[j] - D(m[j])); return D(-0.5L) * q - D(0.5L * (d * logl(2 * ref::PI()) + logdet)); };
    return r;
}
// vector of a given length inside a larger block, the rest of which must not change
struct Vec { SM w; SV v; int row; double g;
    Vec(int n) : w(mk(3, n, RI(0, 1))), row(RI(0, 2)), g(garbage()) { for (int i = 0; i < 3; ++i) for (int j = 0; j < n; ++j) w(i, j) = 7; v = Kokkos::subview(w, row, Kokkos::ALL()); for (int j = 0; j < n; ++j) v(j) = g; }
    void guard() { for (int i = 0; i < 3; ++i) if (i != row) for (size_t j = 0; j < w.extent(1); ++j) check(w(i, j) == 7, "memory outside the output is not written"); } };
}
