// LINK: src/Utilities/LinearAlgebra.cpp src/Initialization.cpp
// C20: dense linear algebra wrappers against textbook loops, for every shape, storage order and window.
#include "maps.h"
#include "MParT/Utilities/LinearAlgebra.h"
using namespace mpart; using namespace drv;
typedef Kokkos::View<double**, Kokkos::LayoutLeft, HS> LL; typedef Kokkos::View<double**, Kokkos::LayoutRight, HS> LR; typedef Kokkos::View<const double**, Kokkos::LayoutLeft, HS> CLL;
static ld at(CM const& m, bool t, int i, int j) { return t ? m(j, i) : m(i, j); }
static void fill(SM m, double s = 1) { for (size_t i = 0; i < m.extent(0); ++i) for (size_t j = 0; j < m.extent(1); ++j) m(i, j) = s * N01(); }
static std::vector<double> flat(CM m) { std::vector<double> v; for (size_t i = 0; i < m.extent(0); ++i) for (size_t j = 0; j < m.extent(1); ++j) v.push_back(m(i, j)); return v; }
static LL ll(int r, int c, bool window) { if (!window) return LL("a", r, c); LL b("b", r + 3, c + 2); Kokkos::deep_copy(b, 3e7); return Kokkos::subview(b, std::make_pair(1, r + 1), std::make_pair(1, c + 1)); }
static ld det(Mx a) { int n = a.size(); ld d = 1; for (int k = 0; k < n; ++k) { int p = k; for (int i = k; i < n; ++i) if (fabsl(a[i][k]) > fabsl(a[p][k])) p = i; if (p != k) { std::swap(a[p], a[k]); d = -d; } d *= a[k][k]; if (a[k][k] == 0) return 0; for (int i = k + 1; i < n; ++i) { ld f = a[i][k] / a[k][k]; for (int j = k; j < n; ++j) a[i][j] -= f * a[k][j]; } } return d; }
int main(int argc, char** argv) {
    return run(argc, argv, [] {
        int reps = thorough ? 20000 : 3000;
        for (int it = 0; it < reps; ++it) section([&] { // products
            int lo = RI(0, 9) ? 1 : 0, m = RI(lo, 6), k = RI(lo, 6), n = RI(lo, 6), la = RI(0, 3), lb = RI(0, 3), lc = RI(0, 3); bool ta = RI(0, 1), tb = RI(0, 1); double al = RI(0, 3) ? N01() : 1, be = RI(0, 2) ? N01() : 0;
            Case("dgemm %dx%d times %dx%d, A %s%s, B %s%s, C %s, alpha=%g beta=%g", m, k, k, n, g_lay[la], ta ? " transposed" : "", g_lay[lb], tb ? " transposed" : "", g_lay[lc], al, be);
            SM A = mk(ta ? k : m, ta ? m : k, la), B = mk(tb ? n : k, tb ? k : n, lb), C = mk(m, n, lc); fill(A); fill(B); fill(C);
            auto a0 = flat(A), b0 = flat(B); Mx C0(m, std::vector<ld>(n)), P(m, std::vector<ld>(n)); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { C0[i][j] = C(i, j); for (int l = 0; l < k; ++l) P[i][j] += at(A, ta, i, l) * at(B, tb, l, j); }
            TransposeObject<HS> oA(A, ta), oB(B, tb); check(oA.rows() == m && oA.cols() == k && oB.rows() == k && oB.cols() == n, "sizes of a transposed matrix");
            auto tt = transpose(oA); check(tt.rows() == k && tt.cols() == m && tt.isTransposed != ta, "transposing twice"); auto tv = transpose(A); check(tv.rows() == (int)A.extent(1) && tv.cols() == (int)A.extent(0) && tv.isTransposed, "transpose of a view");
            dgemm<HS>(al, oA, oB, be, C); check((int)C.extent(0) == m && (int)C.extent(1) == n, "shape");
            for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) close(C(i, j), al * P[i][j] + be * C0[i][j], 1e-12, "dgemm");
            check(a0 == flat(A) && b0 == flat(B), "operands are unchanged");
            auto prod = [&](SM p, const char* w) { check((int)p.extent(0) == m && (int)p.extent(1) == n, w, "shape"); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) close(p(i, j), P[i][j], 1e-12, w); };
            prod(oA * oB, "product"); if (!ta) prod(A * oB, "product view times object"); if (!tb) prod(oA * B, "product object times view"); if (!ta && !tb) { prod(A * B, "product of views"); SM C2 = mk(m, n, lc); fill(C2); Mx c2(m, std::vector<ld>(n)); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) c2[i][j] = C2(i, j); dgemm<HS>(al, A, B, be, C2); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) close(C2(i, j), al * P[i][j] + be * c2[i][j], 1e-12, "dgemm of views"); }
            if (ta) { SM q = transpose(A) * oB; prod(q, "product with a transposed view"); }
        });
        for (int it = 0; it < reps / 3; ++it) section([&] { // sums
            int lo = RI(0, 9) ? 1 : 0, m = RI(lo, 7), n = RI(lo, 7), w = RI(0, 1); Case("sum %dx%d window %d", m, n, w);
            LL A = ll(m, n, w); LR B("B", m, n); LL Bl = ll(m, n, !w); fill(A); fill(B); fill(Bl); Mx S(m, std::vector<ld>(n)), T = S; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { S[i][j] = (ld)A(i, j) + B(i, j); T[i][j] = (ld)A(i, j) + Bl(i, j); }
            auto b0 = flat(B), a0 = flat(A);
            auto eq = [&](auto const& v, Mx const& R, const char* nm) { check((int)v.extent(0) == m && (int)v.extent(1) == n, nm, "shape"); if ((int)v.extent(0) == m && (int)v.extent(1) == n) for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) close(v(i, j), (double)R[i][j], 1e-15, nm); };
            auto Z = B + A; eq(Z, S, "sum of matrices"); auto Zc = Kokkos::View<const double**, Kokkos::LayoutLeft, HS>(A) + Kokkos::View<const double**, Kokkos::LayoutRight, HS>(B); eq(Zc, S, "sum of constant matrices"); check(a0 == flat(A), "sum leaves its operands");
            { LL X = ll(m, n, w); Kokkos::deep_copy(X, A); AddInPlace(X, Kokkos::View<const double**, Kokkos::LayoutRight, HS>(B)); eq(X, S, "in-place sum of matrices"); }
            { LL X = ll(m, n, w); Kokkos::deep_copy(X, A); X += B; eq(X, S, "+= of matrices"); } { LL X = ll(m, n, w); Kokkos::deep_copy(X, A); X += Bl; eq(X, T, "+= of matrices"); }
            check(b0 == flat(B), "right operand unchanged");
            int k = RI(0, 9); Kokkos::View<double*, HS> x("x", k), y("y", k), x0("x", k); SV ys = Kokkos::subview(mk(2, k, 1), 1, Kokkos::ALL()); for (int i = 0; i < k; ++i) { x(i) = x0(i) = N01(); y(i) = N01(); ys(i) = N01(); }
            auto e1 = [&](auto const& v, const char* nm) { check((int)v.extent(0) == k, nm, "length"); for (int i = 0; i < k && i < (int)v.extent(0); ++i) close(v(i), x0(i) + y(i), 1e-15, nm); };
            e1(x + y, "sum of vectors"); e1(Kokkos::View<const double*, HS>(x) + Kokkos::View<const double*, HS>(y), "sum of constant vectors"); x += y; e1(x, "+= of vectors");
            Kokkos::deep_copy(x, x0); x += Kokkos::View<const double*, HS>(y); e1(x, "+= of a constant vector"); Kokkos::deep_copy(x, x0); AddInPlace(x, StridedVector<const double, HS>(ys)); for (int i = 0; i < k; ++i) close(x(i), x0(i) + ys(i), 1e-15, "in-place sum of vectors");
        });
        for (int it = 0; it < reps / 3; ++it) section([&] { // reductions
            int m = RI(1, 7), n = RI(1, 60), la = RI(0, 3), thr = 0; (void)thr; double al = N01(); SM A = mk(m, n, la); fill(A); Case("reduction of %dx%d %s", m, n, g_lay[la]);
            auto go = [&](auto fun, int keep, int red, bool norm, bool rows) { std::vector<double> out(keep, N01()); Kokkos::parallel_reduce(Kokkos::RangePolicy<typename MemoryToExecution<HS>::Space>(0, red), fun, out.data());
                for (int i = 0; i < keep; ++i) { ld s = 0; for (int j = 0; j < red; ++j) { ld v = rows ? A(i, j) : A(j, i); s += al * (norm ? v * v : v); } close(out[i], s, 1e-11, rows ? "reduction over columns" : "reduction over rows"); } };
            go(ReduceDim<ReduceDimMap::sum, HS, 1>(A, al), m, n, false, true); go(ReduceDim<ReduceDimMap::norm, HS, 1>(A, al), m, n, true, true); go(ReduceDim<ReduceDimMap::sum, HS, 0>(A, al), n, m, false, false); go(ReduceDim<ReduceDimMap::norm, HS, 0>(A, al), n, m, true, false);
        });
        for (int it = 0; it < reps / 2; ++it) section([&] { // factorisations
            int n = RI(1, 7), k = RI(0, 5), lb = RI(0, 3); bool w = RI(0, 1), w2 = RI(0, 1); LL A = ll(n, n, w); bool perm = RI(0, 1);
            Case("factorisation of %dx%d window %d, %d right hand sides %s", n, n, w, k, g_lay[lb]);
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = 0.4 * N01() / n; for (int i = 0; i < n; ++i) A(i, perm ? (i + 1) % n : i) += RI(0, 1) ? 2 : -2;
            Mx M(n, std::vector<ld>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) M[i][j] = A(i, j); auto a0 = flat(A);
            SM B = mk(n, k, lb); fill(B); auto b0 = flat(B);
            auto resid = [&](auto const& X, Mx const& Q, const char* nm) { check((int)X.extent(0) == n && (int)X.extent(1) == k, nm, "shape"); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) { ld s = 0; for (int l = 0; l < n; ++l) s += Q[i][l] * X(l, j); close(s, B(i, j), 1e-9, nm); } };
            PartialPivLU<HS> lu; if (RI(0, 1)) lu = PartialPivLU<HS>(CLL(A)); else lu.compute(CLL(A));
            resid(lu.solve(B), M, "LU solution"); check(flat(B) == b0 && flat(A) == a0, "solving leaves its arguments"); LL X = ll(n, k, w2); Kokkos::deep_copy(X, B); lu.solveInPlace(X); resid(X, M, "LU solution in place"); close(lu.determinant(), det(M), 1e-10, "LU determinant");
            Kokkos::deep_copy(A, 0.0); resid(lu.solve(B), M, "LU keeps its own factors");
            LL S = ll(n, n, w); Mx Q(n, std::vector<ld>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double s = i == j; for (int l = 0; l < n; ++l) s += (double)(M[i][l] * M[j][l]); S(i, j) = s; } for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) Q[i][j] = S(i, j);
            Cholesky<HS> ch; if (RI(0, 1)) ch = Cholesky<HS>(CLL(S)); else ch.compute(CLL(S));
            Mx L(n, std::vector<ld>(n)); for (int j = 0; j < n; ++j) { ld s = Q[j][j]; for (int l = 0; l < j; ++l) s -= L[j][l] * L[j][l]; L[j][j] = sqrtl(s); for (int i = j + 1; i < n; ++i) { ld t = Q[i][j]; for (int l = 0; l < j; ++l) t -= L[i][l] * L[j][l]; L[i][j] = t / L[j][j]; } }
            resid(ch.solve(B), Q, "Cholesky solution"); Kokkos::deep_copy(X, B); ch.solveInPlace(X); resid(X, Q, "Cholesky solution in place"); close(ch.determinant(), det(Q), 1e-9, "Cholesky determinant");
            Kokkos::deep_copy(X, B); ch.solveInPlaceL(X); resid(X, L, "solution with the Cholesky factor");
            LL Bl = ll(n, k, w2); Kokkos::deep_copy(Bl, B); auto Y = ch.multiplyL(CLL(Bl)); check((int)Y.extent(0) == n && (int)Y.extent(1) == k, "product with the Cholesky factor", "shape"); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) { ld s = 0; for (int l = 0; l <= i; ++l) s += L[i][l] * B(l, j); close(Y(i, j), s, 1e-10, "product with the Cholesky factor"); }
            check(flat(B) == b0, "solving leaves its arguments");
        });
    });
}
