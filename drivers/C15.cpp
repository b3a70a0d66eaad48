// LINK: src/ParameterizedFunctionBase.cpp src/ConditionalMapBase.cpp src/AffineMap.cpp src/AffineFunction.cpp src/IdentityMap.cpp src/SummarizedMap.cpp src/Utilities/LinearAlgebra.cpp src/Initialization.cpp src/Utilities/Miscellaneous.cpp
// C15: affine, identity and summarised maps against their formula, for every layout and prior output content.
#include "maps.h"
#include "MParT/AffineMap.h"
#include "MParT/AffineFunction.h"
#include "MParT/IdentityMap.h"
#include "MParT/SummarizedMap.h"
using namespace mpart; using namespace drv;
static ld det(Mx a) { int n = a.size(); ld d = 1; for (int k = 0; k < n; ++k) { int p = k; for (int i = k; i < n; ++i) if (fabsl(a[i][k]) > fabsl(a[p][k])) p = i; if (p != k) { std::swap(a[p], a[k]); d = -d; } d *= a[k][k]; for (int i = k + 1; i < n; ++i) { ld f = a[i][k] / a[k][k]; for (int j = k; j < n; ++j) a[i][j] -= f * a[k][j]; } } return d; }
int main(int argc, char** argv) {
    return run(argc, argv, [] {
        int reps = thorough ? 3000 : 400;
        for (int it = 0; it < reps; ++it) section([&] {
            int m = RI(1, 5), n = m + (RI(0, 1) ? RI(0, 4) : 0), np = RI(0, 3) ? RI(1, 6) : RI(0, 1) , lay = RI(0, 3), kind = RI(0, 3), which = RI(0, 3);
            if (which == 0) {        // affine
                bool lin = kind != 1, bias = kind != 0; bool fun = RI(0, 2) == 0;
                if (!lin) n = m;
                SM A = mkr(m, n); for (int i = 0; i < m; ++i) A(i, n - m + (RI(0, 3) ? i : m - 1 - i)) += RI(0, 1) ? 3 : -3;
                SV b = mkv(m); for (int i = 0; i < m; ++i) b(i) = N01();
                Mx S(m, std::vector<ld>(m)); for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) S[i][j] = A(i, n - m + j);
                ld ldet = lin ? logl(fabsl(det(S))) : 0;
                if (lin && ldet < -2) return;
                if (lin && !fun && n == m) for (int i = 0; i < m; ++i) { }
                Case("%s linear=%d offset=%d in=%d out=%d points=%d output %s", fun ? "AffineFunction" : "AffineMap", lin, bias, n, m, np, g_lay[lay]);
                EvalF ev = [&](std::vector<D> const&, std::vector<D> const& x) { std::vector<D> o; for (int i = 0; i < m; ++i) { D s; if (lin) for (int k = 0; k < n; ++k) s = s + D(A(i, k)) * x[k]; else s = x[i]; if (bias) s = s + D(b(i)); o.push_back(s); } return o; };
                LogF lg = [&](std::vector<D> const&, std::vector<D> const&) { return D(ldet); };
                SM pts = mkr(n, np);
                if (fun) { AffineFunction<HS> f = !lin ? AffineFunction<HS>(b) : (bias ? AffineFunction<HS>(A, b) : AffineFunction<HS>(A)); check((int)f.inputDim == n && (int)f.outputDim == m && f.numCoeffs == 0, "sizes"); check_fun(f, ev, pts, lay, 1e-9); }
                else { AffineMap<HS> f = !lin ? AffineMap<HS>(b) : (bias ? AffineMap<HS>(A, b) : AffineMap<HS>(A)); check((int)f.inputDim == n && (int)f.outputDim == m && f.numCoeffs == 0, "sizes");
                    SM A2 = A; for (int i = 0; i < 1 && RI(0, 1); ++i) { /* the map owns a copy */ double o = b(0); b(0) = 1e9; SM q = mk(m, np); f.EvaluateImpl(pts, q); b(0) = o; for (int j = 0; j < np; ++j) cmpm(q(0, j), ev({}, lift(col(pts, j)))[0].v, 1e-9, "copies its offset"); }
                    check_map(f, ev, lg, pts, lay, 1e-9); }
            } else if (which == 1) {
                IdentityMap<HS> f(n, m); Case("IdentityMap in=%d out=%d points=%d output %s", n, m, np, g_lay[lay]);
                EvalF ev = [&](std::vector<D> const&, std::vector<D> const& x) { return std::vector<D>(x.begin() + (n - m), x.end()); };
                LogF lg = [&](std::vector<D> const&, std::vector<D> const&) { return D(0); };
                check_map(f, ev, lg, mkr(n, np), lay, 1e-12);
            } else {
                int sn = RI(1, 4), sm = RI(1, 3);
                auto s = std::make_shared<ToyFun>(sn, sm); auto c = std::make_shared<ToyMap>(sm + 1, 1); setc(*s);
                SummarizedMap<HS> f(s, c); setc(f);
                auto sc = lift(s->c());
                Case("SummarizedMap summary %d->%d points=%d output %s", sn, sm, np, g_lay[lay]);
                check((int)f.inputDim == sn + 1 && f.outputDim == 1 && f.numCoeffs == c->numCoeffs, "sizes");
                auto full = [&](std::vector<D> const& x) { auto y = s->t.eval(sc, std::vector<D>(x.begin(), x.end() - 1)); y.push_back(x.back()); return y; };
                EvalF ev = [&](std::vector<D> const& co, std::vector<D> const& x) { return c->t.eval(co, full(x)); };
                LogF lg = [&](std::vector<D> const& co, std::vector<D> const& x) { return c->t.logdet(co, full(x)); };
                check_map(f, ev, lg, mkr(sn + 1, np), lay, 1e-9);
                if (it % 10 == 0) { throws([&] { SummarizedMap<HS> g(s, std::make_shared<ToyMap>(sm + 2, 1)); }, "incompatible sizes are rejected"); throws([&] { SummarizedMap<HS> g(s, std::make_shared<ToyMap>(sm + 1, std::min(2, sm + 1))); }, "incompatible sizes are rejected"); }
            }
        });
    });
}
