// random trees of composite maps with reference semantics
#pragma once
#include "maps.h"
#include "MParT/TriangularMap.h"
#include "MParT/ComposedMap.h"
#include "MParT/SummarizedMap.h"
#include "MParT/IdentityMap.h"
#include "MParT/AffineMap.h"
namespace drv {
using mpart::ConditionalMapBase;
inline Node triNode(std::vector<Node> cs) {
    std::vector<std::shared_ptr<ConditionalMapBase<HS>>> v; Node r; r.desc = "Tri(";
    for (auto& c : cs) { v.push_back(c.map); r.desc += c.desc + " "; }
    r.desc += ")"; r.map = std::make_shared<mpart::TriangularMap<HS>>(v);
    r.ev = [cs](std::vector<D> const& c, std::vector<D> const& x) { std::vector<D> o; int p = 0; for (auto& q : cs) { int k = q.map->numCoeffs, n = q.map->inputDim; auto y = q.ev(slice(c, p, p + k), slice(x, 0, n)); o.insert(o.end(), y.begin(), y.end()); p += k; } return o; };
    r.lg = [cs](std::vector<D> const& c, std::vector<D> const& x) { D s; int p = 0; for (auto& q : cs) { int k = q.map->numCoeffs, n = q.map->inputDim; s = s + q.lg(slice(c, p, p + k), slice(x, 0, n)); p += k; } return s; };
    return r;
}
inline Node idNode(int n, int m) { Node r; r.map = std::make_shared<mpart::IdentityMap<HS>>(n, m); r.ev = [n, m](std::vector<D> const&, std::vector<D> const& x) { return slice(x, n - m, n); }; r.lg = [](std::vector<D> const&, std::vector<D> const&) { return D(0); }; r.desc = "I" + std::to_string(n) + ">" + std::to_string(m); return r; }
// affine map whose trailing block is lower triangular with positive diagonal
inline Node affNode(int n, int m) {
    Node r; SM A = mk(m, n, 1); SV b = mkv(m); ld l = 0;
    for (int i = 0; i < m; ++i) { b(i) = N01(); for (int k = 0; k < n; ++k) A(i, k) = k < n - m + i ? 0.5 * N01() : (k == n - m + i ? U(0.5, 2) : 0); l += logl(A(i, n - m + i)); }
    r.map = std::make_shared<mpart::AffineMap<HS>>(A, b);
    r.ev = [A, b, n, m](std::vector<D> const&, std::vector<D> const& x) { std::vector<D> o; for (int i = 0; i < m; ++i) { D s = D(b(i)); for (int k = 0; k < n; ++k) s = s + D(A(i, k)) * x[k]; o.push_back(s); } return o; };
    r.lg = [l](std::vector<D> const&, std::vector<D> const&) { return D(l); }; r.desc = "A" + std::to_string(n) + ">" + std::to_string(m); return r;
}
inline Node compNode(std::vector<Node> cs, int ck) {
    std::vector<std::shared_ptr<ConditionalMapBase<HS>>> v; Node r; r.desc = "Comp" + std::to_string(ck) + "(";
    for (auto& c : cs) { v.push_back(c.map); r.desc += c.desc + " "; }
    r.desc += ")"; r.map = std::make_shared<mpart::ComposedMap<HS>>(v, false, ck);
    r.ev = [cs](std::vector<D> const& c, std::vector<D> const& x) { std::vector<D> y = x; int p = 0; for (auto& q : cs) { int k = q.map->numCoeffs; y = q.ev(slice(c, p, p + k), y); p += k; } return y; };
    r.lg = [cs](std::vector<D> const& c, std::vector<D> const& x) { std::vector<D> y = x; D s; int p = 0; for (auto& q : cs) { int k = q.map->numCoeffs; auto sc = slice(c, p, p + k); s = s + q.lg(sc, y); y = q.ev(sc, y); p += k; } return s; };
    return r;
}
inline Node randNode(int n, int m, int depth);
inline Node randTri(int n, int m, int depth) { std::vector<Node> cs; int left = m, in = n - m; while (left) { int b = RI(1, left); if (RI(0, 2)) b = std::min(b, 2); in += b; cs.push_back(randNode(in, b, depth - 1)); left -= b; } return triNode(cs); }
inline Node randComp(int n, int depth, int mx = 5) { int k = RI(1, mx); std::vector<Node> cs; for (int i = 0; i < k; ++i) cs.push_back(randNode(n, n, depth - 1)); return compNode(cs, RI(0, 2) ? RI(1, k) : -1); }
inline Node randNode(int n, int m, int depth) {
    int t = RI(0, depth > 0 ? 9 : 5);
    if (t < 3) return toyNode(n, m);
    if (t == 3) return RI(0, 1) ? idNode(n, m) : affNode(n, m);
    if (t < 6) return toyNode(n, m);
    if (t < 8 || n != m) return randTri(n, m, depth);
    return randComp(n, depth, 3);
}
inline void setn(Node& t, double s = 0.4) { setc(*t.map, s); }
}
