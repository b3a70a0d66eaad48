// random histories of a growing multi-index set against a reference over dense vectors
#pragma once
#include "mi.h"
#include "MParT/MultiIndices/MultiIndexSet.h"
namespace drv {
using mpart::MultiIndex; using mpart::MultiIndexSet;
struct Lim { std::string name; std::function<bool(DV const&)> f; MultiIndexSet::LimiterType l; };
inline DV DVof(MultiIndex const& m) { return m.Vector(); }
inline Lim rlim(unsigned dim, int depth = 0) {
    namespace L = mpart::MultiIndexLimiter; unsigned k;
    switch (RI(0, depth ? 5 : 8)) {
        case 0: case 1: return {"none", [](DV const&) { return true; }, L::None()};
        case 2: k = RI(0, 4); return {"total " + std::to_string(k), [k](DV const& v) { return vsum(v) <= k; }, L::TotalOrder(k)};
        case 3: { DV b(dim); for (auto& x : b) x = RI(0, 3); return {"degrees " + show(b), [b](DV const& v) { for (size_t i = 0; i < v.size(); ++i) if (v[i] > b[i]) return false; return true; }, L::MaxDegree(b)}; }
        case 4: { unsigned lo = RI(0, dim - 1), n = RI(1, dim - lo); return {"dimensions " + std::to_string(lo) + "+" + std::to_string(n), [lo, n](DV const& v) { for (size_t i = 0; i < v.size(); ++i) if ((i < lo || i >= lo + n) && v[i]) return false; return true; }, L::Dimension(lo, n)}; }
        case 5: { unsigned h = RI(0, 1000); auto f = [h](DV const& v) { unsigned long x = h; for (auto e : v) x = x * 31 + e; return (x * 2654435761u >> 7) % 5 != 0; }; // arbitrary, not downward closed
                  return {"irregular " + std::to_string(h), f, [f](MultiIndex const& m) { return f(m.Vector()); }}; }
        case 6: { Lim a = rlim(dim, 1), b = rlim(dim, 1); return {"(" + a.name + " and " + b.name + ")", [a, b](DV const& v) { return a.f(v) && b.f(v); }, L::And(a.l, b.l)}; }
        case 7: { Lim a = rlim(dim, 1), b = rlim(dim, 1); return {"(" + a.name + " or " + b.name + ")", [a, b](DV const& v) { return a.f(v) || b.f(v); }, L::Or(a.l, b.l)}; }
        default: { Lim a = rlim(dim, 1), b = rlim(dim, 1); return {"(" + a.name + " xor " + b.name + ")", [a, b](DV const& v) { return a.f(v) != b.f(v); }, L::Xor(a.l, b.l)}; }
    }
}
inline std::vector<DV> fwd(DV v) { std::vector<DV> o; for (auto& x : v) { ++x; o.push_back(v); --x; } return o; }
inline std::vector<DV> bwd(DV v) { std::vector<DV> o; for (auto& x : v) if (x) { --x; o.push_back(v); ++x; } return o; }
inline std::vector<DV> box(unsigned dim, unsigned top) { std::vector<DV> o; DV v(dim, 0); for (;;) { o.push_back(v); unsigned d = 0; while (d < dim && v[d] == top) v[d++] = 0; if (d == dim) return o; ++v[d]; } }
struct Ref {
    unsigned dim; Lim lim; std::vector<DV> act; std::set<DV> in;
    bool has(DV const& v) const { return in.count(v); }
    bool closed(DV const& v) const { for (auto& b : bwd(v)) if (!has(b)) return false; return true; }
    bool adm(DV const& v) const { return lim.f(v) && (has(v) || closed(v)); }
    void add(DV const& v) { if (in.insert(v).second) act.push_back(v); }
    void force(DV const& v, std::set<DV>& nw) const { if (has(v) || !nw.insert(v).second) return; for (auto& b : bwd(v)) if (lim.f(b)) force(b, nw); }
};
struct Hist {
    Ref r; MultiIndexSet s; std::string log; bool neigh;   // neigh: check C04, otherwise C03
    Hist(unsigned dim, Lim l, bool n) : r{dim, l, {}, {}}, s(dim, l.l), log("limiter " + l.name + ";"), neigh(n) {}
    std::string num_(DV const& v) { return show(v); }
    // after an operation that should have activated exactly the new vectors: members keep their numbers
    void grown(std::set<DV> const& nw, const char* op) {
        size_t n = r.act.size();
        bool ok = s.Size() == n + nw.size();
        if (neigh) check(ok, "activates exactly the expected multi-indices (number)", log + " size " + std::to_string(s.Size()) + " expected " + std::to_string(n + nw.size()));
        else if (!nw.empty() || true) check(s.Size() >= n, "members stay", log);
        for (size_t i = 0; i < n && i < s.Size(); ++i) { DV w = DVof(s.at(i)); if (!neigh) check(w == r.act[i], "a member keeps its number", log + " number " + std::to_string(i) + " was " + show(r.act[i]) + " is " + show(w)); }
        std::set<DV> got; for (size_t i = n; i < s.Size(); ++i) { DV w = DVof(s.at(i)); bool fresh = !r.has(w) && got.insert(w).second; if (!neigh) check(fresh, "members are distinct", log + show(w)); else check(nw.count(w), "activates exactly the expected multi-indices", log + " activated " + show(w)); r.add(w); }
        (void)op;
    }
    void returned(std::vector<unsigned> const& ids, size_t before) {
        std::set<unsigned> u(ids.begin(), ids.end()); bool ok = u.size() == ids.size() && ids.size() == s.Size() - before; for (auto i : ids) ok = ok && i >= before && i < s.Size();
        check(ok, "returns the number of every newly activated multi-index once", log + " returned " + show(ids));
    }
    void audit() {
        if (!neigh) {
            check(s.Size() == r.act.size(), "size", log); check(s.Length() == r.dim, "length", log);
            DV mx(r.dim, 0); for (size_t i = 0; i < r.act.size() && i < s.Size(); ++i) { check(DVof(s.at(i)) == r.act[i] && DVof(s[i]) == r.act[i] && DVof(s.IndexToMulti(i)) == r.act[i], "number to member", log); for (unsigned d = 0; d < r.dim; ++d) mx[d] = std::max(mx[d], r.act[i][d]); }
            check(s.MaxOrders() == mx, "maximum degree per coordinate", log + " reported " + show(s.MaxOrders()) + " expected " + show(mx));
            for (auto& v : box(r.dim, r.dim > 2 ? 3 : 5)) { int k = s.MultiToIndex(v); bool in = r.has(v); check(in ? (k >= 0 && k < (int)r.act.size() && r.act[k] == v) : k == -1, "look-up", log + show(v) + " reported " + std::to_string(k)); check(s.IsActive(MultiIndex(v)) == in, "is active", log + show(v)); }
            throws([&] { s.at((int)s.Size()); }, "number outside", log);
            return;
        }
        std::vector<unsigned> front, strict; std::set<DV> margin, reduced;
        for (auto& v : r.act) check(r.lim.f(v), "the limiter is never violated", log + show(v));
        for (unsigned i = 0; i < r.act.size(); ++i) {
            DV const& v = r.act[i]; std::set<DV> af; unsigned nact = 0, nf = 0, nb = 0; bool exp = false;
            for (auto& w : fwd(v)) { if (!r.lim.f(w)) continue; ++nf; if (r.has(w)) ++nact; else { margin.insert(w); if (r.adm(w)) { exp = true; reduced.insert(w); } } if (r.adm(w)) af.insert(w); }
            check(s.IsExpandable(i) == exp, "expandable", log + show(v)); if (exp) { front.push_back(i); if (!nact) strict.push_back(i); }
            std::set<DV> g; for (auto& m : s.AdmissibleForwardNeighbors(i)) check(g.insert(DVof(m)).second, "admissible forward neighbours are distinct", log); check(g == af, "admissible forward neighbours", log + show(v));
            check(s.NumActiveForward(i) == nact, "number of active forward neighbours", log + show(v)); check(s.NumForward(i) == nf, "number of forward neighbours", log + show(v));
            for (auto& w : bwd(v)) nb += r.has(w); 
            std::set<unsigned> want, gotb; for (auto& w : bwd(v)) if (r.has(w)) want.insert(std::find(r.act.begin(), r.act.end(), w) - r.act.begin());
            for (auto k : s.BackwardNeighbors(i)) if (k != ~0u) gotb.insert(k); check(gotb == want, "active backward neighbours", log + show(v)); gotb.clear();
            for (auto k : s.BackwardNeighbors(MultiIndex(v))) if (k != ~0u) gotb.insert(k); check(gotb == want, "active backward neighbours", log + show(v));
        }
        check(s.Frontier() == front, "frontier", log + show(s.Frontier()) + " expected " + show(front)); check(s.StrictFrontier() == strict, "strict frontier", log + show(s.StrictFrontier()));
        auto cmp = [&](std::vector<MultiIndex> const& got, std::set<DV> const& want, const char* nm) { std::set<DV> g; DV zero(r.dim, 0);
            for (auto& m : got) { DV v = DVof(m); if (v == zero) continue; check(g.insert(v).second, nm, log + " twice " + show(v)); check(want.count(v), nm, log + " contains " + show(v)); } for (auto& v : want) check(g.count(v), nm, log + " misses " + show(v)); };
        cmp(s.Margin(), margin, "margin"); cmp(s.ReducedMargin(), reduced, "reduced margin");
        for (auto& v : box(r.dim, r.dim > 2 ? 3 : 5)) if (vsum(v)) check(s.IsAdmissible(MultiIndex(v)) == r.adm(v), "admissible", log + show(v));
    }
    DV pick(int top) { DV v(r.dim); if (r.act.size() && RI(0, 2)) { v = r.act[RI(0, r.act.size() - 1)]; int k = RI(0, 3); unsigned i = RI(0, r.dim - 1); if (k == 0) v[i]++; else if (k == 1 && v[i]) v[i]--; else if (k == 2) v[i] += 2; return v; } for (auto& x : v) x = RI(0, 1) ? RI(0, top) : 0; return v; }
    void step() {
        size_t n = r.act.size(); unsigned i = n ? RI(0, n - 1) : 0; DV v = pick(3); std::set<DV> nw; bool deep = std::accumulate(v.begin(), v.end(), 0u) < 12;
        switch (RI(0, 10)) {
            case 0: case 1: { log += " add " + show(v); if (r.lim.f(v) && !r.has(v)) nw.insert(v); int k = s.AddActive(MultiIndex(v)); grown(nw, "add"); int want = r.has(v) ? std::find(r.act.begin(), r.act.end(), v) - r.act.begin() : -1; check(k == want, neigh ? "adding a multi-index the limiter rejects is refused" : "adding returns the number", log + " returned " + std::to_string(k)); break; }
            case 2: { log += " += " + show(v); if (r.lim.f(v) && !r.has(v)) nw.insert(v); s += MultiIndex(v); grown(nw, "+="); break; }
            case 3: { if (!n) return; log += " expand " + show(r.act[i]); for (auto& w : fwd(r.act[i])) if (!r.has(w) && r.adm(w)) nw.insert(w); auto ids = s.Expand(i); returned(ids, n); grown(nw, "expand"); break; }
            case 4: { log += " expand all"; for (auto& a : r.act) for (auto& w : fwd(a)) if (!r.has(w) && r.adm(w)) nw.insert(w); if (nw.size() > 40) return; auto ids = s.Expand(); returned(ids, n); grown(nw, "expand"); break; }
            case 5: { if (!n || std::accumulate(r.act[i].begin(), r.act[i].end(), 0u) > 10) return; log += " force-expand " + show(r.act[i]); for (auto& w : fwd(r.act[i])) if (r.lim.f(w)) r.force(w, nw); auto ids = s.ForciblyExpand(i); returned(ids, n); grown(nw, "force"); break; }
            case 6: { if (!r.lim.f(v) || !deep) return; log += " force " + show(v); r.force(v, nw); auto ids = s.ForciblyActivate(MultiIndex(v)); returned(ids, n); grown(nw, "force"); break; }
            case 7: { if (!vsum(v) || !r.adm(v)) return; log += " activate " + show(v); if (!r.has(v)) nw.insert(v); s.Activate(MultiIndex(v)); grown(nw, "activate"); break; }
            case 8: { Lim l = rlim(r.dim); log += " limit to " + l.name + ";"; bool ok = true; for (auto& a : r.act) ok = ok && l.f(a); bool raised = false; try { s.SetLimiter(l.l); } catch (std::exception const&) { raised = true; }
                      if (neigh) check(raised == !ok, "a limiter that a member violates is refused", log); else check(s.Size() == n, "limiting keeps the members", log); if (!raised) r.lim = l; break; }
            case 9: { Lim l = rlim(r.dim); Hist o(r.dim, RI(0, 2) ? l : r.lim, neigh); for (int k = RI(1, 4); k > 0; --k) { DV w = o.pick(3); if (o.r.lim.f(w)) { o.s += MultiIndex(w); o.r.add(w); } }
                      if (o.s.Size() && RI(0, 1)) { size_t b = o.s.Size(); o.s.Expand(); for (size_t k = b; k < o.s.Size(); ++k) o.r.add(DVof(o.s.at(k))); }
                      log += " union with "; for (auto& a : o.r.act) { log += show(a); if (!r.has(a) && r.lim.f(a)) nw.insert(a); } if (RI(0, 1)) { unsigned c = s.Union(o.s); check(c == s.Size() - n, "union counts the added members", log); } else if (RI(0, 1)) s += o.s; else s = s + o.s; grown(nw, "union"); break; }
            default: { log += " copy;"; MultiIndexSet t(s), u(r.dim); u = t; s = u; if (RI(0, 3) == 0) { s.Union(t); } grown(nw, "copy"); break; }
        }
    }
    void go(int steps) { for (int k = 0; k < steps && r.act.size() < 60; ++k) { step(); Case("dimension %u: %.7000s", r.dim, log.c_str()); audit(); } }
};
inline void histories(bool neigh, int n) {
    for (int dim = 1; dim <= 2; ++dim) for (unsigned hole = 0; hole < 5; ++hole) { // a later limiter with a hole in it, then forced growth across the hole
        Hist h(dim, Lim{"none", [](DV const&) { return true; }, mpart::MultiIndexLimiter::None()}, neigh); auto f = [hole](DV const& v) { return v[0] != hole; };
        for (unsigned a : {0u, 3u, 4u}) if (a != hole) { DV v(dim, 0); v[0] = a; h.s.AddActive(MultiIndex(v)); h.grown({v}, "add"); h.log += " add " + show(v); }
        h.s.SetLimiter([f](MultiIndex const& m) { return f(m.Vector()); }); h.r.lim.f = f; h.log += " forbid first entry " + std::to_string(hole); Case("%s", h.log.c_str()); h.audit();
        for (unsigned a : {1u, 2u, 5u}) if (a != hole) { DV v(dim, 0); v[0] = a; std::set<DV> nw; h.r.force(v, nw); h.s.ForciblyActivate(MultiIndex(v)); h.log += " force " + show(v); h.grown(nw, "force"); h.audit(); } }
    for (int it = 0; it < n; ++it) {
        unsigned dim = RI(1, 3); Case("history %d", it); Hist h(dim, RI(0, 2) ? Lim{"none", [](DV const&) { return true; }, mpart::MultiIndexLimiter::None()} : rlim(dim), neigh);
        h.go(RI(2, 12));
    }
}
// factories
inline void factories(bool neigh) {
    for (unsigned dim = 1; dim <= 4; ++dim) for (unsigned ord = 0; ord <= (dim > 3 ? 2 : 4); ++ord) for (int t = 0; t < 2; ++t) for (int lm = 0; lm < 3; ++lm) {
        Lim l = lm ? rlim(dim) : Lim{"none", [](DV const&) { return true; }, mpart::MultiIndexLimiter::None()};
        Hist h(dim, l, neigh); h.log = (t ? "total order " : "tensor product ") + std::to_string(ord) + " limiter " + l.name; Case("dimension %u %s", dim, h.log.c_str());
        MultiIndexSet s = t ? MultiIndexSet::CreateTotalOrder(dim, ord, l.l) : MultiIndexSet::CreateTensorProduct(dim, ord, l.l); h.s = s;
        std::set<DV> nw; for (auto& v : box(dim, ord)) if ((!t || vsum(v) <= ord) && l.f(v)) nw.insert(v);
        h.grown(nw, "factory"); if (!neigh) check(nw == h.r.in, "a factory set holds exactly its multi-indices", h.log); h.audit();
    }
    for (int it = 0; it < 30; ++it) { int dim = RI(1, 4), n = RI(1, 8); Eigen::MatrixXi M(n, dim); Hist h(dim, Lim{"none", [](DV const&) { return true; }, mpart::MultiIndexLimiter::None()}, neigh); std::vector<DV> order; std::set<DV> nw;
        for (int i = 0; i < n; ++i) { DV v(dim); for (int j = 0; j < dim; ++j) M(i, j) = v[j] = RI(0, 2); if (nw.insert(v).second) order.push_back(v); }
        h.log = "rows of a matrix"; for (auto& v : order) h.log += show(v); Case("%.6000s", h.log.c_str()); h.s = MultiIndexSet(M); h.grown(nw, "matrix"); if (!neigh) check(h.r.act == order, "rows of a matrix are numbered in order of first appearance", h.log); h.audit(); }
    for (int it = 0; it < 60; ++it) { // fixing a growing set
        unsigned dim = RI(1, 3); Hist h(dim, rlim(dim), neigh); for (int k = 0; k < 4; ++k) h.step(); if (neigh) continue; DV b(dim); for (auto& x : b) x = RI(0, 3);
        auto fb = h.s.FilterBounded(MultiIndex(b)); bool ok = fb.size() == h.r.act.size(); for (size_t i = 0; ok && i < fb.size(); ++i) { bool any = false; for (unsigned d = 0; d < dim; ++d) any = any || h.r.act[i][d] >= b[d]; ok = fb[i] == any; } check(ok, "filter by bound", h.log + show(b)); }
}
}
