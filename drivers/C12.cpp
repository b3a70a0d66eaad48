// LINK: src/ParameterizedFunctionBase.cpp src/ConditionalMapBase.cpp src/AffineMap.cpp src/IdentityMap.cpp src/SummarizedMap.cpp src/TriangularMap.cpp src/ComposedMap.cpp src/Utilities/LinearAlgebra.cpp src/Initialization.cpp src/Utilities/Miscellaneous.cpp
// C12: triangular maps against their blocks: random trees of components, sizes, layouts and prior output contents.
#include "composite.h"
using namespace mpart; using namespace drv;
int main(int argc, char** argv) {
    return run(argc, argv, [] {
        int reps = thorough ? 60000 : 4000;
        for (int it = 0; it < reps; ++it) section([&] {
            int m = RI(1, 6), n = m + (RI(0, 1) ? RI(0, 3) : 0), np = RI(0, 6) ? RI(1, 6) : 0, lay = RI(0, 3);
            Node t = randTri(n, m, RI(1, 3)); setn(t);
            Case("%s points=%d output %s", t.desc.c_str(), np, g_lay[lay]);
            check((int)t.map->inputDim == n && (int)t.map->outputDim == m, "sizes");
            check_map(*t.map, t.ev, t.lg, mkr(n, np, 0.7), lay, 1e-8);
            // dependence: inputs beyond a component and coefficients of other components do not matter
            auto tm = std::dynamic_pointer_cast<TriangularMap<HS>>(t.map);
            if (np && t.map->numCoeffs) {
                SM p = mkr(n, np, 0.7), o = mk(m, np), o2 = mk(m, np), p2 = mk(n, np); Kokkos::deep_copy(p2, p);
                t.map->EvaluateImpl(p, o);
                int k = 0, row = 0, q = 0; std::vector<int> in, out, co;
                for (int left = m; left > 0; ++k) { auto c = tm->GetComponent(k); in.push_back(c->inputDim); out.push_back(c->outputDim); co.push_back(c->numCoeffs); left -= c->outputDim; }
                int w = RI(0, k - 1); for (int i = 0; i < w; ++i) { row += out[i]; q += co[i]; }
                for (int i = in[w]; i < n; ++i) for (int j = 0; j < np; ++j) p2(i, j) = 50 * N01();
                auto c0 = t.map->CoeffMap(); Eigen::VectorXd save = c0; for (int i = 0; i < (int)save.size(); ++i) if (i < q || i >= q + co[w]) c0(i) = N01();
                t.map->EvaluateImpl(p2, o2);
                for (int i = 0; i < out[w]; ++i) for (int j = 0; j < np; ++j) check(o(row + i, j) == o2(row + i, j), "a block depends only on its own inputs and coefficients");
            }
            if (it % 10 == 0) {
                std::vector<std::shared_ptr<ConditionalMapBase<HS>>> bad{std::make_shared<ToyMap>(n, 1), std::make_shared<ToyMap>(n + 1 + RI(1, 2), 1)};
                throws([&] { TriangularMap<HS> g(bad); }, "incompatible component sizes are rejected");
                std::vector<std::shared_ptr<ConditionalMapBase<HS>>> bad2{std::make_shared<ToyMap>(n, 1), std::make_shared<ToyMap>(n + 1, 2)};
                throws([&] { TriangularMap<HS> g(bad2); }, "incompatible component sizes are rejected");
            }
        });
    });
}
