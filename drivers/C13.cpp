// LINK: src/ParameterizedFunctionBase.cpp src/ConditionalMapBase.cpp src/AffineMap.cpp src/IdentityMap.cpp src/SummarizedMap.cpp src/TriangularMap.cpp src/ComposedMap.cpp src/Utilities/LinearAlgebra.cpp src/Initialization.cpp src/Utilities/Miscellaneous.cpp
// C13: composed maps against their layers: every number of layers and of checkpoints up to a bound, random trees, layouts and prior output contents.
#include "composite.h"
using namespace mpart; using namespace drv;
static void one(int n, int k, int ck, int depth) {
    std::vector<Node> cs; for (int i = 0; i < k; ++i) cs.push_back(depth ? randNode(n, n, depth - 1) : toyNode(n, n));
    Node t = compNode(cs, ck); setn(t, k > 5 ? 0.12 : 0.25); int np = RI(0, 6) ? RI(1, 4) : 0, lay = RI(0, 3);
    Case("%s points=%d output %s", t.desc.c_str(), np, g_lay[lay]);
    check((int)t.map->inputDim == n && (int)t.map->outputDim == n, "sizes");
    check_map(*t.map, t.ev, t.lg, mkr(n, np, 0.6), lay, k > 5 ? 1e-6 : 1e-7);
}
int main(int argc, char** argv) {
    return run(argc, argv, [] {
        int top = thorough ? 22 : 13;
        for (int k = 1; k <= top; ++k) for (int ck = -1; ck <= k + 1; ++ck) section([&] { one(RI(1, 2), k, ck, 0); });
        int reps = thorough ? 30000 : 2500;
        for (int it = 0; it < reps; ++it) section([&] {
            int k = RI(1, 7), n = RI(1, 4); one(n, k, RI(0, 3) ? RI(1, k) : -1, RI(0, 2));
            if (it % 10 == 0) {
                std::vector<std::shared_ptr<ConditionalMapBase<HS>>> bad; for (int i = 0; i < k; ++i) bad.push_back(std::make_shared<ToyMap>(n, n));
                int w = RI(0, k - 1); bad[w] = std::make_shared<ToyMap>(n + 1, n); Case("Comp of %d layers, layer %d has %d inputs and %d outputs", k, w, n + 1, n);
                throws([&] { ComposedMap<HS> g(bad); }, "non-square layers are rejected");
                if (k > 1) { bad[w] = std::make_shared<ToyMap>(n + 1, n + 1); throws([&] { ComposedMap<HS> g(bad); }, "layers of different sizes are rejected"); }
            }
        });
    });
}
