// LINK: src/MultiIndices/MultiIndex.cpp src/Utilities/Miscellaneous.cpp
// C01: multi-indices against a dense vector, over random histories of construction and writes
#include "mi.h"
using namespace mpart; using namespace drv;
static void one() {
    DV v = rvec(7, 6); std::string how; Case("%s", show(v).c_str()); MultiIndex m = build(v, how); Case("%s built by %s", show(v).c_str(), how.c_str()); same(m, v, how.c_str());
    { unsigned n = RI(0, 6), c = RI(0, 4); Case("constant of length %u value %u", n, c); same(MultiIndex(n, c), DV(n, c), "constant"); same(MultiIndex(n), DV(n, 0), "zero"); same(MultiIndex(), DV(), "default"); }
    std::string hist = how;
    for (int k = RI(0, 14); k-- > 0;) {
        unsigned i = RI(0, (int)v.size() + 1), x = RI(0, 2) ? RI(0, 5) : 0; hist += " [" + std::to_string(i) + "]=" + std::to_string(x); Case("%s", hist.c_str());
        if (i < v.size()) { bool r = false; nothrow([&] { r = m.Set(i, x); }, "writing inside does not raise"); check(r == (v[i] > 0), "a write reports whether it replaced a nonzero entry"); v[i] = x; }
        else throws([&] { m.Set(i, x); }, "writing outside raises", "position " + std::to_string(i) + " length " + std::to_string(v.size()));
        same(m, v, "after writes");
    }
    MultiIndex c(m); DV w = v; if (w.size()) { w[0] += 1; c.Set(0, w[0]); } same(c, w, "copy"); same(m, v, "original of a copy");
    DV b = rvec(7, 4); Case("%s bounded by %s", show(v).c_str(), show(b).c_str()); MultiIndex mb(b);
    if (v.size() > b.size()) throws([&] { m.AnyBounded(mb); }, "a shorter bound is rejected"); else { bool e = false; for (size_t i = 0; i < v.size(); ++i) e |= v[i] >= b[i]; check(m.AnyBounded(mb) == e, "AnyBounded"); }
}
int main(int argc, char** argv) { return run(argc, argv, [] { int reps = thorough ? 400000 : 30000; for (int it = 0; it < reps; ++it) section(one); }); }
