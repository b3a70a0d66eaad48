// LINK: src/MultiIndices/MultiIndex.cpp src/MultiIndices/MultiIndexSet.cpp src/MultiIndices/MultiIndexNeighborhood.cpp src/MultiIndices/MultiIndexLimiter.cpp src/MultiIndices/FixedMultiIndexSet.cpp src/Utilities/Miscellaneous.cpp
// FLAGS: -fsanitize=address
#include <numeric>
#include "hist.h"
using namespace drv;
int main(int c, char** v) { return run(c, v, [] { section([] { factories(true); }); section([] { histories(true, thorough ? 20000 : 3500); }); }); }
