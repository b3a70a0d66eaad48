// C03, C04: growing multi-index sets, neighbourhoods and limiters (definitions taken from the current sources)
#include "src/MultiIndices/MultiIndex.cpp"
#include "src/MultiIndices/MultiIndexSet.cpp"
#include "src/MultiIndices/MultiIndexNeighborhood.cpp"
#include "src/MultiIndices/MultiIndexLimiter.cpp"
