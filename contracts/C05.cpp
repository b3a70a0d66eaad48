// C05: fixed index sets (definitions taken from the current sources)
#include "src/MultiIndices/FixedMultiIndexSet.cpp"
#include "src/MultiIndices/MultiIndexSet.cpp"
