// C01, C02: multi-indices (definitions taken from the current sources)
#include "src/MultiIndices/MultiIndex.cpp"
