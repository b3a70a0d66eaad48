// C22: adaptive training (definitions taken from the current sources)
#include "src/TrainMapAdaptive.cpp"
#include "src/MultiIndices/MultiIndex.cpp"
#include "src/MultiIndices/MultiIndexSet.cpp"
