// C12: block-triangular maps (definitions taken from the current sources)
#include "src/ParameterizedFunctionBase.cpp"
#include "src/TriangularMap.cpp"
