// C14: coefficient handling (definitions taken from the current sources)
#include "src/ParameterizedFunctionBase.cpp"
#include "src/ConditionalMapBase.cpp"
#include "src/SummarizedMap.cpp"
#include "src/TriangularMap.cpp"
#include "src/ComposedMap.cpp"
