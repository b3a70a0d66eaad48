// C13: composed maps (definitions taken from the current sources)
#include "src/ParameterizedFunctionBase.cpp"
#include "src/ComposedMap.cpp"
