// C15: affine, identity and summarised maps (definitions taken from the current sources)
#include "src/ParameterizedFunctionBase.cpp"
#include "src/AffineMap.cpp"
#include "src/AffineFunction.cpp"
#include "src/IdentityMap.cpp"
#include "src/SummarizedMap.cpp"
