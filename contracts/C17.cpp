// C17: map objectives (definitions taken from the current sources)
#include "src/ParameterizedFunctionBase.cpp"
#include "src/ConditionalMapBase.cpp"
#include "src/Distributions/DensityBase.cpp"
#include "src/Distributions/PullbackDensity.cpp"
#include "src/Distributions/GaussianSamplerDensity.cpp"
#include "src/MapObjective.cpp"
