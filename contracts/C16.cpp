// C16: densities (definitions taken from the current sources)
#include "src/ParameterizedFunctionBase.cpp"
#include "src/ConditionalMapBase.cpp"
#include "src/Distributions/DensityBase.cpp"
#include "src/Distributions/PullbackDensity.cpp"
#include "src/Distributions/GaussianSamplerDensity.cpp"
#include "MParT/Distributions/PushforwardDensity.h"
template class mpart::PushforwardDensity<Kokkos::HostSpace>;
template struct mpart::ReduceDim<mpart::ReduceDimMap::sum, Kokkos::HostSpace, 0>;
template struct mpart::ReduceDim<mpart::ReduceDimMap::sum, Kokkos::HostSpace, 1>;
template struct mpart::ReduceDim<mpart::ReduceDimMap::norm, Kokkos::HostSpace, 0>;
template struct mpart::ReduceDim<mpart::ReduceDimMap::norm, Kokkos::HostSpace, 1>;
