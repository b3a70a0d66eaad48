#include "MParT/MultiIndices/MultiIndexSet.h"
#include "MParT/TriangularMap.h"
#include "MParT/MonotoneComponent.h"
#include "MParT/Quadrature.h"
#include "MParT/MultivariateExpansionWorker.h"
#include "MParT/MultivariateExpansion.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/PositiveBijectors.h"
using namespace mpart;
typedef ProbabilistHermite BE;
template class mpart::MultivariateExpansionWorker<BE, Kokkos::HostSpace>;
template class mpart::MonotoneComponent<MultivariateExpansionWorker<BE, Kokkos::HostSpace>, SoftPlus, ClenshawCurtisQuadrature<Kokkos::HostSpace>, Kokkos::HostSpace>;
template class mpart::MultivariateExpansion<BE, Kokkos::HostSpace>;
