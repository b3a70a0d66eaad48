// C21: quadrature rules over any vector-valued integrand (contracts in C21.py); all definitions are those of the current sources
#include "MParT/Quadrature.h"
using namespace mpart; typedef Kokkos::HostSpace HS;
struct AbstractIntegrand { void operator()(double x, double* y) const; };
#define INST(Q) \
  template void Q<HS>::Integrate<AbstractIntegrand>(AbstractIntegrand const&, double, double, double*) const; \
  template void Q<HS>::Integrate<AbstractIntegrand>(double*, AbstractIntegrand const&, double, double, double*) const;
template class mpart::QuadratureBase<HS>;
template class mpart::ClenshawCurtisQuadrature<HS>; INST(mpart::ClenshawCurtisQuadrature)
template class mpart::AdaptiveSimpson<HS>; INST(mpart::AdaptiveSimpson)
template class mpart::AdaptiveClenshawCurtis<HS>; INST(mpart::AdaptiveClenshawCurtis)
