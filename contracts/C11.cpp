// C11: scalar inversion for an arbitrary function (definitions taken from the current sources)
#include "MParT/Utilities/RootFinding.h"
struct AbstractFunction { double operator()(double x) const; };
template void mpart::RootFinding::FindBracket<Kokkos::HostSpace, AbstractFunction>(AbstractFunction, double&, double&, double&, double&, const double, int&);
template double mpart::RootFinding::InverseSingleBracket<Kokkos::HostSpace, AbstractFunction>(double, AbstractFunction, double, const double, const double, int&);
