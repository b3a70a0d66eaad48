#include "MParT/PositiveBijectors.h"
#include "MParT/Sigmoid.h"
using namespace mpart;
template class mpart::Sigmoid1d<Kokkos::HostSpace, Logistic>;
double use_bijectors(double x) {
    return SoftPlus::Evaluate(x) + SoftPlus::Derivative(x) + SoftPlus::SecondDerivative(x) + SoftPlus::Inverse(x)
         + Exp::Evaluate(x) + Exp::Derivative(x) + Exp::SecondDerivative(x) + Exp::Inverse(x)
         + Logistic::Evaluate(x) + Logistic::Derivative(x) + Logistic::Inverse(x);
}
