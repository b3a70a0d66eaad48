#include "MParT/OrthogonalPolynomial.h"
#include "MParT/HermiteFunction.h"
#include "MParT/LinearizedBasis.h"
using namespace mpart;
template class mpart::OrthogonalPolynomial<ProbabilistHermiteMixer>;
template class mpart::OrthogonalPolynomial<PhysicistHermiteMixer>;
template class mpart::LinearizedBasis<ProbabilistHermite>;
template class mpart::LinearizedBasis<PhysicistHermite>;
template class mpart::LinearizedBasis<HermiteFunction>;
void use_hermite_function(HermiteFunction const& h, double* a, double* b, double* c, unsigned n, double x) {
    h.EvaluateAll(a, n, x); h.EvaluateDerivatives(a, b, n, x); h.EvaluateSecondDerivatives(a, b, c, n, x);
    a[0] = h.Evaluate(n, x) + h.Derivative(n, x) + h.SecondDerivative(n, x);
}
