// C10: a monotone component over any expansion, bijector and quadrature (contracts in C10.py); all definitions are those of the current sources
#include "MParT/MultiIndices/MultiIndexSet.h"
#include "MParT/MonotoneComponent.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/PositiveBijectors.h"
using namespace mpart;
struct AbstractExpansion {
    typedef ProbabilistHermite BasisType; typedef Kokkos::HostSpace KokkosSpace;
    unsigned int CacheSize() const; unsigned int NumCoeffs() const; unsigned int InputSize() const;
    FixedMultiIndexSet<Kokkos::HostSpace> GetMultiIndexSet() const;
    operator MultivariateExpansionWorker<BasisType, Kokkos::HostSpace>() const;
    template<typename P> void FillCache1(double*, P const&, DerivativeFlags::DerivativeType) const;
    template<typename P> void FillCache2(double*, P const&, double, DerivativeFlags::DerivativeType) const;
    template<typename C> double Evaluate(const double*, C const&) const;
    template<typename C> double DiagonalDerivative(const double*, C const&, unsigned int) const;
    template<typename C, typename G> double CoeffDerivative(const double*, C const&, G&) const;
    template<typename C, typename G> double InputDerivative(const double*, C const&, G&) const;
    template<typename C, typename G> double MixedInputDerivative(const double*, C const&, G&) const;
    template<typename C, typename G> double MixedCoeffDerivative(const double*, C const&, unsigned int, G&) const;
};
struct AbstractBijector { static double Evaluate(double); static double Derivative(double); static double SecondDerivative(double); };
struct AbstractQuadrature {
    unsigned int fdim_;
    void SetDim(unsigned int); unsigned int WorkspaceSize() const;
    template<typename F> void Integrate(double*, F const& f, double, double, double* r) const { f(0.0, r); }   // instantiates the integrand; replaced by its contract
};
template class mpart::MonotoneComponent<AbstractExpansion, AbstractBijector, AbstractQuadrature, Kokkos::HostSpace>;
