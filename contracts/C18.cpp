// C18: every save / load / serialize member with cereal's binary archives (contracts in C18.py); all definitions are those of the current sources
#include <cereal/types/memory.hpp>
#include <cereal/types/vector.hpp>
#include "MParT/MapOptions.h"
#include "MParT/MonotoneComponent.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/HermiteFunction.h"
#include "MParT/LinearizedBasis.h"
#include "MParT/PositiveBijectors.h"
#include "MParT/Quadrature.h"
#include "MParT/MultivariateExpansionWorker.h"
#include "MParT/TriangularMap.h"
#include "MParT/Utilities/Serialization.h"
#include "src/MultiIndices/FixedMultiIndexSet.cpp"
#include "src/ParameterizedFunctionBase.cpp"
using namespace mpart; typedef Kokkos::HostSpace HS; typedef cereal::BinaryOutputArchive Out; typedef cereal::BinaryInputArchive In;
#define SL(C) template void C::save<Out>(Out&) const; template void C::load<In>(In&);
#define SER(C) template void C::serialize<Out>(Out&); template void C::serialize<In>(In&);
bool options_equal(MapOptions const& a, MapOptions b) { return a == b; }
SER(MapOptions) SL(FixedMultiIndexSet<HS>)
SER(HermiteFunction) SER(LinearizedBasis<ProbabilistHermite>) SER(ProbabilistHermite) 
SL(QuadratureBase<HS>) SL(ClenshawCurtisQuadrature<HS>) SL(RecursiveQuadratureBase<HS>) SL(AdaptiveSimpson<HS>) SL(AdaptiveClenshawCurtis<HS>)
typedef MultivariateExpansionWorker<ProbabilistHermite, HS> Worker; typedef MultivariateExpansionWorker<LinearizedBasis<PhysicistHermite>, HS> LWorker;
template void Worker::save<Out>(Out&) const; template void Worker::load<In>(In&);
typedef MonotoneComponent<Worker, Exp, ClenshawCurtisQuadrature<HS>, HS> M1; typedef MonotoneComponent<LWorker, SoftPlus, AdaptiveSimpson<HS>, HS> M2; typedef TriangularMap<HS> Tri;
template void M1::save<Out>(Out&) const; template void M2::save<Out>(Out&) const; template void Tri::save<Out>(Out&) const; template void ParameterizedFunctionBase<HS>::save<Out>(Out&) const; template void ConditionalMapBase<HS>::save<Out>(Out&) const;
template void M1::load_and_construct<In>(In&, cereal::construct<M1>&); template void M2::load_and_construct<In>(In&, cereal::construct<M2>&); template void Tri::load_and_construct<In>(In&, cereal::construct<Tri>&);
template class mpart::MonotoneComponent<Worker, Exp, ClenshawCurtisQuadrature<HS>, HS>;
template void ParameterizedFunctionBase<HS>::Save<std::ostream>(std::ostream&) const; template std::shared_ptr<ParameterizedFunctionBase<HS>> ParameterizedFunctionBase<HS>::Load<std::istream>(std::istream&);
// the free functions for Kokkos views
void views_save(Out& o, Kokkos::View<double*, HS> const& a, Kokkos::View<unsigned*, HS> const& b, Kokkos::View<const double*, HS> const& c, Kokkos::View<double**, Kokkos::LayoutLeft, HS> const& l, Kokkos::View<double**, Kokkos::LayoutRight, HS> const& r)
{ cereal::save<double>(o, a); cereal::save<unsigned>(o, b); cereal::save<const double>(o, c); cereal::save<double>(o, l); cereal::save<double>(o, r); }
void views_load(In& i, Kokkos::View<double*, HS>& a, Kokkos::View<unsigned*, HS>& b, Kokkos::View<double**, Kokkos::LayoutLeft, HS>& l, Kokkos::View<double**, Kokkos::LayoutRight, HS>& r)
{ cereal::load<double>(i, a); cereal::load<unsigned>(i, b); cereal::load<double>(i, l); cereal::load<double>(i, r); }
