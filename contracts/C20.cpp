// Translation unit for C19/C20: array conversions and dense linear algebra, as clang sees them.
#include "src/Utilities/LinearAlgebra.cpp"
#include "MParT/Utilities/ArrayConversions.h"
namespace verif {
using namespace mpart;
typedef Kokkos::HostSpace HS;
typedef Kokkos::View<double**, Kokkos::LayoutLeft, HS> LL; typedef Kokkos::View<double**, Kokkos::LayoutRight, HS> LR;
typedef Kokkos::View<const double**, Kokkos::LayoutLeft, HS> CLL; typedef Kokkos::View<const double**, Kokkos::LayoutRight, HS> CLR;
typedef Kokkos::View<double*, HS> V1; typedef Kokkos::View<const double*, HS> CV1;
void linear(StridedMatrix<const double, HS> A, StridedMatrix<const double, HS> B, StridedMatrix<double, HS> C, LL l, LR r, CLL cl, CLR cr, V1 x, V1 y, CV1 cx, CV1 cy, TransposeObject<HS> tA) {
    transpose(A); transpose(tA); tA * tA; A * B; tA * B; A * tA; dgemm<HS>(1.0, A, B, 0.0, C);
    AddInPlace(l, cr); AddInPlace(r, cl); AddInPlace(x, cx);
    cl + cr; cr + cl; r + l; x + y; cx + cy; l += r; x += y; x += cx;
    std::vector<double> o(3);
    ReduceDim<ReduceDimMap::sum, HS, 1> s1(C, 1.0); s1(0, o.data()); s1.init(o.data()); ReduceDim<ReduceDimMap::norm, HS, 1> n1(C, 1.0); n1(0, o.data()); n1.init(o.data());
    ReduceDim<ReduceDimMap::sum, HS, 0> s0(C, 1.0); s0(0, o.data()); s0.init(o.data()); ReduceDim<ReduceDimMap::norm, HS, 0> n0(C, 1.0); n0(0, o.data()); n0.init(o.data());
    s1.join(o.data(), o.data()); n1.join(o.data(), o.data()); s0.join(o.data(), o.data()); n0.join(o.data(), o.data());
}
typedef Eigen::Matrix<double, -1, -1, Eigen::RowMajor> RM; typedef Eigen::Matrix<double, -1, -1, Eigen::ColMajor> CM; typedef Eigen::Stride<-1, -1> DS;
template<class T> void conv(T* p, const T* cp, unsigned n, std::vector<T>& v, StridedMatrix<T, HS> A, StridedMatrix<const T, HS> cA, StridedVector<T, HS> s, Kokkos::View<T*, HS> x, Kokkos::View<T**, Kokkos::LayoutLeft, HS> l, Kokkos::View<T**, Kokkos::LayoutRight, HS> r, Kokkos::View<const T**, Kokkos::LayoutLeft, HS> cl, Kokkos::View<const T**, Kokkos::LayoutRight, HS> cr,
    Eigen::Ref<Eigen::Matrix<T, -1, -1, Eigen::RowMajor>, 0, DS> R, Eigen::Ref<Eigen::Matrix<T, -1, -1, Eigen::ColMajor>, 0, DS> C, Eigen::Ref<const Eigen::Matrix<T, -1, -1, Eigen::RowMajor>, 0, Eigen::Stride<-1, 1>> const& cR, Eigen::Ref<const Eigen::Matrix<T, -1, -1, Eigen::ColMajor>, 0, Eigen::Stride<-1, 1>> const& cC, Eigen::Ref<Eigen::Matrix<T, -1, 1>, 0, Eigen::InnerStride<-1>> V) {
    ToKokkos<T>(p, n); ToConstKokkos<T>(cp, n); ToKokkos<T>(p, n, n); ToKokkos<T, Kokkos::LayoutRight>(p, n, n); ToConstKokkos<T>(cp, n, n); ToConstKokkos<T, Kokkos::LayoutRight>(cp, n, n);
    ToKokkos<T>(std::make_tuple(0L, std::make_tuple(1, 1), std::make_tuple(1, 1))); ToKokkos<T>(std::make_tuple(0L, 1, 1));
    KokkosToStd(x); KokkosToStd(s); VecToKokkos<T, HS>(v); ConstVecToKokkos<T, HS>(v); MatToKokkos<T, HS>(v, 1); VecToConstKokkos<T, HS>(v); MatToConstKokkos<T, HS>(v, 1);
    ToHost<HS>(x); ToHost<HS, T>(A); ToHost<HS>(x, std::make_pair(0, 1));
    MatToKokkos<T, HS>(R); MatToKokkos<T, HS>(C); ConstRowMatToKokkos<T, HS>(cR); ConstColMatToKokkos<T, HS>(cC); VecToKokkos<T, HS>(V);
    KokkosToVec<T>(x); KokkosToVec<T>(s); CopyKokkosToVec(x); CopyKokkosToVec(s); KokkosToMat<T>(l); KokkosToMat<T>(r); KokkosToMat<T>(A); ConstKokkosToMat<T>(cl); ConstKokkosToMat<T>(cr); ConstKokkosToMat<T>(cA);
    CopyKokkosToMat(l); CopyKokkosToMat(r); CopyKokkosToMat(A);
}
template void conv<double>(double*, const double*, unsigned, std::vector<double>&, StridedMatrix<double, HS>, StridedMatrix<const double, HS>, StridedVector<double, HS>, Kokkos::View<double*, HS>, LL, LR, CLL, CLR, Eigen::Ref<RM, 0, DS>, Eigen::Ref<CM, 0, DS>, Eigen::Ref<const RM, 0, Eigen::Stride<-1, 1>> const&, Eigen::Ref<const CM, 0, Eigen::Stride<-1, 1>> const&, Eigen::Ref<Eigen::Matrix<double, -1, 1>, 0, Eigen::InnerStride<-1>>);
}
