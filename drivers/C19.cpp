// LINK: src/ParameterizedFunctionBase.cpp src/ConditionalMapBase.cpp src/IdentityMap.cpp src/Initialization.cpp src/Utilities/Miscellaneous.cpp
// C19: every conversion between raw memory, Kokkos views and Eigen objects against the address and value of each element.
#include "maps.h"
#include "MParT/Utilities/ArrayConversions.h"
#include "MParT/IdentityMap.h"
using namespace mpart; using namespace drv;
template<class T> using RowM = Eigen::Matrix<T, -1, -1, Eigen::RowMajor>;
template<class T> using ColM = Eigen::Matrix<T, -1, -1, Eigen::ColMajor>;
template<class T> static T val(int k) { return (T)(k * 7 % 1001 + 3); }
// same element at (i,j), same address when memory is shared
template<class V, class F, class P> void same2(V const& v, long r, long c, F value, P addr, const char* what, bool shared = true) {
    check((long)v.extent(0) == r && (long)v.extent(1) == c, what, "shape " + std::to_string(v.extent(0)) + "x" + std::to_string(v.extent(1)));
    if ((long)v.extent(0) != r || (long)v.extent(1) != c) return;
    for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) {
        if (shared && &v(i, j) != addr(i, j)) { check(false, what, "element (" + std::to_string(i) + "," + std::to_string(j) + ") is not the same memory"); return; }
        check(v(i, j) == value(i, j), what, "value at (" + std::to_string(i) + "," + std::to_string(j) + ")");
    }
}
template<class V, class F, class P> void same1(V const& v, long n, F value, P addr, const char* what, bool shared = true) {
    check((long)v.extent(0) == n, what, "length " + std::to_string(v.extent(0)));
    if ((long)v.extent(0) != n) return;
    for (long i = 0; i < n; ++i) {
        if (shared && &v(i) != addr(i)) { check(false, what, "element " + std::to_string(i) + " is not the same memory"); return; }
        check(v(i) == value(i), what, "value at " + std::to_string(i));
    }
}
template<class E, class F, class P> void eig2(E& m, long r, long c, F value, P addr, const char* what, bool shared = true) {
    check(m.rows() == r && m.cols() == c, what, "shape");
    if (m.rows() != r || m.cols() != c) return;
    for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) {
        if (shared && &m.coeffRef(i, j) != addr(i, j)) { check(false, what, "element (" + std::to_string(i) + "," + std::to_string(j) + ") is not the same memory"); return; }
        check(m.coeff(i, j) == value(i, j), what, "value at (" + std::to_string(i) + "," + std::to_string(j) + ")");
    }
}
template<class T> void all(int r, int c) {
    Case("%s %dx%d", sizeof(T) == 8 ? "double" : "int", r, c);
    std::vector<T> a(r * c + 1); for (size_t k = 0; k < a.size(); ++k) a[k] = val<T>(k);
    auto orig = a; T* p = a.data();
    auto unchanged = [&](const char* w) { check(a == orig, w, "source changed"); };
    auto L = [&](long i, long j) { return p + i + j * r; }; auto R = [&](long i, long j) { return p + i * c + j; };
    auto Lv = [&](long i, long j) { return *L(i, j); }; auto Rv = [&](long i, long j) { return *R(i, j); };
    auto O = [&](long i) { return p + i; }; auto Ov = [&](long i) { return p[i]; };
    int n = r * c;
    same1(ToKokkos<T>(p, n), n, Ov, O, "ToKokkos 1d"); same1(ToConstKokkos<T>(p, n), n, Ov, O, "ToConstKokkos 1d");
    same2(ToKokkos<T>(p, r, c), r, c, Lv, L, "ToKokkos 2d column major"); same2(ToConstKokkos<T>(p, r, c), r, c, Lv, L, "ToConstKokkos 2d column major");
    same2(ToKokkos<T, Kokkos::LayoutRight>(p, r, c), r, c, Rv, R, "ToKokkos 2d row major"); same2(ToConstKokkos<T, Kokkos::LayoutRight>(p, r, c), r, c, Rv, R, "ToConstKokkos 2d row major");
    { // strided descriptions
        int s0 = RI(1, 4), s1 = s0 * std::max(1, r) + RI(0, 3); if (RI(0, 1)) { s1 = RI(1, 4); s0 = s1 * std::max(1, c) + RI(0, 3); }
        std::vector<T> b(std::max(0, r - 1) * s0 + std::max(0, c - 1) * s1 + 1); for (size_t k = 0; k < b.size(); ++k) b[k] = val<T>(k);
        auto B = [&](long i, long j) { return b.data() + i * s0 + j * s1; }; auto Bv = [&](long i, long j) { return *B(i, j); };
        auto v = ToKokkos<T>(std::make_tuple((long)b.data(), std::make_tuple(r, c), std::make_tuple(s0, s1)));
        same2(v, r, c, Bv, B, "ToKokkos strided 2d");
        auto m = KokkosToMat<T>(v); eig2(m, r, c, Bv, B, "KokkosToMat strided");
        StridedMatrix<const T, HS> cv = v; auto cm = ConstKokkosToMat<T>(cv); { auto w = cm; for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) check(w.coeff(i, j) == Bv(i, j) && &w.coeffRef(i, j) == B(i, j), "ConstKokkosToMat strided"); check(w.rows() == r && w.cols() == c, "ConstKokkosToMat strided"); }
        auto mc = CopyKokkosToMat(v); auto z = [&](long, long) -> T* { return nullptr; }; eig2(mc, r, c, Bv, z, "CopyKokkosToMat strided", false);
        auto h = ToHost<HS, T>(v); same2(h, r, c, Bv, B, "ToHost strided", false);
        int st = RI(1, 4), len = r; std::vector<T> d(std::max(0, len - 1) * st + 1); for (size_t k = 0; k < d.size(); ++k) d[k] = val<T>(k + 5);
        auto Dd = [&](long i) { return d.data() + i * st; }; auto Dv = [&](long i) { return *Dd(i); };
        StridedVector<T, HS> sv = ToKokkos<T>(std::make_tuple((long)d.data(), len, st));
        same1(sv, len, Dv, Dd, "ToKokkos strided 1d");
        auto e = KokkosToVec<T>(sv); check(e.size() == len, "KokkosToVec strided"); for (int i = 0; i < std::min<int>(len, e.size()); ++i) check(&e.coeffRef(i) == Dd(i), "KokkosToVec strided", "not the same memory");
        auto ec = CopyKokkosToVec(sv); check(ec.size() == len, "CopyKokkosToVec strided"); for (int i = 0; i < std::min<int>(len, ec.size()); ++i) check(ec(i) == Dv(i) && &ec(i) != Dd(i), "CopyKokkosToVec strided");
        auto ks = KokkosToStd(sv); check((int)ks.size() == len, "KokkosToStd strided"); for (int i = 0; i < std::min<int>(len, ks.size()); ++i) check(ks[i] == Dv(i), "KokkosToStd strided");
        { auto keep = ks; if (len) { sv(0) = T(9999); check(ks == keep, "KokkosToStd copies"); check((len == 0) || ec(0) != T(9999), "CopyKokkosToVec copies"); } }
    }
    { // std::vector
        std::vector<T> b(orig.begin(), orig.end() - 1); T* q = b.data();
        auto Q = [&](long i) { return q + i; }; auto Qv = [&](long i) { return q[i]; }; auto Q2 = [&](long i, long j) { return q + i * c + j; }; auto Q2v = [&](long i, long j) { return *Q2(i, j); };
        same1(VecToKokkos<T, HS>(b), n, Qv, Q, "VecToKokkos std::vector"); same1(VecToConstKokkos<T, HS>(b), n, Qv, Q, "VecToConstKokkos std::vector"); same1(ConstVecToKokkos<T, HS>(b), n, Qv, Q, "ConstVecToKokkos std::vector");
        int rr = c ? r : 0;
        same2(MatToKokkos<T, HS>(b, c), rr, c, Q2v, Q2, "MatToKokkos std::vector"); same2(MatToConstKokkos<T, HS>(b, c), rr, c, Q2v, Q2, "MatToConstKokkos std::vector");
        auto k = ToKokkos<T>(q, n); auto s = KokkosToStd(k); check(s == b, "KokkosToStd"); auto kc = ToConstKokkos<T>(q, n); auto s2 = KokkosToStd(kc); check(s2 == b, "KokkosToStd const");
        auto e = KokkosToVec<T>(k); check(e.size() == n, "KokkosToVec"); for (int i = 0; i < std::min<int>(n, e.size()); ++i) check(&e.coeffRef(i) == q + i, "KokkosToVec", "not the same memory");
        auto ec = CopyKokkosToVec(k); check(ec.size() == n, "CopyKokkosToVec"); for (int i = 0; i < std::min<int>(n, ec.size()); ++i) check(ec(i) == q[i], "CopyKokkosToVec");
        check(b == std::vector<T>(orig.begin(), orig.end() - 1), "copies leave the source unchanged");
        Kokkos::View<T*, HS> own("own", n + 3); for (int i = 0; i < n + 3; ++i) own(i) = val<T>(i + 1);
        auto h = ToHost<HS>(own); same1(h, n + 3, [&](long i) { return val<T>(i + 1); }, O, "ToHost 1d", false);
        int lo = RI(0, n + 3), hi = RI(lo, n + 3); auto hs = ToHost<HS>(own, std::make_pair(lo, hi)); same1(hs, hi - lo, [&](long i) { return val<T>(lo + i + 1); }, O, "ToHost 1d range", false);
        Kokkos::View<T**, HS> own2("own2", r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) own2(i, j) = val<T>(i * 31 + j);
        auto h2 = ToHost<HS>(own2); same2(h2, r, c, [&](long i, long j) { return val<T>(i * 31 + j); }, R, "ToHost 2d", false);
    }
    { // views to Eigen, whole and windows
        auto ll = ToKokkos<T>(p, r, c); auto lr = ToKokkos<T, Kokkos::LayoutRight>(p, r, c);
        auto ml = KokkosToMat<T>(ll); eig2(ml, r, c, Lv, L, "KokkosToMat column major"); auto mr = KokkosToMat<T>(lr); eig2(mr, r, c, Rv, R, "KokkosToMat row major");
        auto cl = ConstKokkosToMat<T>(ToConstKokkos<T>(p, r, c)); { auto w = cl; check(w.rows() == r && w.cols() == c, "ConstKokkosToMat column major"); for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) check(&w.coeffRef(i, j) == L(i, j), "ConstKokkosToMat column major"); }
        auto cr = ConstKokkosToMat<T>(ToConstKokkos<T, Kokkos::LayoutRight>(p, r, c)); { auto w = cr; check(w.rows() == r && w.cols() == c, "ConstKokkosToMat row major"); for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) check(&w.coeffRef(i, j) == R(i, j), "ConstKokkosToMat row major"); }
        auto kl = CopyKokkosToMat(ll); eig2(kl, r, c, Lv, L, "CopyKokkosToMat column major", false); auto kr = CopyKokkosToMat(lr); eig2(kr, r, c, Rv, R, "CopyKokkosToMat row major", false);
        int i0 = RI(0, r), i1 = RI(i0, r), j0 = RI(0, c), j1 = RI(j0, c); auto wi = std::make_pair(i0, i1), wj = std::make_pair(j0, j1);
        auto wl = Kokkos::subview(ll, wi, wj); auto wr = Kokkos::subview(lr, wi, wj);
        auto ew = KokkosToMat<T>(wl); eig2(ew, i1 - i0, j1 - j0, [&](long i, long j) { return Lv(i + i0, j + j0); }, [&](long i, long j) { return L(i + i0, j + j0); }, "KokkosToMat window column major");
        auto er = KokkosToMat<T>(wr); eig2(er, i1 - i0, j1 - j0, [&](long i, long j) { return Rv(i + i0, j + j0); }, [&](long i, long j) { return R(i + i0, j + j0); }, "KokkosToMat window row major");
        if (r * c && i1 > i0 && j1 > j0) { ew(0, 0) = T(4321); check(*L(i0, j0) == T(4321), "KokkosToMat shares memory"); a = orig; }
    }
    unchanged("conversions leave the source unchanged");
    { // Eigen to views, whole, windows, transposed
        RowM<T> A(r, c); ColM<T> B(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { A(i, j) = val<T>(i * 37 + j); B(i, j) = val<T>(i * 41 + j + 1); }
        int i0 = RI(0, r), i1 = RI(i0, r), j0 = RI(0, c), j1 = RI(j0, c), h = i1 - i0, w = j1 - j0;
        auto a1 = [&](long i, long j) { return &A(i, j); }; auto v1 = [&](long i, long j) { return A(i, j); }; auto b1 = [&](long i, long j) { return &B(i, j); }; auto w1 = [&](long i, long j) { return B(i, j); };
        auto a2 = [&](long i, long j) { return &A(i + i0, j + j0); }; auto v2 = [&](long i, long j) { return A(i + i0, j + j0); }; auto b2 = [&](long i, long j) { return &B(i + i0, j + j0); }; auto w2 = [&](long i, long j) { return B(i + i0, j + j0); };
        auto at = [&](long i, long j) { return &A(j, i); }; auto vt = [&](long i, long j) { return A(j, i); }; auto bt = [&](long i, long j) { return &B(j, i); }; auto wt = [&](long i, long j) { return B(j, i); };
        typedef Eigen::Stride<-1, -1> DS; typedef Eigen::Ref<RowM<T>, 0, DS> RR; typedef Eigen::Ref<ColM<T>, 0, DS> RC;
        same2(MatToKokkos<T, HS>(RR(A)), r, c, v1, a1, "MatToKokkos row major"); same2(MatToKokkos<T, HS>(RC(B)), r, c, w1, b1, "MatToKokkos column major");
        same2(MatToKokkos<T, HS>(RR(A.block(i0, j0, h, w))), h, w, v2, a2, "MatToKokkos row major block"); same2(MatToKokkos<T, HS>(RC(B.block(i0, j0, h, w))), h, w, w2, b2, "MatToKokkos column major block");
        same2(MatToKokkos<T, HS>(RC(A.transpose())), c, r, vt, at, "MatToKokkos transposed row major"); same2(MatToKokkos<T, HS>(RR(B.transpose())), c, r, wt, bt, "MatToKokkos transposed column major");
        typedef Eigen::Ref<const RowM<T>, 0, Eigen::Stride<-1, 1>> CR; typedef Eigen::Ref<const ColM<T>, 0, Eigen::Stride<-1, 1>> CC;
        same2(ConstRowMatToKokkos<T, HS>(CR(A)), r, c, v1, a1, "ConstRowMatToKokkos"); same2(ConstColMatToKokkos<T, HS>(CC(B)), r, c, w1, b1, "ConstColMatToKokkos");
        same2(ConstRowMatToKokkos<T, HS>(CR(A.block(i0, j0, h, w))), h, w, v2, a2, "ConstRowMatToKokkos of a block"); same2(ConstColMatToKokkos<T, HS>(CC(B.block(i0, j0, h, w))), h, w, w2, b2, "ConstColMatToKokkos of a block");
        typedef Eigen::Ref<Eigen::Matrix<T, -1, 1>, 0, Eigen::InnerStride<-1>> VR;
        Eigen::Matrix<T, -1, 1> x(r); for (int i = 0; i < r; ++i) x(i) = val<T>(i + 9);
        same1(VecToKokkos<T, HS>(VR(x)), r, [&](long i) { return x(i); }, [&](long i) { return &x(i); }, "VecToKokkos");
        if (c) { int j = RI(0, c - 1); same1(VecToKokkos<T, HS>(VR(A.col(j))), r, [&](long i) { return A(i, j); }, [&](long i) { return &A(i, j); }, "VecToKokkos of a column of a row major matrix"); same1(VecToKokkos<T, HS>(VR(B.col(j))), r, [&](long i) { return B(i, j); }, [&](long i) { return &B(i, j); }, "VecToKokkos of a column"); }
        if (r) { int i = RI(0, r - 1); same1(VecToKokkos<T, HS>(VR(B.row(i).transpose())), c, [&](long j) { return B(i, j); }, [&](long j) { return &B(i, j); }, "VecToKokkos of a row"); }
    }
}
int main(int argc, char** argv) {
    return run(argc, argv, [] {
        int reps = thorough ? 40 : 6;
        for (int rep = 0; rep < reps; ++rep) for (int r = 0; r < 6; ++r) for (int c = 0; c < 6; ++c) { section([&] { all<double>(r, c); }); section([&] { all<int>(r, c); }); section([&] { all<unsigned>(r, c); }); }
        for (int rep = 0; rep < reps; ++rep) section([&] { int r = RI(1, 40), c = RI(1, 40); all<double>(r, c); });
        for (int rep = 0; rep < 50; ++rep) section([&] { // through the public interface
            int n = RI(1, 4), m = RI(1, n), np = RI(0, 5), pad = RI(0, 3), off = RI(0, pad);
            Eigen::RowMatrixXd A(n + 2, np + pad); for (int i = 0; i < A.rows(); ++i) for (int j = 0; j < A.cols(); ++j) A(i, j) = N01();
            Case("identity map %d->%d evaluated at a %dx%d block of a %dx%d matrix", n, m, n, np, (int)A.rows(), (int)A.cols());
            IdentityMap<HS> f(n, m); auto blk = A.block(1, off, n, np); Eigen::RowMatrixXd y = f.Evaluate(blk);
            check(y.rows() == m && y.cols() == np, "Eigen blocks through Evaluate"); for (int i = 0; i < m; ++i) for (int j = 0; j < np; ++j) check(y(i, j) == blk(n - m + i, j), "Eigen blocks through Evaluate");
        });
    });
}
