// Analysed, never run: instantiates every host conversion between Kokkos views, Eigen matrices, std::vectors and raw pointers.
#include "MParT/Utilities/ArrayConversions.h"
using namespace mpart;
using HS = Kokkos::HostSpace;
template<typename T> void conv(T* p, const T* cp, unsigned n, unsigned m, std::vector<T>& v, int c,
                               Eigen::Matrix<T,-1,-1>& A, Eigen::Matrix<T,-1,-1,Eigen::RowMajor>& B, Eigen::Matrix<T,-1,1>& w)
{
    auto a1 = ToKokkos<T,HS>(p, n); auto a2 = ToConstKokkos<T,HS>(cp, n);
    auto a3 = ToKokkos<T,Kokkos::LayoutLeft,HS>(p, n, m); auto a4 = ToKokkos<T,Kokkos::LayoutRight,HS>(p, n, m);
    auto a5 = ToConstKokkos<T,Kokkos::LayoutLeft,HS>(cp, n, m); auto a6 = ToConstKokkos<T,Kokkos::LayoutRight,HS>(cp, n, m);
    StridedMatrix<T,HS> a7 = ToKokkos<T,HS>(std::tuple<long,std::tuple<int,int>,std::tuple<int,int>>{}); StridedVector<T,HS> a8 = ToKokkos<T,HS>(std::tuple<long,int,int>{});
    auto b1 = KokkosToStd(a1); auto b2 = KokkosToStd(a2); auto b3 = KokkosToStd(a8);
    auto c1 = VecToKokkos<T,HS>(v); auto c2 = ConstVecToKokkos<T,HS>(v); auto c3 = MatToKokkos<T,HS>(v, c);
    auto c4 = VecToConstKokkos<T,HS>(v); auto c5 = MatToConstKokkos<T,HS>(v, c);
    auto d1 = MatToKokkos<T,HS>(A); auto d2 = MatToKokkos<T,HS>(B); auto d3 = ConstRowMatToKokkos<T,HS>(B); auto d4 = ConstColMatToKokkos<T,HS>(A);
    auto d5 = VecToKokkos<T,HS>(w);
    auto e1 = KokkosToVec(a1); auto e2 = KokkosToVec(a8); auto e3 = CopyKokkosToVec(a1); auto e4 = CopyKokkosToVec(a8);
    auto f1 = KokkosToMat(a3); auto f2 = KokkosToMat(a4); auto f3 = KokkosToMat(a7);
    auto f4 = ConstKokkosToMat(a5); auto f5 = ConstKokkosToMat(a6); Kokkos::View<const T**, Kokkos::LayoutStride, HS> a9 = a7; auto f6 = ConstKokkosToMat(a9);
    auto g1 = CopyKokkosToMat(a3); auto g2 = CopyKokkosToMat(a4); auto g3 = CopyKokkosToMat(a7);
    Kokkos::View<T*,HS> q1; Kokkos::View<T**,HS> q2; auto h1 = ToHost(q1); auto h2 = ToHost(q2); auto h3 = ToHost(q1, std::pair<int,int>(0,n));
}
void mpart_verif_conv(double* p, std::vector<double>& v, Eigen::MatrixXd& A, Eigen::Matrix<double,-1,-1,Eigen::RowMajor>& B, Eigen::VectorXd& w)
{ conv<double>(p, p, 3, 4, v, 2, A, B, w); }
