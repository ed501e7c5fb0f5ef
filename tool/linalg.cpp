// Analysed, never run: instantiates the array helpers of LinearAlgebra.h for the host memory space.
#include "MParT/Utilities/LinearAlgebra.h"
#include "MParT/Utilities/ArrayConversions.h"
namespace mpart_linalg {
using namespace mpart;
using H = Kokkos::HostSpace;
using LL = Kokkos::View<double**, Kokkos::LayoutLeft, H>;
using LR = Kokkos::View<double**, Kokkos::LayoutRight, H>;
using CLL = Kokkos::View<const double**, Kokkos::LayoutLeft, H>;
using CLR = Kokkos::View<const double**, Kokkos::LayoutRight, H>;
using V = Kokkos::View<double*, H>;
using CV = Kokkos::View<const double*, H>;
using SM = StridedMatrix<double, H>;
using CSM = StridedMatrix<const double, H>;
using SV = StridedVector<double, H>;
using CSV = StridedVector<const double, H>;
auto add_vv(V x, V y) { return x + y; }
auto add_cc(CV x, CV y) { return x + y; }
auto add_ss(CSV x, CSV y) { return x + y; }
using M2 = Kokkos::View<double**, H>;
auto add_mm(M2 x, M2 y) { return x + y; }
auto add_mr(M2 x, LR y) { return x + y; }
auto add_cm(CLL x, CLL y) { return x + y; }
auto add_cs(CSM x, CSM y) { return x + y; }
void inc_vv(V x, V y) { x += y; }
void inc_sv(V x, CSV y) { x += y; }
void inc_ss(SV x, SV y) { x += y; }
void inc_mm(LL x, LL y) { x += y; }
void inc_s2(SM x, SM y) { x += y; }
auto mul_mm(LL a, LL b) { return a * b; }
auto mul_tm(LL a, LL b) { return transpose(a) * b; }
auto mul_mt(LL a, LL b) { return a * transpose(b); }
auto mul_tt(LL a, LL b) { return transpose(a) * transpose(b); }
auto mul_ttm(LL a, LL b) { return transpose(transpose(a)) * b; }
auto mul_ttt(LL a, LL b) { return transpose(transpose(a)) * transpose(b); }
void gemm_mm(double al, CSM a, CSM b, double be, SM c) { dgemm<H>(al, a, b, be, c); }
void gemm_ll(double al, LL a, LR b, double be, SM c) { dgemm<H>(al, a, b, be, c); }
template<ReduceDimMap M, unsigned D> void red(SM a, double al, double* out) { ReduceDim<M, H, D> r(a, al); r.init(out); for (unsigned i = 0; i < a.extent(D); ++i) r(i, out); r.join(out, out); }
template void red<ReduceDimMap::sum, 0>(SM, double, double*);
template void red<ReduceDimMap::sum, 1>(SM, double, double*);
template void red<ReduceDimMap::norm, 0>(SM, double, double*);
template void red<ReduceDimMap::norm, 1>(SM, double, double*);
}
