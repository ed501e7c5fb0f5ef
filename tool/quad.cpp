#include <Eigen/Core>
#include "MParT/Quadrature.h"
using namespace mpart;
// an uninterpreted vector-valued integrand
struct OpaqueFun { void operator()(double, double*) const; };
template class mpart::QuadratureBase<Kokkos::HostSpace>;
template class mpart::ClenshawCurtisQuadrature<Kokkos::HostSpace>;
template class mpart::AdaptiveSimpson<Kokkos::HostSpace>;
template class mpart::AdaptiveClenshawCurtis<Kokkos::HostSpace>;
template<class Q> void use(Q const& q, OpaqueFun const& f, double* w, double* r) { q.Integrate(w, f, 0.0, 1.0, r); q.Integrate(f, 0.0, 1.0, r); }
void drive(OpaqueFun const& f, double* w, double* r) {
    ClenshawCurtisQuadrature<Kokkos::HostSpace> a(3, 1), a2(3, 1, w);
    AdaptiveSimpson<Kokkos::HostSpace> b(3, 1, 0, 0, QuadError::First), b2(3, 1, w, 0, 0, QuadError::First);
    AdaptiveClenshawCurtis<Kokkos::HostSpace> c(2, 3, 1, 0, 0, QuadError::First), c2(2, 3, 1, w, 0, 0, QuadError::First);
    use(a, f, w, r); use(b, f, w, r); use(c, f, w, r); use(a2, f, w, r); use(b2, f, w, r); use(c2, f, w, r);
}
