#include "MParT/MultiIndices/MultiIndexSet.h"
#include "MParT/MultivariateExpansionWorker.h"
#include "MParT/MultivariateExpansion.h"
#include "MParT/MonotoneComponent.h"
using namespace mpart;
// uninterpreted basis, bijector and quadrature rule
struct OpaqueBasis {
    void EvaluateAll(double*, unsigned int, double) const;
    void EvaluateDerivatives(double*, double*, unsigned int, double) const;
    void EvaluateSecondDerivatives(double*, double*, double*, unsigned int, double) const;
    double Evaluate(unsigned int, double) const;
    double Derivative(unsigned int, double) const;
    double SecondDerivative(unsigned int, double) const;
};
struct OpaquePos { static double Evaluate(double); static double Derivative(double); static double SecondDerivative(double); static double Inverse(double); };
struct OpaqueQuad {
    void SetDim(unsigned int);
    unsigned int WorkspaceSize() const;
    template<class F> void Integrate(double*, F const& f, double lb, double, double* res) const { f(lb, res); }
    template<class F> void Integrate(F const& f, double lb, double, double* res) const { f(lb, res); }
};
template class mpart::MultivariateExpansionWorker<OpaqueBasis, Kokkos::HostSpace>;
template class mpart::MultivariateExpansion<OpaqueBasis, Kokkos::HostSpace>;
template class mpart::MonotoneComponent<MultivariateExpansionWorker<OpaqueBasis, Kokkos::HostSpace>, OpaquePos, OpaqueQuad, Kokkos::HostSpace>;
void expansion_ctor(FixedMultiIndexSet<Kokkos::HostSpace> const& s, OpaqueBasis const& b) { MultivariateExpansion<OpaqueBasis, Kokkos::HostSpace> e(1, s, b); }
