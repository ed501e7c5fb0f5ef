#include "MParT/OrthogonalPolynomial.h"
#include "MParT/HermiteFunction.h"
#include "MParT/LinearizedBasis.h"
#include "MParT/PositiveBijectors.h"
#include "MParT/Sigmoid.h"
using namespace mpart;
template class mpart::OrthogonalPolynomial<ProbabilistHermiteMixer>;
template class mpart::OrthogonalPolynomial<PhysicistHermiteMixer>;
template class mpart::LinearizedBasis<ProbabilistHermite>;
template class mpart::LinearizedBasis<HermiteFunction>;
// uninterpreted inner basis and sigmoid
struct OpaqueBasis {
    void EvaluateAll(double*, unsigned int, double) const;
    void EvaluateDerivatives(double*, double*, unsigned int, double) const;
    void EvaluateSecondDerivatives(double*, double*, double*, unsigned int, double) const;
    double Evaluate(unsigned int, double) const;
    double Derivative(unsigned int, double) const;
    double SecondDerivative(unsigned int, double) const;
};
struct OpaqueSigmoid { static double Evaluate(double); static double Inverse(double); static double Derivative(double); };
template class mpart::LinearizedBasis<OpaqueBasis>;
template class mpart::Sigmoid1d<Kokkos::HostSpace, OpaqueSigmoid>;
