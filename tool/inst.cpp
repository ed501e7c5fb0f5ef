// Analysed, never run: instantiates header-only templates of the library for the host memory space.
#include "MParT/Distributions/Distribution.h"
#include "MParT/Distributions/GaussianSamplerDensity.h"
#include "MParT/Distributions/PullbackDensity.h"
#include "MParT/Distributions/PushforwardDensity.h"
#include "MParT/Distributions/PullbackSampler.h"
#include "MParT/Distributions/PushforwardSampler.h"
template class mpart::Distribution<Kokkos::HostSpace>;
template class mpart::PullbackDensity<Kokkos::HostSpace>;
template class mpart::PushforwardDensity<Kokkos::HostSpace>;
template class mpart::PullbackSampler<Kokkos::HostSpace>;
template class mpart::PushforwardSampler<Kokkos::HostSpace>;
template class mpart::SampleGenerator<Kokkos::HostSpace>;
