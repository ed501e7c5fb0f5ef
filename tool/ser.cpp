// Instantiates the array save/load pair for both ranks (analysis input only, never run).
#include "MParT/Utilities/Serialization.h"
#include <sstream>
void mpart_verif_ser()
{
    std::stringstream ss;
    cereal::BinaryOutputArchive oa(ss); cereal::BinaryInputArchive ia(ss);
    Kokkos::View<double*, Kokkos::HostSpace> a; Kokkos::View<double**, Kokkos::HostSpace> b;
    cereal::save(oa, a); cereal::save(oa, b); cereal::load(ia, a); cereal::load(ia, b);
}
