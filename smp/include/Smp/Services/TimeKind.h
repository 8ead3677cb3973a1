// Reconstruction of the ECSS SMP interface header <Smp/Services/TimeKind.h>.
#ifndef SMPREC_SERVICES_TIMEKIND_H
#define SMPREC_SERVICES_TIMEKIND_H
#include <cstdint>
#include <ostream>
#include <Smp/PrimitiveTypes.h>
namespace Smp::Services {
enum class TimeKind : ::Smp::Int32 { TK_SimulationTime, TK_MissionTime, TK_EpochTime, TK_ZuluTime };
std::ostream &operator<<(std::ostream &os, const TimeKind &obj);
} // namespace Smp::Services
#endif
