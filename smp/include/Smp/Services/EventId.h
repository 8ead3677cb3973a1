// Reconstruction of the ECSS SMP interface header <Smp/Services/EventId.h>.
#ifndef SMPREC_SERVICES_EVENTID_H
#define SMPREC_SERVICES_EVENTID_H
#include <Smp/PrimitiveTypes.h>
namespace Smp::Services {
using EventId = ::Smp::Int64;
} // namespace Smp::Services
#endif
