// Reconstruction of the ECSS SMP interface header <Smp/Services/LogMessageKind.h>.
#ifndef SMPREC_SERVICES_LOGMESSAGEKIND_H
#define SMPREC_SERVICES_LOGMESSAGEKIND_H
#include <Smp/PrimitiveTypes.h>
namespace Smp::Services {
using LogMessageKind = ::Smp::Int32;
} // namespace Smp::Services
#endif
