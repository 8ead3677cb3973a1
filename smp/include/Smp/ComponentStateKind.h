// Reconstruction of the ECSS SMP interface header <Smp/ComponentStateKind.h>.
#ifndef SMPREC_COMPONENTSTATEKIND_H
#define SMPREC_COMPONENTSTATEKIND_H
#include <cstdint>
#include <ostream>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
enum class ComponentStateKind : ::Smp::Int32 { CSK_Created, CSK_Publishing, CSK_Configured, CSK_Connected, CSK_Disconnected };
std::ostream &operator<<(std::ostream &os, const ComponentStateKind &obj);
} // namespace Smp
#endif
