// Reconstruction of the ECSS SMP interface header <Smp/AccessKind.h>.
#ifndef SMPREC_ACCESSKIND_H
#define SMPREC_ACCESSKIND_H
#include <cstdint>
#include <ostream>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
enum class AccessKind : ::Smp::Int32 { AK_ReadWrite, AK_ReadOnly, AK_WriteOnly };
std::ostream &operator<<(std::ostream &os, const AccessKind &obj);
} // namespace Smp
#endif
