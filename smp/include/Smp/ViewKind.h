// Reconstruction of the ECSS SMP interface header <Smp/ViewKind.h>.
#ifndef SMPREC_VIEWKIND_H
#define SMPREC_VIEWKIND_H
#include <cstdint>
#include <ostream>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
enum class ViewKind : ::Smp::Int32 { VK_None, VK_Debug, VK_Expert, VK_All };
std::ostream &operator<<(std::ostream &os, const ViewKind &obj);
} // namespace Smp
#endif
