// Reconstruction of the ECSS SMP interface header <Smp/Publication/ParameterDirectionKind.h>.
#ifndef SMPREC_PUBLICATION_PARAMETERDIRECTIONKIND_H
#define SMPREC_PUBLICATION_PARAMETERDIRECTIONKIND_H
#include <cstdint>
#include <ostream>
#include <Smp/PrimitiveTypes.h>
namespace Smp::Publication {
enum class ParameterDirectionKind : ::Smp::Int32 { PDK_In, PDK_Out, PDK_InOut, PDK_Return };
std::ostream &operator<<(std::ostream &os, const ParameterDirectionKind &obj);
} // namespace Smp::Publication
#endif
