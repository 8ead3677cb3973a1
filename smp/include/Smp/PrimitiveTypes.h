// Reconstruction of the ECSS SMP interface header <Smp/PrimitiveTypes.h>.
#ifndef SMPREC_PRIMITIVETYPES_H
#define SMPREC_PRIMITIVETYPES_H
#include <cstddef>
#include <cstdint>
#include <memory>
#include <ostream>
#include <type_traits>
#include <utility>
namespace Smp {
using Char8 = char; using String8 = const char *; using Bool = bool;
using Int8 = std::int8_t; using Int16 = std::int16_t; using Int32 = std::int32_t; using Int64 = std::int64_t;
using UInt8 = std::uint8_t; using UInt16 = std::uint16_t; using UInt32 = std::uint32_t; using UInt64 = std::uint64_t;
using Float32 = float; using Float64 = double;
using Duration = Int64; using DateTime = Int64;
enum class PrimitiveTypeKind : Int32 { PTK_None=0, PTK_Char8=1, PTK_Bool=2, PTK_Int8=3, PTK_UInt8=4, PTK_Int16=5, PTK_UInt16=6, PTK_Int32=7, PTK_UInt32=8, PTK_Int64=9, PTK_UInt64=10, PTK_Float32=11, PTK_Float64=12, PTK_Duration=13, PTK_DateTime=14, PTK_String8=15 };
std::ostream &operator<<(std::ostream &os, const PrimitiveTypeKind &obj);
} // namespace Smp
#endif
