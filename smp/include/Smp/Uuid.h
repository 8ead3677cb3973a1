// Reconstruction of the ECSS SMP interface header <Smp/Uuid.h>.
#ifndef SMPREC_UUID_H
#define SMPREC_UUID_H
#include <array>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <ostream>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
struct Uuid {
  constexpr Uuid() : Data1{0}, Data2{0, 0, 0}, Data3{0, 0, 0, 0, 0, 0} {}
  constexpr Uuid(std::uint32_t data1, std::uint16_t data21, std::uint16_t data22, std::uint16_t data23, std::uint64_t data3)
      : Data1{data1}, Data2{data21, data22, data23},
        Data3{static_cast<std::uint8_t>((data3 >> 40) & 0xFF), static_cast<std::uint8_t>((data3 >> 32) & 0xFF),
              static_cast<std::uint8_t>((data3 >> 24) & 0xFF), static_cast<std::uint8_t>((data3 >> 16) & 0xFF),
              static_cast<std::uint8_t>((data3 >> 8) & 0xFF), static_cast<std::uint8_t>(data3 & 0xFF)} {}
  constexpr Uuid(const std::uint32_t &data1, const std::array<std::uint16_t, 3> &data2, const std::array<std::uint8_t, 6> &data3)
      : Data1{data1}, Data2{data2}, Data3{data3} {}
  Uuid(const char *value);
  constexpr Uuid(const Uuid &) = default;
  Uuid &operator=(const Uuid &) = default;
  bool operator<(const Uuid &other) const;
  bool operator==(const Uuid &other) const;
  bool operator!=(const Uuid &other) const;
  std::uint32_t Data1;
  std::array<std::uint16_t, 3> Data2;
  std::array<std::uint8_t, 6> Data3;
};
std::ostream &operator<<(std::ostream &os, const ::Smp::Uuid &uuid);
class Uuids { public:
  static constexpr ::Smp::Uuid Uuid_Uuid{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C0001ULL};
  static constexpr ::Smp::Uuid Uuid_Void{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C0002ULL};
  static constexpr ::Smp::Uuid Uuid_Char8{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C0003ULL};
  static constexpr ::Smp::Uuid Uuid_Bool{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C0004ULL};
  static constexpr ::Smp::Uuid Uuid_Int8{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C0005ULL};
  static constexpr ::Smp::Uuid Uuid_UInt8{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C0006ULL};
  static constexpr ::Smp::Uuid Uuid_Int16{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C0007ULL};
  static constexpr ::Smp::Uuid Uuid_UInt16{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C0008ULL};
  static constexpr ::Smp::Uuid Uuid_Int32{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C0009ULL};
  static constexpr ::Smp::Uuid Uuid_UInt32{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C000aULL};
  static constexpr ::Smp::Uuid Uuid_Int64{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C000bULL};
  static constexpr ::Smp::Uuid Uuid_UInt64{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C000cULL};
  static constexpr ::Smp::Uuid Uuid_Float32{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C000dULL};
  static constexpr ::Smp::Uuid Uuid_Float64{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C000eULL};
  static constexpr ::Smp::Uuid Uuid_Duration{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C000fULL};
  static constexpr ::Smp::Uuid Uuid_DateTime{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C0010ULL};
  static constexpr ::Smp::Uuid Uuid_String8{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C0011ULL};
  static constexpr ::Smp::Uuid Uuid_PrimitiveTypeKind{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C0012ULL};
  static constexpr ::Smp::Uuid Uuid_EventId{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C0013ULL};
  static constexpr ::Smp::Uuid Uuid_LogMessageKind{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C0014ULL};
  static constexpr ::Smp::Uuid Uuid_TimeKind{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C0015ULL};
  static constexpr ::Smp::Uuid Uuid_ViewKind{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C0016ULL};
  static constexpr ::Smp::Uuid Uuid_ParameterDirectionKind{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C0017ULL};
  static constexpr ::Smp::Uuid Uuid_ComponentStateKind{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C0018ULL};
  static constexpr ::Smp::Uuid Uuid_AccessKind{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C0019ULL};
  static constexpr ::Smp::Uuid Uuid_SimulatorStateKind{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C001aULL};
};
} // namespace Smp
namespace std { template <> struct hash<::Smp::Uuid> { size_t operator()(const ::Smp::Uuid &uuid) const; }; }
#endif
