// Reconstruction of the ECSS SMP interface header <Smp/AnySimple.h>.
#ifndef SMPREC_ANYSIMPLE_H
#define SMPREC_ANYSIMPLE_H
#include <ostream>
#include <Smp/PrimitiveTypes.h>
#include <Smp/Uuid.h>
namespace Smp {
struct AnySimple {
  AnySimple();
  explicit AnySimple(::Smp::PrimitiveTypeKind kind);
  AnySimple(const ::Smp::AnySimple &other);
  AnySimple(::Smp::AnySimple &&other);
  template <class T> AnySimple(::Smp::PrimitiveTypeKind kind, T val) : AnySimple(::Smp::PrimitiveTypeKind::PTK_None) { SetValue(kind, val); }
  ~AnySimple() noexcept;
  AnySimple &operator=(const ::Smp::AnySimple &other);
  AnySimple &operator=(::Smp::AnySimple &&other);
  bool operator==(const ::Smp::AnySimple &other) const;
  bool operator!=(const ::Smp::AnySimple &other) const;
  ::Smp::PrimitiveTypeKind GetType() const noexcept;
  ::Smp::String8 MoveString();
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Bool newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Char8 newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::String8 newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::UInt8 newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::UInt16 newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::UInt32 newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::UInt64 newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Int8 newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Int16 newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Int32 newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Int64 newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Float32 newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Float64 newValue);
  operator ::Smp::Bool() const;
  operator ::Smp::Char8() const;
  operator ::Smp::String8() const;
  operator ::Smp::UInt8() const;
  operator ::Smp::UInt16() const;
  operator ::Smp::UInt32() const;
  operator ::Smp::UInt64() const;
  operator ::Smp::Int8() const;
  operator ::Smp::Int16() const;
  operator ::Smp::Int32() const;
  operator ::Smp::Int64() const;
  operator ::Smp::Float32() const;
  operator ::Smp::Float64() const;
  ::Smp::PrimitiveTypeKind type;
  union Values {
    ::Smp::Char8 char8Value; ::Smp::Bool boolValue; ::Smp::Int8 int8Value; ::Smp::UInt8 uInt8Value; ::Smp::Int16 int16Value; ::Smp::UInt16 uInt16Value;
    ::Smp::Int32 int32Value; ::Smp::UInt32 uInt32Value; ::Smp::Int64 int64Value; ::Smp::UInt64 uInt64Value; ::Smp::Float32 float32Value; ::Smp::Float64 float64Value;
    ::Smp::Duration durationValue; ::Smp::DateTime dateTimeValue; ::Smp::String8 string8Value;
  } value;
};
std::ostream &operator<<(std::ostream &os, const AnySimple &obj);
} // namespace Smp
#endif
