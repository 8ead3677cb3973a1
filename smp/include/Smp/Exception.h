// Reconstruction of the ECSS SMP interface header <Smp/Exception.h>.
#ifndef SMPREC_EXCEPTION_H
#define SMPREC_EXCEPTION_H
#include <exception>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IObject;
class Exception : public std::exception {
public:
  ~Exception() noexcept override = default;
  const ::Smp::Char8 *what() const noexcept override = 0;
  virtual ::Smp::String8 GetName() const noexcept = 0;
  virtual ::Smp::String8 GetDescription() const noexcept = 0;
  virtual ::Smp::String8 GetMessage() const noexcept = 0;
  virtual const ::Smp::IObject *GetSender() const noexcept = 0;
};
} // namespace Smp
#endif
