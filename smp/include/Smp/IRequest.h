// Reconstruction of the ECSS SMP interface header <Smp/IRequest.h>.
#ifndef SMPREC_IREQUEST_H
#define SMPREC_IREQUEST_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/AnySimple.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class IRequest {
public:
  virtual ~IRequest() noexcept = default;
  virtual ::Smp::String8 GetOperationName() const = 0;
  virtual ::Smp::Int32 GetParameterCount() const = 0;
  virtual ::Smp::Int32 GetParameterIndex(::Smp::String8 parameterName) const = 0;
  virtual void SetParameterValue(::Smp::Int32 index, ::Smp::AnySimple value) = 0;
  virtual ::Smp::AnySimple GetParameterValue(::Smp::Int32 index) const = 0;
  virtual void SetReturnValue(::Smp::AnySimple value) = 0;
  virtual ::Smp::AnySimple GetReturnValue() const = 0;
};
} // namespace Smp
#endif
