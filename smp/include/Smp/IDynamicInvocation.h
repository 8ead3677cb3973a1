// Reconstruction of the ECSS SMP interface header <Smp/IDynamicInvocation.h>.
#ifndef SMPREC_IDYNAMICINVOCATION_H
#define SMPREC_IDYNAMICINVOCATION_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IComponent.h>
#include <Smp/IOperation.h>
#include <Smp/IProperty.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class IDynamicInvocation : public virtual ::Smp::IComponent {
public:
  ~IDynamicInvocation() noexcept override = default;
  virtual ::Smp::IRequest *CreateRequest(::Smp::String8 operationName) = 0;
  virtual void Invoke(::Smp::IRequest *request) = 0;
  virtual void DeleteRequest(::Smp::IRequest *request) = 0;
  virtual const ::Smp::PropertyCollection *GetProperties() const = 0;
  virtual const ::Smp::OperationCollection *GetOperations() const = 0;
};
} // namespace Smp
#endif
