// Reconstruction of the ECSS SMP interface header <Smp/IOperation.h>.
#ifndef SMPREC_IOPERATION_H
#define SMPREC_IOPERATION_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
#include <Smp/ViewKind.h>
#include <Smp/IParameter.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class IOperation : public virtual ::Smp::IObject {
public:
  ~IOperation() noexcept override = default;
  virtual const ::Smp::ParameterCollection *GetParameters() const = 0;
  virtual ::Smp::IParameter *GetParameter(::Smp::String8 name) const = 0;
  virtual ::Smp::IParameter *GetReturnParameter() const = 0;
  virtual ::Smp::ViewKind GetView() const = 0;
  virtual ::Smp::IRequest *CreateRequest() = 0;
  virtual void Invoke(::Smp::IRequest *request) = 0;
  virtual void DeleteRequest(::Smp::IRequest *request) = 0;
};
} // namespace Smp
namespace Smp { using OperationCollection = ::Smp::ICollection<::Smp::IOperation>; }
#endif
