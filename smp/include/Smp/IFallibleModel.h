// Reconstruction of the ECSS SMP interface header <Smp/IFallibleModel.h>.
#ifndef SMPREC_IFALLIBLEMODEL_H
#define SMPREC_IFALLIBLEMODEL_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IModel.h>
#include <Smp/IFailure.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class IFallibleModel : public virtual ::Smp::IModel {
public:
  ~IFallibleModel() noexcept override = default;
  virtual ::Smp::Bool IsFailed() const = 0;
  virtual const ::Smp::FailureCollection *GetFailures() const = 0;
  virtual ::Smp::IFailure *GetFailure(::Smp::String8 name) const = 0;
};
} // namespace Smp
#endif
