// Reconstruction of the ECSS SMP interface header <Smp/IAggregate.h>.
#ifndef SMPREC_IAGGREGATE_H
#define SMPREC_IAGGREGATE_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IComponent.h>
#include <Smp/IReference.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class IAggregate : public virtual ::Smp::IComponent {
public:
  ~IAggregate() noexcept override = default;
  virtual const ::Smp::ReferenceCollection *GetReferences() const = 0;
  virtual ::Smp::IReference *GetReference(::Smp::String8 name) const = 0;
};
} // namespace Smp
#endif
