// Reconstruction of the ECSS SMP interface header <Smp/ILinkingComponent.h>.
#ifndef SMPREC_ILINKINGCOMPONENT_H
#define SMPREC_ILINKINGCOMPONENT_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IComponent.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class ILinkingComponent : public virtual ::Smp::IComponent {
public:
  ~ILinkingComponent() noexcept override = default;
  virtual void RemoveLinks(const ::Smp::IComponent *target) = 0;
};
} // namespace Smp
#endif
