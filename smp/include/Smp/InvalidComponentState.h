// Reconstruction of the ECSS SMP interface header <Smp/InvalidComponentState.h>.
#ifndef SMPREC_INVALIDCOMPONENTSTATE_H
#define SMPREC_INVALIDCOMPONENTSTATE_H
#include <Smp/Exception.h>
#include <Smp/AnySimple.h>
#include <Smp/Uuid.h>
#include <Smp/ComponentStateKind.h>
#include <Smp/SimulatorStateKind.h>
#include <Smp/Services/EventId.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class InvalidComponentState : public virtual ::Smp::Exception {
public:
  ~InvalidComponentState() noexcept override = default;
  virtual ::Smp::ComponentStateKind GetInvalidState() const noexcept = 0;
  virtual ::Smp::ComponentStateKind GetExpectedState() const noexcept = 0;
};
} // namespace Smp
#endif
