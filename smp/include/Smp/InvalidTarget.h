// Reconstruction of the ECSS SMP interface header <Smp/InvalidTarget.h>.
#ifndef SMPREC_INVALIDTARGET_H
#define SMPREC_INVALIDTARGET_H
#include <Smp/Exception.h>
#include <Smp/AnySimple.h>
#include <Smp/Uuid.h>
#include <Smp/ComponentStateKind.h>
#include <Smp/SimulatorStateKind.h>
#include <Smp/Services/EventId.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class InvalidTarget : public virtual ::Smp::Exception {
public:
  ~InvalidTarget() noexcept override = default;
  virtual const ::Smp::IDataflowField *GetSource() const noexcept = 0;
  virtual const ::Smp::IField *GetTarget() const noexcept = 0;
};
} // namespace Smp
#endif
