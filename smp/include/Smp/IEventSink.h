// Reconstruction of the ECSS SMP interface header <Smp/IEventSink.h>.
#ifndef SMPREC_IEVENTSINK_H
#define SMPREC_IEVENTSINK_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
#include <Smp/AnySimple.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class IEventSink : public virtual ::Smp::IObject {
public:
  ~IEventSink() noexcept override = default;
  virtual ::Smp::PrimitiveTypeKind GetEventArgType() const = 0;
  virtual void Notify(::Smp::IObject *sender, ::Smp::AnySimple arg) = 0;
};
} // namespace Smp
namespace Smp { using EventSinkCollection = ::Smp::ICollection<::Smp::IEventSink>; }
#endif
