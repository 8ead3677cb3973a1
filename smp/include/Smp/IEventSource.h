// Reconstruction of the ECSS SMP interface header <Smp/IEventSource.h>.
#ifndef SMPREC_IEVENTSOURCE_H
#define SMPREC_IEVENTSOURCE_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class IEventSource : public virtual ::Smp::IObject {
public:
  ~IEventSource() noexcept override = default;
  virtual void Subscribe(::Smp::IEventSink *eventSink) = 0;
  virtual void Unsubscribe(::Smp::IEventSink *eventSink) = 0;
};
} // namespace Smp
namespace Smp { using EventSourceCollection = ::Smp::ICollection<::Smp::IEventSource>; }
#endif
