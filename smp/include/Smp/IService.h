// Reconstruction of the ECSS SMP interface header <Smp/IService.h>.
#ifndef SMPREC_ISERVICE_H
#define SMPREC_ISERVICE_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IComponent.h>
#include <Smp/ICollection.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class IService : public virtual ::Smp::IComponent {
public:
  ~IService() noexcept override = default;
};
} // namespace Smp
namespace Smp { using ServiceCollection = ::Smp::ICollection<::Smp::IService>; }
#endif
