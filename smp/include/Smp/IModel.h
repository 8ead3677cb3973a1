// Reconstruction of the ECSS SMP interface header <Smp/IModel.h>.
#ifndef SMPREC_IMODEL_H
#define SMPREC_IMODEL_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IComponent.h>
#include <Smp/ICollection.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class IModel : public virtual ::Smp::IComponent {
public:
  ~IModel() noexcept override = default;
};
} // namespace Smp
namespace Smp { using ModelCollection = ::Smp::ICollection<::Smp::IModel>; }
#endif
