// Reconstruction of the ECSS SMP interface header <Smp/Publication/IClassType.h>.
#ifndef SMPREC_PUBLICATION_ICLASSTYPE_H
#define SMPREC_PUBLICATION_ICLASSTYPE_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/Publication/IStructureType.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp::Publication {
class IClassType : public virtual ::Smp::Publication::IStructureType {
public:
  ~IClassType() noexcept override = default;
};
} // namespace Smp::Publication
#endif
