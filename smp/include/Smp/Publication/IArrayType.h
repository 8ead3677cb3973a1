// Reconstruction of the ECSS SMP interface header <Smp/Publication/IArrayType.h>.
#ifndef SMPREC_PUBLICATION_IARRAYTYPE_H
#define SMPREC_PUBLICATION_IARRAYTYPE_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/Publication/IType.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp::Publication {
class IArrayType : public virtual ::Smp::Publication::IType {
public:
  ~IArrayType() noexcept override = default;
  virtual ::Smp::UInt64 GetSize() const = 0;
  virtual const ::Smp::Publication::IType *GetItemType() const = 0;
};
} // namespace Smp::Publication
#endif
