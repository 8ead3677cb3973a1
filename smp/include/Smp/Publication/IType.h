// Reconstruction of the ECSS SMP interface header <Smp/Publication/IType.h>.
#ifndef SMPREC_PUBLICATION_ITYPE_H
#define SMPREC_PUBLICATION_ITYPE_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/Uuid.h>
#include <Smp/ViewKind.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp::Publication {
class IType : public virtual ::Smp::IObject {
public:
  ~IType() noexcept override = default;
  virtual ::Smp::PrimitiveTypeKind GetPrimitiveTypeKind() const = 0;
  virtual ::Smp::Uuid GetUuid() const = 0;
  virtual void Publish(::Smp::IPublication *receiver, ::Smp::String8 name, ::Smp::String8 description, void *address, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false) = 0;
};
} // namespace Smp::Publication
#endif
