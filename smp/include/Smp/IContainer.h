// Reconstruction of the ECSS SMP interface header <Smp/IContainer.h>.
#ifndef SMPREC_ICONTAINER_H
#define SMPREC_ICONTAINER_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
#include <Smp/IComponent.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class IContainer : public virtual ::Smp::IObject {
public:
  ~IContainer() noexcept override = default;
  virtual const ::Smp::ComponentCollection *GetComponents() const = 0;
  virtual ::Smp::IComponent *GetComponent(::Smp::String8 name) const = 0;
  virtual void AddComponent(::Smp::IComponent *component) = 0;
  virtual void DeleteComponent(::Smp::IComponent *component) = 0;
  virtual ::Smp::Int64 GetCount() const = 0;
  virtual ::Smp::Int64 GetUpper() const = 0;
  virtual ::Smp::Int64 GetLower() const = 0;
};
} // namespace Smp
namespace Smp { using ContainerCollection = ::Smp::ICollection<::Smp::IContainer>; }
#endif
