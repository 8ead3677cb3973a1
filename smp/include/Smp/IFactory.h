// Reconstruction of the ECSS SMP interface header <Smp/IFactory.h>.
#ifndef SMPREC_IFACTORY_H
#define SMPREC_IFACTORY_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
#include <Smp/Uuid.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class IFactory : public virtual ::Smp::IObject {
public:
  ~IFactory() noexcept override = default;
  virtual ::Smp::Uuid GetUuid() const = 0;
  virtual ::Smp::String8 GetTypeName() const = 0;
  virtual ::Smp::IComponent *CreateInstance(::Smp::String8 name, ::Smp::String8 description, ::Smp::IComposite *parent) = 0;
  virtual void DeleteInstance(::Smp::IComponent *instance) = 0;
};
} // namespace Smp
namespace Smp { using FactoryCollection = ::Smp::ICollection<::Smp::IFactory>; }
#endif
