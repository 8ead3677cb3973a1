// Reconstruction of the ECSS SMP interface header <Smp/IComponent.h>.
#ifndef SMPREC_ICOMPONENT_H
#define SMPREC_ICOMPONENT_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
#include <Smp/ComponentStateKind.h>
#include <Smp/Uuid.h>
#include <Smp/IField.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class IComponent : public virtual ::Smp::IObject {
public:
  ~IComponent() noexcept override = default;
  virtual ::Smp::ComponentStateKind GetState() const = 0;
  virtual void Publish(::Smp::IPublication *receiver) = 0;
  virtual void Configure(::Smp::Services::ILogger *logger, ::Smp::Services::ILinkRegistry *linkRegistry = nullptr) = 0;
  virtual void Connect(::Smp::ISimulator *simulator) = 0;
  virtual void Disconnect() = 0;
  virtual ::Smp::IField *GetField(::Smp::String8 fullName) const = 0;
  virtual const ::Smp::FieldCollection *GetFields() const = 0;
  virtual const ::Smp::Uuid &GetUuid() const = 0;
};
} // namespace Smp
namespace Smp { using ComponentCollection = ::Smp::ICollection<::Smp::IComponent>; }
#endif
