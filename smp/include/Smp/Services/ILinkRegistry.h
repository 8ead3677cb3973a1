// Reconstruction of the ECSS SMP interface header <Smp/Services/ILinkRegistry.h>.
#ifndef SMPREC_SERVICES_ILINKREGISTRY_H
#define SMPREC_SERVICES_ILINKREGISTRY_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IService.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp::Services {
class ILinkRegistry : public virtual ::Smp::IService {
public:
  ~ILinkRegistry() noexcept override = default;
  virtual void AddLink(::Smp::IComponent *source, const ::Smp::IComponent *target) = 0;
  virtual ::Smp::UInt32 GetLinkCount(const ::Smp::IComponent *source, const ::Smp::IComponent *target) const = 0;
  virtual ::Smp::Bool RemoveLink(::Smp::IComponent *source, const ::Smp::IComponent *target) = 0;
  virtual const ::Smp::ComponentCollection *GetLinkSources(const ::Smp::IComponent *target) const = 0;
  virtual ::Smp::Bool CanRemove(const ::Smp::IComponent *target) = 0;
  virtual void RemoveLinks(const ::Smp::IComponent *target) = 0;
  static constexpr ::Smp::String8 SMP_LinkRegistry = "LinkRegistry";
};
} // namespace Smp::Services
#endif
