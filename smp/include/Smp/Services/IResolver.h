// Reconstruction of the ECSS SMP interface header <Smp/Services/IResolver.h>.
#ifndef SMPREC_SERVICES_IRESOLVER_H
#define SMPREC_SERVICES_IRESOLVER_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IService.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp::Services {
class IResolver : public virtual ::Smp::IService {
public:
  ~IResolver() noexcept override = default;
  virtual ::Smp::IObject *ResolveAbsolute(::Smp::String8 absolutePath) = 0;
  virtual ::Smp::IObject *ResolveRelative(::Smp::String8 relativePath, const ::Smp::IComponent *sender) = 0;
  static constexpr ::Smp::String8 SMP_Resolver = "Resolver";
};
} // namespace Smp::Services
#endif
