// Reconstruction of the ECSS SMP interface header <Smp/Publication/IPublishOperation.h>.
#ifndef SMPREC_PUBLICATION_IPUBLISHOPERATION_H
#define SMPREC_PUBLICATION_IPUBLISHOPERATION_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/Uuid.h>
#include <Smp/Publication/ParameterDirectionKind.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp::Publication {
class IPublishOperation {
public:
  virtual ~IPublishOperation() noexcept = default;
  virtual void PublishParameter(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid typeUuid, ::Smp::Publication::ParameterDirectionKind direction = ::Smp::Publication::ParameterDirectionKind::PDK_In) = 0;
};
} // namespace Smp::Publication
#endif
