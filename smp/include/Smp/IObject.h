// Reconstruction of the ECSS SMP interface header <Smp/IObject.h>.
#ifndef SMPREC_IOBJECT_H
#define SMPREC_IOBJECT_H
#include <Smp/PrimitiveTypes.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class IObject {
public:
  virtual ~IObject() noexcept = default;
  virtual ::Smp::String8 GetName() const = 0;
  virtual ::Smp::String8 GetDescription() const = 0;
  virtual ::Smp::IObject *GetParent() const = 0;
};
} // namespace Smp
#endif
