// Reconstruction of the ECSS SMP interface header <Smp/IProperty.h>.
#ifndef SMPREC_IPROPERTY_H
#define SMPREC_IPROPERTY_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
#include <Smp/ViewKind.h>
#include <Smp/AccessKind.h>
#include <Smp/AnySimple.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class IProperty : public virtual ::Smp::IObject {
public:
  ~IProperty() noexcept override = default;
  virtual ::Smp::Publication::IType *GetType() const = 0;
  virtual ::Smp::AccessKind GetAccess() const = 0;
  virtual ::Smp::ViewKind GetView() const = 0;
  virtual ::Smp::AnySimple GetValue() const = 0;
  virtual void SetValue(::Smp::AnySimple value) = 0;
};
} // namespace Smp
namespace Smp { using PropertyCollection = ::Smp::ICollection<::Smp::IProperty>; }
#endif
