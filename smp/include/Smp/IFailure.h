// Reconstruction of the ECSS SMP interface header <Smp/IFailure.h>.
#ifndef SMPREC_IFAILURE_H
#define SMPREC_IFAILURE_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IPersist.h>
#include <Smp/ICollection.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class IFailure : public virtual ::Smp::IPersist {
public:
  ~IFailure() noexcept override = default;
  virtual void Fail() = 0;
  virtual void Unfail() = 0;
  virtual ::Smp::Bool IsFailed() const = 0;
};
} // namespace Smp
namespace Smp { using FailureCollection = ::Smp::ICollection<::Smp::IFailure>; }
#endif
