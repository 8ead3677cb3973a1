// Reconstruction of the ECSS SMP interface header <Smp/IForcibleField.h>.
#ifndef SMPREC_IFORCIBLEFIELD_H
#define SMPREC_IFORCIBLEFIELD_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/ISimpleField.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class IForcibleField : public virtual ::Smp::ISimpleField {
public:
  ~IForcibleField() noexcept override = default;
  virtual void Force(::Smp::AnySimple value) = 0;
  virtual void Unforce() = 0;
  virtual ::Smp::Bool IsForced() = 0;
  virtual void Freeze() = 0;
};
} // namespace Smp
#endif
