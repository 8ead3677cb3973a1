// Reconstruction of the ECSS SMP interface header <Smp/ISimpleField.h>.
#ifndef SMPREC_ISIMPLEFIELD_H
#define SMPREC_ISIMPLEFIELD_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IField.h>
#include <Smp/AnySimple.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class ISimpleField : public virtual ::Smp::IField {
public:
  ~ISimpleField() noexcept override = default;
  virtual ::Smp::PrimitiveTypeKind GetPrimitiveTypeKind() const = 0;
  virtual ::Smp::AnySimple GetValue() const = 0;
  virtual void SetValue(::Smp::AnySimple value) = 0;
};
} // namespace Smp
#endif
