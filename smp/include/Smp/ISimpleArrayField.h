// Reconstruction of the ECSS SMP interface header <Smp/ISimpleArrayField.h>.
#ifndef SMPREC_ISIMPLEARRAYFIELD_H
#define SMPREC_ISIMPLEARRAYFIELD_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IField.h>
#include <Smp/AnySimpleArray.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class ISimpleArrayField : public virtual ::Smp::IField {
public:
  ~ISimpleArrayField() noexcept override = default;
  virtual ::Smp::UInt64 GetSize() const = 0;
  virtual ::Smp::AnySimple GetValue(::Smp::UInt64 index) const = 0;
  virtual void SetValue(::Smp::UInt64 index, ::Smp::AnySimple value) = 0;
  virtual void GetValues(::Smp::UInt64 length, ::Smp::AnySimpleArray values) const = 0;
  virtual void SetValues(::Smp::UInt64 length, ::Smp::AnySimpleArray values) = 0;
};
} // namespace Smp
#endif
