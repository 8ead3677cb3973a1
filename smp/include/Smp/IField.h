// Reconstruction of the ECSS SMP interface header <Smp/IField.h>.
#ifndef SMPREC_IFIELD_H
#define SMPREC_IFIELD_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IPersist.h>
#include <Smp/ICollection.h>
#include <Smp/ViewKind.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class IField : public virtual ::Smp::IPersist {
public:
  ~IField() noexcept override = default;
  virtual ::Smp::ViewKind GetView() const = 0;
  virtual ::Smp::Bool IsState() const = 0;
  virtual ::Smp::Bool IsInput() const = 0;
  virtual ::Smp::Bool IsOutput() const = 0;
  virtual const ::Smp::Publication::IType *GetType() const = 0;
};
} // namespace Smp
namespace Smp { using FieldCollection = ::Smp::ICollection<::Smp::IField>; }
#endif
