// Reconstruction of the ECSS SMP interface header <Smp/IDataflowField.h>.
#ifndef SMPREC_IDATAFLOWFIELD_H
#define SMPREC_IDATAFLOWFIELD_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IField.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class IDataflowField : public virtual ::Smp::IField {
public:
  ~IDataflowField() noexcept override = default;
  virtual void Connect(::Smp::IField *target) = 0;
  virtual void Push() = 0;
};
} // namespace Smp
#endif
