// Reconstruction of the ECSS SMP interface header <Smp/IStorageReader.h>.
#ifndef SMPREC_ISTORAGEREADER_H
#define SMPREC_ISTORAGEREADER_H
#include <Smp/PrimitiveTypes.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class IStorageReader {
public:
  virtual ~IStorageReader() noexcept = default;
  virtual void Restore(void *address, ::Smp::UInt64 size) = 0;
  virtual ::Smp::String8 GetStateVectorFileName() const = 0;
  virtual ::Smp::String8 GetStateVectorFilePath() const = 0;
};
} // namespace Smp
#endif
