// Reconstruction of the ECSS SMP interface header <Smp/Publication/ITypeRegistry.h>.
#ifndef SMPREC_PUBLICATION_ITYPEREGISTRY_H
#define SMPREC_PUBLICATION_ITYPEREGISTRY_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/Uuid.h>
#include <Smp/Publication/IType.h>
#include <Smp/Publication/IEnumerationType.h>
#include <Smp/Publication/IArrayType.h>
#include <Smp/Publication/IClassType.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp::Publication {
class ITypeRegistry {
public:
  virtual ~ITypeRegistry() noexcept = default;
  virtual ::Smp::Publication::IType *GetType(::Smp::PrimitiveTypeKind type) const = 0;
  virtual ::Smp::Publication::IType *GetType(::Smp::Uuid typeUuid) const = 0;
  virtual ::Smp::Publication::IType *AddFloatType(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid typeUuid, ::Smp::Float64 minimum, ::Smp::Float64 maximum, ::Smp::Bool minInclusive, ::Smp::Bool maxInclusive, ::Smp::String8 unit, ::Smp::PrimitiveTypeKind type = ::Smp::PrimitiveTypeKind::PTK_Float64) = 0;
  virtual ::Smp::Publication::IType *AddIntegerType(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid typeUuid, ::Smp::Int64 minimum, ::Smp::Int64 maximum, ::Smp::String8 unit, ::Smp::PrimitiveTypeKind type = ::Smp::PrimitiveTypeKind::PTK_Int32) = 0;
  virtual ::Smp::Publication::IEnumerationType *AddEnumerationType(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid typeUuid, ::Smp::Int16 memorySize) = 0;
  virtual ::Smp::Publication::IArrayType *AddArrayType(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid typeUuid, ::Smp::Uuid itemTypeUuid, ::Smp::Int64 itemSize, ::Smp::Int64 arrayCount, ::Smp::Bool simpleArray = false) = 0;
  virtual ::Smp::Publication::IType *AddStringType(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid typeUuid, ::Smp::Int64 length) = 0;
  virtual ::Smp::Publication::IStructureType *AddStructureType(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid typeUuid) = 0;
  virtual ::Smp::Publication::IClassType *AddClassType(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid typeUuid, ::Smp::Uuid baseClassUuid) = 0;
};
} // namespace Smp::Publication
#endif
