// Reconstruction of the ECSS SMP interface header <Smp/ISimulator.h>.
#ifndef SMPREC_ISIMULATOR_H
#define SMPREC_ISIMULATOR_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IComposite.h>
#include <Smp/SimulatorStateKind.h>
#include <Smp/Uuid.h>
#include <Smp/IComposite.h>
#include <Smp/IFactory.h>
#include <Smp/IModel.h>
#include <Smp/IService.h>
#include <Smp/Services/ILogger.h>
#include <Smp/Services/ITimeKeeper.h>
#include <Smp/Services/IScheduler.h>
#include <Smp/Services/IEventManager.h>
#include <Smp/Services/IResolver.h>
#include <Smp/Services/ILinkRegistry.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp {
class ISimulator : public virtual ::Smp::IComposite {
public:
  ~ISimulator() noexcept override = default;
  virtual void Initialise() = 0;
  virtual void Publish() = 0;
  virtual void Configure() = 0;
  virtual void Connect() = 0;
  virtual void Run() = 0;
  virtual void Hold(::Smp::Bool immediate) = 0;
  virtual void Store(::Smp::String8 filename) = 0;
  virtual void Restore(::Smp::String8 filename) = 0;
  virtual void Reconnect(::Smp::IComponent *root) = 0;
  virtual void Exit() = 0;
  virtual void Abort() = 0;
  virtual ::Smp::SimulatorStateKind GetState() const = 0;
  virtual void AddInitEntryPoint(::Smp::IEntryPoint *entryPoint) = 0;
  virtual void AddModel(::Smp::IModel *model) = 0;
  virtual void AddService(::Smp::IService *service) = 0;
  virtual ::Smp::IService *GetService(::Smp::String8 name) const = 0;
  virtual ::Smp::Services::ILogger *GetLogger() const = 0;
  virtual ::Smp::Services::ITimeKeeper *GetTimeKeeper() const = 0;
  virtual ::Smp::Services::IScheduler *GetScheduler() const = 0;
  virtual ::Smp::Services::IEventManager *GetEventManager() const = 0;
  virtual ::Smp::Services::IResolver *GetResolver() const = 0;
  virtual ::Smp::Services::ILinkRegistry *GetLinkRegistry() const = 0;
  virtual void RegisterFactory(::Smp::IFactory *componentFactory) = 0;
  virtual ::Smp::IComponent *CreateInstance(::Smp::Uuid uuid, ::Smp::String8 name, ::Smp::String8 description, ::Smp::IComposite *parent) = 0;
  virtual ::Smp::IFactory *GetFactory(::Smp::Uuid uuid) const = 0;
  virtual const ::Smp::FactoryCollection *GetFactories() const = 0;
  virtual ::Smp::Publication::ITypeRegistry *GetTypeRegistry() const = 0;
  virtual void LoadLibrary(::Smp::String8 libraryPath) = 0;
  static constexpr ::Smp::String8 SMP_SimulatorServices = "Services";
  static constexpr ::Smp::String8 SMP_SimulatorModels = "Models";
};
} // namespace Smp
#endif
