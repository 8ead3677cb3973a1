// Reconstruction of the ECSS SMP interface header <Smp/Services/ITimeKeeper.h>.
#ifndef SMPREC_SERVICES_ITIMEKEEPER_H
#define SMPREC_SERVICES_ITIMEKEEPER_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IService.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp::Services {
class ITimeKeeper : public virtual ::Smp::IService {
public:
  ~ITimeKeeper() noexcept override = default;
  virtual ::Smp::Duration GetSimulationTime() const = 0;
  virtual ::Smp::DateTime GetEpochTime() const = 0;
  virtual ::Smp::DateTime GetMissionStartTime() const = 0;
  virtual ::Smp::Duration GetMissionTime() const = 0;
  virtual ::Smp::DateTime GetZuluTime() const = 0;
  virtual void SetSimulationTime(::Smp::Duration simulationTime) = 0;
  virtual void SetEpochTime(::Smp::DateTime epochTime) = 0;
  virtual void SetMissionStartTime(::Smp::DateTime missionStart) = 0;
  virtual void SetMissionTime(::Smp::Duration missionTime) = 0;
  static constexpr ::Smp::String8 SMP_TimeKeeper = "TimeKeeper";
};
} // namespace Smp::Services
#endif
