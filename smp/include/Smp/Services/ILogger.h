// Reconstruction of the ECSS SMP interface header <Smp/Services/ILogger.h>.
#ifndef SMPREC_SERVICES_ILOGGER_H
#define SMPREC_SERVICES_ILOGGER_H
#include <Smp/PrimitiveTypes.h>
#include <Smp/IService.h>
#include <Smp/Services/LogMessageKind.h>
namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;
namespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }
namespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }
namespace Smp::Services {
class ILogger : public virtual ::Smp::IService {
public:
  ~ILogger() noexcept override = default;
  virtual ::Smp::Services::LogMessageKind QueryLogMessageKind(::Smp::String8 messageKindName) = 0;
  virtual void Log(const ::Smp::IObject *sender, ::Smp::String8 message, ::Smp::Services::LogMessageKind kind = 0) = 0;
  static constexpr ::Smp::String8 SMP_Logger = "Logger";
  static constexpr ::Smp::String8 LMK_InformationName = "Information";
  static constexpr ::Smp::String8 LMK_EventName = "Event";
  static constexpr ::Smp::String8 LMK_WarningName = "Warning";
  static constexpr ::Smp::String8 LMK_ErrorName = "Error";
  static constexpr ::Smp::String8 LMK_DebugName = "Debug";
  static constexpr ::Smp::Services::LogMessageKind LMK_Information = 0;
  static constexpr ::Smp::Services::LogMessageKind LMK_Event = 1;
  static constexpr ::Smp::Services::LogMessageKind LMK_Warning = 2;
  static constexpr ::Smp::Services::LogMessageKind LMK_Error = 3;
  static constexpr ::Smp::Services::LogMessageKind LMK_Debug = 4;
};
} // namespace Smp::Services
#endif
