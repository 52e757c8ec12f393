// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_SERVICES_IEVENTMANAGER_H_
#define STANDIN_SMP_SERVICES_IEVENTMANAGER_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IService.h>
#include <Smp/IEntryPoint.h>
#include <Smp/Services/EventId.h>
namespace Smp { namespace Services { 
class IEventManager : public virtual Smp::IService {
public:
  virtual ~IEventManager() noexcept = default;
  static constexpr ::Smp::String8 SMP_EventManager = "EventManager";
  static constexpr ::Smp::String8 SMP_LeaveConnecting = "SMP_LeaveConnecting";
  static constexpr ::Smp::Services::EventId SMP_LeaveConnectingId = 1;
  static constexpr ::Smp::String8 SMP_EnterInitialising = "SMP_EnterInitialising";
  static constexpr ::Smp::Services::EventId SMP_EnterInitialisingId = 2;
  static constexpr ::Smp::String8 SMP_LeaveInitialising = "SMP_LeaveInitialising";
  static constexpr ::Smp::Services::EventId SMP_LeaveInitialisingId = 3;
  static constexpr ::Smp::String8 SMP_EnterStandby = "SMP_EnterStandby";
  static constexpr ::Smp::Services::EventId SMP_EnterStandbyId = 4;
  static constexpr ::Smp::String8 SMP_LeaveStandby = "SMP_LeaveStandby";
  static constexpr ::Smp::Services::EventId SMP_LeaveStandbyId = 5;
  static constexpr ::Smp::String8 SMP_EnterExecuting = "SMP_EnterExecuting";
  static constexpr ::Smp::Services::EventId SMP_EnterExecutingId = 6;
  static constexpr ::Smp::String8 SMP_LeaveExecuting = "SMP_LeaveExecuting";
  static constexpr ::Smp::Services::EventId SMP_LeaveExecutingId = 7;
  static constexpr ::Smp::String8 SMP_EnterStoring = "SMP_EnterStoring";
  static constexpr ::Smp::Services::EventId SMP_EnterStoringId = 8;
  static constexpr ::Smp::String8 SMP_LeaveStoring = "SMP_LeaveStoring";
  static constexpr ::Smp::Services::EventId SMP_LeaveStoringId = 9;
  static constexpr ::Smp::String8 SMP_EnterRestoring = "SMP_EnterRestoring";
  static constexpr ::Smp::Services::EventId SMP_EnterRestoringId = 10;
  static constexpr ::Smp::String8 SMP_LeaveRestoring = "SMP_LeaveRestoring";
  static constexpr ::Smp::Services::EventId SMP_LeaveRestoringId = 11;
  static constexpr ::Smp::String8 SMP_EnterExiting = "SMP_EnterExiting";
  static constexpr ::Smp::Services::EventId SMP_EnterExitingId = 12;
  static constexpr ::Smp::String8 SMP_EnterAborting = "SMP_EnterAborting";
  static constexpr ::Smp::Services::EventId SMP_EnterAbortingId = 13;
  static constexpr ::Smp::String8 SMP_EpochTimeChanged = "SMP_EpochTimeChanged";
  static constexpr ::Smp::Services::EventId SMP_EpochTimeChangedId = 14;
  static constexpr ::Smp::String8 SMP_MissionTimeChanged = "SMP_MissionTimeChanged";
  static constexpr ::Smp::Services::EventId SMP_MissionTimeChangedId = 15;
  static constexpr ::Smp::String8 SMP_EnterReconnecting = "SMP_EnterReconnecting";
  static constexpr ::Smp::Services::EventId SMP_EnterReconnectingId = 16;
  static constexpr ::Smp::String8 SMP_LeaveReconnecting = "SMP_LeaveReconnecting";
  static constexpr ::Smp::Services::EventId SMP_LeaveReconnectingId = 17;
  static constexpr ::Smp::String8 SMP_PreSimTimeChange = "SMP_PreSimTimeChange";
  static constexpr ::Smp::Services::EventId SMP_PreSimTimeChangeId = 18;
  static constexpr ::Smp::String8 SMP_PostSimTimeChange = "SMP_PostSimTimeChange";
  static constexpr ::Smp::Services::EventId SMP_PostSimTimeChangeId = 19;
  virtual ::Smp::Services::EventId QueryEventId(::Smp::String8 eventName) = 0;
  virtual void Subscribe(::Smp::Services::EventId event, const ::Smp::IEntryPoint *entryPoint) = 0;
  virtual void Unsubscribe(::Smp::Services::EventId event, const ::Smp::IEntryPoint *entryPoint) = 0;
  virtual void Emit(::Smp::Services::EventId event, ::Smp::Bool synchronous = true) = 0;
};
}}
#endif
