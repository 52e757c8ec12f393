// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_SERVICES_ITIMEKEEPER_H_
#define STANDIN_SMP_SERVICES_ITIMEKEEPER_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IService.h>
namespace Smp { namespace Services { 
class ITimeKeeper : public virtual Smp::IService {
public:
  virtual ~ITimeKeeper() noexcept = default;
  static constexpr ::Smp::String8 SMP_TimeKeeper = "TimeKeeper";
  virtual ::Smp::Duration GetSimulationTime() const = 0;
  virtual ::Smp::DateTime GetEpochTime() const = 0;
  virtual ::Smp::DateTime GetMissionStartTime() const = 0;
  virtual ::Smp::Duration GetMissionTime() const = 0;
  virtual ::Smp::DateTime GetZuluTime() const = 0;
  virtual void SetSimulationTime(::Smp::Duration simulationTime) = 0;
  virtual void SetEpochTime(::Smp::DateTime epochTime) = 0;
  virtual void SetMissionStartTime(::Smp::DateTime missionStart) = 0;
  virtual void SetMissionTime(::Smp::Duration missionTime) = 0;
};
}}
#endif
