// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_SERVICES_TIMEKIND_H_
#define STANDIN_SMP_SERVICES_TIMEKIND_H_
#include <Smp/PrimitiveTypes.h>
namespace Smp { namespace Services { 
enum class TimeKind : ::Smp::Int32 { TK_SimulationTime, TK_MissionTime, TK_EpochTime, TK_ZuluTime };
std::ostream &operator<<(std::ostream &os, const TimeKind &obj);
}}
#endif
