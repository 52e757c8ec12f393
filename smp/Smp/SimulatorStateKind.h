// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_SIMULATORSTATEKIND_H_
#define STANDIN_SMP_SIMULATORSTATEKIND_H_
#include <Smp/PrimitiveTypes.h>
namespace Smp { 
enum class SimulatorStateKind : ::Smp::Int32 { SSK_Building, SSK_Connecting, SSK_Initialising, SSK_Standby, SSK_Executing, SSK_Storing, SSK_Restoring, SSK_Reconnecting, SSK_Exiting, SSK_Aborting };
std::ostream &operator<<(std::ostream &os, const SimulatorStateKind &obj);
}
#endif
