// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_COMPONENTSTATEKIND_H_
#define STANDIN_SMP_COMPONENTSTATEKIND_H_
#include <Smp/PrimitiveTypes.h>
namespace Smp { 
enum class ComponentStateKind : ::Smp::Int32 { CSK_Created, CSK_Publishing, CSK_Configured, CSK_Connected, CSK_Disconnected };
std::ostream &operator<<(std::ostream &os, const ComponentStateKind &obj);
}
#endif
