// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_ACCESSKIND_H_
#define STANDIN_SMP_ACCESSKIND_H_
#include <Smp/PrimitiveTypes.h>
namespace Smp { 
enum class AccessKind : ::Smp::Int32 { AK_ReadWrite, AK_ReadOnly, AK_WriteOnly };
std::ostream &operator<<(std::ostream &os, const AccessKind &obj);
}
#endif
