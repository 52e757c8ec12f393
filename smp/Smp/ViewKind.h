// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_VIEWKIND_H_
#define STANDIN_SMP_VIEWKIND_H_
#include <Smp/PrimitiveTypes.h>
namespace Smp { 
enum class ViewKind : ::Smp::Int32 { VK_None, VK_Debug, VK_Expert, VK_All };
std::ostream &operator<<(std::ostream &os, const ViewKind &obj);
}
#endif
