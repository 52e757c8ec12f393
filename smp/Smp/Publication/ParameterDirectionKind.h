// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_PUBLICATION_PARAMETERDIRECTIONKIND_H_
#define STANDIN_SMP_PUBLICATION_PARAMETERDIRECTIONKIND_H_
#include <Smp/PrimitiveTypes.h>
namespace Smp { namespace Publication { 
enum class ParameterDirectionKind : ::Smp::Int32 { PDK_In, PDK_Out, PDK_InOut, PDK_Return };
std::ostream &operator<<(std::ostream &os, const ParameterDirectionKind &obj);
}}
#endif
