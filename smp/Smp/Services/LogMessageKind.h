// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_SERVICES_LOGMESSAGEKIND_H_
#define STANDIN_SMP_SERVICES_LOGMESSAGEKIND_H_
#include <Smp/PrimitiveTypes.h>
namespace Smp { namespace Services { 
using LogMessageKind = ::Smp::Int32;
}}
#endif
