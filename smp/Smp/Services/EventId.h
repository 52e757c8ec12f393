// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_SERVICES_EVENTID_H_
#define STANDIN_SMP_SERVICES_EVENTID_H_
#include <Smp/PrimitiveTypes.h>
namespace Smp { namespace Services { 
using EventId = ::Smp::Int64;
}}
#endif
