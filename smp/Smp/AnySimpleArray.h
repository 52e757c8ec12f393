// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_ANYSIMPLEARRAY_H_
#define STANDIN_SMP_ANYSIMPLEARRAY_H_
#include <Smp/AnySimple.h>
namespace Smp { 
using AnySimpleArray = AnySimple *;
}
#endif
