// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_PUBLICATION_ICLASSTYPE_H_
#define STANDIN_SMP_PUBLICATION_ICLASSTYPE_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/Publication/IStructureType.h>
namespace Smp { namespace Publication { 
class IClassType : public virtual Smp::Publication::IStructureType {
public:
  virtual ~IClassType() noexcept = default;
};
}}
#endif
