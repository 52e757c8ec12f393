// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_PUBLICATION_IPUBLISHOPERATION_H_
#define STANDIN_SMP_PUBLICATION_IPUBLISHOPERATION_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/Uuid.h>
#include <Smp/Publication/ParameterDirectionKind.h>
namespace Smp { namespace Publication { 
class IPublishOperation {
public:
  virtual ~IPublishOperation() noexcept = default;
  virtual void PublishParameter(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid typeUuid, ::Smp::Publication::ParameterDirectionKind direction = ::Smp::Publication::ParameterDirectionKind::PDK_In) = 0;
};
}}
#endif
