// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_PUBLICATION_ITYPEREGISTRY_H_
#define STANDIN_SMP_PUBLICATION_ITYPEREGISTRY_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/Publication/IArrayType.h>
#include <Smp/Publication/IClassType.h>
#include <Smp/Publication/IEnumerationType.h>
#include <Smp/Publication/IStructureType.h>
namespace Smp { namespace Publication { 
class ITypeRegistry {
public:
  virtual ~ITypeRegistry() noexcept = default;
  virtual ::Smp::Publication::IType *GetType(::Smp::PrimitiveTypeKind type) const = 0;
  virtual ::Smp::Publication::IType *GetType(::Smp::Uuid typeUuid) const = 0;
  virtual ::Smp::Publication::IType *AddFloatType(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid typeUuid, ::Smp::Float64 minimum, ::Smp::Float64 maximum, ::Smp::Bool minInclusive, ::Smp::Bool maxInclusive, ::Smp::String8 unit, ::Smp::PrimitiveTypeKind type = ::Smp::PrimitiveTypeKind::PTK_Float64) = 0;
  virtual ::Smp::Publication::IType *AddIntegerType(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid typeUuid, ::Smp::Int64 minimum, ::Smp::Int64 maximum, ::Smp::String8 unit, ::Smp::PrimitiveTypeKind type = ::Smp::PrimitiveTypeKind::PTK_Int32) = 0;
  virtual ::Smp::Publication::IEnumerationType *AddEnumerationType(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid typeUuid, ::Smp::Int16 memorySize) = 0;
  virtual ::Smp::Publication::IArrayType *AddArrayType(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid typeUuid, ::Smp::Uuid itemTypeUuid, ::Smp::Int64 itemSize, ::Smp::Int64 arrayCount, ::Smp::Bool simpleArray = false) = 0;
  virtual ::Smp::Publication::IType *AddStringType(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid typeUuid, ::Smp::Int64 length) = 0;
  virtual ::Smp::Publication::IStructureType *AddStructureType(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid typeUuid) = 0;
  virtual ::Smp::Publication::IClassType *AddClassType(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid typeUuid, ::Smp::Uuid baseClassUuid) = 0;
};
}}
#endif
