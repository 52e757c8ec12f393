// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IPUBLICATION_H_
#define STANDIN_SMP_IPUBLICATION_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/AccessKind.h>
#include <Smp/IField.h>
#include <Smp/IOperation.h>
#include <Smp/IProperty.h>
#include <Smp/Uuid.h>
#include <Smp/Publication/IPublishOperation.h>
#include <Smp/ViewKind.h>
namespace Smp { namespace Publication { class ITypeRegistry; } }
namespace Smp { 
class IPublication {
public:
  virtual ~IPublication() noexcept = default;
  virtual ::Smp::Publication::ITypeRegistry *GetTypeRegistry() const = 0;
  virtual void PublishField(::Smp::String8 name, ::Smp::String8 description, ::Smp::Char8 *address, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false) = 0;
  virtual void PublishField(::Smp::String8 name, ::Smp::String8 description, ::Smp::Bool *address, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false) = 0;
  virtual void PublishField(::Smp::String8 name, ::Smp::String8 description, ::Smp::Int8 *address, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false) = 0;
  virtual void PublishField(::Smp::String8 name, ::Smp::String8 description, ::Smp::Int16 *address, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false) = 0;
  virtual void PublishField(::Smp::String8 name, ::Smp::String8 description, ::Smp::Int32 *address, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false) = 0;
  virtual void PublishField(::Smp::String8 name, ::Smp::String8 description, ::Smp::Int64 *address, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false) = 0;
  virtual void PublishField(::Smp::String8 name, ::Smp::String8 description, ::Smp::UInt8 *address, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false) = 0;
  virtual void PublishField(::Smp::String8 name, ::Smp::String8 description, ::Smp::UInt16 *address, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false) = 0;
  virtual void PublishField(::Smp::String8 name, ::Smp::String8 description, ::Smp::UInt32 *address, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false) = 0;
  virtual void PublishField(::Smp::String8 name, ::Smp::String8 description, ::Smp::UInt64 *address, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false) = 0;
  virtual void PublishField(::Smp::String8 name, ::Smp::String8 description, ::Smp::Float32 *address, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false) = 0;
  virtual void PublishField(::Smp::String8 name, ::Smp::String8 description, ::Smp::Float64 *address, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false) = 0;
  virtual void PublishField(::Smp::String8 name, ::Smp::String8 description, void *address, ::Smp::Uuid typeUuid, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false) = 0;
  virtual void PublishField(::Smp::IField *field) = 0;
  virtual void PublishArray(::Smp::String8 name, ::Smp::String8 description, ::Smp::Int64 count, void *address, ::Smp::PrimitiveTypeKind type, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false) = 0;
  virtual ::Smp::IPublication *PublishArray(::Smp::String8 name, ::Smp::String8 description, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true) = 0;
  virtual ::Smp::IPublication *PublishStructure(::Smp::String8 name, ::Smp::String8 description, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true) = 0;
  virtual ::Smp::Publication::IPublishOperation *PublishOperation(::Smp::String8 name, ::Smp::String8 description, ::Smp::ViewKind view = ::Smp::ViewKind::VK_None) = 0;
  virtual void PublishProperty(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid typeUuid, ::Smp::AccessKind accessKind, ::Smp::ViewKind view = ::Smp::ViewKind::VK_None) = 0;
  virtual ::Smp::IField *GetField(::Smp::String8 fullName) const = 0;
  virtual const ::Smp::FieldCollection *GetFields() const = 0;
  virtual const ::Smp::PropertyCollection *GetProperties() const = 0;
  virtual const ::Smp::OperationCollection *GetOperations() const = 0;
  virtual ::Smp::IRequest *CreateRequest(::Smp::String8 operationName) = 0;
  virtual void DeleteRequest(::Smp::IRequest *request) = 0;
  virtual void Unpublish() = 0;
};
}
#endif
