// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_EXCEPTION_H_
#define STANDIN_SMP_EXCEPTION_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/Uuid.h>
#include <exception>
namespace Smp { 
class Exception : public std::exception {
public:
  virtual ~Exception() noexcept = default;
  virtual const ::Smp::Char8 *what() const noexcept = 0;
  virtual ::Smp::String8 GetName() const noexcept = 0;
  virtual ::Smp::String8 GetDescription() const noexcept = 0;
  virtual ::Smp::String8 GetMessage() const noexcept = 0;
  virtual const ::Smp::IObject *GetSender() const noexcept = 0;
};
}
#endif
