// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_PRIMITIVETYPES_H_
#define STANDIN_SMP_PRIMITIVETYPES_H_
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <exception>
#include <functional>
#include <iterator>
#include <memory>
#include <ostream>
#include <string>
#include <vector>
namespace Smp {
using Char8 = char; using String8 = const char *; using Bool = bool;
using Int8 = std::int8_t; using UInt8 = std::uint8_t; using Int16 = std::int16_t; using UInt16 = std::uint16_t;
using Int32 = std::int32_t; using UInt32 = std::uint32_t; using Int64 = std::int64_t; using UInt64 = std::uint64_t;
using Float32 = float; using Float64 = double;
using Duration = Int64; using DateTime = Int64;
enum class PrimitiveTypeKind : Int32 { PTK_None, PTK_Char8, PTK_Bool, PTK_Int8, PTK_UInt8, PTK_Int16, PTK_UInt16,
  PTK_Int32, PTK_UInt32, PTK_Int64, PTK_UInt64, PTK_Float32, PTK_Float64, PTK_Duration, PTK_DateTime, PTK_String8 };
std::ostream &operator<<(std::ostream &os, const PrimitiveTypeKind &obj);
}
#endif
