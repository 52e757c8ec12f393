// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_UUID_H_
#define STANDIN_SMP_UUID_H_
#include <Smp/PrimitiveTypes.h>
#include <array>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iosfwd>
namespace Smp {
struct Uuid {
  std::uint32_t Data1{};
  std::array<std::uint16_t, 3> Data2{};
  std::array<std::uint8_t, 6> Data3{};
  constexpr Uuid() = default;
  constexpr Uuid(std::uint32_t d1, std::uint16_t d2, std::uint16_t d3, std::uint16_t d4, std::uint64_t d5)
      : Data1{d1}, Data2{d2, d3, d4},
        Data3{static_cast<std::uint8_t>((d5 >> 40U) & 0xFF), static_cast<std::uint8_t>((d5 >> 32U) & 0xFF),
              static_cast<std::uint8_t>((d5 >> 24U) & 0xFF), static_cast<std::uint8_t>((d5 >> 16U) & 0xFF),
              static_cast<std::uint8_t>((d5 >> 8U) & 0xFF), static_cast<std::uint8_t>(d5 & 0xFF)} {}
  constexpr Uuid(std::uint32_t d1, std::array<std::uint16_t, 3> d2, std::array<std::uint8_t, 6> d3)
      : Data1{d1}, Data2{d2}, Data3{d3} {}
  explicit Uuid(const char *value);
  bool operator<(const Uuid &other) const;
  bool operator==(const Uuid &other) const;
  bool operator!=(const Uuid &other) const;
};
std::ostream &operator<<(std::ostream &os, const Uuid &uuid);
namespace Uuids {
#define STANDIN_UUID(n, i) constexpr ::Smp::Uuid Uuid_##n{0x53ed1000U + i, 0x1ca1, 0x11dc, 0xa0f7, 0x0002b3ULL}
STANDIN_UUID(Void, 0);
STANDIN_UUID(Uuid, 1);
STANDIN_UUID(Char8, 2);
STANDIN_UUID(Bool, 3);
STANDIN_UUID(Int8, 4);
STANDIN_UUID(UInt8, 5);
STANDIN_UUID(Int16, 6);
STANDIN_UUID(UInt16, 7);
STANDIN_UUID(Int32, 8);
STANDIN_UUID(UInt32, 9);
STANDIN_UUID(Int64, 10);
STANDIN_UUID(UInt64, 11);
STANDIN_UUID(Float32, 12);
STANDIN_UUID(Float64, 13);
STANDIN_UUID(Duration, 14);
STANDIN_UUID(DateTime, 15);
STANDIN_UUID(String8, 16);
STANDIN_UUID(PrimitiveTypeKind, 17);
STANDIN_UUID(EventId, 18);
STANDIN_UUID(LogMessageKind, 19);
STANDIN_UUID(AccessKind, 20);
STANDIN_UUID(ComponentStateKind, 21);
STANDIN_UUID(ParameterDirectionKind, 22);
STANDIN_UUID(SimulatorStateKind, 23);
STANDIN_UUID(TimeKind, 24);
STANDIN_UUID(ViewKind, 25);
#undef STANDIN_UUID
} // namespace Uuids
} // namespace Smp
template <> struct std::hash<::Smp::Uuid> { std::size_t operator()(const ::Smp::Uuid &uuid) const; };
#endif
