// Reference semantics of AnySimple conversions: exact integers (__int128) and long double, no code from the library.
#pragma once
#include <Smp/AnySimple.h>
#include <Smp/InvalidAnyType.h>
#include <Smp/PrimitiveTypes.h>
#include <cfloat>
#include <cmath>
#include <limits>
#include <optional>
#include <string>
#include <vector>
namespace anym {
using K = Smp::PrimitiveTypeKind;
inline const std::vector<K> &kinds() {
  static const std::vector<K> k{K::PTK_None, K::PTK_Char8, K::PTK_Bool, K::PTK_Int8, K::PTK_UInt8, K::PTK_Int16, K::PTK_UInt16, K::PTK_Int32, K::PTK_UInt32, K::PTK_Int64, K::PTK_UInt64, K::PTK_Float32, K::PTK_Float64, K::PTK_Duration, K::PTK_DateTime, K::PTK_String8};
  return k;
}
enum class C { None, Bool, Char, Int, Float, Str };
using I = __int128;
struct V { // a value with the class of the C++ type that carries it
  C c = C::None; I i = 0; double f = 0; std::optional<std::string> s; // Bool/Char/Int use i
};
inline C classOf(K k) {
  switch (k) {
  case K::PTK_None: return C::None; case K::PTK_Char8: return C::Char; case K::PTK_Bool: return C::Bool; case K::PTK_String8: return C::Str;
  case K::PTK_Float32: case K::PTK_Float64: return C::Float; default: return C::Int;
  }
}
inline void range(K k, I &lo, I &hi) {
  int bits = 64; bool sg = true;
  switch (k) {
  case K::PTK_Int8: bits = 8; break; case K::PTK_UInt8: bits = 8; sg = false; break;
  case K::PTK_Int16: bits = 16; break; case K::PTK_UInt16: bits = 16; sg = false; break;
  case K::PTK_Int32: bits = 32; break; case K::PTK_UInt32: bits = 32; sg = false; break;
  case K::PTK_UInt64: sg = false; break; default: break;
  }
  if (sg) { lo = -(static_cast<I>(1) << (bits - 1)); hi = (static_cast<I>(1) << (bits - 1)) - 1; } else { lo = 0; hi = (static_cast<I>(1) << bits) - 1; }
}
inline bool exactInt(I i, int mant) { // |i| has at most `mant` significant bits
  if (i < 0) i = -i;
  if (i == 0) return true;
  while ((i & 1) == 0) i >>= 1;
  return i < (static_cast<I>(1) << mant);
}
inline int mant(K k) { return k == K::PTK_Float32 ? 24 : 53; }
inline float toF32(double d) { if (std::isnan(d)) return NAN; if (d > FLT_MAX && std::isfinite(d)) { return d >= 0x1.ffffffp127 ? INFINITY : FLT_MAX; } if (d < -FLT_MAX && std::isfinite(d)) return -toF32(-d); return static_cast<float>(d); }
/// Conversion of a value to kind k; false when the documented exception is expected. `reading`: conversion operator, else SetValue.
inline bool convert(const V &v, K k, bool reading, V &out) {
  out = V{}; out.c = classOf(k);
  if (k == K::PTK_None) return false;
  switch (out.c) {
  case C::Bool:
    if (!reading) { if (v.c != C::Bool) return false; out.i = v.i; return true; }
    if (v.c == C::None || v.c == C::Float) return false;
    out.i = v.c == C::Str ? v.s.has_value() : v.i != 0; return true;
  case C::Char: if (v.c != C::Char) return false; out.i = v.i; return true;
  case C::Str: if (v.c != C::Str) return false; out.s = v.s; return true;
  case C::Int: { if (v.c != C::Int) return false; I lo, hi; range(k, lo, hi); if (v.i < lo || v.i > hi) return false; out.i = v.i; return true; }
  case C::Float:
    if (v.c == C::Int) { if (!exactInt(v.i, mant(k))) return false; out.f = static_cast<double>(v.i); return true; }
    if (v.c != C::Float) return false;
    if (k == K::PTK_Float64) { out.f = v.f; return true; }
    { float r = toF32(v.f); double d = static_cast<double>(r);
      if (!std::isnan(v.f) && !std::isinf(v.f) && !(std::fabs(v.f - d) <= DBL_EPSILON)) return false;
      out.f = d; return true; }
  default: return false;
  }
}
inline bool same(const V &a, const V &b) {
  if (a.c != b.c) return false;
  if (a.c == C::Float) return (std::isnan(a.f) && std::isnan(b.f)) || (a.f == b.f && std::signbit(a.f) == std::signbit(b.f));
  if (a.c == C::Str) return a.s == b.s;
  return a.i == b.i;
}
inline std::string istr(I i) { if (i < 0) return "-" + istr(-i); if (i < 10) return std::string(1, static_cast<char>('0' + static_cast<int>(i))); return istr(i / 10) + std::string(1, static_cast<char>('0' + static_cast<int>(i % 10))); }
inline std::string show(const V &v) {
  if (v.c == C::None) return "none";
  if (v.c == C::Str) return v.s ? "\"" + *v.s + "\"" : "null";
  if (v.c == C::Float) { char b[64]; std::snprintf(b, 64, "%a", v.f); return b; }
  return istr(v.i);
}
inline const char *name(K k) { static const char *const n[] = {"None", "Char8", "Bool", "Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float32", "Float64", "Duration", "DateTime", "String8"}; for (size_t i = 0; i < kinds().size(); ++i) if (kinds()[i] == k) return n[i]; return "?"; }
/// Raw content, read through the public union, without the conversion operators.
inline V raw(const Smp::AnySimple &a) {
  V v; v.c = classOf(a.type);
  switch (a.type) {
  case K::PTK_Bool: v.i = a.value.boolValue; break; case K::PTK_Char8: v.i = a.value.char8Value; break;
  case K::PTK_Int8: v.i = a.value.int8Value; break; case K::PTK_UInt8: v.i = a.value.uInt8Value; break;
  case K::PTK_Int16: v.i = a.value.int16Value; break; case K::PTK_UInt16: v.i = a.value.uInt16Value; break;
  case K::PTK_Int32: v.i = a.value.int32Value; break; case K::PTK_UInt32: v.i = a.value.uInt32Value; break;
  case K::PTK_Int64: v.i = a.value.int64Value; break; case K::PTK_UInt64: v.i = static_cast<I>(a.value.uInt64Value); break;
  case K::PTK_Duration: v.i = a.value.durationValue; break; case K::PTK_DateTime: v.i = a.value.dateTimeValue; break;
  case K::PTK_Float32: v.f = static_cast<double>(a.value.float32Value); break; case K::PTK_Float64: v.f = a.value.float64Value; break;
  case K::PTK_String8: if (a.value.string8Value) v.s = a.value.string8Value; break;
  default: break;
  }
  return v;
}
/// C++ argument types of SetValue / conversion operators
constexpr int NT = 13;
inline K typeKind(int t) { static const K k[] = {K::PTK_Bool, K::PTK_Char8, K::PTK_String8, K::PTK_UInt8, K::PTK_UInt16, K::PTK_UInt32, K::PTK_UInt64, K::PTK_Int8, K::PTK_Int16, K::PTK_Int32, K::PTK_Int64, K::PTK_Float32, K::PTK_Float64}; return k[t]; }
inline void set(Smp::AnySimple &a, K k, int t, const V &v) {
  switch (t) {
  case 0: a.SetValue(k, static_cast<Smp::Bool>(v.i != 0)); break; case 1: a.SetValue(k, static_cast<Smp::Char8>(v.i)); break;
  case 2: a.SetValue(k, v.s ? static_cast<Smp::String8>(v.s->c_str()) : static_cast<Smp::String8>(nullptr)); break;
  case 3: a.SetValue(k, static_cast<Smp::UInt8>(v.i)); break; case 4: a.SetValue(k, static_cast<Smp::UInt16>(v.i)); break;
  case 5: a.SetValue(k, static_cast<Smp::UInt32>(v.i)); break; case 6: a.SetValue(k, static_cast<Smp::UInt64>(v.i)); break;
  case 7: a.SetValue(k, static_cast<Smp::Int8>(v.i)); break; case 8: a.SetValue(k, static_cast<Smp::Int16>(v.i)); break;
  case 9: a.SetValue(k, static_cast<Smp::Int32>(v.i)); break; case 10: a.SetValue(k, static_cast<Smp::Int64>(v.i)); break;
  case 11: a.SetValue(k, static_cast<Smp::Float32>(v.f)); break; default: a.SetValue(k, static_cast<Smp::Float64>(v.f)); break;
  }
}
inline V get(const Smp::AnySimple &a, int t) {
  V v; v.c = classOf(typeKind(t));
  switch (t) {
  case 0: v.i = static_cast<Smp::Bool>(a); break; case 1: v.i = static_cast<Smp::Char8>(a); break;
  case 2: { auto *p = static_cast<Smp::String8>(a); if (p) v.s = p; break; }
  case 3: v.i = static_cast<Smp::UInt8>(a); break; case 4: v.i = static_cast<Smp::UInt16>(a); break;
  case 5: v.i = static_cast<Smp::UInt32>(a); break; case 6: v.i = static_cast<I>(static_cast<Smp::UInt64>(a)); break;
  case 7: v.i = static_cast<Smp::Int8>(a); break; case 8: v.i = static_cast<Smp::Int16>(a); break;
  case 9: v.i = static_cast<Smp::Int32>(a); break; case 10: v.i = static_cast<Smp::Int64>(a); break;
  case 11: v.f = static_cast<double>(static_cast<Smp::Float32>(a)); break; default: v.f = static_cast<Smp::Float64>(a); break;
  }
  return v;
}
/// interesting values carried by C++ type t
inline const std::vector<V> &values(int t) {
  static std::vector<V> all[NT]; auto &r = all[t]; if (!r.empty()) return r;
  C c = classOf(typeKind(t));
  auto addi = [&](I i) { for (auto &x : r) if (x.i == i) return; V v; v.c = c; v.i = i; r.push_back(v); };
  if (c == C::Bool) { addi(0); addi(1); }
  else if (c == C::Char) { for (int i = -128; i < 128; ++i) addi(i); }
  else if (c == C::Str) { for (auto s : {"", "a", "42", "1.5"}) { V v; v.c = c; v.s = s; r.push_back(v); } V v; v.c = c; r.push_back(v); }
  else if (c == C::Int) {
    I lo, hi; range(typeKind(t), lo, hi);
    if (hi - lo < 256) { for (I i = lo; i <= hi; ++i) addi(i); }
    else {
      for (int b = 0; b <= 64; ++b) for (int d = -2; d <= 2; ++d) for (int s = -1; s <= 1; s += 2) { I i = ((static_cast<I>(1) << b) + d) * s; if (i >= lo && i <= hi) addi(i); }
      for (I i : {static_cast<I>(0x1000001) * 2, static_cast<I>(0x1000002), static_cast<I>(0x1000001000000LL), static_cast<I>(0x7fffff8000000000LL), static_cast<I>(0x7ffffffffffffc00LL), static_cast<I>(0x7fffff7fffffffffLL), static_cast<I>(1234567), static_cast<I>(100)}) for (int s = -1; s <= 1; s += 2) if (i * s >= lo && i * s <= hi) addi(i * s);
    }
  } else {
    double m[] = {0.0, 1.0, 0.5, 0.1, 1.5, 3.25, 1e-3, 1e-45, 1e-300, 5e-324, 1e30, 1e300, 16777216.0, 16777217.0, 9007199254740992.0, 9007199254740993.0, static_cast<double>(FLT_MAX), 0x1.ffffffp127, 0x1.fffffffp127, DBL_MAX, static_cast<double>(FLT_MIN), DBL_MIN, static_cast<double>(FLT_EPSILON), DBL_EPSILON, 1 + DBL_EPSILON, 1 + 2 * DBL_EPSILON, 1 + 3 * DBL_EPSILON, 1 + 0x1p-24, 0.5 + 0x1p-53, 255, 256, 2147483647.0, 2147483648.0, 1e-9, 3e-9, INFINITY, NAN, 2 + DBL_EPSILON * 2, 1 + static_cast<double>(FLT_EPSILON) / 2};
    for (double d : m) for (int s = 1; s >= -1; s -= 2) { V v; v.c = c; v.f = t == 11 ? static_cast<double>(toF32(s * d)) : s * d; bool dup = false; for (auto &x : r) dup |= same(x, v); if (!dup) r.push_back(v); }
  }
  return r;
}
} // namespace anym
