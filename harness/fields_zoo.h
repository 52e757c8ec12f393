// A zoo of field shapes (published memory and typed fields), each with an independent view of its leaves.
#pragma once
#include "anysimple_model.h"
#include <Smp/IArrayField.h>
#include <Smp/IDataflowField.h>
#include <Smp/IForcibleField.h>
#include <Smp/ISimpleArrayField.h>
#include <Smp/ISimpleField.h>
#include <Smp/IStructureField.h>
#include <Smp/Publication/IEnumerationType.h>
#include <Smp/Publication/IStructureType.h>
#include <Xsmp/Array.h>
#include <Xsmp/Field.h>
#include <Xsmp/Model.h>
#include <Xsmp/Publication/Publication.h>
#include <Xsmp/Publication/TypeRegistry.h>
#include <Xsmp/String.h>
#include <cstring>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <type_traits>
#include <vector>
namespace zoo {
using anym::K; using anym::V; using anym::C;
using Smp::Int8; using Smp::Int16; using Smp::Int32; using Smp::Int64; using Smp::Float64; using Smp::Bool;
namespace U = Smp::Uuids;
inline Smp::Uuid id(unsigned n) { return Smp::Uuid{0xABCD0000u + n, 1, 2, 3, 4}; }
enum class E8 : Int8 { A = -2, B = 5 }; enum class E16 : Int16 { A = -300, B = 5 }; enum class E32 : Int32 { A = -70000, B = 5 }; enum class E64 : Int64 { A = -70001, B = 5 };
template <class T, size_t N> using Arr = Xsmp::Array<T, N>;
template <class T, size_t N> using SArr = Xsmp::Array<T, N, Xsmp::Annotation::simpleArray>;
using Str4 = Xsmp::String<4>;
struct Mix { // memory layout with padding
  Int8 a; Float64 b; Bool c; Str4 s; E16 e;
  template <typename B> struct _Field : public B {
    _Field(Smp::Publication::ITypeRegistry *r, Smp::Uuid t, Smp::String8 n, Smp::String8 d = "", Smp::IObject *p = nullptr, Smp::ViewKind v = Smp::ViewKind::VK_None, const Mix &x = {})
        : B(r, t, n, d, p, v), a{r, U::Uuid_Int8, "a", "", this, v, x.a}, b{r, U::Uuid_Float64, "b", "", this, v, x.b}, c{r, U::Uuid_Bool, "c", "", this, v, x.c}, s{r, id(10), "s", "", this, v, x.s}, e{r, id(2), "e", "", this, v, x.e} {}
    template <class T> using F = typename B::template Field<T>;
    typename F<Int8>::input a; F<Float64> b; typename F<Bool>::transient c; F<Str4> s; typename F<E16>::input e;
  };
};
struct Deep {
  SArr<Int16, 2> q; Arr<Int32, 2> r; Mix m; SArr<Bool, 2> z;
  template <typename B> struct _Field : public B {
    _Field(Smp::Publication::ITypeRegistry *g, Smp::Uuid t, Smp::String8 n, Smp::String8 d = "", Smp::IObject *p = nullptr, Smp::ViewKind v = Smp::ViewKind::VK_None, const Deep &x = {})
        : B(g, t, n, d, p, v), q{g, id(20), "q", "", this, v, x.q}, r{g, id(21), "r", "", this, v, x.r}, m{g, id(30), "m", "", this, v, x.m}, z{g, id(23), "z", "", this, v, x.z} {}
    template <class T> using F = typename B::template Field<T>;
    F<SArr<Int16, 2>> q; F<Arr<Int32, 2>> r; F<Mix> m; typename F<SArr<Bool, 2>>::transient z;
  };
};
struct DeepS { // published counterpart without the simple arrays of a forcible structure
  Arr<Int32, 2> r; Mix m;
  template <typename B> struct _Field : public B {
    _Field(Smp::Publication::ITypeRegistry *g, Smp::Uuid t, Smp::String8 n, Smp::String8 d = "", Smp::IObject *p = nullptr, Smp::ViewKind v = Smp::ViewKind::VK_None, const DeepS &x = {})
        : B(g, t, n, d, p, v), r{g, id(21), "r", "", this, v, x.r}, m{g, id(30), "m", "", this, v, x.m} {}
    template <class T> using F = typename B::template Field<T>;
    F<Arr<Int32, 2>> r; F<Mix> m;
  };
};
using VK = Smp::ViewKind;
inline void fill(Xsmp::Publication::TypeRegistry &t) {
  int b = 0;
  for (auto [n, sz, lo] : {std::tuple{"E8", 1, -2}, std::tuple{"E16", 2, -300}, std::tuple{"E32", 4, -70000}, std::tuple{"E64", 8, -70001}}) { auto *e = t.AddEnumerationType(n, "", id(1 + static_cast<unsigned>(b++)), static_cast<Int16>(sz)); e->AddLiteral("A", "", lo); e->AddLiteral("B", "", 5); }
  t.AddStringType("Str4", "", id(10), 4); t.AddIntegerType("Small", "", id(11), -10, 10, "", K::PTK_Int16); t.AddFloatType("Unit", "", id(12), 0., 1., true, true, "", K::PTK_Float32);
  t.AddArrayType("SArrI16", "", id(20), U::Uuid_Int16, 2, 2, true); t.AddArrayType("ArrI32", "", id(21), U::Uuid_Int32, 4, 2, false);
  t.AddArrayType("SArrE8", "", id(22), id(1), 1, 3, true); t.AddArrayType("SArrBool", "", id(23), U::Uuid_Bool, 1, 2, true); t.AddArrayType("SArrStr", "", id(24), id(10), 5, 2, true); t.AddArrayType("ArrStr", "", id(25), id(10), 5, 2, false); t.AddArrayType("ArrE32", "", id(26), id(3), 4, 2, false); t.AddArrayType("SArrE32", "", id(27), id(3), 4, 2, true); t.AddArrayType("SArrE64", "", id(28), id(4), 8, 2, true);
  auto *m = t.AddStructureType("Mix", "", id(30)); 
  m->AddField("a", "", U::Uuid_Int8, offsetof(Mix, a), VK::VK_All, true, true, false); m->AddField("b", "", U::Uuid_Float64, offsetof(Mix, b), VK::VK_All, true); m->AddField("c", "", U::Uuid_Bool, offsetof(Mix, c), VK::VK_All, false); m->AddField("s", "", id(10), offsetof(Mix, s), VK::VK_All, true); m->AddField("e", "", id(2), offsetof(Mix, e), VK::VK_All, true, true, false);
  auto *d = t.AddStructureType("Deep", "", id(31)); d->AddField("q", "", id(20), offsetof(Deep, q)); d->AddField("r", "", id(21), offsetof(Deep, r)); d->AddField("m", "", id(30), offsetof(Deep, m)); d->AddField("z", "", id(23), offsetof(Deep, z), VK::VK_All, false);
  auto *ds = t.AddStructureType("DeepS", "", id(32)); ds->AddField("r", "", id(21), offsetof(DeepS, r)); ds->AddField("m", "", id(30), offsetof(DeepS, m));
  t.AddArrayType("ArrMix", "", id(40), id(30), sizeof(Mix), 2, false); t.AddArrayType("ArrArr", "", id(41), id(21), 8, 2, false); t.AddArrayType("ArrSArr", "", id(42), id(20), 4, 2, false); t.AddArrayType("SArrOfArr", "", id(43), id(21), 8, 2, true); t.AddArrayType("ArrDeep", "", id(44), id(31), sizeof(Deep), 2, false);
  unsigned n = 50; for (K k : anym::kinds()) { if (k == K::PTK_None || k == K::PTK_String8) { ++n; continue; } auto *it = t.GetType(k); anym::I lo, hi; anym::range(k, lo, hi); Int64 sz = k == K::PTK_Bool || k == K::PTK_Char8 ? 1 : k == K::PTK_Float32 ? 4 : k == K::PTK_Float64 ? 8 : (hi > 0xFFFFFFFFll ? 8 : hi > 0xFFFF ? 4 : hi > 0xFF ? 2 : 1); t.AddArrayType((std::string("S") + anym::name(k)).c_str(), "", id(n++), it->GetUuid(), sz, 3, true); }
}
struct Leaf { K kind; int cap; const std::vector<Int64> *literals; std::function<V()> read; std::function<void(const V &)> write; void *addr; size_t size; bool state = true; };
inline const std::vector<Int64> *lits(int w) { static const std::vector<Int64> l[4] = {{-2, 5}, {-300, 5}, {-70000, 5}, {-70001, 5}}; return &l[w]; }
template <class T> constexpr K kindOf() {
  if constexpr (std::is_same_v<T, Bool>) return K::PTK_Bool; else if constexpr (std::is_same_v<T, char>) return K::PTK_Char8; else if constexpr (std::is_same_v<T, Smp::Float32>) return K::PTK_Float32; else if constexpr (std::is_same_v<T, Float64>) return K::PTK_Float64;
  else if constexpr (std::is_enum_v<T>) return kindOf<std::underlying_type_t<T>>();
  else if constexpr (std::is_integral_v<T>) { constexpr int s = sizeof(T); if constexpr (std::is_signed_v<T>) return s == 1 ? K::PTK_Int8 : s == 2 ? K::PTK_Int16 : s == 4 ? K::PTK_Int32 : K::PTK_Int64; else return s == 1 ? K::PTK_UInt8 : s == 2 ? K::PTK_UInt16 : s == 4 ? K::PTK_UInt32 : K::PTK_UInt64; }
  else return K::PTK_String8;
}
template <class T> struct isStr : std::false_type {}; template <size_t N> struct isStr<Xsmp::String<N>> : std::true_type { static constexpr int cap = N; };
template <class T> V toV(const T &x) { V v; v.c = anym::classOf(kindOf<T>()); if constexpr (isStr<T>::value) v.s = std::string(x.internalString); else if constexpr (std::is_enum_v<T>) v.i = static_cast<Int64>(x); else if constexpr (std::is_floating_point_v<T>) v.f = static_cast<double>(x); else v.i = x; return v; }
template <class T> T fromV(const V &v) { if constexpr (isStr<T>::value) { T t; std::memset(&t, 0, sizeof t); if (v.s) std::strncpy(t.internalString, v.s->c_str(), sizeof(t) - 1); return t; } else if constexpr (std::is_floating_point_v<T>) return static_cast<T>(v.f); else return static_cast<T>(static_cast<Int64>(v.i)); }
template <class T> Leaf base() { Leaf l{}; l.kind = kindOf<T>(); if constexpr (isStr<T>::value) l.cap = isStr<T>::cap; if constexpr (std::is_enum_v<T>) l.literals = lits(sizeof(T) == 1 ? 0 : sizeof(T) == 2 ? 1 : sizeof(T) == 4 ? 2 : 3); return l; }
using Leaves = std::vector<Leaf>;
// memory leaves
template <class T, std::enable_if_t<Xsmp::Helper::is_simple_type_v<T>, int> = 0> void mem(Leaves &o, T &x, bool state = true) { Leaf l = base<T>(); l.addr = &x; l.size = sizeof x; l.state = state; l.read = [&x] { return toV(x); }; l.write = [&x](const V &v) { x = fromV<T>(v); }; o.push_back(l); }
template <class T, size_t N, class... A> void mem(Leaves &o, Xsmp::Array<T, N, A...> &x, bool state = true);
inline void mem(Leaves &o, Mix &x, bool state = true) { mem(o, x.a, state); mem(o, x.b, state); mem(o, x.c, false); mem(o, x.s, state); mem(o, x.e, state); }
inline void mem(Leaves &o, Deep &x, bool state = true) { mem(o, x.q, state); mem(o, x.r, state); mem(o, x.m, state); mem(o, x.z, false); }
inline void mem(Leaves &o, DeepS &x, bool state = true) { mem(o, x.r, state); mem(o, x.m, state); }
template <class T, size_t N, class... A> void mem(Leaves &o, Xsmp::Array<T, N, A...> &x, bool state) { for (auto &e : x) mem(o, e, state); }
// typed leaves: no literal check (documented behaviour of typed fields)
template <class T, class... A> void typed(Leaves &o, Xsmp::SimpleField<T, A...> &f, bool state = true) { Leaf l = base<T>(); l.literals = nullptr; l.state = state && f.IsState(); l.read = [&f] { return toV<T>(*std::as_const(f)); }; l.write = [&f](const V &v) { f = fromV<T>(v); }; o.push_back(l); }
template <class T, size_t N, class... A, class... B> void typed(Leaves &o, Xsmp::SimpleArrayField<Xsmp::Array<T, N, A...>, B...> &f, bool state = true) { for (size_t i = 0; i < N; ++i) { Leaf l = base<T>(); l.literals = nullptr; l.state = state && f.IsState(); l.read = [&f, i] { return toV<T>(std::as_const(f)[i]); }; l.write = [&f, i](const V &v) { f[i] = fromV<T>(v); }; o.push_back(l); } }
template <class T, class... B> void typed(Leaves &o, Xsmp::ArrayField<T, B...> &f, bool state = true);
template <class B> void typed(Leaves &o, Mix::_Field<B> &f, bool state = true) { state = state && f.IsState(); typed(o, f.a, state); typed(o, f.b, state); typed(o, f.c, state); typed(o, f.s, state); typed(o, f.e, state); }
template <class B> void typed(Leaves &o, Deep::_Field<B> &f, bool state = true) { state = state && f.IsState(); typed(o, f.q, state); typed(o, f.r, state); typed(o, f.m, state); typed(o, f.z, state); }
template <class B> void typed(Leaves &o, DeepS::_Field<B> &f, bool state = true) { state = state && f.IsState(); typed(o, f.r, state); typed(o, f.m, state); }
template <class T, class... B> void typed(Leaves &o, Xsmp::ArrayField<T, B...> &f, bool state) { state = state && f.IsState(); for (auto &e : f) typed(o, e, state); }

struct Host : Xsmp::Model { using Xsmp::Model::Model; };
struct Instance {
  virtual ~Instance() = default;
  Smp::IField *field = nullptr; Leaves leaves; std::vector<unsigned char> *bytes = nullptr; unsigned char *base = nullptr; size_t size = 0; bool typedField = false;
};
struct Env { Xsmp::Publication::TypeRegistry types{nullptr}; Host host{"host"}; Xsmp::Publication::Publication pub{&host, &types}; Env() { fill(types); host.Publish(&pub); } };
template <class T> struct Mem : Instance { // memory with guard bytes, everything not covered by a leaf must stay
  struct Blk { unsigned char g1[32]; T v; unsigned char g2[32]; } *b; void *raw;
  Mem() { raw = ::operator new(sizeof(Blk)); std::memset(raw, 0xA5, sizeof(Blk)); b = static_cast<Blk *>(raw); base = static_cast<unsigned char *>(raw); size = sizeof(Blk); mem(leaves, b->v); for (auto &l : leaves) { V v; v.c = anym::classOf(l.kind); if (l.cap || l.kind == K::PTK_String8) v.s = ""; l.write(v); } }
  ~Mem() override { ::operator delete(raw); }
};
template <class F, class... A> struct Typed : Instance { F f; explicit Typed(A... a) : f(a...) { field = &f; typed(leaves, f); typedField = true; } };
struct Shape { std::string name; std::function<std::unique_ptr<Instance>(Env &, const char *)> make; bool forcible = false, input = false, output = false; };
template <class T> Shape memShape(const char *n, Smp::Uuid uuid, bool state = true, bool in = false, bool out = false, int kindOverride = -1) {
  Shape s; s.name = n; s.input = in; s.output = out;
  s.make = [=](Env &e, const char *name) { auto m = std::make_unique<Mem<T>>(); e.pub.PublishField(name, "d", &m->b->v, uuid, VK::VK_All, state, in, out); m->field = e.host.GetField(name); for (auto &l : m->leaves) { if (kindOverride >= 0) l.kind = static_cast<K>(kindOverride); if (!state) l.state = false; } return m; };
  return s;
}
template <class F> Shape typedShape(const char *n, Smp::Uuid uuid, int kindOverride = -1) {
  Shape s; s.name = n; s.forcible = std::is_base_of_v<Smp::IForcibleField, F>; s.output = std::is_base_of_v<Smp::IDataflowField, F>;
  s.make = [=](Env &e, const char *name) { auto m = std::make_unique<Typed<F, Smp::Publication::ITypeRegistry *, Smp::Uuid, const char *, const char *, Smp::IObject *, Smp::ViewKind>>(&e.types, uuid, name, "d", &e.host, VK::VK_All); e.pub.PublishField(m->field); for (auto &l : m->leaves) if (kindOverride >= 0) l.kind = static_cast<K>(kindOverride); return m; };
  return s;
}
/// small value sets used in histories: [0], [1] valid; then others
inline V vi(C c, anym::I i) { V v; v.c = c; v.i = i; return v; }
inline V vf(double f) { V v; v.c = C::Float; v.f = f; return v; }
inline V vs(std::optional<std::string> s) { V v; v.c = C::Str; v.s = std::move(s); return v; }
struct Val { K kind; V v; };
inline int natural(K k) { if (k == K::PTK_Duration || k == K::PTK_DateTime) return 10; for (int t = 0; t < anym::NT; ++t) if (anym::typeKind(t) == k) return t; return -1; }
inline Smp::AnySimple any(const Val &x) { Smp::AnySimple a; if (x.kind != K::PTK_None) anym::set(a, x.kind, natural(x.kind), x.v); return a; }
inline std::vector<Val> valid(const Leaf &l) { // values every implementation has to accept
  K k = l.kind; std::vector<Val> r;
  if (l.literals) { for (auto x : *l.literals) r.push_back({k, vi(C::Int, x)}); return r; }
  switch (anym::classOf(k)) {
  case C::Bool: r = {{k, vi(C::Bool, 1)}, {k, vi(C::Bool, 0)}}; break; case C::Char: r = {{k, vi(C::Char, 'x')}, {k, vi(C::Char, -1)}}; break;
  case C::Str: r = {{k, vs("ab")}, {k, vs("abcdefgh")}, {k, vs("abcd")}, {k, vs("")}}; break; case C::Float: r = {{k, vf(1.5)}, {k, vf(-0.0)}}; break;
  default: { anym::I lo, hi; anym::range(k, lo, hi); r = {{k, vi(C::Int, lo)}, {k, vi(C::Int, hi)}}; if (lo == 0) r[0].v.i = 1; }
  }
  return r;
}
inline std::vector<Val> odd(const Leaf &l) { // other kinds, undeclared literals
  std::vector<Val> r; K k = l.kind;
  if (l.literals) r.push_back({k, vi(C::Int, 7)});
  r.push_back({K::PTK_None, V{}});
  if (k != K::PTK_Int64 && k != K::PTK_UInt64) r.push_back({K::PTK_Int64, vi(C::Int, 0x7fffffffffffffffll)}); else r.push_back({K::PTK_Int32, vi(C::Int, -3)});
  if (k != K::PTK_Int16) r.push_back({K::PTK_Int16, vi(C::Int, 5)}); else r.push_back({K::PTK_UInt8, vi(C::Int, 5)});
  r.push_back({k == K::PTK_Float64 ? K::PTK_Float32 : K::PTK_Float64, vf(0.5)});
  if (k != K::PTK_String8) r.push_back({K::PTK_String8, vs("1")}); else r.push_back({K::PTK_Char8, vi(C::Char, 'c')});
  if (k != K::PTK_Bool) r.push_back({K::PTK_Bool, vi(C::Bool, 1)});
  return r;
}
/// what a leaf holds after a write of an own-kind value
inline V stored(const Leaf &l, const V &v) { V r = v; if (l.kind == K::PTK_String8) { r.s = v.s ? *v.s : std::string(); if (static_cast<int>(r.s->size()) > l.cap) r.s->resize(static_cast<size_t>(l.cap)); } return r; }
/// 0 = must be refused, 1 = must be stored as `out`, 2 = either refused or stored as `out`
inline int expectWrite(const Leaf &l, const Val &x, V &out) {
  if (x.kind == l.kind) {
    if (l.literals) { bool ok = false; for (auto n : *l.literals) ok |= x.v.i == n; if (!ok) return 0; }
    out = stored(l, x.v); if (l.kind == K::PTK_String8 && !x.v.s) return 2; return 1;
  }
  if (!anym::convert(x.v, l.kind, true, out)) return 0;
  if (l.literals) { bool ok = false; for (auto n : *l.literals) ok |= out.i == n; if (!ok) return 0; }
  return 2;
}
} // namespace zoo
