// Lists of field shapes: every simple kind and every compound, published and typed.
#pragma once
#include "fields_zoo.h"
namespace zoo {
namespace {
std::vector<Shape> simples() {
  std::vector<Shape> r;
  auto add = [&](auto *tag, Smp::Uuid u, const char *n, K k) {
    using T = std::remove_pointer_t<decltype(tag)>; int o = static_cast<int>(k); std::string s = n;
    r.push_back(memShape<T>((s + "/published").c_str(), u, true, false, false, o)); r.push_back(memShape<T>((s + "/published-output").c_str(), u, true, true, true, o));
    r.push_back(typedShape<Xsmp::Field<T>>((s + "/typed").c_str(), u, o)); r.push_back(typedShape<typename Xsmp::Field<T>::output>((s + "/typed-output").c_str(), u, o)); r.push_back(typedShape<typename Xsmp::Field<T>::forcible>((s + "/typed-forcible").c_str(), u, o));
  };
  add(static_cast<Smp::Bool *>(nullptr), U::Uuid_Bool, "Bool", K::PTK_Bool); add(static_cast<Smp::Char8 *>(nullptr), U::Uuid_Char8, "Char8", K::PTK_Char8);
  add(static_cast<Int8 *>(nullptr), U::Uuid_Int8, "Int8", K::PTK_Int8); add(static_cast<Int16 *>(nullptr), U::Uuid_Int16, "Int16", K::PTK_Int16); add(static_cast<Int32 *>(nullptr), U::Uuid_Int32, "Int32", K::PTK_Int32); add(static_cast<Int64 *>(nullptr), U::Uuid_Int64, "Int64", K::PTK_Int64);
  add(static_cast<Smp::UInt8 *>(nullptr), U::Uuid_UInt8, "UInt8", K::PTK_UInt8); add(static_cast<Smp::UInt16 *>(nullptr), U::Uuid_UInt16, "UInt16", K::PTK_UInt16); add(static_cast<Smp::UInt32 *>(nullptr), U::Uuid_UInt32, "UInt32", K::PTK_UInt32); add(static_cast<Smp::UInt64 *>(nullptr), U::Uuid_UInt64, "UInt64", K::PTK_UInt64);
  add(static_cast<Smp::Float32 *>(nullptr), U::Uuid_Float32, "Float32", K::PTK_Float32); add(static_cast<Smp::Float64 *>(nullptr), U::Uuid_Float64, "Float64", K::PTK_Float64);
  add(static_cast<Int64 *>(nullptr), U::Uuid_Duration, "Duration", K::PTK_Duration); add(static_cast<Int64 *>(nullptr), U::Uuid_DateTime, "DateTime", K::PTK_DateTime);
  add(static_cast<E8 *>(nullptr), id(1), "Enum8", K::PTK_Int8); add(static_cast<E16 *>(nullptr), id(2), "Enum16", K::PTK_Int16); add(static_cast<E32 *>(nullptr), id(3), "Enum32", K::PTK_Int32); add(static_cast<E64 *>(nullptr), id(4), "Enum64", K::PTK_Int64);
  add(static_cast<Str4 *>(nullptr), id(10), "String4", K::PTK_String8); add(static_cast<Int16 *>(nullptr), id(11), "Integer", K::PTK_Int16); add(static_cast<Smp::Float32 *>(nullptr), id(12), "Float", K::PTK_Float32);
  return r;
}
template <class T> Shape anonSimpleArray(K k, bool out) {
  Shape s; s.name = std::string("anonymous simple array of ") + anym::name(k) + (out ? " output" : ""); s.output = out;
  s.make = [=](Env &e, const char *name) { auto m = std::make_unique<Mem<SArr<T, 3>>>(); e.pub.PublishArray(name, "", 3, m->b->v.data(), k, VK::VK_All, true, false, out); m->field = e.host.GetField(name); for (auto &l : m->leaves) l.kind = k; return m; };
  return s;
}
Shape anonArray() {
  Shape s; s.name = "anonymous array";
  s.make = [](Env &e, const char *name) { auto m = std::make_unique<Mem<Arr<Mix, 2>>>(); auto *p = e.pub.PublishArray(name, ""); p->PublishField("[0]", "", &m->b->v[0], id(30)); p->PublishField("[1]", "", &m->b->v[1], id(30)); m->field = e.host.GetField(name); return m; };
  return s;
}
Shape anonStruct() {
  Shape s; s.name = "anonymous structure";
  s.make = [](Env &e, const char *name) { auto m = std::make_unique<Mem<Deep>>(); auto &d = m->b->v; auto *p = e.pub.PublishStructure(name, ""); p->PublishArray("q", "", 2, d.q.data(), K::PTK_Int16); p->PublishField("r", "", &d.r, id(21)); auto *q = p->PublishStructure("m", ""); q->PublishField("a", "", &d.m.a); q->PublishField("b", "", &d.m.b); q->PublishField("c", "", &d.m.c, VK::VK_All, false); q->PublishField("s", "", &d.m.s, id(10)); q->PublishField("e", "", &d.m.e, id(2)); p->PublishField("z", "", &d.z, id(23), VK::VK_All, false); m->field = e.host.GetField(name); return m; };
  return s;
}
template <class T> Shape basicOverload(const char *n) { Shape s; s.name = std::string("basic ") + n; s.make = [](Env &e, const char *name) { auto m = std::make_unique<Mem<T>>(); e.pub.PublishField(name, "", &m->b->v); m->field = e.host.GetField(name); return m; }; return s; }
template <class T> Shape kindArray(K k) { unsigned n = 50; for (K x : anym::kinds()) { if (x == k) break; ++n; } return memShape<SArr<T, 3>>((std::string("simple array of ") + anym::name(k)).c_str(), id(n), true, false, false, static_cast<int>(k)); }
std::vector<Shape> compounds() {
  std::vector<Shape> r;
  r.push_back(memShape<SArr<Int16, 2>>("SArrI16", id(20))); r.push_back(memShape<SArr<Int16, 2>>("SArrI16 in-out", id(20), true, true, true)); r.push_back(memShape<Arr<Int32, 2>>("ArrI32", id(21))); r.push_back(memShape<Arr<Int32, 2>>("ArrI32 output", id(21), true, false, true));
  r.push_back(memShape<SArr<E8, 3>>("SArrE8", id(22))); r.push_back(memShape<SArr<E32, 2>>("SArrE32", id(27))); r.push_back(memShape<SArr<E64, 2>>("SArrE64", id(28))); r.push_back(memShape<Arr<E32, 2>>("ArrE32", id(26)));
  r.push_back(memShape<SArr<Str4, 2>>("SArrStr", id(24))); r.push_back(memShape<Arr<Str4, 2>>("ArrStr", id(25)));
  r.push_back(memShape<Mix>("Mix", id(30))); r.push_back(memShape<Mix>("Mix output", id(30), true, false, true)); r.push_back(memShape<Deep>("Deep", id(31))); r.push_back(memShape<Arr<Mix, 2>>("ArrMix", id(40))); r.push_back(memShape<Arr<Arr<Int32, 2>, 2>>("ArrArr", id(41))); r.push_back(memShape<Arr<SArr<Int16, 2>, 2>>("ArrSArr", id(42))); r.push_back(memShape<Arr<Arr<Int32, 2>, 2>>("SArrOfArr", id(43)));
  r.push_back(kindArray<Bool>(K::PTK_Bool)); r.push_back(kindArray<char>(K::PTK_Char8)); r.push_back(kindArray<Int8>(K::PTK_Int8)); r.push_back(kindArray<Smp::UInt8>(K::PTK_UInt8)); r.push_back(kindArray<Int16>(K::PTK_Int16)); r.push_back(kindArray<Smp::UInt16>(K::PTK_UInt16)); r.push_back(kindArray<Int32>(K::PTK_Int32)); r.push_back(kindArray<Smp::UInt32>(K::PTK_UInt32)); r.push_back(kindArray<Int64>(K::PTK_Int64)); r.push_back(kindArray<Smp::UInt64>(K::PTK_UInt64)); r.push_back(kindArray<Smp::Float32>(K::PTK_Float32)); r.push_back(kindArray<Float64>(K::PTK_Float64)); r.push_back(kindArray<Int64>(K::PTK_Duration)); r.push_back(kindArray<Int64>(K::PTK_DateTime));
  for (bool o : {false, true}) { r.push_back(anonSimpleArray<Bool>(K::PTK_Bool, o)); r.push_back(anonSimpleArray<char>(K::PTK_Char8, o)); r.push_back(anonSimpleArray<Int8>(K::PTK_Int8, o)); r.push_back(anonSimpleArray<Smp::UInt8>(K::PTK_UInt8, o)); r.push_back(anonSimpleArray<Int16>(K::PTK_Int16, o)); r.push_back(anonSimpleArray<Smp::UInt16>(K::PTK_UInt16, o)); r.push_back(anonSimpleArray<Int32>(K::PTK_Int32, o)); r.push_back(anonSimpleArray<Smp::UInt32>(K::PTK_UInt32, o)); r.push_back(anonSimpleArray<Int64>(K::PTK_Int64, o)); r.push_back(anonSimpleArray<Smp::UInt64>(K::PTK_UInt64, o)); r.push_back(anonSimpleArray<Smp::Float32>(K::PTK_Float32, o)); r.push_back(anonSimpleArray<Float64>(K::PTK_Float64, o)); r.push_back(anonSimpleArray<Int64>(K::PTK_Duration, o)); r.push_back(anonSimpleArray<Int64>(K::PTK_DateTime, o)); }
  r.push_back(anonArray()); r.push_back(anonStruct());
  r.push_back(basicOverload<Bool>("Bool")); r.push_back(basicOverload<char>("Char8")); r.push_back(basicOverload<Int8>("Int8")); r.push_back(basicOverload<Int16>("Int16")); r.push_back(basicOverload<Int32>("Int32")); r.push_back(basicOverload<Int64>("Int64")); r.push_back(basicOverload<Smp::UInt8>("UInt8")); r.push_back(basicOverload<Smp::UInt16>("UInt16")); r.push_back(basicOverload<Smp::UInt32>("UInt32")); r.push_back(basicOverload<Smp::UInt64>("UInt64")); r.push_back(basicOverload<Smp::Float32>("Float32")); r.push_back(basicOverload<Float64>("Float64"));
  r.push_back(typedShape<Xsmp::Field<SArr<Int16, 2>>>("typed SArrI16", id(20))); r.push_back(typedShape<Xsmp::Field<SArr<Int16, 2>>::output>("typed SArrI16 output", id(20))); r.push_back(typedShape<Xsmp::Field<Arr<Int32, 2>>>("typed ArrI32", id(21))); r.push_back(typedShape<Xsmp::Field<Arr<Int32, 2>>::output>("typed ArrI32 output", id(21))); r.push_back(typedShape<Xsmp::Field<Arr<Int32, 2>>::forcible>("typed ArrI32 forcible", id(21)));
  r.push_back(typedShape<Xsmp::Field<SArr<E8, 3>>>("typed SArrE8", id(22))); r.push_back(typedShape<Xsmp::Field<SArr<Str4, 2>>>("typed SArrStr", id(24))); r.push_back(typedShape<Xsmp::Field<SArr<Bool, 2>>>("typed SArrBool", id(23)));
  r.push_back(typedShape<Xsmp::Field<Mix>>("typed Mix", id(30))); r.push_back(typedShape<Xsmp::Field<Mix>::output>("typed Mix output", id(30))); r.push_back(typedShape<Xsmp::Field<Mix>::forcible>("typed Mix forcible", id(30))); r.push_back(typedShape<Xsmp::Field<Deep>>("typed Deep", id(31))); r.push_back(typedShape<Xsmp::Field<Deep>::output>("typed Deep output", id(31))); r.push_back(typedShape<Xsmp::Field<DeepS>::forcible>("typed DeepS forcible", id(32)));
  r.push_back(typedShape<Xsmp::Field<Arr<Mix, 2>>>("typed ArrMix", id(40))); r.push_back(typedShape<Xsmp::Field<Arr<Mix, 2>>::output>("typed ArrMix output", id(40))); r.push_back(typedShape<Xsmp::Field<Arr<Arr<Int32, 2>, 2>>>("typed ArrArr", id(41))); r.push_back(typedShape<Xsmp::Field<Arr<SArr<Int16, 2>, 2>>>("typed ArrSArr", id(42)));
  return r;
}
const std::vector<Shape> &simpleShapes() { static const auto s = simples(); return s; }
const std::vector<Shape> &compoundShapes() { static const auto s = compounds(); return s; }
} // namespace
} // namespace zoo
