// C23: requests, operations and properties: every value of an alphabet against every type, call sequences,
// invocation through Xsmp::Request, and composed values.
#include "mc.h"
#include "simenv.h"
#include <Smp/AnySimple.h>
#include <Smp/IOperation.h>
#include <Smp/IProperty.h>
#include <Smp/IRequest.h>
#include <Smp/InvalidAnyType.h>
#include <Smp/InvalidOperationName.h>
#include <Smp/InvalidParameterCount.h>
#include <Smp/InvalidParameterIndex.h>
#include <Smp/InvalidParameterType.h>
#include <Smp/InvalidParameterValue.h>
#include <Smp/InvalidReturnValue.h>
#include <Smp/Publication/IArrayType.h>
#include <Smp/Publication/IEnumerationType.h>
#include <Smp/Publication/IPublishOperation.h>
#include <Smp/Publication/IStructureType.h>
#include <Smp/Publication/ITypeRegistry.h>
#include <Smp/Uuid.h>
#include <Smp/VoidOperation.h>
#include <Xsmp/Publication/Publication.h>
#include <Xsmp/Publication/Request.h>
#include <Xsmp/Publication/TypeRegistry.h>
#include <Xsmp/Array.h>
#include <Xsmp/Request.h>
#include <Xsmp/String.h>
#include <cmath>
#include <cstring>
#include <exception>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <vector>
namespace {
using PK = Smp::PrimitiveTypeKind; using A = Smp::AnySimple; using PD = Smp::Publication::ParameterDirectionKind;
template <class T> using NL = std::numeric_limits<T>;
std::string rep(const A &a) { std::string k = std::to_string(static_cast<int>(a.type)) + ":"; char b[64]; switch (a.type) { case PK::PTK_None: return k; case PK::PTK_Bool: return k + std::to_string(a.value.boolValue); case PK::PTK_Char8: return k + std::to_string(a.value.char8Value); case PK::PTK_Int8: return k + std::to_string(a.value.int8Value); case PK::PTK_Int16: return k + std::to_string(a.value.int16Value); case PK::PTK_Int32: return k + std::to_string(a.value.int32Value); case PK::PTK_Int64: return k + std::to_string(a.value.int64Value); case PK::PTK_Duration: return k + std::to_string(a.value.durationValue); case PK::PTK_DateTime: return k + std::to_string(a.value.dateTimeValue); case PK::PTK_UInt8: return k + std::to_string(a.value.uInt8Value); case PK::PTK_UInt16: return k + std::to_string(a.value.uInt16Value); case PK::PTK_UInt32: return k + std::to_string(a.value.uInt32Value); case PK::PTK_UInt64: return k + std::to_string(a.value.uInt64Value); case PK::PTK_Float32: snprintf(b, 64, "%a", static_cast<double>(a.value.float32Value)); return k + b; case PK::PTK_Float64: snprintf(b, 64, "%a", a.value.float64Value); return k + b; case PK::PTK_String8: return k + (a.value.string8Value ? std::string("\"") + a.value.string8Value : "null"); default: return k + "?"; } }
struct Ty { const char *name; Smp::Uuid uuid; PK prim; char cls; /* p i f s e */ __int128 lo = 0, hi = 0; double flo = 0, fhi = 0; bool li = false, hi_i = false; size_t len = 0; std::set<long long> lits{}; };
const std::vector<Ty> &types() {
  static const std::vector<Ty> t = [] { std::vector<Ty> v; namespace N = Smp::Uuids;
    v.push_back({"Int32", N::Uuid_Int32, PK::PTK_Int32, 'p'}); v.push_back({"i32", {1, 0, 0, 0, 1}, PK::PTK_Int32, 'i', -3, 5}); v.push_back({"str", {1, 0, 0, 0, 9}, PK::PTK_String8, 's', 0, 0, 0, 0, false, false, 3}); v.push_back({"f64", {1, 0, 0, 0, 7}, PK::PTK_Float64, 'f', 0, 0, 0., 1., false, true}); v.push_back({"e4", {1, 0, 0, 0, 12}, PK::PTK_Int32, 'e', 0, 0, 0, 0, false, false, 0, {0, 3, -1}});
    v.push_back({"Char8", N::Uuid_Char8, PK::PTK_Char8, 'p'}); v.push_back({"Bool", N::Uuid_Bool, PK::PTK_Bool, 'p'}); v.push_back({"Int8", N::Uuid_Int8, PK::PTK_Int8, 'p'}); v.push_back({"Int16", N::Uuid_Int16, PK::PTK_Int16, 'p'}); v.push_back({"Int64", N::Uuid_Int64, PK::PTK_Int64, 'p'}); v.push_back({"UInt8", N::Uuid_UInt8, PK::PTK_UInt8, 'p'}); v.push_back({"UInt16", N::Uuid_UInt16, PK::PTK_UInt16, 'p'}); v.push_back({"UInt32", N::Uuid_UInt32, PK::PTK_UInt32, 'p'}); v.push_back({"UInt64", N::Uuid_UInt64, PK::PTK_UInt64, 'p'}); v.push_back({"Float32", N::Uuid_Float32, PK::PTK_Float32, 'p'}); v.push_back({"Float64", N::Uuid_Float64, PK::PTK_Float64, 'p'}); v.push_back({"Duration", N::Uuid_Duration, PK::PTK_Duration, 'p'}); v.push_back({"DateTime", N::Uuid_DateTime, PK::PTK_DateTime, 'p'}); v.push_back({"String8", N::Uuid_String8, PK::PTK_String8, 'p'});
    v.push_back({"u64", {1, 0, 0, 0, 2}, PK::PTK_UInt64, 'i', 3, NL<Smp::Int64>::max()}); v.push_back({"u8", {1, 0, 0, 0, 3}, PK::PTK_UInt8, 'i', 1, 3}); v.push_back({"i64", {1, 0, 0, 0, 4}, PK::PTK_Int64, 'i', NL<Smp::Int64>::min(), -1}); v.push_back({"i8", {1, 0, 0, 0, 5}, PK::PTK_Int8, 'i', -1000, 1}); v.push_back({"u32", {1, 0, 0, 0, 6}, PK::PTK_UInt32, 'i', 0, NL<Smp::UInt32>::max()}); v.push_back({"i16", {1, 0, 0, 0, 16}, PK::PTK_Int16, 'i', 5, 5}); v.push_back({"u16", {1, 0, 0, 0, 17}, PK::PTK_UInt16, 'i', 6, 5});
    v.push_back({"f32", {1, 0, 0, 0, 8}, PK::PTK_Float32, 'f', 0, 0, 0.5, NL<double>::infinity(), true, false}); v.push_back({"f64i", {1, 0, 0, 0, 18}, PK::PTK_Float64, 'f', 0, 0, 0., 1., true, true}); v.push_back({"f64x", {1, 0, 0, 0, 19}, PK::PTK_Float64, 'f', 0, 0, -NL<double>::infinity(), 1., true, false}); v.push_back({"str0", {1, 0, 0, 0, 20}, PK::PTK_String8, 's'});
    v.push_back({"e1", {1, 0, 0, 0, 10}, PK::PTK_Int8, 'e', 0, 0, 0, 0, false, false, 0, {1}}); v.push_back({"e2", {1, 0, 0, 0, 11}, PK::PTK_Int16, 'e', 0, 0, 0, 0, false, false, 0, {0, 32767}}); v.push_back({"e8", {1, 0, 0, 0, 13}, PK::PTK_Int64, 'e', 0, 0, 0, 0, false, false, 0, {0, NL<Smp::Int32>::max(), NL<Smp::Int32>::min()}}); v.push_back({"e0", {1, 0, 0, 0, 14}, PK::PTK_Int32, 'e'});
    return v; }();
  return t; }
const std::vector<A> &alphabet() {
  static const std::vector<A> v = [] { std::vector<A> r; r.emplace_back();
    auto num = [&](PK k, auto lo, auto hi) { using T = decltype(lo); r.emplace_back(k, lo); r.emplace_back(k, hi); for (int x : {0, 1, 3, 5, 6}) r.emplace_back(k, static_cast<T>(x)); if (NL<T>::is_signed) { r.emplace_back(k, static_cast<T>(-1)); r.emplace_back(k, static_cast<T>(-4)); } };
    num(PK::PTK_Int32, NL<Smp::Int32>::min(), NL<Smp::Int32>::max()); num(PK::PTK_Int8, NL<Smp::Int8>::min(), NL<Smp::Int8>::max()); num(PK::PTK_Int16, NL<Smp::Int16>::min(), NL<Smp::Int16>::max()); num(PK::PTK_Int64, NL<Smp::Int64>::min(), NL<Smp::Int64>::max()); num(PK::PTK_UInt8, NL<Smp::UInt8>::min(), NL<Smp::UInt8>::max()); num(PK::PTK_UInt16, NL<Smp::UInt16>::min(), NL<Smp::UInt16>::max()); num(PK::PTK_UInt32, NL<Smp::UInt32>::min(), NL<Smp::UInt32>::max()); num(PK::PTK_UInt64, NL<Smp::UInt64>::min(), NL<Smp::UInt64>::max());
    r.emplace_back(PK::PTK_UInt64, static_cast<Smp::UInt64>(NL<Smp::Int64>::max())); r.emplace_back(PK::PTK_UInt64, static_cast<Smp::UInt64>(NL<Smp::Int64>::max()) + 1); r.emplace_back(PK::PTK_Int64, static_cast<Smp::Int64>(NL<Smp::Int32>::max())); r.emplace_back(PK::PTK_Int64, static_cast<Smp::Int64>(NL<Smp::Int32>::max()) + 1); r.emplace_back(PK::PTK_Int64, static_cast<Smp::Int64>(1) << 32); r.emplace_back(PK::PTK_Int64, static_cast<Smp::Int64>(NL<Smp::Int32>::min()));
    r.emplace_back(PK::PTK_Bool, true); r.emplace_back(PK::PTK_Bool, false); r.emplace_back(PK::PTK_Char8, 'x'); r.emplace_back(PK::PTK_Char8, '\0'); r.emplace_back(PK::PTK_Duration, static_cast<Smp::Duration>(7)); r.emplace_back(PK::PTK_Duration, NL<Smp::Duration>::min()); r.emplace_back(PK::PTK_DateTime, static_cast<Smp::DateTime>(-7)); r.emplace_back(PK::PTK_DateTime, NL<Smp::DateTime>::max());
    auto flt = [&](PK k, auto one) { using T = decltype(one); for (T x : {T(0), T(-0.0), T(0.5), T(1), T(2), T(-1), NL<T>::infinity(), -NL<T>::infinity(), NL<T>::max(), NL<T>::denorm_min(), std::nextafter(T(1), T(2)), std::nextafter(T(1), T(0)), std::nextafter(T(0.5), T(0))}) r.emplace_back(k, x); }; flt(PK::PTK_Float32, 1.f); flt(PK::PTK_Float64, 1.);
    for (const char *s : {static_cast<const char *>(nullptr), "", "ab", "abc", "abcd", "a much longer string than any of the types allows"}) r.emplace_back(PK::PTK_String8, s); return r; }();
  return v; }
const std::vector<A> &pool(int n) { static const std::vector<A> a = {A(PK::PTK_Int32, 4), A(PK::PTK_Int32, 3), A(PK::PTK_String8, "ab"), A(PK::PTK_String8, "abcdef"), A(PK::PTK_Float64, 0.25), A()}, b = {A(PK::PTK_Int32, 1), A(), A(PK::PTK_Int64, static_cast<Smp::Int64>(1)), A(PK::PTK_String8, "x")}; return n ? b : a; }
enum class V { Ok, BadKind, BadValue };
V judge(const Ty &t, const A &a) {
  if (a.type != t.prim) return V::BadKind; auto in = [&](bool ok) { return ok ? V::Ok : V::BadValue; }; __int128 x = 0; switch (a.type) { case PK::PTK_Int8: x = a.value.int8Value; break; case PK::PTK_Int16: x = a.value.int16Value; break; case PK::PTK_Int32: x = a.value.int32Value; break; case PK::PTK_Int64: x = a.value.int64Value; break; case PK::PTK_UInt8: x = a.value.uInt8Value; break; case PK::PTK_UInt16: x = a.value.uInt16Value; break; case PK::PTK_UInt32: x = a.value.uInt32Value; break; case PK::PTK_UInt64: x = a.value.uInt64Value; break; default: break; }
  switch (t.cls) { case 'i': return in(x >= t.lo && x <= t.hi); case 'e': return in(x >= NL<Smp::Int32>::min() && x <= NL<Smp::Int32>::max() && t.lits.count(static_cast<long long>(x))); case 's': return in(!a.value.string8Value || std::strlen(a.value.string8Value) <= t.len); case 'f': { double d = a.type == PK::PTK_Float32 ? static_cast<double>(a.value.float32Value) : a.value.float64Value; return in((t.li ? d >= t.flo : d > t.flo) && (t.hi_i ? d <= t.fhi : d < t.fhi)); } default: return V::Ok; } }
struct Types { Xsmp::Publication::TypeRegistry reg{nullptr}; Types() { for (auto &t : types()) switch (t.cls) { case 'i': reg.AddIntegerType(t.name, "", t.uuid, static_cast<Smp::Int64>(t.lo), static_cast<Smp::Int64>(t.hi), "", t.prim); break; case 'f': reg.AddFloatType(t.name, "", t.uuid, t.flo, t.fhi, t.li, t.hi_i, "", t.prim); break; case 's': reg.AddStringType(t.name, "", t.uuid, static_cast<Smp::Int64>(t.len)); break; case 'e': { auto *e = reg.AddEnumerationType(t.name, "", t.uuid, t.prim == PK::PTK_Int8 ? 1 : t.prim == PK::PTK_Int16 ? 2 : t.prim == PK::PTK_Int32 ? 4 : 8); for (auto l : t.lits) e->AddLiteral(("l" + std::to_string(l + (1LL << 40))).c_str(), "", static_cast<Smp::Int32>(l)); break; } default: break; } } };
struct Dyn : public Xsmp::Model { using Xsmp::Model::Model; using Xsmp::Model::GetSimulator; std::function<void(Smp::IRequest *)> code; void Invoke(Smp::IRequest *r) override { if (code) code(r); else Xsmp::Model::Invoke(r); } };
// what Xsmp::Request raises: its sender must outlive the conversion of a composed value
template <class F> std::string name(F &&f, const Smp::IObject *sender) { std::exception_ptr p; try { f(); return ""; } catch (const Smp::Exception &) { p = std::current_exception(); } try { std::rethrow_exception(p); } catch (const Smp::Exception &e) { MC_CHECK(!e.GetSender() || e.GetSender() == sender, "sender", e.GetName() << " has a sender that only existed during the call"); return e.GetName(); } }
template <class F> std::string thrown(F &&f) { try { f(); return ""; } catch (const Smp::Exception &e) { if (auto *s = e.GetSender()) if (!s->GetName()) return "sender without name"; return e.GetName(); } }
// what Set... must do with a value; true: it is kept
template <class F> bool put(const Ty &t, const A &a, F &&f, const char *badValue, const std::string &what) { std::string got = thrown([&] { f(A(a)); }); const V v = judge(t, a); const char *want = v == V::Ok ? "" : v == V::BadKind ? "InvalidAnyType" : badValue; MC_CHECK(got == want, std::string("value ") + (v == V::Ok ? "refused" : v == V::BadKind ? "kind" : "range"), what << " of type " << t.name << " to " << rep(a) << " gives '" << got << "' instead of '" << want << "'"); return v == V::Ok; }
struct Par { std::string name; const Ty *t; PD dir; A now; };
struct Op { std::string name; std::vector<Par> par; const Ty *ret = nullptr; A result; };
void same(Smp::IRequest *r, const Op &o) {
  MC_CHECK(r->GetOperationName() == o.name, "request", "name of the request"); MC_CHECK(r->GetParameterCount() == static_cast<int>(o.par.size()), "request", "GetParameterCount is " << r->GetParameterCount()); for (size_t i = 0; i < o.par.size(); ++i) { MC_CHECK(r->GetParameterIndex(o.par[i].name.c_str()) == static_cast<int>(i), "index", "GetParameterIndex of " << o.par[i].name << " is " << r->GetParameterIndex(o.par[i].name.c_str())); A v = r->GetParameterValue(static_cast<int>(i)); MC_CHECK(rep(v) == rep(o.par[i].now), "value", "parameter " << o.par[i].name << " is " << rep(v) << " instead of " << rep(o.par[i].now)); }
  for (const char *n : {static_cast<const char *>(nullptr), "", "zz", "ret", "p"}) MC_CHECK(r->GetParameterIndex(n) == -1, "index", "GetParameterIndex of an unknown name is not -1"); for (int i : {-1, static_cast<int>(o.par.size()), NL<int>::max(), NL<int>::min()}) { try { (void)r->GetParameterValue(i); MC_CHECK(false, "InvalidParameterIndex", "GetParameterValue(" << i << ") gives a value"); } catch (const Smp::InvalidParameterIndex &e) { MC_CHECK(e.GetParameterIndex() == i && e.GetParameterCount() == static_cast<int>(o.par.size()), "InvalidParameterIndex", "InvalidParameterIndex says " << e.GetParameterIndex() << " of " << e.GetParameterCount()); } }
  if (o.ret) MC_CHECK(rep(r->GetReturnValue()) == rep(o.result), "return", "the return value is " << rep(r->GetReturnValue()) << " instead of " << rep(o.result)); else MC_CHECK(thrown([&] { (void)r->GetReturnValue(); }) == "VoidOperation", "VoidOperation", "a void operation has a return value");
}
void publish(Xsmp::Publication::Publication &p, const Op &o) { auto *op = p.PublishOperation(o.name.c_str(), "", Smp::ViewKind::VK_All); for (auto &x : o.par) op->PublishParameter(x.name.c_str(), "", x.t->uuid, x.dir); if (o.ret) op->PublishParameter("ret", "", o.ret->uuid, PD::PDK_Return); }
void setPar(Smp::IRequest *r, Op &o, int i, const A &a) { const int n = static_cast<int>(o.par.size()); if (i < 0 || i >= n) { try { r->SetParameterValue(i, a); MC_CHECK(false, "InvalidParameterIndex", "SetParameterValue(" << i << ") is accepted"); } catch (const Smp::InvalidParameterIndex &e) { MC_CHECK(e.GetParameterIndex() == i && e.GetParameterCount() == n, "InvalidParameterIndex", "InvalidParameterIndex says " << e.GetParameterIndex() << " of " << e.GetParameterCount()); } return; } auto &p = o.par[static_cast<size_t>(i)]; if (put(*p.t, a, [&](A v) { try { r->SetParameterValue(i, std::move(v)); } catch (const Smp::InvalidParameterValue &e) { MC_CHECK(e.GetParameterName() == p.name && rep(e.GetValue()) == rep(a), "InvalidParameterValue", "InvalidParameterValue names " << e.GetParameterName() << " and " << rep(e.GetValue())); throw; } }, "InvalidParameterValue", "setting parameter " + p.name)) p.now = a; }
void setRet(Smp::IRequest *r, Op &o, const A &a) { if (!o.ret) { MC_CHECK(thrown([&] { r->SetReturnValue(a); }) == "VoidOperation", "VoidOperation", "a void operation takes a return value"); return; } if (put(*o.ret, a, [&](A v) { r->SetReturnValue(std::move(v)); }, "InvalidReturnValue", "setting the return value")) o.result = a; }
// index by Publication::Request is of parameters in publication order
}
// every type against every value, twice (the second value after a first valid one), as parameter, as result, and as a property
MC_SCENARIO(values) {
  static const int warm = [] { types(); alphabet(); pool(0); Types t; return 1; }(); (void)warm; const long base = mc::liveBlocks();
  { Types tr; Dyn m("m", "", nullptr, nullptr); Xsmp::Publication::Publication pub(&m, &tr.reg); mc::context("values");
    const Ty &t = types()[static_cast<size_t>(mc::choose(static_cast<int>(types().size())))]; const int where = mc::choose(4); auto any = [&]() -> const A & { return alphabet()[static_cast<size_t>(mc::choose(static_cast<int>(alphabet().size())))]; };
    auto first = [&] { static const A none; for (auto &v : alphabet()) if (judge(t, v) == V::Ok) return v; return none; };
    if (where < 2) { Op o{"op", {}, nullptr, {}}; if (where == 0) o.par = {{"a", &types()[0], PD::PDK_In, {}}, {"b", &t, PD::PDK_InOut, {}}}; else o.ret = &t; publish(pub, o); auto *r = pub.CreateRequest("op"); MC_CHECK(r, "CreateRequest", "no request"); same(r, o); const A f = first(); if (f.type != PK::PTK_None) { if (where == 0) setPar(r, o, 1, f); else setRet(r, o, f); same(r, o); } const A &a = any(); MC_OP("set " << (where ? "result" : "parameter") << " of " << t.name << " to " << rep(a)); if (where == 0) setPar(r, o, 1, a); else setRet(r, o, a); same(r, o); pub.DeleteRequest(r); }
    else { pub.PublishProperty("p", "", t.uuid, Smp::AccessKind::AK_ReadWrite, Smp::ViewKind::VK_All); auto *p = *pub.GetProperties()->begin(); const A &a = any(); MC_OP((where == 2 ? "set" : "get") << " property of " << t.name << " as " << rep(a));
      if (where == 2) { int calls = 0; A got; m.code = [&](Smp::IRequest *r) { ++calls; MC_CHECK(std::string(r->GetOperationName()) == "set_p" && r->GetParameterCount() == 1 && r->GetParameterIndex("p") == 0, "setter", "name or parameters of the setter request"); got = r->GetParameterValue(0); }; bool ok = put(t, a, [&](A v) { p->SetValue(std::move(v)); }, "InvalidParameterValue", "setting a property"); MC_CHECK(calls == (ok ? 1 : 0), "setter", "the setter is called " << calls << " times"); if (ok) MC_CHECK(rep(got) == rep(a), "setter", "the setter receives " << rep(got)); }
      else { int calls = 0; A got; m.code = [&](Smp::IRequest *r) { ++calls; MC_CHECK(std::string(r->GetOperationName()) == "get_p" && r->GetParameterCount() == 0, "getter", "name or parameters of the getter request"); r->SetReturnValue(a); }; bool ok = put(t, a, [&](A) { got = p->GetValue(); }, "InvalidReturnValue", "getting a property"); MC_CHECK(calls == 1, "getter", "the getter is called " << calls << " times"); if (ok) MC_CHECK(rep(got) == rep(a), "getter", "the property gives " << rep(got)); } }
    mc::outcome(static_cast<std::uint64_t>(where)); }
  MC_CHECK(mc::liveBlocks() == base, "leak", "memory of the publication or a request remains");
}
// sequences of calls on requests of operations with up to 3 parameters; two requests of one operation are independent
MC_SCENARIO(calls) {
  static const int warm = [] { types(); alphabet(); pool(0); Types t; return 1; }(); (void)warm; const long base = mc::liveBlocks();
  { Types tr; Dyn m("m", "", nullptr, nullptr); Xsmp::Publication::Publication pub(&m, &tr.reg); mc::context("calls"); const int depth = mc::param("depth", 3);
    const auto &T = types(); static const PD D[] = {PD::PDK_In, PD::PDK_Out, PD::PDK_InOut}; Op o{"op", {}, nullptr, {}}; const int shape = mc::choose(5); switch (shape) { case 0: break; case 1: o.par = {{"b", &T[1], PD::PDK_In, {}}}; o.ret = &T[2]; break; case 2: o.par = {{"b", &T[2], PD::PDK_Out, {}}, {"a", &T[0], PD::PDK_In, {}}}; break; case 3: o.par = {{"c", &T[4], PD::PDK_InOut, {}}, {"b", &T[3], PD::PDK_Out, {}}, {"a", &T[2], PD::PDK_In, {}}}; o.ret = &T[1]; break; default: for (int i = 0; i < 11; ++i) o.par.push_back({"n" + std::to_string(i), &T[i % 2], D[i % 3], {}}); o.ret = &T[4]; }
    publish(pub, o); auto *iop = *pub.GetOperations()->begin(); Op a = o, b = o; auto *ra = pub.CreateRequest("op"), *rb = iop->CreateRequest(); MC_CHECK(ra && rb && ra != rb, "CreateRequest", "no request"); MC_CHECK(!pub.CreateRequest("opp") && !pub.CreateRequest(nullptr) && !pub.CreateRequest(""), "CreateRequest", "a request for an unknown operation"); const auto &VS = pool(0); std::string h; const bool way = mc::flip();
    for (int s = 0; s < depth; ++s) { int c = mc::choose(2 * 6 * 5); int who = c % 2; c /= 2; const A &v = VS[static_cast<size_t>(c % 6)]; c /= 6; Op &x = who ? b : a; auto *r = who ? rb : ra; const int idx = c == 0 ? -1 : c == 1 ? 0 : c == 2 ? static_cast<int>(o.par.size()) - 1 : static_cast<int>(o.par.size()); if (c == 4) { MC_OP("request " << who << ": result " << rep(v)); setRet(r, x, v); } else { MC_OP("request " << who << ": parameter " << idx << " to " << rep(v)); setPar(r, x, idx, v); } same(ra, a); same(rb, b); h.clear(); for (auto *q : {&a, &b}) { for (auto &p : q->par) h += rep(p.now) + ","; h += rep(q->result) + ";"; } if (mc::visit(mc::mix(mc::hashStr(h), static_cast<std::uint64_t>(shape * 1000 + s * 10 + way)))) break; }
    if (way) pub.DeleteRequest(ra), iop->DeleteRequest(rb); else m.DeleteRequest(nullptr), iop->DeleteRequest(ra), pub.DeleteRequest(rb); mc::outcome(static_cast<std::uint64_t>(shape)); }
  MC_CHECK(mc::liveBlocks() == base, "leak", "memory of a request remains");
}
namespace {
// the code of an operation: reads its inputs, writes its outputs and its result through Xsmp::Request
struct Echo { std::vector<std::string> in; std::vector<std::pair<std::string, A>> out; A result; bool hasResult = false; std::vector<std::pair<std::string, PK>> reads; int calls = 0;
  template <class T> std::string one(Dyn &m, Smp::IRequest *r, const std::string &n, PK k) { return rep(Xsmp::AnySimpleConverter<T>::convert(k, Xsmp::Request::get<T>(&m, r, n.c_str(), k))); }
  std::string read(Dyn &m, Smp::IRequest *r, const std::string &n, PK k) { switch (k) { case PK::PTK_Bool: return one<Smp::Bool>(m, r, n, k); case PK::PTK_Char8: return one<Smp::Char8>(m, r, n, k); case PK::PTK_Int8: return one<Smp::Int8>(m, r, n, k); case PK::PTK_Int16: return one<Smp::Int16>(m, r, n, k); case PK::PTK_Int32: return one<Smp::Int32>(m, r, n, k); case PK::PTK_Int64: case PK::PTK_Duration: case PK::PTK_DateTime: return one<Smp::Int64>(m, r, n, k); case PK::PTK_UInt8: return one<Smp::UInt8>(m, r, n, k); case PK::PTK_UInt16: return one<Smp::UInt16>(m, r, n, k); case PK::PTK_UInt32: return one<Smp::UInt32>(m, r, n, k); case PK::PTK_UInt64: return one<Smp::UInt64>(m, r, n, k); case PK::PTK_Float32: return one<Smp::Float32>(m, r, n, k); case PK::PTK_Float64: return one<Smp::Float64>(m, r, n, k); default: { auto s = Xsmp::Request::get<Xsmp::String<40>>(&m, r, n.c_str(), k); return rep(A(k, s.c_str())); } } }
  template <class T> void w(Dyn &m, Smp::IRequest *r, const std::string &n, PK k, T v) { if (n.empty()) Xsmp::Request::setReturnValue(r, k, v); else Xsmp::Request::set(&m, r, n.c_str(), k, v); }
  void write(Dyn &m, Smp::IRequest *r, const std::string &n, const A &a) { switch (a.type) { case PK::PTK_Bool: return w(m, r, n, a.type, a.value.boolValue); case PK::PTK_Char8: return w(m, r, n, a.type, a.value.char8Value); case PK::PTK_Int8: return w(m, r, n, a.type, a.value.int8Value); case PK::PTK_Int16: return w(m, r, n, a.type, a.value.int16Value); case PK::PTK_Int32: return w(m, r, n, a.type, a.value.int32Value); case PK::PTK_Int64: return w(m, r, n, a.type, a.value.int64Value); case PK::PTK_Duration: return w(m, r, n, a.type, a.value.durationValue); case PK::PTK_DateTime: return w(m, r, n, a.type, a.value.dateTimeValue); case PK::PTK_UInt8: return w(m, r, n, a.type, a.value.uInt8Value); case PK::PTK_UInt16: return w(m, r, n, a.type, a.value.uInt16Value); case PK::PTK_UInt32: return w(m, r, n, a.type, a.value.uInt32Value); case PK::PTK_UInt64: return w(m, r, n, a.type, a.value.uInt64Value); case PK::PTK_Float32: return w(m, r, n, a.type, a.value.float32Value); case PK::PTK_Float64: return w(m, r, n, a.type, a.value.float64Value); default: { Xsmp::String<40> s(a.value.string8Value ? a.value.string8Value : ""); if (n.empty()) Xsmp::Request::setReturnValue(r, a.type, s); else Xsmp::Request::set(&m, r, n.c_str(), a.type, s); } } }
  void operator()(Dyn &m, Smp::IRequest *r) { ++calls; in.clear(); for (auto &p : reads) in.push_back(read(m, r, p.first, p.second)); for (auto &p : out) write(m, r, p.first, p.second); if (hasResult) write(m, r, "", result); } };
A firstOf(const Ty &t, int n) { for (auto &v : alphabet()) if (judge(t, v) == V::Ok && v.type == t.prim && !(v.type == PK::PTK_String8 && (!v.value.string8Value || std::strlen(v.value.string8Value) > 40)) && n-- == 0) return v; return {}; }
}
// invocation: two parameters of every direction, one of every type; inputs arrive, outputs and the result come back
MC_SCENARIO(invoke) {
  static const int warm = [] { types(); alphabet(); pool(0); Types t; return 1; }(); (void)warm; const long base = mc::liveBlocks();
  { Types tr; Dyn m("m", "", nullptr, nullptr); Xsmp::Publication::Publication pub(&m, &tr.reg); mc::context("invoke"); const auto &T = types(); static const PD D[] = {PD::PDK_In, PD::PDK_Out, PD::PDK_InOut};
    const Ty &t = T[static_cast<size_t>(mc::choose(static_cast<int>(T.size())))]; const Ty &u = T[static_cast<size_t>(mc::choose(5))]; const int d1 = mc::choose(3), d2 = mc::choose(3), rt = mc::choose(3); Op o{"op", {{"b", &t, D[d1], {}}, {"a", &u, D[d2], {}}}, rt == 0 ? nullptr : rt == 1 ? &u : &t, {}}; publish(pub, o); auto *iop = *pub.GetOperations()->begin(); auto *r = iop->CreateRequest(); Echo e; m.code = [&](Smp::IRequest *q) { e(m, q); };
    bool possible = true; std::vector<std::string> want; for (auto &p : o.par) { A v = firstOf(*p.t, 0), w = firstOf(*p.t, 1); if (w.type == PK::PTK_None) w = v; if (v.type == PK::PTK_None) possible = false; if (p.dir != PD::PDK_Out) { e.reads.push_back({p.name, p.t->prim}); want.push_back(rep(v)); } if (p.dir != PD::PDK_In) e.out.push_back({p.name, w}); if (p.dir != PD::PDK_Out) p.now = v; } if (o.ret) { e.hasResult = true; e.result = firstOf(*o.ret, 0); if (e.result.type == PK::PTK_None) possible = false; }
    if (possible) { const int how = mc::choose(2), missing = mc::choose(3); MC_OP("invoke with " << t.name << " and " << u.name); for (size_t i = 0; i < 2; ++i) if (missing != static_cast<int>(i) && o.par[i].dir != PD::PDK_Out) r->SetParameterValue(static_cast<int>(i), o.par[i].now); else o.par[i].now = {}; const bool lacks = missing < 2 && o.par[static_cast<size_t>(missing)].dir != PD::PDK_Out; std::string x = thrown([&] { if (how) iop->Invoke(r); else m.Invoke(r); });
      if (lacks) { MC_CHECK(x == "InvalidParameterType", "invoke", "an operation is invoked without one of its inputs: " << x); MC_CHECK(e.calls == (how ? 0 : 1), "invoke", "the operation is called although an input is missing"); same(r, o); }
      else { MC_CHECK(x.empty() && e.calls == 1, "invoke", "invoke gives " << x << ", " << e.calls << " calls"); MC_CHECK(e.in == want, "invoke", "the operation receives " << (e.in.empty() ? "nothing" : e.in[0]) << " instead of " << (want.empty() ? "" : want[0])); for (auto &p : o.par) for (auto &q : e.out) if (q.first == p.name) p.now = q.second.type == PK::PTK_String8 && !q.second.value.string8Value ? A(PK::PTK_String8, "") : q.second; if (o.ret) o.result = e.result.type == PK::PTK_String8 && !e.result.value.string8Value ? A(PK::PTK_String8, "") : e.result; same(r, o); } }
    iop->DeleteRequest(r); mc::outcome(static_cast<std::uint64_t>(d1 * 3 + d2)); }
  MC_CHECK(mc::liveBlocks() == base, "leak", "memory of a request remains");
}
namespace {
struct FakeRequest : Smp::IRequest { std::string name; std::vector<std::pair<std::string, A>> par; std::string GetName() { return name; } Smp::String8 GetOperationName() const override { return name.c_str(); } Smp::Int32 GetParameterCount() const override { return static_cast<int>(par.size()); } Smp::Int32 GetParameterIndex(Smp::String8 n) const override { for (size_t i = 0; i < par.size(); ++i) if (par[i].first == n) return static_cast<int>(i); return -1; } void SetParameterValue(Smp::Int32 i, A v) override { par.at(static_cast<size_t>(i)).second = v; } A GetParameterValue(Smp::Int32 i) const override { return par.at(static_cast<size_t>(i)).second; } void SetReturnValue(A) override {} A GetReturnValue() const override { return {}; } };
}
// what an operation refuses, and the requests of properties of every access
MC_SCENARIO(refusals) {
  static const int warm = [] { types(); alphabet(); pool(0); Types t; return 1; }(); (void)warm; const long base = mc::liveBlocks();
  { Types tr; Dyn m("m", "", nullptr, nullptr); Xsmp::Publication::Publication pub(&m, &tr.reg); mc::context("refusals"); const auto &T = types(); int calls = 0; std::string last; m.code = [&](Smp::IRequest *r) { ++calls; last = r->GetOperationName(); };
    Op o{"op", {{"a", &T[0], PD::PDK_In, {}}, {"b", &T[2], PD::PDK_Out, {}}}, nullptr, {}}, p{"other", {{"a", &T[0], PD::PDK_In, {}}}, &T[0], {}}; publish(pub, o); publish(pub, p); auto *op = *pub.GetOperations()->begin();
    const int what = mc::choose(3);
    if (what == 0) { // foreign requests
      FakeRequest f; const int n = mc::choose(3); f.name = n == 0 ? "op" : n == 1 ? "other" : ""; const int count = mc::choose(4); const auto &AV = pool(1); const int av = mc::choose(4), bv = mc::choose(4); const bool swap = mc::flip(); if (count > 0) f.par.push_back({"a", AV[static_cast<size_t>(av)]}); if (count > 1) f.par.push_back({"b", AV[static_cast<size_t>(bv)]}); if (count > 2) f.par.push_back({"c", AV[static_cast<size_t>(bv)]}); if (swap && count > 1) std::swap(f.par[0], f.par[1]); MC_OP("invoke op with a request '" << f.name << "' of " << count << " parameters"); std::string x = thrown([&] { op->Invoke(&f); }); const char *want = n ? "InvalidOperationName" : count != 2 ? "InvalidParameterCount" : av ? "InvalidParameterType" : ""; MC_CHECK(x == want, "refusal", "invoking op gives '" << x << "' instead of '" << want << "'"); MC_CHECK(calls == (*want ? 0 : 1), "refusal", "the operation is called " << calls << " times"); MC_CHECK(thrown([&] { op->Invoke(nullptr); }) == "InvalidOperationName", "refusal", "a null request"); 
      Xsmp::Publication::Publication nowhere(&tr.reg, &tr.reg); publish(nowhere, o); if (n == 0 && count == 2 && !av) MC_CHECK(thrown([&] { (*nowhere.GetOperations()->begin())->Invoke(&f); }) == "InvalidOperationName", "refusal", "an operation of something that cannot be invoked"); }
    else if (what == 1) { // properties
      const auto acc = static_cast<Smp::AccessKind>(mc::choose(3)); const bool shadow = mc::flip(); const bool later = mc::flip(); const Ty &t = T[static_cast<size_t>(mc::choose(5))]; if (later) pub.PublishProperty("p", "x", T[0].uuid, static_cast<Smp::AccessKind>(mc::choose(3)), Smp::ViewKind::VK_None); pub.PublishProperty("p", "y", t.uuid, acc, Smp::ViewKind::VK_All); if (shadow) { Op g{"get_p", {}, &T[2], {}}, s{"set_p", {}, nullptr, {}}; publish(pub, g); publish(pub, s); } auto *pr = pub.GetProperties()->at(static_cast<size_t>(0)); MC_CHECK(pub.GetProperties()->size() == 1, "property", "number of properties");
      MC_OP("property of " << t.name << ", access " << static_cast<int>(acc)); const bool rd = acc != Smp::AccessKind::AK_WriteOnly, wr = acc != Smp::AccessKind::AK_ReadOnly; A v = firstOf(t, 0); std::string x = thrown([&] { pr->SetValue(v); }); MC_CHECK(wr ? x.empty() && calls == 1 && last == "set_p" : !x.empty() && calls == 0, "access", "SetValue: '" << x << "', " << calls << " calls"); calls = 0; x = thrown([&] { (void)pr->GetValue(); }); MC_CHECK(rd ? x.empty() && calls == 1 && last == "get_p" : !x.empty() && calls == 0, "access", "GetValue: '" << x << "', " << calls << " calls");
      auto *g = pub.CreateRequest("get_p"), *s = pub.CreateRequest("set_p"); MC_CHECK((g != nullptr) == (rd || shadow) && (s != nullptr) == (wr || shadow), "CreateRequest", "requests of a property of access " << static_cast<int>(acc)); MC_CHECK(!pub.CreateRequest("get_q") && !pub.CreateRequest("get_") && !pub.CreateRequest("p") && !pub.CreateRequest("get"), "CreateRequest", "a request for an unknown property");
      if (!shadow) { if (g) { Op q{"get_p", {}, &t, {}}; MC_CHECK(thrown([&] { g->SetParameterValue(0, v); }) == "InvalidParameterIndex", "getter", "a getter takes a parameter"); same(g, q); setRet(g, q, v); setRet(g, q, A(PK::PTK_Bool, true)); same(g, q); }
        if (s) { MC_CHECK(s->GetParameterCount() == 1 && rep(s->GetParameterValue(0)) == rep(A()) && std::string(s->GetOperationName()) == "set_p" && s->GetParameterIndex("p") == 0, "setter", "a new setter request"); Op q{"set_p", {{"p", &t, PD::PDK_In, {}}}, nullptr, {}}; setPar(s, q, 0, v); setPar(s, q, 0, A(PK::PTK_Bool, true)); setPar(s, q, 1, v); setPar(s, q, -1, v); setRet(s, q, v); MC_CHECK(rep(s->GetParameterValue(0)) == rep(q.par[0].now), "setter", "value of the setter"); MC_CHECK(thrown([&] { (void)s->GetParameterValue(1); }) == "InvalidParameterIndex" && thrown([&] { (void)s->GetReturnValue(); }) == "VoidOperation", "setter", "reading beyond the parameter"); } }
      else { MC_CHECK(g->GetParameterCount() == 0 && s->GetParameterCount() == 0, "CreateRequest", "an operation is not preferred to a property"); MC_CHECK(thrown([&] { s->SetReturnValue(v); }) == "VoidOperation", "CreateRequest", "result of set_p"); }
      pub.DeleteRequest(g); pub.DeleteRequest(s); pub.DeleteRequest(nullptr); }
    else { // publication of parameters
      auto *po = dynamic_cast<Smp::Publication::IPublishOperation *>(op); const int n = mc::choose(4); static const char *const NM[] = {"a", "ret", "c", "1x"}; const bool isRet = mc::flip(), known = mc::flip(); const bool had = mc::flip(); if (had) po->PublishParameter("ret", "", T[0].uuid, PD::PDK_Return); MC_OP("publish parameter " << NM[n]); std::string x = thrown([&] { po->PublishParameter(NM[n], "d", known ? T[1].uuid : Smp::Uuid{9, 9, 9, 9, 9}, isRet ? PD::PDK_Return : PD::PDK_InOut); }); std::set<std::string> why; if (!known) why.insert("TypeNotRegistered"); if (isRet && had) why.insert("InvalidParameterDirection"); if (n == 0 || (n == 1 && had)) why.insert("DuplicateName"); if (n == 3) why.insert("InvalidObjectName"); MC_CHECK(why.empty() ? x.empty() : why.count(x) > 0, "parameter", "publishing a parameter gives '" << x << "'"); const bool added = why.empty(); auto *ps = op->GetParameters(); MC_CHECK(ps->size() == 2u + (added && !isRet ? 1 : 0), "parameter", "number of parameters"); auto *rp = op->GetReturnParameter(); MC_CHECK((rp != nullptr) == (had || (added && isRet)), "parameter", "return parameter"); auto *q = op->GetParameter(NM[n]); MC_CHECK((q != nullptr) == (added || n == 0 || (n == 1 && had)), "parameter", "GetParameter(" << NM[n] << ")"); if (added) { MC_CHECK(std::string(q->GetName()) == NM[n] && q->GetType() == tr.reg.GetType(T[1].uuid) && q->GetDirection() == (isRet ? PD::PDK_Return : PD::PDK_InOut) && q->GetParent() == dynamic_cast<Smp::IObject *>(op) && std::string(q->GetDescription()) == "d", "parameter", "the parameter published"); MC_CHECK(isRet ? q == rp : q == ps->at(static_cast<size_t>(2)), "parameter", "order of the parameters"); } }
    mc::outcome(static_cast<std::uint64_t>(what)); }
  MC_CHECK(mc::liveBlocks() == base, "leak", "memory of a request remains");
}
namespace {
const Smp::Uuid UA{2, 0, 0, 0, 1}, UP{2, 0, 0, 0, 2}, UPS{2, 0, 0, 0, 3}, UC{2, 0, 0, 0, 4}, US{2, 0, 0, 0, 5}, UST{2, 0, 0, 0, 6}; using Reg = Smp::Publication::ITypeRegistry; namespace SU = Smp::Uuids;
using Arr = Xsmp::Array<Smp::Int32, 3>; using SAr = Xsmp::Array<Smp::Int32, 3, Xsmp::Annotation::simpleArray>; using Str3 = Xsmp::String<3>;
struct Pt { Smp::Int16 x; Smp::Float64 y; template <typename B> struct _Field : public B { _Field(Reg *r, Smp::Uuid t, Smp::String8 n, Smp::String8 d = "", Smp::IObject *p = nullptr, Smp::ViewKind v = Smp::ViewKind::VK_None, const Pt &q = {}) : B(r, t, n, d, p, v), x{r, SU::Uuid_Int16, "x", "", this, v, q.x}, y{r, SU::Uuid_Float64, "y", "", this, v, q.y} {} template <class T> using F = typename B::template Field<T>; F<Smp::Int16> x; F<Smp::Float64> y; }; };
using Pts = Xsmp::Array<Pt, 2>;
struct Cx { Pt p; SAr a; Str3 s; Pts ps; template <typename B> struct _Field : public B { _Field(Reg *r, Smp::Uuid t, Smp::String8 n, Smp::String8 d = "", Smp::IObject *o = nullptr, Smp::ViewKind v = Smp::ViewKind::VK_None, const Cx &q = {}) : B(r, t, n, d, o, v), p{r, UP, "p", "", this, v, q.p}, a{r, US, "a", "", this, v, q.a}, s{r, UST, "s", "", this, v, q.s}, ps{r, UPS, "ps", "", this, v, q.ps} {} template <class T> using F = typename B::template Field<T>; F<Pt> p; F<SAr> a; F<Str3> s; F<Pts> ps; }; };
}
// values of array and structure type, through the names of their leaves
MC_SCENARIO(composed) {
  static const int warm = [] { types(); alphabet(); pool(0); Types t; return 1; }(); (void)warm;
  { Xsmp::Simulator sim("sim", ""); auto *reg = sim.GetTypeRegistry(); mc::context("composed"); Dyn m("m", "", nullptr, &sim);
    reg->AddArrayType("Arr", "", UA, SU::Uuid_Int32, 4, 3, false); reg->AddArrayType("SArr", "", US, SU::Uuid_Int32, 4, 3, true); reg->AddStringType("Str3", "", UST, 3); auto *s = reg->AddStructureType("Pt", "", UP); s->AddField("x", "", SU::Uuid_Int16, offsetof(Pt, x)); s->AddField("y", "", SU::Uuid_Float64, offsetof(Pt, y)); reg->AddArrayType("Pts", "", UPS, UP, sizeof(Pt), 2, false); auto *c = reg->AddStructureType("Cx", "", UC); c->AddField("p", "", UP, offsetof(Cx, p)); c->AddField("a", "", US, offsetof(Cx, a)); c->AddField("s", "", UST, offsetof(Cx, s)); c->AddField("ps", "", UPS, offsetof(Cx, ps));
    static const std::vector<std::string> L3 = {"[0]", "[1]", "[2]"}, LP = {".x", ".y"}, LPS = {"[0].x", "[0].y", "[1].x", "[1].y"}, LC = {".p.x", ".p.y", ".a[0]", ".a[1]", ".a[2]", ".s", ".ps[0].x", ".ps[0].y", ".ps[1].x", ".ps[1].y"};
    auto one = [&](auto zero, const Smp::Uuid &uuid, const std::vector<std::string> &leaves, auto make, auto flat) { using T = decltype(zero);
      Xsmp::Publication::Publication pub(&m, reg); auto *po = pub.PublishOperation("op", "", Smp::ViewKind::VK_All); po->PublishParameter("v", "", uuid, PD::PDK_InOut); po->PublishParameter("k", "", SU::Uuid_Int32, PD::PDK_In); auto *op = *pub.GetOperations()->begin(); Xsmp::Publication::Request r(op, reg); MC_CHECK(r.GetParameterCount() == static_cast<int>(leaves.size()) + 1, "leaves", "a parameter of a composed type has " << r.GetParameterCount() - 1 << " leaves"); for (size_t i = 0; i < leaves.size(); ++i) MC_CHECK(r.GetParameterIndex(("v" + leaves[i]).c_str()) == static_cast<int>(i), "leaves", "index of leaf " << leaves[i]); MC_CHECK(r.GetParameterIndex("k") == static_cast<int>(leaves.size()) && r.GetParameterIndex("v") == -1, "leaves", "index of the parameter after a composed one");
      const std::vector<A> ten = flat(make(10)), ninety = flat(make(90)); // a request in which one leaf (or none) is missing or of another kind
      FakeRequest f; f.name = "op"; const int bad = mc::choose(static_cast<int>(leaves.size()) + 1) - 1; const int how = bad < 0 ? 0 : mc::choose(2); const bool dflt = mc::flip(); const A wrong = bad >= 0 && ten[static_cast<size_t>(bad)].type == PK::PTK_String8 ? A(PK::PTK_Int32, 1) : A(PK::PTK_String8, "zz"); for (size_t i = leaves.size(); i-- > 0;) if (static_cast<int>(i) != bad || how == 1) f.par.push_back({"v" + leaves[i], static_cast<int>(i) == bad ? wrong : ten[i]}); MC_OP("get a value with " << leaves.size() << " leaves" << (bad >= 0 ? (how ? ", one of another kind" : ", one missing") : "") << (dflt ? ", default" : ""));
      T v = zero; std::string x; constexpr bool GET = std::is_same_v<T, Arr> || std::is_same_v<T, SAr>; // a structure has no conversion from its field
      if constexpr (GET) { x = name([&] { v = dflt ? Xsmp::Request::get<T>(&m, &f, "v", uuid, make(90)) : Xsmp::Request::get<T>(&m, &f, "v", uuid); }, &m); if (bad >= 0 && (how == 1 || !dflt)) MC_CHECK(!x.empty(), "extract", (how ? "a leaf of another kind" : "a missing leaf") << " is accepted"); else { MC_CHECK(x.empty(), "extract", "extracting gives " << x); auto got = flat(v); for (size_t i = 0; i < leaves.size(); ++i) MC_CHECK(rep(got[i]) == rep(static_cast<int>(i) == bad ? ninety[i] : ten[i]), "extract", "leaf " << leaves[i] << " is " << rep(got[i])); } }
      for (auto &p : f.par) p.second = {}; x = name([&] { Xsmp::Request::set(&m, &f, "v", uuid, make(90)); }, &m); if (bad >= 0 && how == 0) MC_CHECK(!x.empty(), "inject", "a missing leaf is ignored"); else { MC_CHECK(x.empty(), "inject", "writing back gives " << x); for (size_t i = 0; i < leaves.size(); ++i) for (auto &p : f.par) if (p.first == "v" + leaves[i]) MC_CHECK(rep(p.second) == rep(ninety[i]), "inject", "leaf " << leaves[i] << " is written as " << rep(p.second)); }
      Xsmp::Request::set(&m, &r, "v", uuid, make(90)); for (size_t i = 0; i < leaves.size(); ++i) MC_CHECK(rep(r.GetParameterValue(static_cast<int>(i))) == rep(ninety[i]), "inject", "leaf " << i << " of a request is " << rep(r.GetParameterValue(static_cast<int>(i)))); if constexpr (GET) { v = Xsmp::Request::get<T>(&m, &r, "v", uuid); auto got = flat(v); for (size_t i = 0; i < leaves.size(); ++i) MC_CHECK(rep(got[i]) == rep(ninety[i]), "extract", "leaf " << leaves[i] << " of a request"); } };
    auto pt = [](int b) { return Pt{static_cast<Smp::Int16>(b), b + .5}; }; auto fpt = [](const Pt &p) { return std::vector<A>{A(PK::PTK_Int16, p.x), A(PK::PTK_Float64, p.y)}; }; auto i3 = [](const auto &a) { std::vector<A> r; for (auto v : a) r.push_back(A(PK::PTK_Int32, v)); return r; }; auto fps = [&](const Pts &a) { std::vector<A> r; for (auto &p : a) for (auto &v : fpt(p)) r.push_back(v); return r; };
    const int which = mc::choose(5); switch (which) {
    case 0: one(Arr{}, UA, L3, [](int b) { return Arr{{b, -b, b + 2}}; }, i3); break; case 1: one(SAr{}, US, L3, [](int b) { return SAr{{b, -b, b + 2}}; }, i3); break; case 2: one(Pt{}, UP, LP, pt, fpt); break; case 3: one(Pts{}, UPS, LPS, [&](int b) { return Pts{{pt(b), pt(b + 1)}}; }, fps); break;
    default: one(Cx{}, UC, LC, [&](int b) { return Cx{pt(b), {{b + 2, b + 3, b + 4}}, Str3(b == 10 ? "ten" : "n"), {{pt(b + 6), pt(b + 7)}}}; }, [&](const Cx &q) { auto r = fpt(q.p); for (auto &v : i3(q.a)) r.push_back(v); r.push_back(A(PK::PTK_String8, q.s.c_str())); for (auto &v : fps(q.ps)) r.push_back(v); return r; }); }
    mc::outcome(static_cast<std::uint64_t>(which)); }
}
