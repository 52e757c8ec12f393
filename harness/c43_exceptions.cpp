// C43: what an exception tells: every kind of exception over every combination of an alphabet of arguments, read after
// the arguments are gone, and every refusal of the components with the objects and values it is about.
#include "mc.h"
#include "simenv.h"
#include <Smp/CannotDelete.h>
#include <Smp/CannotRemove.h>
#include <Smp/CannotRestore.h>
#include <Smp/CannotStore.h>
#include <Smp/ContainerFull.h>
#include <Smp/DuplicateName.h>
#include <Smp/DuplicateUuid.h>
#include <Smp/EventSinkAlreadySubscribed.h>
#include <Smp/EventSinkNotSubscribed.h>
#include <Smp/FieldAlreadyConnected.h>
#include <Smp/IArrayField.h>
#include <Smp/IDataflowField.h>
#include <Smp/IOperation.h>
#include <Smp/IProperty.h>
#include <Smp/IRequest.h>
#include <Smp/ISimpleArrayField.h>
#include <Smp/InvalidAnyType.h>
#include <Smp/InvalidArrayIndex.h>
#include <Smp/InvalidArraySize.h>
#include <Smp/InvalidArrayValue.h>
#include <Smp/InvalidComponentState.h>
#include <Smp/InvalidEventSink.h>
#include <Smp/InvalidFieldName.h>
#include <Smp/InvalidFieldType.h>
#include <Smp/InvalidFieldValue.h>
#include <Smp/InvalidLibrary.h>
#include <Smp/InvalidObjectName.h>
#include <Smp/InvalidObjectType.h>
#include <Smp/InvalidOperationName.h>
#include <Smp/InvalidParameterCount.h>
#include <Smp/InvalidParameterIndex.h>
#include <Smp/InvalidParameterType.h>
#include <Smp/InvalidParameterValue.h>
#include <Smp/InvalidReturnValue.h>
#include <Smp/InvalidSimulatorState.h>
#include <Smp/InvalidTarget.h>
#include <Smp/LibraryNotFound.h>
#include <Smp/NotContained.h>
#include <Smp/NotReferenced.h>
#include <Smp/Publication/DuplicateLiteral.h>
#include <Smp/Publication/IEnumerationType.h>
#include <Smp/Publication/IPublishOperation.h>
#include <Smp/Publication/InvalidPrimitiveType.h>
#include <Smp/Publication/TypeAlreadyRegistered.h>
#include <Smp/Publication/TypeNotRegistered.h>
#include <Smp/ReferenceFull.h>
#include <Smp/Services/EntryPointAlreadySubscribed.h>
#include <Smp/Services/EntryPointNotSubscribed.h>
#include <Smp/Services/InvalidCycleTime.h>
#include <Smp/Services/InvalidEventId.h>
#include <Smp/Services/InvalidEventName.h>
#include <Smp/Services/InvalidEventTime.h>
#include <Smp/Services/InvalidSimulationTime.h>
#include <Smp/VoidOperation.h>
#include <Xsmp/Container.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Aggregate.h>
#include <Xsmp/EventSink.h>
#include <Xsmp/EventSource.h>
#include <Xsmp/EventConsumer.h>
#include <Xsmp/EventProvider.h>
#include <Xsmp/Exception.h>
#include <Xsmp/Factory.h>
#include <Xsmp/Publication/Publication.h>
#include <Xsmp/Publication/TypeRegistry.h>
#include <Xsmp/Reference.h>
#include <Xsmp/Services/XsmpScheduler.h>
#include <Xsmp/Services/XsmpTimeKeeper.h>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <memory>
#include <vector>
namespace {
namespace X = Xsmp::Exception; using A = Smp::AnySimple; using PK = Smp::PrimitiveTypeKind; using CS = Smp::ComponentStateKind; using SS = Smp::SimulatorStateKind; namespace PB = Smp::Publication; namespace SV = Smp::Services;
template <class T> using NL = std::numeric_limits<T>;
// a string that ends when the scope that made the call is left
struct Str { std::unique_ptr<char[]> p; explicit Str(const char *s) { if (s) { p = std::make_unique<char[]>(std::strlen(s) + 1); std::strcpy(p.get(), s); } } operator const char *() const { return p.get(); } std::string_view view() const { return p ? std::string_view(p.get()) : std::string_view(); } };
const std::string LONG(300, 'n');
const char *text() { switch (mc::choose(5)) { case 0: return "a"; case 1: return nullptr; case 2: return ""; case 3: return "with space['] \xc3\xa9%s%n"; default: return LONG.c_str(); } }
template <class T> T number() { switch (mc::choose(5)) { case 0: return T(1); case 1: return T(0); case 2: return T(-1); case 3: return NL<T>::min(); default: return NL<T>::max(); } }
Smp::Duration lapse() { auto n = number<Smp::Duration>(); return n == NL<Smp::Duration>::min() ? n + 1 : n; } // the least duration cannot be shown
PK kind() { return static_cast<PK>(mc::choose(16)); }
A value() { switch (mc::choose(5)) { case 0: return A(PK::PTK_Int32, 7); case 1: return A(); case 2: return A(PK::PTK_String8, LONG.c_str()); case 3: return A(PK::PTK_Float64, -0.5); default: return A(PK::PTK_UInt64, NL<Smp::UInt64>::max()); } }
bool same(const char *a, const char *b) { return b ? a && std::strcmp(a, b) == 0 : a != nullptr; } // a missing string is shown in some way
// what is told must still be true after the exception has left the place where it was raised
template <class T, class F, class G> void raised(const char *cls, const Smp::IObject *sender, F &&f, G &&payload, const char *mention = nullptr) {
  std::exception_ptr p; try { f(); } catch (...) { p = std::current_exception(); } MC_CHECK(p, "nothing", cls << " was not raised");
  std::string first;
  for (int i = 0; i < 2; ++i) {
    try { std::rethrow_exception(p); }
    catch (const T &e) {
      MC_CHECK(e.GetName() && std::strcmp(e.GetName(), cls) == 0, "name", "the name of " << cls << " is " << (e.GetName() ? e.GetName() : "null")); MC_CHECK(e.GetSender() == sender, "sender", "wrong sender of " << cls);
      MC_CHECK(e.GetDescription() && e.GetMessage() && e.what(), "text", "a text of " << cls << " is missing"); const std::string all = std::string(e.GetName()) + "(" + e.GetDescription() + "): " + e.GetMessage(); MC_CHECK(all == e.what(), "what", "what() of " << cls << " is " << e.what());
      if (mention) MC_CHECK(std::strstr(e.GetMessage(), mention), "message", "the message of " << cls << " does not tell what was refused: " << e.GetMessage());
      if (i == 0) first = all; else MC_CHECK(first == all, "changed", "what " << cls << " tells has changed"); payload(e);
      MC_CHECK(dynamic_cast<const Smp::Exception *>(&e) && dynamic_cast<const std::exception *>(static_cast<const Smp::Exception *>(&e)), "base", cls << " is not a standard exception"); }
    catch (const Smp::Exception &e) { MC_CHECK(false, "class", e.GetName() << " instead of " << cls); }
    catch (...) { MC_CHECK(false, "class", "an unknown exception instead of " << cls); }
  }
}
template <class T, class F> void raised(const char *cls, const Smp::IObject *sender, F &&f) { raised<T>(cls, sender, std::forward<F>(f), [](const T &) {}); }
#define SAYS(GETTER, WANT) MC_CHECK(e.GETTER() == (WANT), "payload", #GETTER "() is wrong")
#define TELLS(GETTER, WANT) MC_CHECK(same(e.GETTER(), WANT), "payload", #GETTER "() is " << (e.GETTER() ? e.GETTER() : "null"))
struct Dyn : public Xsmp::Model, public virtual Xsmp::Composite, public virtual Xsmp::Aggregate, public virtual Xsmp::EventConsumer, public virtual Xsmp::EventProvider { using Xsmp::Model::Model; };
const Smp::Uuid SIMPLE{7, 0, 0, 0, 1}, ARRAY{7, 0, 0, 0, 2}, ENUM{7, 0, 0, 0, 3}, ENUMS{7, 0, 0, 0, 4}, UNKNOWN{7, 0, 0, 0, 9};
struct World {
  Dyn root{"root", "", nullptr, nullptr}, other{"other", "", &root, nullptr}; Xsmp::Container<Smp::IComponent> ctn{"ctn", "", &root, 1, 2}; Xsmp::Reference<Smp::IComponent> ref{"ref", "", &root, 1, 2};
  Xsmp::EventSource<void> src{"src", "", &root}; Xsmp::EventSink<void> snk{"snk", "", &other, [](Smp::IObject *) {}};
  Xsmp::Publication::TypeRegistry reg{nullptr}; Xsmp::Publication::Publication pub{&root, &reg}; Smp::Int32 ints[3] = {1, 2, 3}, arr[3] = {1, 2, 3}, e[3] = {1, 1, 1}, f = 1, g = 1; Smp::Float64 d = 1;
  Smp::ISimpleArrayField *simple, *enums; Smp::IArrayField *array; Smp::IDataflowField *out; Smp::IField *in, *dbl; Smp::IOperation *op, *vop;
  World() {
    reg.AddArrayType("Simple", "", SIMPLE, Smp::Uuids::Uuid_Int32, 4, 3, true); reg.AddArrayType("Array", "", ARRAY, Smp::Uuids::Uuid_Int32, 4, 3, false); reg.AddEnumerationType("Enum", "", ENUM, 4)->AddLiteral("one", "", 1); reg.AddArrayType("Enums", "", ENUMS, ENUM, 4, 3, true);
    pub.PublishField("simple", "", ints, SIMPLE); pub.PublishField("array", "", arr, ARRAY); pub.PublishField("enums", "", e, ENUMS); pub.PublishField("out", "", &f, Smp::ViewKind::VK_All, true, false, true); pub.PublishField("in", "", &g, Smp::ViewKind::VK_All, true, true, false); pub.PublishField("dbl", "", &d, Smp::ViewKind::VK_All, true, true, false);
    simple = dynamic_cast<Smp::ISimpleArrayField *>(pub.GetField("simple")); enums = dynamic_cast<Smp::ISimpleArrayField *>(pub.GetField("enums")); array = dynamic_cast<Smp::IArrayField *>(pub.GetField("array")); out = dynamic_cast<Smp::IDataflowField *>(pub.GetField("out")); in = pub.GetField("in"); dbl = pub.GetField("dbl");
    auto *o = pub.PublishOperation("op", ""); o->PublishParameter("p", "", Smp::Uuids::Uuid_Int32, PB::ParameterDirectionKind::PDK_In); o->PublishParameter("q", "", ENUM, PB::ParameterDirectionKind::PDK_In); o->PublishParameter("r", "", ENUM, PB::ParameterDirectionKind::PDK_Return); pub.PublishOperation("vop", ""); op = pub.GetOperations()->at("op"); vop = pub.GetOperations()->at("vop");
    pub.PublishProperty("prop", "", ENUM, Smp::AccessKind::AK_ReadWrite);
    rt(simple && enums && array && out && in && dbl && op && vop); }
  static void rt(bool ok) { MC_CHECK(ok, "publication", "a published feature is missing"); }
};
MC_SCENARIO(kinds) {
  World w; const Smp::IObject *s = nullptr; switch (mc::choose(3)) { case 0: s = &w.other; break; case 1: s = &w.root; break; default: break; } const int which = mc::choose(50); MC_OP("exception " << which);
  switch (which) {
  case 0: raised<Smp::FieldAlreadyConnected>("FieldAlreadyConnected", s, [&] { X::throwFieldAlreadyConnected(s, w.out, w.in); }, [&](auto &e) { SAYS(GetSource, w.out); SAYS(GetTarget, w.in); }, "in"); break;
  case 1: raised<Smp::InvalidTarget>("InvalidTarget", s, [&] { X::throwInvalidTarget(s, w.out, w.dbl); }, [&](auto &e) { SAYS(GetSource, w.out); SAYS(GetTarget, w.dbl); }, "dbl"); break;
  case 2: { auto *t = text(); raised<Smp::CannotStore>("CannotStore", s, [&] { Str a(t); X::throwCannotStore(s, a.view()); }, [&](auto &e) { MC_CHECK(std::string(e.GetMessage()) == (t ? t : ""), "message", "the message is changed"); }); break; }
  case 3: { auto *t = text(); raised<Smp::CannotRestore>("CannotRestore", s, [&] { Str a(t); X::throwCannotRestore(s, a.view()); }, [&](auto &e) { MC_CHECK(std::string(e.GetMessage()) == (t ? t : ""), "message", "the message is changed"); }); break; }
  case 4: { auto *t = text(), *u = text(); raised<Smp::InvalidObjectName>("InvalidObjectName", s, [&] { Str a(t), b(u); X::throwInvalidObjectName(s, a, b.view()); }, [&](auto &e) { TELLS(GetInvalidName, t); }, t); break; }
  case 5: raised<Smp::ContainerFull>("ContainerFull", &w.ctn, [&] { X::throwContainerFull(&w.ctn); }, [&](auto &e) { TELLS(GetContainerName, "ctn"); SAYS(GetContainerSize, w.ctn.GetCount()); }, "ctn"); break;
  case 6: { auto *t = text(); raised<Smp::DuplicateName>("DuplicateName", s, [&] { Str a(t); X::throwDuplicateName(s, a, &w.ctn); }, [&](auto &e) { TELLS(GetDuplicateName, t); }, t); break; }
  case 7: raised<Smp::NotContained>("NotContained", &w.ctn, [&] { X::throwNotContained(&w.ctn, &w.other); }, [&](auto &e) { TELLS(GetContainerName, "ctn"); SAYS(GetComponent, static_cast<Smp::IComponent *>(&w.other)); }, "other"); break;
  case 8: raised<Smp::CannotDelete>("CannotDelete", &w.ctn, [&] { X::throwCannotDelete(&w.ctn, &w.other); }, [&](auto &e) { TELLS(GetContainerName, "ctn"); SAYS(GetComponent, static_cast<Smp::IComponent *>(&w.other)); SAYS(GetLowerLimit, 1); }, "other"); break;
  case 9: { auto a = static_cast<CS>(mc::choose(5)), b = static_cast<CS>(mc::choose(5)); raised<Smp::InvalidComponentState>("InvalidComponentState", &w.other, [&] { X::throwInvalidComponentState(&w.other, a, b); }, [&](auto &e) { SAYS(GetInvalidState, a); SAYS(GetExpectedState, b); }, "other"); break; }
  case 10: raised<Smp::InvalidObjectType>("InvalidObjectType", s, [&] { X::throwInvalidObjectType<Smp::IComponent>(s, &w.snk); }, [&](auto &e) { SAYS(GetInvalidObject, static_cast<Smp::IObject *>(&w.snk)); }, "snk"); break;
  case 11: raised<Smp::NotReferenced>("NotReferenced", &w.ref, [&] { X::throwNotReferenced(&w.ref, &w.other); }, [&](auto &e) { TELLS(GetReferenceName, "ref"); SAYS(GetComponent, static_cast<Smp::IComponent *>(&w.other)); }, "other"); break;
  case 12: { auto n = number<Smp::Int64>(); raised<Smp::ReferenceFull>("ReferenceFull", &w.ref, [&] { X::throwReferenceFull(&w.ref, n); }, [&](auto &e) { TELLS(GetReferenceName, "ref"); SAYS(GetReferenceSize, n); }, std::to_string(n).c_str()); break; }
  case 13: { auto n = number<Smp::Int64>(); raised<Smp::CannotRemove>("CannotRemove", &w.ref, [&] { X::throwCannotRemove(&w.ref, &w.other, n); }, [&](auto &e) { TELLS(GetReferenceName, "ref"); SAYS(GetComponent, static_cast<Smp::IComponent *>(&w.other)); SAYS(GetLowerLimit, n); }, std::to_string(n).c_str()); break; }
  case 14: raised<Smp::InvalidEventSink>("InvalidEventSink", s, [&] { X::throwInvalidEventSink(s, &w.src, &w.snk); }, [&](auto &e) { SAYS(GetEventSource, &w.src); SAYS(GetEventSink, &w.snk); }, "snk"); break;
  case 15: raised<Smp::EventSinkAlreadySubscribed>("EventSinkAlreadySubscribed", s, [&] { X::throwEventSinkAlreadySubscribed(s, &w.src, &w.snk); }, [&](auto &e) { SAYS(GetEventSource, &w.src); SAYS(GetEventSink, &w.snk); }, "snk"); break;
  case 16: raised<Smp::EventSinkNotSubscribed>("EventSinkNotSubscribed", s, [&] { X::throwEventSinkNotSubscribed(s, &w.src, &w.snk); }, [&](auto &e) { SAYS(GetEventSource, &w.src); SAYS(GetEventSink, &w.snk); }, "snk"); break;
  case 17: { auto *t = text(); raised<Smp::InvalidOperationName>("InvalidOperationName", s, [&] { Str a(t); X::throwInvalidOperationName(s, a); }, [&](auto &e) { TELLS(GetOperationName, t); }, t); break; }
  case 18: { auto n = number<Smp::Int32>(); raised<Smp::InvalidParameterCount>("InvalidParameterCount", w.op, [&] { X::throwInvalidParameterCount(w.op, n); }, [&](auto &e) { TELLS(GetOperationName, "op"); SAYS(GetOperationParameters, 2); SAYS(GetRequestParameters, n); }, std::to_string(n).c_str()); break; }
  case 19: { auto *t = text(), *u = text(); auto a = kind(), b = kind(); raised<Smp::InvalidParameterType>("InvalidParameterType", s, [&] { Str x(t), y(u); X::throwInvalidParameterType(s, x.view(), y.view(), a, b); }, [&](auto &e) { TELLS(GetOperationName, t); TELLS(GetParameterName, u); SAYS(GetInvalidType, a); SAYS(GetExpectedType, b); }, u); break; }
  case 20: { auto n = number<Smp::Int64>(); raised<Smp::InvalidArrayIndex>("InvalidArrayIndex", w.array, [&] { X::throwInvalidArrayIndex(w.array, static_cast<Smp::UInt64>(n)); }, [&](auto &e) { SAYS(GetArraySize, 3); SAYS(GetInvalidIndex, n); }, "array"); break; }
  case 21: { auto n = number<Smp::Int64>(); raised<Smp::InvalidArrayIndex>("InvalidArrayIndex", w.simple, [&] { X::throwInvalidArrayIndex(w.simple, static_cast<Smp::UInt64>(n)); }, [&](auto &e) { SAYS(GetArraySize, 3); SAYS(GetInvalidIndex, n); }, "simple"); break; }
  case 22: { A v = value(); raised<Smp::InvalidFieldValue>("InvalidFieldValue", w.in, [&] { A x(v); X::throwInvalidFieldValue(w.in, x); }, [&](auto &e) { SAYS(GetInvalidFieldValue, v); }, "in"); break; }
  case 23: { A v = value(); auto n = number<Smp::Int64>(); raised<Smp::InvalidArrayValue>("InvalidArrayValue", w.simple, [&] { A x(v); X::throwInvalidArrayValue(w.simple, static_cast<Smp::UInt64>(n), x); }, [&](auto &e) { SAYS(GetInvalidValueIndex, n); SAYS(GetInvalidValue, v); }, "simple"); break; }
  case 24: { auto n = number<Smp::Int64>(); raised<Smp::InvalidArraySize>("InvalidArraySize", w.simple, [&] { X::throwInvalidArraySize(w.simple, static_cast<Smp::UInt64>(n)); }, [&](auto &e) { SAYS(GetArraySize, 3); SAYS(GetInvalidSize, n); }, "simple"); break; }
  case 25: { auto *t = text(); raised<SV::InvalidEventName>("InvalidEventName", s, [&] { Str a(t); X::throwInvalidEventName(s, a); }, [](auto &) {}, t); break; }
  case 26: { auto n = number<SV::EventId>(); raised<SV::InvalidEventId>("InvalidEventId", s, [&] { X::throwInvalidEventId(s, n); }, [&](auto &e) { SAYS(GetInvalidEventId, n); }, std::to_string(n).c_str()); break; }
  case 27: { auto n = lapse(); raised<SV::InvalidCycleTime>("InvalidCycleTime", s, [&] { X::throwInvalidCycleTime(s, n); }); break; }
  case 28: { auto n = lapse(), m = lapse(); raised<SV::InvalidEventTime>("InvalidEventTime", s, [&] { X::throwInvalidEventTime(s, n, m); }); break; }
  case 29: { auto *t = text(); Xsmp::EntryPoint ep("ep", "", &w.root, [] {}); raised<SV::EntryPointNotSubscribed>("EntryPointNotSubscribed", s, [&] { Str a(t); X::throwEntryPointNotSubscribed(s, &ep, a.view()); }, [&](auto &e) { SAYS(GetEntryPoint, &ep); TELLS(GetEventName, t); }, t); break; }
  case 30: { auto *t = text(); Xsmp::EntryPoint ep("ep", "", &w.root, [] {}); raised<SV::EntryPointAlreadySubscribed>("EntryPointAlreadySubscribed", s, [&] { Str a(t); X::throwEntryPointAlreadySubscribed(s, &ep, a.view()); }, [&](auto &e) { SAYS(GetEntryPoint, &ep); TELLS(GetEventName, t); }, t); break; }
  case 31: { auto *t = text(); raised<Smp::InvalidFieldName>("InvalidFieldName", s, [&] { Str a(t); X::throwInvalidFieldName(s, a); }, [&](auto &e) { TELLS(GetFieldName, t); }, t); break; }
  case 32: { const Smp::Uuid u = mc::flip() ? UNKNOWN : Smp::Uuid{NL<Smp::UInt32>::max(), 1, 2, 3, 4}; raised<PB::TypeNotRegistered>("TypeNotRegistered", s, [&] { X::throwTypeNotRegistered(s, u); }, [&](auto &e) { SAYS(GetUuid, u); }); break; }
  case 33: { auto n = number<Smp::Int32>(), m = number<Smp::Int32>(); raised<Smp::InvalidParameterIndex>("InvalidParameterIndex", w.op, [&] { X::throwInvalidParameterIndex(w.op, n, m); }, [&](auto &e) { TELLS(GetOperationName, "op"); SAYS(GetParameterIndex, n); SAYS(GetParameterCount, m); }, std::to_string(n).c_str()); break; }
  case 34: raised<Smp::VoidOperation>("VoidOperation", w.vop, [&] { X::throwVoidOperation(w.vop); }, [&](auto &e) { TELLS(GetOperationName, "vop"); }, "vop"); break;
  case 35: { auto a = kind(), b = kind(); raised<Smp::InvalidAnyType>("InvalidAnyType", s, [&] { X::throwInvalidAnyType(s, a, b); }, [&](auto &e) { SAYS(GetExpectedType, a); SAYS(GetInvalidType, b); }); break; }
  case 36: { A v = value(); raised<Smp::InvalidReturnValue>("InvalidReturnValue", w.op, [&] { A x(v); X::throwInvalidReturnValue(w.op, x); }, [&](auto &e) { TELLS(GetOperationName, "op"); SAYS(GetValue, v); }, "op"); break; }
  case 37: { A v = value(); auto *t = text(); raised<Smp::InvalidParameterValue>("InvalidParameterValue", w.op, [&] { A x(v); Str a(t); X::throwInvalidParameterValue(w.op, a.view(), x); }, [&](auto &e) { TELLS(GetParameterName, t); SAYS(GetValue, v); }, t); break; }
  case 38: raised<Smp::InvalidFieldType>("InvalidFieldType", s, [&] { X::throwInvalidFieldType(s, UNKNOWN); }); break;
  case 39: { auto k = kind(); raised<Smp::InvalidFieldType>("InvalidFieldType", s, [&] { X::throwInvalidFieldType(s, k); }); break; }
  case 40: { auto *t = mc::flip() ? w.reg.GetType(ENUM) : nullptr; raised<Smp::InvalidFieldType>("InvalidFieldType", s, [&] { X::throwInvalidFieldType(s, t); }, [](auto &) {}, t ? "Enum" : nullptr); break; }
  case 41: { auto *t = text(); std::unique_ptr<Smp::IFactory> old(Xsmp::Factory::Create<Dyn>("old", "", nullptr, UNKNOWN)); auto &fac = *old; raised<Smp::DuplicateUuid>("DuplicateUuid", s, [&] { Str a(t); X::throwDuplicateUuid(s, &fac, a); }, [&](auto &e) { TELLS(GetOldName, "old"); TELLS(GetNewName, t); }, t); break; }
  case 42: { auto *t = text(), *u = text(); raised<Smp::LibraryNotFound>("LibraryNotFound", s, [&] { Str a(t), b(u); X::throwLibraryNotFound(s, a, b.view()); }, [&](auto &e) { TELLS(GetLibraryName, t); }, u); break; }
  case 43: { auto *t = text(), *u = text(); raised<Smp::InvalidLibrary>("InvalidLibrary", s, [&] { Str a(t), b(u); X::throwInvalidLibrary(s, a, b.view()); }, [&](auto &e) { TELLS(GetLibraryName, t); }, u); break; }
  case 44: { auto a = lapse(), b = lapse(), c = lapse(); raised<SV::InvalidSimulationTime>("InvalidSimulationTime", s, [&] { X::throwInvalidSimulationTime(s, a, b, c); }, [&](auto &e) { SAYS(GetCurrentTime, a); SAYS(GetProvidedTime, b); SAYS(GetMaximumTime, c); }); break; }
  case 45: { auto *t = text(); auto *y = w.reg.GetType(ENUM); raised<PB::TypeAlreadyRegistered>("TypeAlreadyRegistered", s, [&] { Str a(t); X::throwTypeAlreadyRegistered(s, a, y); }, [&](auto &e) { TELLS(GetTypeName, t); SAYS(GetType, y); }, t); break; }
  case 46: { auto *t = text(); auto k = kind(); raised<PB::InvalidPrimitiveType>("InvalidPrimitiveType", s, [&] { Str a(t); X::throwInvalidPrimitiveType(s, a, k); }, [&](auto &e) { TELLS(GetTypeName, t); SAYS(GetType, k); }, t); break; }
  case 47: { auto k = static_cast<SS>(mc::choose(10)); raised<Smp::InvalidSimulatorState>("InvalidSimulatorState", s, [&] { X::throwInvalidSimulatorState(s, k); }, [&](auto &e) { SAYS(GetInvalidState, k); }); break; }
  case 48: { auto *t = text(); auto n = number<Smp::Int32>(); raised<PB::DuplicateLiteral>("DuplicateLiteral", s, [&] { Str a(t); X::throwDuplicateLiteral(s, a, n); }, [&](auto &e) { TELLS(GetLiteralName, t); SAYS(GetLiteralValue, n); }, t); break; }
  default: { auto *t = text(), *u = text(), *v = text(); const std::string cls = t ? t : ""; const int n = number<int>(); raised<Smp::Exception>(cls.c_str(), s, [&] { Str a(t), b(u), c(v); X::throwException(s, a.view(), b.view(), c.view(), " and ", n); }, [&](auto &e) { MC_CHECK(std::string(e.GetDescription()) == (u ? u : ""), "text", "the description is changed"); MC_CHECK(std::string(e.GetMessage()) == std::string(v ? v : "") + " and " + std::to_string(n), "text", "the message is changed"); }); break; }
  }
}
// a component in the container or reference `n` times
MC_SCENARIO(refusals) {
  World w; const int which = mc::choose(16); MC_OP("refusal " << which);
  auto anyKind = [] { static const std::vector<A> v = {A(), A(PK::PTK_Bool, true), A(PK::PTK_Char8, 'x'), A(PK::PTK_Int8, Smp::Int8(1)), A(PK::PTK_Int16, Smp::Int16(1)), A(PK::PTK_Int32, 1), A(PK::PTK_Int64, Smp::Int64(1)), A(PK::PTK_UInt8, Smp::UInt8(1)), A(PK::PTK_UInt16, Smp::UInt16(1)), A(PK::PTK_UInt32, Smp::UInt32(1)), A(PK::PTK_UInt64, Smp::UInt64(1)), A(PK::PTK_Float32, 1.f), A(PK::PTK_Float64, 1.), A(PK::PTK_String8, "s"), A(PK::PTK_Duration, Smp::Int64(1)), A(PK::PTK_DateTime, Smp::Int64(1))}; return v[static_cast<size_t>(mc::choose(static_cast<int>(v.size())))]; };
  auto index = [] { static const std::vector<Smp::UInt64> v = {3, 4, 100, Smp::UInt64(1) << 32, static_cast<Smp::UInt64>(NL<Smp::Int64>::max()), NL<Smp::UInt64>::max()}; return v[static_cast<size_t>(mc::choose(6))]; };
  std::unique_ptr<Smp::IRequest, std::function<void(Smp::IRequest *)>> r(w.pub.CreateRequest("op"), [&](Smp::IRequest *q) { w.pub.DeleteRequest(q); }), vr(w.pub.CreateRequest("vop"), [&](Smp::IRequest *q) { w.pub.DeleteRequest(q); }), g(w.pub.CreateRequest("get_prop"), [&](Smp::IRequest *q) { w.pub.DeleteRequest(q); }), st(w.pub.CreateRequest("set_prop"), [&](Smp::IRequest *q) { w.pub.DeleteRequest(q); });
  MC_CHECK(r && vr && g && st, "request", "a request is missing"); auto *prop = w.pub.GetProperties()->at("prop");
  switch (which) {
  case 0: case 1: case 2: case 3: case 4: { const A v = anyKind(); if (v.type == PK::PTK_Int32) break; const Smp::IObject *s = which < 3 ? static_cast<const Smp::IObject *>(w.op) : prop; raised<Smp::InvalidAnyType>("InvalidAnyType", s, [&] { switch (which) { case 0: r->SetParameterValue(0, v); break; case 1: r->SetParameterValue(1, v); break; case 2: r->SetReturnValue(v); break; case 3: g->SetReturnValue(v); break; default: st->SetParameterValue(0, v); } }, [&](auto &e) { SAYS(GetExpectedType, PK::PTK_Int32); SAYS(GetInvalidType, v.type); }); break; }
  case 5: { const A v = anyKind(); if (v.type == PK::PTK_None) break; raised<Smp::InvalidAnyType>("InvalidAnyType", nullptr, [&] { w.snk.Notify(&w.root, v); }, [&](auto &e) { SAYS(GetExpectedType, PK::PTK_None); SAYS(GetInvalidType, v.type); }); break; }
  case 6: { const A v(PK::PTK_Int32, mc::flip() ? 2 : -1); switch (mc::choose(4)) { case 0: raised<Smp::InvalidParameterValue>("InvalidParameterValue", w.op, [&] { r->SetParameterValue(1, v); }, [&](auto &e) { TELLS(GetParameterName, "q"); SAYS(GetValue, v); }); break; case 1: raised<Smp::InvalidReturnValue>("InvalidReturnValue", w.op, [&] { r->SetReturnValue(v); }, [&](auto &e) { TELLS(GetOperationName, "op"); SAYS(GetValue, v); }); break;
    case 2: raised<Smp::InvalidReturnValue>("InvalidReturnValue", prop, [&] { g->SetReturnValue(v); }, [&](auto &e) { SAYS(GetValue, v); }); break; default: raised<Smp::InvalidParameterValue>("InvalidParameterValue", prop, [&] { st->SetParameterValue(0, v); }, [&](auto &e) { SAYS(GetValue, v); }); } break; }
  case 7: { const Smp::Int32 i = mc::flip() ? NL<Smp::Int32>::max() : mc::flip() ? NL<Smp::Int32>::min() : mc::flip() ? -1 : 2; Smp::IRequest *const q[] = {r.get(), vr.get(), g.get(), st.get()}; const int n[] = {2, 0, 0, 1}; const int k = mc::choose(4); const bool set = mc::flip(); const Smp::IObject *s = k == 0 ? static_cast<const Smp::IObject *>(w.op) : k == 1 ? w.vop : static_cast<const Smp::IObject *>(prop);
    raised<Smp::InvalidParameterIndex>("InvalidParameterIndex", s, [&] { if (set) q[k]->SetParameterValue(i, A(PK::PTK_Int32, 1)); else (void)q[k]->GetParameterValue(i); }, [&](auto &e) { SAYS(GetParameterIndex, i); SAYS(GetParameterCount, n[k]); TELLS(GetOperationName, k == 0 ? "op" : k == 1 ? "vop" : "prop"); }); break; }
  case 8: { const bool set = mc::flip(); raised<Smp::VoidOperation>("VoidOperation", w.vop, [&] { if (set) vr->SetReturnValue(A(PK::PTK_Int32, 1)); else (void)vr->GetReturnValue(); }, [&](auto &e) { TELLS(GetOperationName, "vop"); }); break; }
  case 9: { const Smp::UInt64 i = index(); const int k = mc::choose(4); raised<Smp::InvalidArrayIndex>("InvalidArrayIndex", k == 0 ? static_cast<Smp::IField *>(w.array) : w.simple, [&] { if (k == 0) (void)w.array->GetItem(i); else if (k == 1) (void)w.simple->GetValue(i); else w.simple->SetValue(i, A(PK::PTK_Int32, 1)); }, [&](auto &e) { SAYS(GetArraySize, 3); SAYS(GetInvalidIndex, static_cast<Smp::Int64>(i)); }); break; }
  case 10: { const Smp::UInt64 n = mc::choose(3); const bool big = mc::flip(), set = mc::flip(); const Smp::UInt64 len = big ? n + 4 : n; std::vector<A> v(8, A(PK::PTK_Int32, 1)); raised<Smp::InvalidArraySize>("InvalidArraySize", w.simple, [&] { if (set) w.simple->SetValues(len, v.data()); else w.simple->GetValues(len, v.data()); }, [&](auto &e) { SAYS(GetArraySize, 3); SAYS(GetInvalidSize, static_cast<Smp::Int64>(len)); }); break; }
  case 11: { const Smp::UInt64 i = mc::choose(3); const A bad(PK::PTK_Int32, 5); const bool all = mc::flip(); std::vector<A> v(3, A(PK::PTK_Int32, 1)); v[i] = bad; raised<Smp::InvalidArrayValue>("InvalidArrayValue", w.enums, [&] { if (all) w.enums->SetValues(3, v.data()); else w.enums->SetValue(i, bad); }, [&](auto &e) { SAYS(GetInvalidValueIndex, static_cast<Smp::Int64>(i)); SAYS(GetInvalidValue, bad); }); break; }
  case 12: { Dyn a("a", "", nullptr, nullptr), b("b", "", nullptr, nullptr), c("c", "", nullptr, nullptr); switch (mc::choose(3)) {
    case 0: w.ref.AddComponent(&a); w.ref.AddComponent(&b); raised<Smp::ReferenceFull>("ReferenceFull", &w.ref, [&] { w.ref.AddComponent(&c); }, [&](auto &e) { SAYS(GetReferenceSize, 2); TELLS(GetReferenceName, "ref"); }); break;
    case 1: w.ref.AddComponent(&a); w.ref.AddComponent(&b); raised<Smp::NotReferenced>("NotReferenced", &w.ref, [&] { w.ref.RemoveComponent(&c); }, [&](auto &e) { SAYS(GetComponent, static_cast<Smp::IComponent *>(&c)); }); break;
    default: { const int low = 1 + mc::choose(3); Xsmp::Reference<Smp::IComponent> r2("r2", "", &w.root, low, 5); r2.AddComponent(&a); if (low > 1 && mc::flip()) r2.AddComponent(&b); raised<Smp::CannotRemove>("CannotRemove", &r2, [&] { r2.RemoveComponent(&a); }, [&](auto &e) { SAYS(GetComponent, static_cast<Smp::IComponent *>(&a)); SAYS(GetLowerLimit, low); TELLS(GetReferenceName, "r2"); }); } break; } break; }
  case 13: { const int n = mc::choose(3); std::vector<Dyn *> in; for (int i = 0; i < n; ++i) { in.push_back(new Dyn(i ? "b" : "a", "", &w.root, nullptr)); w.ctn.AddComponent(in.back()); } auto c = std::make_unique<Dyn>(mc::flip() ? "a" : "c", "", nullptr, nullptr); const bool dup = n && std::string(c->GetName()) == "a";
    if (n == 2) raised<Smp::ContainerFull>("ContainerFull", &w.ctn, [&] { w.ctn.AddComponent(c.get()); }, [&](auto &e) { SAYS(GetContainerSize, 2); TELLS(GetContainerName, "ctn"); }); else if (dup) raised<Smp::DuplicateName>("DuplicateName", &w.ctn, [&] { w.ctn.AddComponent(c.get()); }, [&](auto &e) { TELLS(GetDuplicateName, "a"); });
    raised<Smp::NotContained>("NotContained", &w.ctn, [&] { w.ctn.DeleteComponent(c.get()); }, [&](auto &e) { SAYS(GetComponent, static_cast<Smp::IComponent *>(c.get())); }); if (n == 1) raised<Smp::CannotDelete>("CannotDelete", &w.ctn, [&] { w.ctn.DeleteComponent(in[0]); }, [&](auto &e) { SAYS(GetComponent, static_cast<Smp::IComponent *>(in[0])); SAYS(GetLowerLimit, 1); }); { const int low = 1 + mc::choose(3); Xsmp::Container<Smp::IComponent> c2("c2", "", &w.root, low, 5); auto *x = new Dyn("x", "", &w.root, nullptr); c2.AddComponent(x); raised<Smp::CannotDelete>("CannotDelete", &c2, [&] { c2.DeleteComponent(x); }, [&](auto &e) { SAYS(GetComponent, static_cast<Smp::IComponent *>(x)); SAYS(GetLowerLimit, low); TELLS(GetContainerName, "c2"); }); } break; }
  case 14: { const bool sub = mc::flip(); if (sub) { w.src.Subscribe(&w.snk); raised<Smp::EventSinkAlreadySubscribed>("EventSinkAlreadySubscribed", &w.src, [&] { w.src.Subscribe(&w.snk); }, [&](auto &e) { SAYS(GetEventSource, &w.src); SAYS(GetEventSink, &w.snk); }); w.src.Unsubscribe(&w.snk); } raised<Smp::EventSinkNotSubscribed>("EventSinkNotSubscribed", &w.src, [&] { w.src.Unsubscribe(&w.snk); }, [&](auto &e) { SAYS(GetEventSource, &w.src); SAYS(GetEventSink, &w.snk); });
    Xsmp::EventSink<Smp::Int32> k("k", "", &w.other, [](Smp::IObject *, Smp::Int32) {}, PK::PTK_Int32); raised<Smp::InvalidEventSink>("InvalidEventSink", &w.src, [&] { w.src.Subscribe(&k); }, [&](auto &e) { SAYS(GetEventSource, &w.src); SAYS(GetEventSink, &k); }); break; }
  default: switch (mc::choose(4)) { case 0: { auto *y = dynamic_cast<PB::IEnumerationType *>(w.reg.GetType(ENUM)); raised<PB::DuplicateLiteral>("DuplicateLiteral", y, [&] { y->AddLiteral("two", "", 1); }, [&](auto &e) { TELLS(GetLiteralName, "one"); SAYS(GetLiteralValue, 1); }); break; }
    case 1: raised<PB::TypeAlreadyRegistered>("TypeAlreadyRegistered", &w.reg, [&] { w.reg.AddEnumerationType("New", "", ENUM, 4); }, [&](auto &e) { TELLS(GetTypeName, "New"); SAYS(GetType, w.reg.GetType(ENUM)); }); break;
    case 2: { auto k = kind(); if (k == PK::PTK_Float32 || k == PK::PTK_Float64) break; raised<PB::InvalidPrimitiveType>("InvalidPrimitiveType", &w.reg, [&] { w.reg.AddFloatType("New", "", UNKNOWN, 0., 1., true, true, "", k); }, [&](auto &e) { TELLS(GetTypeName, "New"); SAYS(GetType, k); }); break; }
    default: raised<PB::TypeNotRegistered>("TypeNotRegistered", &w.root, [&] { Smp::Int32 x = 0; w.pub.PublishField("x", "", &x, UNKNOWN); }, [&](auto &e) { SAYS(GetUuid, UNKNOWN); }); } break;
  }
}
// the simulator and its services refuse
struct Guest : public Xsmp::Service { using Xsmp::Service::Service; };
struct Sim {
  std::unique_ptr<Xsmp::Simulator> simp{new Xsmp::Simulator("sim", "")}; Xsmp::Simulator &sim{*simp}; Xsmp::Services::XsmpEventManager *em; Xsmp::Services::XsmpTimeKeeper *tk; Xsmp::Services::XsmpScheduler *sch; Dyn *m; Xsmp::EntryPoint ep, ep2; std::function<void()> job;
  Sim() : em((addService<StubLogger>(sim, "Logger"), addService<Xsmp::Services::XsmpEventManager>(sim, "EM"))), tk(addService<Xsmp::Services::XsmpTimeKeeper>(sim, "TimeKeeper")), sch(addService<Xsmp::Services::XsmpScheduler>(sim, "Scheduler")), m(new Dyn("m", "", &sim, &sim)), ep("ep", "", m, [this] { if (job) job(); }), ep2("ep2", "", m, [this] { if (job) job(); }) { sim.AddModel(m); }
};
MC_SCENARIO(services) {
  Sim w; namespace S = SV; using Id = S::EventId; const int which = mc::choose(12); MC_OP("refusal " << which); auto &sch = *w.sch; auto &em = *w.em; auto &sim = w.sim;
  auto noEvent = [] { static const Id v[] = {0, -1, 5000, 1000, NL<Id>::max(), NL<Id>::min()}; return v[mc::choose(6)]; };
  auto name = [&] { static const char *const N[] = {"mine", "a longer name of an event, too long to be kept in place", "LeaveConnecting"}; return N[mc::choose(3)]; };
  if (which < 9) sim.Connect();
  switch (which) {
  case 0: { const bool null = mc::flip(); raised<S::InvalidEventName>("InvalidEventName", &em, [&] { (void)em.QueryEventId(null ? nullptr : ""); }); break; }
  case 1: { const Id id = noEvent(); const int k = mc::choose(3); raised<S::InvalidEventId>("InvalidEventId", &em, [&] { switch (k) { case 0: em.Subscribe(id, &w.ep); break; case 1: em.Unsubscribe(id, &w.ep); break; default: em.Emit(id, true); } }, [&](auto &e) { SAYS(GetInvalidEventId, id); }, std::to_string(id).c_str()); break; }
  case 2: { Str n(name()); const Id id = em.QueryEventId(n); const bool both = mc::flip(), first = mc::flip(); em.Subscribe(id, &w.ep); if (both) em.Subscribe(id, &w.ep2); auto *e1 = both && !first ? &w.ep2 : &w.ep;
    raised<S::EntryPointAlreadySubscribed>("EntryPointAlreadySubscribed", &em, [&] { em.Subscribe(id, e1); }, [&](auto &e) { SAYS(GetEntryPoint, e1); TELLS(GetEventName, n); }, n); break; }
  case 3: { Str n(name()); const Id id = em.QueryEventId(n); const int k = mc::choose(4); if (k == 1) em.Subscribe(id, &w.ep2); if (k == 2) { em.Subscribe(id, &w.ep); em.Unsubscribe(id, &w.ep); } if (k == 3) em.Subscribe(em.QueryEventId("other"), &w.ep);
    raised<S::EntryPointNotSubscribed>("EntryPointNotSubscribed", &em, [&] { em.Unsubscribe(id, &w.ep); }, [&](auto &e) { SAYS(GetEntryPoint, &w.ep); TELLS(GetEventName, n); }, n); break; }
  case 4: { const Id known = sch.AddSimulationTimeEvent(&w.ep, 10), gone = sch.AddMissionTimeEvent(&w.ep, 10); sch.RemoveEvent(gone); const int how = mc::choose(8); Id id = noEvent(); if (id == 5000) id = gone; if (id == 1000 && how < 3) id = known; else if (id == known) break;
    static const char *const M[] = {"SetEventMissionTime", "SetEventEpochTime", "SetEventZuluTime", "SetEventSimulationTime", "SetEventCycleTime", "SetEventRepeat", "RemoveEvent", "RemoveEvent"}; MC_OP(M[how] << " of " << id);
    raised<S::InvalidEventId>("InvalidEventId", &sch, [&] { switch (how) { case 0: sch.SetEventMissionTime(id, 20); break; case 1: sch.SetEventEpochTime(id, 20); break; case 2: sch.SetEventZuluTime(id, NL<Smp::DateTime>::max()); break; case 3: sch.SetEventSimulationTime(id, 20); break; case 4: sch.SetEventCycleTime(id, 5); break; case 5: sch.SetEventRepeat(id, 1); break; default: sch.RemoveEvent(id); } }, [&](auto &e) { SAYS(GetInvalidEventId, id); }, std::to_string(id).c_str()); break; }
  case 5: { const Smp::Duration cycle = mc::flip() ? 0 : mc::flip() ? -1 : NL<Smp::Duration>::min() + 1; const Smp::Int64 rep = mc::flip() ? -1 : 1; const int k = mc::choose(6); const Smp::DateTime far = NL<Smp::DateTime>::max(); const Id id = k == 4 ? sch.AddSimulationTimeEvent(&w.ep, 10, 5, rep) : k == 5 ? sch.AddSimulationTimeEvent(&w.ep, 10, cycle, 0) : 0;
    raised<S::InvalidCycleTime>("InvalidCycleTime", &sch, [&] { switch (k) { case 0: sch.AddSimulationTimeEvent(&w.ep, 10, cycle, rep); break; case 1: sch.AddMissionTimeEvent(&w.ep, 10, cycle, rep); break; case 2: sch.AddEpochTimeEvent(&w.ep, w.tk->GetEpochTime() + 10, cycle, rep); break; case 3: sch.AddZuluTimeEvent(&w.ep, far, cycle, rep); break; case 4: sch.SetEventCycleTime(id, cycle); break; default: sch.SetEventRepeat(id, rep); } }); break; }
  case 6: { const int k = mc::choose(4); raised<S::InvalidEventTime>("InvalidEventTime", &sch, [&] { switch (k) { case 0: sch.AddSimulationTimeEvent(&w.ep, -1); break; case 1: sch.AddMissionTimeEvent(&w.ep, w.tk->GetMissionTime() - 1); break; case 2: sch.AddEpochTimeEvent(&w.ep, w.tk->GetEpochTime() - 1); break; default: sch.AddZuluTimeEvent(&w.ep, 0); } }); break; }
  case 7: { w.tk->SetEpochTime(1000); const Smp::Duration next = 100; sch.AddSimulationTimeEvent(&w.ep2, next); const Smp::Duration t = mc::flip() ? 101 : mc::flip() ? -1 : mc::flip() ? NL<Smp::Duration>::max() : -1000000; bool asked = false; Xsmp::EntryPoint pre("pre", "", w.m, [&] { if (asked) return; asked = true; sim.Hold(true);
      raised<S::InvalidSimulationTime>("InvalidSimulationTime", w.tk, [&] { w.tk->SetSimulationTime(t); }, [&](auto &e) { SAYS(GetCurrentTime, 0); SAYS(GetProvidedTime, t); SAYS(GetMaximumTime, next); }); });
    em.Subscribe(S::IEventManager::SMP_PreSimTimeChangeId, &pre); sim.Run(); MC_CHECK(asked, "run", "simulation time was never about to change"); break; }
  case 8: { // states of components
    Dyn c("c", "", w.m, nullptr); Xsmp::Publication::TypeRegistry reg{nullptr}; Xsmp::Publication::Publication p{&c, &reg}; const int at = mc::choose(5), call = mc::choose(4); if (at == call) break; using K = CS; const K now[] = {K::CSK_Created, K::CSK_Publishing, K::CSK_Configured, K::CSK_Connected, K::CSK_Disconnected};
    if (at > 0) c.Publish(&p); if (at > 1) c.Configure(nullptr, nullptr); if (at > 2) c.Connect(&sim); if (at > 3) c.Disconnect();
    for (int again = 0; again < 2; ++again) raised<Smp::InvalidComponentState>("InvalidComponentState", &c, [&] { switch (call) { case 0: c.Publish(&p); break; case 1: c.Configure(nullptr, nullptr); break; case 2: c.Connect(&sim); break; default: c.Disconnect(); } }, [&](auto &e) { SAYS(GetInvalidState, now[at]); SAYS(GetExpectedState, now[call]); }, "c"); break; }
  case 9: { // models and services are added at the wrong time
    const int at = mc::choose(4), k = mc::choose(2); SS state = SS::SSK_Building; bool done = false; auto *late = new Dyn("late", "", &sim, &sim); auto *guest = new Guest("guest", "", &sim, &sim);
    auto add = [&] { if (done) return; done = true; state = sim.GetState(); raised<Smp::InvalidSimulatorState>("InvalidSimulatorState", &sim, [&] { if (k) sim.AddModel(late); else sim.AddService(guest); }, [&](auto &e) { SAYS(GetInvalidState, state); }); };
    if (at < 2) sim.Connect(); Xsmp::EntryPoint hook("hook", "", w.m, add);
    switch (at) { case 0: sim.AddInitEntryPoint(&hook); sim.Initialise(); break; case 1: { w.job = [&] { add(); sim.Hold(true); }; sch.AddImmediateEvent(&w.ep); sim.Run(); w.job = nullptr; break; } default: { sim.Connect(); em.Subscribe(at == 2 ? S::IEventManager::SMP_EnterAbortingId : S::IEventManager::SMP_EnterExitingId, &hook); if (at == 2) sim.Abort(); else sim.Exit(); } }
    MC_CHECK(done, "state", "the state was not entered"); MC_CHECK(state != SS::SSK_Building && state != SS::SSK_Standby, "state", "the wrong state"); delete late; delete guest; break; }
  case 10: { // libraries and factories
    if (mc::flip()) { static const char *const N[] = {"/nonexistent/lib", "no such library, and a name too long to be kept in place", "relative/lib"}; Str n(N[mc::choose(3)]); raised<Smp::LibraryNotFound>("LibraryNotFound", &sim, [&] { sim.LoadLibrary(n); }, [&](auto &e) { TELLS(GetLibraryName, n); }, n); break; }
    sim.RegisterFactory(Xsmp::Factory::Create<Dyn>("first", "", nullptr, UNKNOWN)); const bool same_name = mc::flip(); auto *b = Xsmp::Factory::Create<Dyn>(same_name ? "first" : "second_with_a_name_too_long_to_be_kept_in_place", "", nullptr, UNKNOWN); std::string other = b->GetName();
    std::exception_ptr p; try { sim.RegisterFactory(b); } catch (...) { p = std::current_exception(); } MC_CHECK(p, "nothing", "the factory with a known identifier is accepted"); try { std::rethrow_exception(p); } catch (const Smp::DuplicateUuid &e) { TELLS(GetOldName, "first"); TELLS(GetNewName, other.c_str()); MC_CHECK(std::strstr(e.GetMessage(), "first"), "message", "the message does not name the factory"); } catch (...) { MC_CHECK(false, "class", "another exception than DuplicateUuid"); } break; }
  default: { // names
    World v; switch (mc::choose(4)) {
    case 0: { static const char *const N[] = {"nothing", "", "simple.x", "simple[3]", "out.x", nullptr, "a name that is too long to be kept in place, and does not exist"}; const char *t = N[mc::choose(7)]; Str n(t); MC_OP("GetField(" << (t ? t : "null") << ")"); raised<Smp::InvalidFieldName>("InvalidFieldName", &v.root, [&] { Str x(t); (void)v.pub.GetField(x); }, [&](auto &e) { TELLS(GetFieldName, n); }, t); break; }
    case 1: { const bool null = mc::flip(); std::unique_ptr<Smp::IRequest, std::function<void(Smp::IRequest *)>> r(v.pub.CreateRequest("op"), [&](Smp::IRequest *q) { v.pub.DeleteRequest(q); }); raised<Smp::InvalidOperationName>("InvalidOperationName", &v.root, [&] { v.root.Xsmp::Component::Invoke(null ? nullptr : r.get()); }, [&](auto &e) { TELLS(GetOperationName, null ? nullptr : "op"); }, null ? nullptr : "op"); break; }
    case 2: { const int k = mc::choose(3); auto *t = k == 0 ? v.dbl : k == 1 ? dynamic_cast<Smp::IField *>(v.out) : static_cast<Smp::IField *>(v.simple); raised<Smp::InvalidTarget>("InvalidTarget", v.out, [&] { v.out->Connect(t); }, [&](auto &e) { SAYS(GetSource, v.out); SAYS(GetTarget, t); }, t->GetName()); break; }
    default: { v.out->Connect(v.in); raised<Smp::FieldAlreadyConnected>("FieldAlreadyConnected", v.out, [&] { v.out->Connect(v.in); }, [&](auto &e) { SAYS(GetSource, v.out); SAYS(GetTarget, v.in); }, "in"); } } break; }
  }
}
} // namespace
