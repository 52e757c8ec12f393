// C22: the type registry over sequences of registrations, against a model of what was registered.
#include "mc.h"
#include <Smp/AccessKind.h>
#include <Smp/ComponentStateKind.h>
#include <Smp/InvalidObjectName.h>
#include <Smp/Publication/DuplicateLiteral.h>
#include <Smp/Publication/IArrayType.h>
#include <Smp/Publication/IClassType.h>
#include <Smp/Publication/IEnumerationType.h>
#include <Smp/Publication/InvalidPrimitiveType.h>
#include <Smp/Publication/ParameterDirectionKind.h>
#include <Smp/Publication/TypeAlreadyRegistered.h>
#include <Smp/Publication/TypeNotRegistered.h>
#include <Smp/Services/TimeKind.h>
#include <Smp/SimulatorStateKind.h>
#include <Smp/Uuid.h>
#include <Smp/ViewKind.h>
#include <Xsmp/Publication/Type.h>
#include <Xsmp/Publication/TypeRegistry.h>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <vector>
namespace {
using PK = Smp::PrimitiveTypeKind;
namespace P = Xsmp::Publication;
// uuids: two of the user, the predefined ones used as items or bases, and one that is never registered
enum { U1, U2, U3, I32, STR, VOID_, ENUMP, NONE, NU };
const Smp::Uuid U[NU] = {{1, 2, 3, 4, 5}, {1, 2, 3, 4, 6}, {0xFFFFFFFF, 0xFFFF, 0xFFFF, 0xFFFF, 0xFFFFFFFFFFFF}, Smp::Uuids::Uuid_Int32, Smp::Uuids::Uuid_String8, Smp::Uuids::Uuid_Void, Smp::Uuids::Uuid_ViewKind, {9, 9, 9, 9, 9}};
enum class K { Float, Int, Enum, Array, String, Struct, Class };
struct Lit { std::string name, desc; };
struct Fld { std::string name, desc; Smp::Uuid uuid; Smp::Int64 offset; Smp::ViewKind view; bool st, in, out; };
struct T { K kind; std::string name, desc; PK prim = PK::PTK_None; double fmin = 0, fmax = 0; bool mi = false, ma = false; std::string unit; Smp::Int64 imin = 0, imax = 0, len = 0; Smp::Uuid item{}; Smp::Int64 isize = 0, count = 0; bool simple = false; std::map<Smp::Int32, Lit> lits; std::vector<Fld> fields; };
struct World {
  std::unique_ptr<P::TypeRegistry> regp{new P::TypeRegistry(nullptr)}; P::TypeRegistry &reg{*regp}; std::map<int, T> model; std::map<int, Smp::Publication::IType *> ptr;
  static const char *str(Smp::String8 s) { return s ? s : ""; }
  void predefined() {
    static const std::pair<PK, Smp::Uuid> PR[] = {{PK::PTK_Char8, Smp::Uuids::Uuid_Char8}, {PK::PTK_String8, Smp::Uuids::Uuid_String8}, {PK::PTK_Bool, Smp::Uuids::Uuid_Bool}, {PK::PTK_Int8, Smp::Uuids::Uuid_Int8}, {PK::PTK_Int16, Smp::Uuids::Uuid_Int16}, {PK::PTK_Int32, Smp::Uuids::Uuid_Int32}, {PK::PTK_Int64, Smp::Uuids::Uuid_Int64}, {PK::PTK_UInt8, Smp::Uuids::Uuid_UInt8}, {PK::PTK_UInt16, Smp::Uuids::Uuid_UInt16}, {PK::PTK_UInt32, Smp::Uuids::Uuid_UInt32}, {PK::PTK_UInt64, Smp::Uuids::Uuid_UInt64}, {PK::PTK_Float32, Smp::Uuids::Uuid_Float32}, {PK::PTK_Float64, Smp::Uuids::Uuid_Float64}, {PK::PTK_Duration, Smp::Uuids::Uuid_Duration}, {PK::PTK_DateTime, Smp::Uuids::Uuid_DateTime}, {PK::PTK_None, Smp::Uuids::Uuid_Void}};
    static const char *const N[] = {"Char8", "String8", "Bool", "Int8", "Int16", "Int32", "Int64", "UInt8", "UInt16", "UInt32", "UInt64", "Float32", "Float64", "Duration", "DateTime", "Void"};
    for (size_t i = 0; i < 16; ++i) { auto *a = reg.GetType(PR[i].first), *b = reg.GetType(PR[i].second); MC_CHECK(a && a == b, "predefined", "primitive type " << N[i] << " is not found, or differs by kind and by uuid"); MC_CHECK(a->GetPrimitiveTypeKind() == PR[i].first && a->GetUuid() == PR[i].second && a->GetName() == std::string(N[i]) && a->GetParent() == &reg, "predefined", "kind, uuid, name or parent of " << N[i]); }
    auto lits = [&](const Smp::Uuid &u, const char *name, size_t size, std::vector<std::pair<const char *, int>> want) { auto *t = reg.GetType(u); MC_CHECK(t && t->GetName() == std::string(name) && t->GetUuid() == u, "predefined", name << " is not registered"); auto *e = dynamic_cast<P::EnumerationType *>(t); MC_CHECK(e, "predefined", name << " is no enumeration"); MC_CHECK(t->GetPrimitiveTypeKind() == (size == 1 ? PK::PTK_Int8 : size == 2 ? PK::PTK_Int16 : size == 4 ? PK::PTK_Int32 : PK::PTK_Int64), "predefined", "kind of " << name); auto &have = e->GetLiterals(); MC_CHECK(have.size() == want.size(), "predefined", name << " has " << have.size() << " literals"); for (auto &w : want) { auto it = have.find(w.second); MC_CHECK(it != have.end() && std::string(it->second.name.c_str()) == w.first, "predefined", "literal " << w.first << " of " << name); } };
#define L(e, x) {#x, static_cast<int>(e::x)}
    using TK = Smp::Services::TimeKind; lits(Smp::Uuids::Uuid_TimeKind, "TimeKind", sizeof(TK), {L(TK, TK_SimulationTime), L(TK, TK_MissionTime), L(TK, TK_EpochTime), L(TK, TK_ZuluTime)});
    using VK = Smp::ViewKind; lits(Smp::Uuids::Uuid_ViewKind, "ViewKind", sizeof(VK), {L(VK, VK_None), L(VK, VK_Debug), L(VK, VK_Expert), L(VK, VK_All)});
    using AK = Smp::AccessKind; lits(Smp::Uuids::Uuid_AccessKind, "AccessKind", sizeof(AK), {L(AK, AK_ReadWrite), L(AK, AK_ReadOnly), L(AK, AK_WriteOnly)});
    using CS = Smp::ComponentStateKind; lits(Smp::Uuids::Uuid_ComponentStateKind, "ComponentStateKind", sizeof(CS), {L(CS, CSK_Created), L(CS, CSK_Publishing), L(CS, CSK_Configured), L(CS, CSK_Connected), L(CS, CSK_Disconnected)});
    using PD = Smp::Publication::ParameterDirectionKind; lits(Smp::Uuids::Uuid_ParameterDirectionKind, "ParameterDirectionKind", sizeof(PD), {L(PD, PDK_In), L(PD, PDK_Out), L(PD, PDK_InOut), L(PD, PDK_Return)});
    using SS = Smp::SimulatorStateKind; lits(Smp::Uuids::Uuid_SimulatorStateKind, "SimulatorStateKind", sizeof(SS), {L(SS, SSK_Building), L(SS, SSK_Connecting), L(SS, SSK_Initialising), L(SS, SSK_Standby), L(SS, SSK_Executing), L(SS, SSK_Storing), L(SS, SSK_Restoring), L(SS, SSK_Reconnecting), L(SS, SSK_Exiting), L(SS, SSK_Aborting)});
    lits(Smp::Uuids::Uuid_PrimitiveTypeKind, "PrimitiveTypeKind", sizeof(PK), {L(PK, PTK_None), L(PK, PTK_Char8), L(PK, PTK_Bool), L(PK, PTK_Int8), L(PK, PTK_UInt8), L(PK, PTK_Int16), L(PK, PTK_UInt16), L(PK, PTK_Int32), L(PK, PTK_UInt32), L(PK, PTK_Int64), L(PK, PTK_UInt64), L(PK, PTK_Float32), L(PK, PTK_Float64), L(PK, PTK_Duration), L(PK, PTK_DateTime), L(PK, PTK_String8)});
#undef L
    auto ints = [&](const Smp::Uuid &u, const char *name, PK k, Smp::Int64 lo, Smp::Int64 hi) { auto *t = dynamic_cast<P::IntegerType *>(reg.GetType(u)); MC_CHECK(t && t->GetName() == std::string(name) && t->GetPrimitiveTypeKind() == k && t->getMinimum() == lo && t->getMaximum() == hi, "predefined", name << ": not registered, or kind or bounds"); };
    ints(Smp::Uuids::Uuid_EventId, "EventId", PK::PTK_Int64, std::numeric_limits<Smp::Int64>::min(), std::numeric_limits<Smp::Int64>::max()); ints(Smp::Uuids::Uuid_LogMessageKind, "LogMessageKind", PK::PTK_Int32, 0, 2147483647);
  }
  void check() {
    for (int u = 0; u < NU; ++u) {
      auto *t = reg.GetType(U[u]); if (u == I32 || u == STR || u == VOID_ || u == ENUMP) continue; auto it = model.find(u); if (it == model.end()) { MC_CHECK(!t, "GetType", "uuid " << u << " gives a type although none was registered"); continue; }
      const T &m = it->second; const std::string n = m.name; MC_CHECK(t && t == ptr[u], "GetType", "uuid " << u << " does not give the type registered under it"); MC_CHECK(t->GetUuid() == U[u] && t->GetName() == m.name && t->GetDescription() == m.desc && t->GetParent() == &reg && t->GetPrimitiveTypeKind() == m.prim, "type", "uuid, name, description, parent or kind of type " << n);
      switch (m.kind) {
      case K::Float: { auto *f = dynamic_cast<P::FloatType *>(t); MC_CHECK(f && f->getMinimum() == m.fmin && f->getMaximum() == m.fmax && f->IsMinInclusive() == m.mi && f->IsMaxInclusive() == m.ma && f->getUnit() == m.unit, "float", "bounds or unit of float " << n); break; }
      case K::Int: { auto *f = dynamic_cast<P::IntegerType *>(t); MC_CHECK(f && f->getMinimum() == m.imin && f->getMaximum() == m.imax && f->getUnit() == m.unit, "integer", "bounds or unit of integer " << n); break; }
      case K::Enum: { auto *f = dynamic_cast<P::EnumerationType *>(t); MC_CHECK(f, "enumeration", n << " is no enumeration"); auto &l = f->GetLiterals(); MC_CHECK(l.size() == m.lits.size(), "enumeration", n << " has " << l.size() << " literals instead of " << m.lits.size()); for (auto &[v, x] : m.lits) { auto k = l.find(v); MC_CHECK(k != l.end() && std::string(k->second.name.c_str()) == x.name && std::string(k->second.description.c_str()) == x.desc, "enumeration", "literal " << v << " of " << n); } break; }
      case K::Array: { auto *f = dynamic_cast<P::ArrayType *>(t); MC_CHECK(f && f->GetSize() == static_cast<Smp::UInt64>(m.count) && f->GetItemType() == reg.GetType(m.item) && f->GetItemSize() == static_cast<Smp::UInt64>(m.isize) && f->IsSimpleArray() == m.simple, "array", "size, item type or item size of array " << n); break; }
      case K::String: { auto *f = dynamic_cast<P::StringType *>(t); MC_CHECK(f && f->GetLength() == m.len, "string", "length of string " << n); break; }
      case K::Struct: case K::Class: { auto *f = dynamic_cast<P::StructureType *>(t); MC_CHECK(f && (dynamic_cast<Smp::Publication::IClassType *>(t) != nullptr) == (m.kind == K::Class), "structure", n << " is not a structure / class"); auto &l = f->GetFields(); MC_CHECK(l.size() == m.fields.size(), "structure", n << " has " << l.size() << " fields"); for (size_t i = 0; i < l.size(); ++i) { auto &a = l[i]; auto &b = m.fields[i]; MC_CHECK(std::string(a.name.c_str()) == b.name && std::string(a.description.c_str()) == b.desc && a.uuid == b.uuid && a.offset == b.offset && a.view == b.view && a.state == b.st && a.input == b.in && a.output == b.out, "structure", "field " << i << " of " << n); } break; }
      }
    }
  }
  // the exceptions that a registration may raise; none: it must succeed
  template <class F> void add(int u, const T &t, std::set<std::string> why, F &&f) {
    if (t.name.empty() || t.name == "1x" || t.name == "a b") why.insert("InvalidObjectName"); if (model.count(u) || u == I32) why.insert("TypeAlreadyRegistered"); std::string got; Smp::Publication::IType *r = nullptr;
    try { r = f(); } catch (const Smp::Publication::TypeAlreadyRegistered &e) { got = e.GetName(); MC_CHECK(e.GetType() == reg.GetType(U[u]), "exception", "TypeAlreadyRegistered gives another type"); sender(e); } catch (const Smp::Publication::TypeNotRegistered &e) { got = e.GetName(); sender(e); MC_CHECK(!reg.GetType(e.GetUuid()) || e.GetUuid() == U[u], "exception", "TypeNotRegistered names a type that is registered"); } catch (const Smp::Exception &e) { got = e.GetName(); sender(e); }
    if (why.empty()) { MC_CHECK(got.empty() && r, "registration", "a valid registration is refused: " << got); model[u] = t; ptr[u] = r; } else MC_CHECK(why.count(got), "registration", "an invalid registration is " << (got.empty() ? "accepted" : "refused with " + got) << " instead of " << *why.begin());
  }
  std::string key() const { std::string k; auto n = [&](auto v) { k += std::to_string(v) + ","; }; for (auto &[u, m] : model) { n(u); n(static_cast<int>(m.kind)); k += m.name + "," + m.desc + "," + m.unit + ","; n(static_cast<int>(m.prim)); n(m.fmin); n(m.fmax); n(m.mi + 2 * m.ma); n(m.imin); n(m.imax); n(m.len); for (int i = 0; i < NU; ++i) if (U[i] == m.item) n(i); n(m.isize); n(m.count); n(m.simple); for (auto &l : m.lits) { n(l.first); k += l.second.name + l.second.desc; } for (auto &f : m.fields) { k += f.name + f.desc; n(f.offset); n(static_cast<int>(f.view)); } k += ";"; } return k; }
  void sender(const Smp::Exception &e) { if (auto *s = e.GetSender()) { MC_CHECK(std::string(s->GetName()).size(), "sender", "the sender of the exception has no name"); std::string x = e.GetMessage(); MC_CHECK(x.size(), "sender", "no message"); } }
};
const char *const NAMES[] = {"A", "B", "1x", "", "a b"};
constexpr double INF = std::numeric_limits<double>::infinity();
}
MC_SCENARIO(predefined) { { World w; mc::context("predefined"); w.predefined(); mc::outcome(mc::hashStr("predefined")); } MC_CHECK(mc::liveBlocks() == 0, "leak", "memory of the registry remains"); }
MC_SCENARIO(types) {
  static const int warm = [] { World w; w.predefined(); return 1; }(); (void)warm; const long base = mc::liveBlocks();
  { World w; const int depth = mc::param("depth", 2); const bool lean = mc::param("lean", 0) != 0; mc::context("types"); std::string h;
    for (int step = 0; step < depth; ++step) {
      static const int UU[] = {U1, U2, I32, U3}; const int nu = lean ? 2 : 3; const int kind = mc::choose(9); std::string d = "d" + std::to_string(step % 2);
      auto uuid = [&] { return UU[mc::choose(nu)]; }; auto name = [&] { return lean ? NAMES[mc::choose(2)] : NAMES[mc::choose(5)]; };
      T t; t.desc = d;
      switch (kind) {
      case 0: { t.kind = K::Float; int u = uuid(); int v = mc::choose(lean ? 3 : 5 + 16); t.prim = v < 5 ? (v % 2 ? PK::PTK_Float32 : PK::PTK_Float64) : static_cast<PK>(v - 5); t.fmin = v == 1 ? -INF : v == 2 ? 0.5 : -1.5; t.fmax = v == 1 ? INF : v == 2 ? 0.5 : 1e300; t.mi = v & 1; t.ma = v & 2; t.unit = v == 3 ? "m/s" : ""; t.name = v < 2 ? name() : "A"; std::set<std::string> why; if (t.prim != PK::PTK_Float32 && t.prim != PK::PTK_Float64) why.insert("InvalidPrimitiveType"); MC_OP("add float '" << t.name << "' of kind " << static_cast<int>(t.prim) << " as " << u); w.add(u, t, why, [&] { return w.reg.AddFloatType(t.name.c_str(), d.c_str(), U[u], t.fmin, t.fmax, t.mi, t.ma, t.unit.c_str(), t.prim); }); break; }
      case 1: { t.kind = K::Int; int u = uuid(); int v = mc::choose(lean ? 2 : 3 + 16); t.prim = v == 0 ? PK::PTK_Int32 : v == 1 ? PK::PTK_UInt8 : v == 2 ? PK::PTK_UInt64 : static_cast<PK>(v - 3); t.imin = v == 2 ? std::numeric_limits<Smp::Int64>::min() : v == 0 ? -7 : 0; t.imax = v == 2 ? std::numeric_limits<Smp::Int64>::max() : v == 0 ? 9 : 0; t.unit = v == 1 ? "kg" : ""; t.name = v == 0 ? name() : "A"; std::set<std::string> why; if (t.prim < PK::PTK_Int8 || t.prim > PK::PTK_UInt64) why.insert("InvalidPrimitiveType"); MC_OP("add integer '" << t.name << "' of kind " << static_cast<int>(t.prim) << " as " << u); w.add(u, t, why, [&] { return w.reg.AddIntegerType(t.name.c_str(), d.c_str(), U[u], t.imin, t.imax, t.unit.c_str(), t.prim); }); break; }
      case 2: { t.kind = K::Enum; int u = uuid(); static const Smp::Int16 S[] = {4, 1, 2, 8, 0, 3, -1, -4, 16, 260, 0x104}; int v = mc::choose(lean ? 1 : 10); std::set<std::string> why; switch (S[v]) { case 1: t.prim = PK::PTK_Int8; break; case 2: t.prim = PK::PTK_Int16; break; case 4: t.prim = PK::PTK_Int32; break; case 8: t.prim = PK::PTK_Int64; break; default: why.insert("InvalidPrimitiveType"); } t.name = v == 0 ? name() : "A"; MC_OP("add enumeration '" << t.name << "' of size " << S[v] << " as " << u); w.add(u, t, why, [&] { return dynamic_cast<Smp::Publication::IType *>(w.reg.AddEnumerationType(t.name.c_str(), d.c_str(), U[u], S[v])); }); break; }
      case 3: { t.kind = K::Array; int u = uuid(); static const int LN[] = {U1, U2, I32, STR, NONE}; int item = lean ? LN[mc::choose(5)] : mc::choose(NU); int v = mc::choose(lean ? 1 : 3); t.item = U[item]; t.isize = v == 1 ? 0 : 8; t.count = v == 1 ? 0 : v == 2 ? (1LL << 40) : 3; t.simple = v == 2; std::set<std::string> why; if (item == STR || item == VOID_) why.insert("IncompatibleType"); else if (!w.reg.GetType(U[item])) why.insert("TypeNotRegistered"); t.name = v == 0 ? name() : "A"; MC_OP("add array '" << t.name << "' of " << item << " as " << u); w.add(u, t, why, [&] { return dynamic_cast<Smp::Publication::IType *>(w.reg.AddArrayType(t.name.c_str(), d.c_str(), U[u], U[item], t.isize, t.count, t.simple)); }); break; }
      case 4: { t.kind = K::String; t.prim = PK::PTK_String8; int u = uuid(); static const Smp::Int64 N[] = {5, 0, 1LL << 33}; int v = mc::choose(lean ? 1 : 3); t.len = N[v]; t.name = v == 0 ? name() : "A"; MC_OP("add string '" << t.name << "' as " << u); w.add(u, t, {}, [&] { return w.reg.AddStringType(t.name.c_str(), d.c_str(), U[u], t.len); }); break; }
      case 5: { t.kind = K::Struct; int u = uuid(); t.name = name(); MC_OP("add structure '" << t.name << "' as " << u); w.add(u, t, {}, [&] { return dynamic_cast<Smp::Publication::IType *>(w.reg.AddStructureType(t.name.c_str(), d.c_str(), U[u])); }); break; }
      case 6: { t.kind = K::Class; int u = uuid(); static const int LB[] = {VOID_, U1, U2, NONE}; int b = lean ? LB[mc::choose(4)] : mc::choose(NU); std::set<std::string> why; if (b != VOID_) { if (b == u) { why = {"IncompatibleType", "TypeNotRegistered"}; } else if (!w.reg.GetType(U[b])) why.insert("TypeNotRegistered"); else if (!w.model.count(b) || w.model[b].kind != K::Class) why.insert("IncompatibleType"); } t.name = b == VOID_ ? name() : "A"; MC_OP("add class '" << t.name << "' of base " << b << " as " << u); w.add(u, t, why, [&] { return dynamic_cast<Smp::Publication::IType *>(w.reg.AddClassType(t.name.c_str(), d.c_str(), U[u], U[b])); }); break; }
      case 7: { int u = UU[mc::choose(2)]; if (!w.model.count(u) || w.model[u].kind != K::Enum) { step = depth; break; } T &m = w.model[u]; static const Smp::Int32 V[] = {0, -1, std::numeric_limits<Smp::Int32>::max()}; Smp::Int32 v = V[mc::choose(3)]; const char *n = mc::flip() ? "LA" : "LB"; MC_OP("add literal " << n << "=" << v << " to " << u); auto *e = dynamic_cast<Smp::Publication::IEnumerationType *>(w.reg.GetType(U[u])); bool dup = m.lits.count(v), sameName = false, threw = false; for (auto &l : m.lits) sameName |= l.second.name == n;
        try { e->AddLiteral(n, d.c_str(), v); } catch (const Smp::Publication::DuplicateLiteral &x) { threw = true; MC_CHECK(x.GetLiteralValue() == v, "DuplicateLiteral", "DuplicateLiteral names another value"); w.sender(x); } if (dup) MC_CHECK(threw, "DuplicateLiteral", "a second literal with the value " << v << " is accepted"); else if (!sameName) MC_CHECK(!threw, "DuplicateLiteral", "a new literal is refused"); if (!threw) m.lits[v] = {n, d}; break; }
      case 8: { int u = UU[mc::choose(2)]; if (!w.model.count(u) || (w.model[u].kind != K::Struct && w.model[u].kind != K::Class)) { step = depth; break; } T &m = w.model[u]; int v = mc::choose(lean ? 2 : 6); Fld f{v % 2 ? "x" : "y", d, U[v % NU], v == 2 ? 1LL << 35 : 8 * v, static_cast<Smp::ViewKind>(v % 4), v % 2 == 0, v % 3 == 0, v > 3}; bool sameName = false; for (auto &x : m.fields) sameName |= x.name == f.name; if (sameName) { step = depth; break; } MC_OP("add field " << f.name << " to " << u); dynamic_cast<Smp::Publication::IStructureType *>(w.reg.GetType(U[u]))->AddField(f.name.c_str(), d.c_str(), f.uuid, f.offset, f.view, f.st, f.in, f.out); m.fields.push_back(f); break; }
      }
      w.check();
      if (mc::visit(mc::mix(mc::hashStr(w.key() + "/" + std::to_string(kind) + t.name + d), static_cast<std::uint64_t>(step)))) break;
    }
    w.predefined(); mc::outcome(mc::hashStr("done")); }
  MC_CHECK(mc::liveBlocks() == base, "leak", "memory of the registry remains");
}
