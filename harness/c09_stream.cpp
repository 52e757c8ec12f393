// C09: printed forms.
#include "mc.h"
#include "anysimple_model.h"
#include <Smp/AccessKind.h>
#include <Smp/ComponentStateKind.h>
#include <Smp/Publication/ParameterDirectionKind.h>
#include <Smp/Services/TimeKind.h>
#include <Smp/SimulatorStateKind.h>
#include <Smp/ViewKind.h>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
using namespace anym;
namespace {
struct E { const char *type; std::vector<std::pair<int, const char *>> names; std::function<void(std::ostream &, int)> put; };
template <class T> std::function<void(std::ostream &, int)> putter() { return [](std::ostream &o, int v) { T e; static_assert(sizeof(T) == sizeof(int)); std::memcpy(&e, &v, sizeof v); o << e; }; }
const std::vector<E> &enums() {
  static const std::vector<E> e{
    {"::Smp::Publication::ParameterDirectionKind", {{(int)Smp::Publication::ParameterDirectionKind::PDK_In, "In"}, {(int)Smp::Publication::ParameterDirectionKind::PDK_Out, "Out"}, {(int)Smp::Publication::ParameterDirectionKind::PDK_InOut, "InOut"}, {(int)Smp::Publication::ParameterDirectionKind::PDK_Return, "Return"}}, putter<Smp::Publication::ParameterDirectionKind>()},
    {"::Smp::Services::TimeKind", {{0, "SimulationTime"}, {1, "MissionTime"}, {2, "EpochTime"}, {3, "ZuluTime"}}, putter<Smp::Services::TimeKind>()},
    {"::Smp::ComponentStateKind", {{(int)Smp::ComponentStateKind::CSK_Created, "Created"}, {(int)Smp::ComponentStateKind::CSK_Publishing, "Publishing"}, {(int)Smp::ComponentStateKind::CSK_Configured, "Configured"}, {(int)Smp::ComponentStateKind::CSK_Connected, "Connected"}, {(int)Smp::ComponentStateKind::CSK_Disconnected, "Disconnected"}}, putter<Smp::ComponentStateKind>()},
    {"::Smp::SimulatorStateKind", {{(int)Smp::SimulatorStateKind::SSK_Building, "Building"}, {(int)Smp::SimulatorStateKind::SSK_Connecting, "Connecting"}, {(int)Smp::SimulatorStateKind::SSK_Initialising, "Initialising"}, {(int)Smp::SimulatorStateKind::SSK_Standby, "Standby"}, {(int)Smp::SimulatorStateKind::SSK_Executing, "Executing"}, {(int)Smp::SimulatorStateKind::SSK_Storing, "Storing"}, {(int)Smp::SimulatorStateKind::SSK_Restoring, "Restoring"}, {(int)Smp::SimulatorStateKind::SSK_Reconnecting, "Reconnecting"}, {(int)Smp::SimulatorStateKind::SSK_Exiting, "Exiting"}, {(int)Smp::SimulatorStateKind::SSK_Aborting, "Aborting"}}, putter<Smp::SimulatorStateKind>()},
    {"::Smp::ViewKind", {{(int)Smp::ViewKind::VK_None, "None"}, {(int)Smp::ViewKind::VK_Debug, "Debug"}, {(int)Smp::ViewKind::VK_Expert, "Expert"}, {(int)Smp::ViewKind::VK_All, "All"}}, putter<Smp::ViewKind>()},
    {"::Smp::AccessKind", {{(int)Smp::AccessKind::AK_ReadWrite, "ReadWrite"}, {(int)Smp::AccessKind::AK_ReadOnly, "ReadOnly"}, {(int)Smp::AccessKind::AK_WriteOnly, "WriteOnly"}}, putter<Smp::AccessKind>()},
    {"::Smp::PrimitiveTypeKind", [] { std::vector<std::pair<int, const char *>> r; for (K k : kinds()) r.emplace_back(static_cast<int>(k), name(k)); return r; }(), putter<Smp::PrimitiveTypeKind>()}};
  return e;
}
// the formatting state of a stream after something was printed must be that of an untouched one
template <class F> std::string printed(F f) {
  std::ostringstream o, fresh; f(o);
  MC_CHECK(o.good(), "stream-broken", "stream unusable after printing \"" << o.str() << "\"");
  MC_CHECK(o.flags() == fresh.flags() && o.fill() == fresh.fill() && o.precision() == fresh.precision() && o.width() == fresh.width(), "format-state", "formatting state changed by printing " << o.str());
  std::string r = o.str(); o << true << 255 << 1.5; MC_CHECK(o.str() == r + "12551.5", "format-state", "later output is " << o.str());
  return r;
}
}
MC_SCENARIO(enumerators) {
  const E &e = enums()[static_cast<size_t>(mc::choose(7))];
  static const int odd[] = {-2147483647 - 1, -1000, -3, -2, -1, 1000, 65536, 2147483647};
  int v = mc::choose(64 + 8); v = v < 64 ? v : odd[v - 64];
  mc::context(e.type); std::string want;
  for (auto &n : e.names) if (n.first == v) want = n.second;
  if (want.empty()) want = std::string("Unknown ") + e.type + "(" + std::to_string(v) + ")";
  MC_OP(e.type << " " << v);
  std::string got = printed([&](std::ostream &o) { e.put(o, v); });
  MC_CHECK(got == want, std::string("name:") + e.type, e.type << " " << v << " prints \"" << got << "\", expected \"" << want << "\"");
  for (auto &n : e.names) if (n.first != v) { std::string other = printed([&](std::ostream &o) { e.put(o, n.first); }); MC_CHECK(other != got, "ambiguous", v << " and " << n.first << " both print " << got); }
  mc::outcome(mc::hashStr(got));
}
MC_SCENARIO(anysimple) {
  int t = mc::choose(NT); const V &v = values(t)[static_cast<size_t>(mc::choose(static_cast<int>(values(t).size())))];
  K k = typeKind(t); if (t == 10) k = mc::pick({K::PTK_Int64, K::PTK_Duration, K::PTK_DateTime});
  MC_OP(name(k) << " " << show(v)); mc::context(name(k));
  if (k == K::PTK_DateTime && v.i > static_cast<I>(INT64_MAX) - static_cast<I>(946728000) * 1000000000) return; // beyond the calendar range
  if (k == K::PTK_Duration && v.i == INT64_MIN) return;
  Smp::AnySimple a; set(a, k, t, v);
  std::string got = printed([&](std::ostream &o) { o << a; }), want;
  std::ostringstream w;
  switch (k) {
  case K::PTK_Bool: want = v.i ? "true" : "false"; break;
  case K::PTK_Char8: { char c = static_cast<char>(v.i); static const std::pair<char, const char *> esc[] = {{'\'', "\\'"}, {'?', "\\?"}, {'\\', "\\\\"}, {'\a', "\\a"}, {'\b', "\\b"}, {'\f', "\\f"}, {'\n', "\\n"}, {'\r', "\\r"}, {'\t', "\\t"}, {'\v', "\\v"}};
    for (auto &x : esc) if (x.first == c) want = std::string("'") + x.second + "'";
    if (want.empty()) { if (c >= ' ' && c <= '~') want = std::string("'") + c + "'"; else { char b[16]; std::snprintf(b, 16, "'\\%o'", static_cast<unsigned>(static_cast<unsigned char>(c))); want = b; } } break; }
  case K::PTK_Float32: w << static_cast<float>(v.f) << "f32"; want = w.str(); break;
  case K::PTK_Float64: w << v.f << "f64"; want = w.str(); break;
  case K::PTK_String8: want = v.s ? "\"" + *v.s + "\"" : std::string(); break;
  case K::PTK_Duration: case K::PTK_DateTime: MC_CHECK(got.size() >= 2 && got.front() == '"' && got.back() == '"' && got.find(':') != std::string::npos, "time", "prints " << got); want = got; break;
  default: { std::string n = name(k); std::string suf = (n[0] == 'U' ? "u" : "i") + n.substr(n.find_first_of("0123456789")); want = istr(v.i) + suf; }
  }
  if (k == K::PTK_String8 && !v.s) MC_CHECK(!got.empty() && got != "\"\"" && got[0] != '"', "null-string", "a null string prints " << got);
  else MC_CHECK(got == want, std::string("any:") + name(k), name(k) << " " << show(v) << " prints " << got << ", expected " << want);
  // unambiguous among values of an exactly printed kind
  if (classOf(k) == C::Int || classOf(k) == C::Char || classOf(k) == C::Bool || classOf(k) == C::Str) { static std::map<std::string, std::string> *seen[64]; auto *&m = seen[static_cast<int>(k) & 63]; if (!m) { m = new std::map<std::string, std::string>; for (auto &x : values(t)) { if (k == K::PTK_Duration && x.i == INT64_MIN) continue; if (k == K::PTK_DateTime && x.i > static_cast<I>(INT64_MAX) - static_cast<I>(946728000) * 1000000000) continue; Smp::AnySimple b; set(b, k, t, x); std::ostringstream o; o << b; auto ins = m->emplace(o.str(), show(x)); MC_CHECK(ins.second, std::string("ambiguous:") + name(k), show(x) << " and " << ins.first->second << " both print " << o.str()); } } }
}
MC_SCENARIO(anysimple_none) { Smp::AnySimple a; MC_CHECK(printed([&](std::ostream &o) { o << a; }) == "None", "none", "prints otherwise"); static const int bad[] = {16, 17, 99, -1, 2147483647}; int b = bad[mc::choose(5)]; std::memcpy(&a.type, &b, sizeof b); std::string g = printed([&](std::ostream &o) { o << a; }); MC_CHECK(g == "<invalid AnySimple type=\"" + std::to_string(b) + "\">", "invalid-kind", "prints " << g); a.type = K::PTK_None; }
