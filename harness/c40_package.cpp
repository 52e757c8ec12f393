// C40: services packages initialised, re-initialised and finalised for several simulators, through the real C entry points and Simulator::LoadLibrary.
#include "mc.h"
#include <Smp/ISimulator.h>
#include <Smp/LibraryNotFound.h>
#include <Smp/InvalidLibrary.h>
#include <Xsmp/LibraryHelper.h>
#include <Xsmp/Simulator.h>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <vector>
#include <xsmp_services.h>
static std::vector<std::pair<int, int>> *events; // (library, what)
extern "C" { __attribute__((visibility("default"), used)) void *c40_args[2];
__attribute__((visibility("default"), used)) void c40_event(int lib, int what) { if (events && what >= 3) events->emplace_back(lib, what); } }
namespace {
const char *const SUB[] = {"logger", "time_keeper", "resolver", "event_manager", "link_registry", "scheduler"};
const char *const SVC[] = {"XsmpLogger", "XsmpTimeKeeper", "XsmpResolver", "XsmpEventManager", "XsmpLinkRegistry", "XsmpScheduler"};
// packages 0..5 subs, 6 the bundle
struct Lib { const char *name; int pkg; int stub; int result; }; // result 0 loaded, 1 LibraryNotFound, 2 InvalidLibrary
const Lib LIBS[] = {{"c40pkg_services", 6, 0, 0}, {"c40pkg_logger", 0, 0, 0}, {"c40init", -1, 11, 0}, {"c40nosuch", -1, 0, 1}, {"c40noinit", -1, 13, 2}, {"c40nofini", -1, 14, 2}, {"c40initfalse", -1, 15, 2}, {"c40pkg_time_keeper", 1, 0, 0}, {"c40pkg_resolver", 2, 0, 0}, {"c40pkg_event_manager", 3, 0, 0}, {"c40pkg_link_registry", 4, 0, 0}, {"c40pkg_scheduler", 5, 0, 0}, {"c40finifalse", -1, 12, 0}};
alignas(64) unsigned char storage[2][sizeof(Xsmp::Simulator)];
struct Sim { Xsmp::Simulator *s = nullptr; std::set<int> have; std::vector<const Lib *> libs; };
std::set<int> known[7];
Sim sims[2];
bool (*finalise[7])(Smp::ISimulator *); bool (*initialise[7])(Smp::ISimulator *, Smp::Publication::ITypeRegistry *);
void check(int i) {
  auto &m = sims[i]; std::set<std::string> got; int n = 0;
  for (auto *c : *m.s->GetContainer("Services")->GetComponents()) { got.insert(c->GetName()); ++n; MC_CHECK(c->GetParent() == m.s, "parent", c->GetName() << " has another parent than its simulator"); MC_CHECK(dynamic_cast<Smp::IService *>(c), "service", "not a service"); MC_CHECK(m.s->GetService(c->GetName()) == c, "lookup", c->GetName() << " is not found by name"); }
  std::set<std::string> want; for (int h : m.have) want.insert(SVC[h]);
  std::string g; for (auto &x : got) g += x + " ";
  MC_CHECK(got == want && n == static_cast<int>(want.size()), "services", "simulator " << i << " has services " << g << "(" << n << "), expected " << want.size());
  MC_CHECK((m.s->GetLogger() != nullptr) == (m.have.count(0) > 0) && (m.s->GetTimeKeeper() != nullptr) == (m.have.count(1) > 0) && (m.s->GetResolver() != nullptr) == (m.have.count(2) > 0) && (m.s->GetEventManager() != nullptr) == (m.have.count(3) > 0) && (m.s->GetLinkRegistry() != nullptr) == (m.have.count(4) > 0) && (m.s->GetScheduler() != nullptr) == (m.have.count(5) > 0), "standard-service", "a standard service of simulator " << i << " is not the registered one");
}
bool wouldAdd(int pkg, int i, std::set<int> &add) { // false: the history would add a service twice (not a supported use)
  if (known[pkg].count(i)) return true;
  if (pkg < 6) { if (sims[i].have.count(pkg)) return false; add.insert(pkg); return true; }
  for (int k = 0; k < 6; ++k) if (!wouldAdd(k, i, add)) return false;
  return true;
}
void modelInit(int pkg, int i) { if (known[pkg].count(i)) return; known[pkg].insert(i); if (pkg < 6) { sims[i].have.insert(pkg); return; } for (int k = 0; k < 6; ++k) modelInit(k, i); }
void modelFini(int pkg) { if (known[pkg].empty()) return; known[pkg].clear(); if (pkg == 6) for (int k = 0; k < 6; ++k) modelFini(k); }
void create(int i) { sims[i].s = new (storage[i]) Xsmp::Simulator("sim", ""); }
void destroy(int i) {
  std::vector<std::pair<int, int>> want; auto &m = sims[i];
  for (auto l = m.libs.rbegin(); l != m.libs.rend(); ++l) { if ((*l)->pkg >= 0) modelFini((*l)->pkg); else want.emplace_back((*l)->stub, 4); }
  events->clear(); m.s->~Simulator(); m.s = nullptr;
  MC_CHECK(*events == want, "finalise", "destroying simulator " << i << " finalised " << events->size() << " stub libraries, expected " << want.size() << " in reverse order");
  m.have.clear(); m.libs.clear();
}
}
MC_SCENARIO(packages) {
  static std::vector<std::pair<int, int>> ev; events = &ev;
  if (!finalise[0]) { for (int k = 0; k < 7; ++k) { std::string n = std::string("c40pkg_") + (k < 6 ? SUB[k] : "services"); void *h = Xsmp::LoadLibrary(n.c_str()); if (!h) mc::error("cannot load " + n + ": " + Xsmp::GetLastError()); finalise[k] = Xsmp::GetSymbol<bool (*)(Smp::ISimulator *)>(h, "Finalise"); initialise[k] = Xsmp::GetSymbol<bool (*)(Smp::ISimulator *, Smp::Publication::ITypeRegistry *)>(h, "Initialise"); MC_CHECK(finalise[k] && initialise[k], "entry-point", "package " << n << " lacks an entry point"); } }
  create(0); create(1);
  const int depth = mc::param("depth", 3), nlibs = mc::param("libs", 7), pk = mc::param("pkgs", 2); // direct calls on the bundle and the first pk-1 packages
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose(2 * nlibs + 2 + 3 * pk);
    if (op < 2 * nlibs) {
      int i = op / nlibs; const Lib &l = LIBS[op % nlibs]; auto &m = sims[i]; std::set<int> add;
      if (l.pkg >= 0 && !wouldAdd(l.pkg, i, add)) break;
      MC_OP("simulator " << i << " LoadLibrary " << l.name); mc::context("LoadLibrary"); ev.clear(); int res = 0; c40_args[0] = c40_args[1] = nullptr;
      try { m.s->LoadLibrary(l.name); } catch (Smp::LibraryNotFound &) { res = 1; } catch (Smp::InvalidLibrary &) { res = 2; }
      MC_CHECK(res == l.result, "load-result", "LoadLibrary(" << l.name << ") ended with outcome " << res << " (0 loaded, 1 LibraryNotFound, 2 InvalidLibrary), expected " << l.result);
      if (l.stub) { bool runs = l.stub != 13 && l.stub != 14; MC_CHECK(ev.size() == (runs ? 1u : 0u) && (!runs || ev[0] == std::make_pair(l.stub, 3)), "initialise", "LoadLibrary(" << l.name << ") made " << ev.size() << " calls"); if (runs) MC_CHECK(c40_args[0] == static_cast<Smp::ISimulator *>(m.s) && c40_args[1] == m.s->GetTypeRegistry(), "arguments", "Initialise received other arguments than the simulator and its type registry"); }
      if (res == 0) { m.libs.push_back(&l); if (l.pkg >= 0) modelInit(l.pkg, i); }
    } else if (op < 2 * nlibs + 2) {
      int i = op - 2 * nlibs; MC_OP("destroy and recreate simulator " << i); mc::context("~Simulator"); destroy(i); create(i);
    } else {
      int k = (op - 2 * nlibs - 2) % pk; k = k == 0 ? 6 : k - 1; int w = (op - 2 * nlibs - 2) / pk;
      if (w == 0) { MC_OP("Initialise(null) of package " << k); mc::context("Initialise"); MC_CHECK(!initialise[k](nullptr, sims[0].s->GetTypeRegistry()), "null-simulator", "package " << k << " accepted a null simulator"); }
      else if (w == 1) { MC_OP("Finalise of package " << k); mc::context("Finalise"); bool direct = false; for (auto &m : sims) for (auto *l : m.libs) direct |= l->pkg >= 0; if (direct) break; /* finalising under a live user is not a supported use */ MC_CHECK(finalise[k](sims[0].s), "finalise", "Finalise of package " << k << " failed"); modelFini(k); }
      else { std::set<int> add; if (!wouldAdd(k, 0, add)) break; bool loaded = false; for (auto *l : sims[0].libs) loaded |= l->pkg == k || l->pkg == 6; if (!loaded) break; /* otherwise nobody would finalise it */
        MC_OP("Initialise of package " << k << " again"); mc::context("Initialise"); MC_CHECK(initialise[k](sims[0].s, sims[0].s->GetTypeRegistry()), "initialise", "Initialise of package " << k << " failed"); modelInit(k, 0); }
    }
    check(0); check(1);
  }
  mc::outcome(sims[0].have.size() * 7 + sims[1].have.size());
  destroy(0); destroy(1);
  for (auto *f : finalise) MC_CHECK(f(nullptr), "finalise", "final Finalise failed");
  for (auto &k : known) k.clear();
}
