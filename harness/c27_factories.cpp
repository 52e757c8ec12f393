// C27: factories, the instances they create and the top-level containers of the simulator.
#include "mc.h"
#include "simenv.h"
#include <Smp/DuplicateName.h>
#include <Smp/DuplicateUuid.h>
#include <Smp/IFactory.h>
#include <Smp/InvalidObjectName.h>
#include <Smp/InvalidSimulatorState.h>
#include <Smp/Uuid.h>
#include <Xsmp/Exception.h>
#include <Xsmp/Factory.h>
#include <Xsmp/Services/XsmpLinkRegistry.h>
#include <Smp/Services/ITimeKeeper.h>
#include <algorithm>
#include <memory>
namespace {
using St = Smp::SimulatorStateKind;
int alive = 0, factoriesAlive = 0;
const Smp::Uuid U[] = {{1, 2, 3, 4, 5}, {1, 2, 3, 4, 6}, {0xFFFFFFFF, 0xFFFF, 0xFFFF, 0xFFFF, 0xFFFFFFFFFFFF}, {}};
template <class Base, int K> struct Inst : Base { Inst(Smp::String8 n, Smp::String8 d, Smp::IComposite *p, Smp::ISimulator *s) : Base(n, d, p, s) { ++alive; } ~Inst() override { --alive; } const Smp::Uuid &GetUuid() const override { return U[K]; } };
struct A : public Inst<Xsmp::Model, 0> { using Inst::Inst; }; struct B : public Inst<Xsmp::Model, 1> { using Inst::Inst; }; struct C : public Inst<Xsmp::Service, 2> { using Inst::Inst; };
struct Box : public Xsmp::Model, public virtual Xsmp::Composite { Xsmp::Container<Smp::IModel> subs; Box(Smp::ISimulator *sim, Smp::IComposite *p) : Xsmp::Model("box", "", p, sim), subs("subs", "", static_cast<Xsmp::Composite *>(this), 0, -1) {} };
struct Clock : public Xsmp::Service, public virtual Smp::Services::ITimeKeeper { using Xsmp::Service::Service; Smp::Duration GetSimulationTime() const override { return 0; } Smp::DateTime GetEpochTime() const override { return 0; } Smp::DateTime GetMissionStartTime() const override { return 0; } Smp::Duration GetMissionTime() const override { return 0; } Smp::DateTime GetZuluTime() const override { return 0; } void SetSimulationTime(Smp::Duration) override {} void SetEpochTime(Smp::DateTime) override {} void SetMissionStartTime(Smp::DateTime) override {} void SetMissionTime(Smp::Duration) override {} };
// a factory that is not one of Xsmp, and says when it is deleted
struct Other : public Smp::IFactory { Smp::IObject *p; std::string n; Smp::Uuid u; Smp::ISimulator *s; Other(Smp::ISimulator *sim, const char *name, Smp::Uuid uuid) : p(sim), n(name), u(uuid), s(sim) { ++factoriesAlive; } ~Other() noexcept override { --factoriesAlive; }
  Smp::String8 GetName() const override { return n.c_str(); } Smp::String8 GetDescription() const override { return "other"; } Smp::IObject *GetParent() const override { return p; } Smp::Uuid GetUuid() const override { return u; } Smp::String8 GetTypeName() const override { return "B"; } Smp::IComponent *CreateInstance(Smp::String8 name, Smp::String8 d, Smp::IComposite *parent) override { return new B(name, d, parent, s); } void DeleteInstance(Smp::IComponent *i) override { delete i; } };
struct Desc { int uuid; const char *name; int made; /* 0 A 1 B 2 C, -1 an instance of another uuid */ bool other; };
const Desc F[] = {{0, "fa", 0, false}, {1, "fb", 1, false}, {2, "fc", 2, false}, {1, "other", 1, true}, {0, "fb", 0, false}, {1, "fa", 1, false}, {3, "wrong", -1, false}};
constexpr int NF = 7;
struct World {
  std::unique_ptr<Xsmp::Simulator> simp{new Xsmp::Simulator("sim", "")}; Xsmp::Simulator &sim{*simp}; Box *box = nullptr; struct Reg { int d; Smp::IFactory *f; }; std::vector<Reg> regs; struct Loose { std::unique_ptr<Smp::IComponent> c; }; std::vector<Loose> loose; std::vector<Smp::IModel *> models; std::vector<Smp::IService *> services; std::vector<Smp::IModel *> subs; std::string trail;
  World() { alive = factoriesAlive = 0; }
  Smp::IFactory *make(int d) { const Desc &x = F[d]; if (x.other) return new Other(&sim, x.name, U[x.uuid]); switch (x.made) { case 0: return Xsmp::Factory::Create<A>(x.name, "first", &sim, U[x.uuid]); case 1: return Xsmp::Factory::Create<B>(x.name, "second", &sim, U[x.uuid]); case 2: return Xsmp::Factory::Create<C>(x.name, "third", &sim, U[x.uuid]); default: return Xsmp::Factory::Create<A>(x.name, "", &sim, U[x.uuid]); } }
  const Reg *find(int uuid) const { for (auto &r : regs) if (F[r.d].uuid == uuid) return &r; return nullptr; }
  void check() {
    for (int u = 0; u < 4; ++u) { auto *r = find(u); MC_CHECK(sim.GetFactory(U[u]) == (r ? r->f : nullptr), "GetFactory", "GetFactory of uuid " << u << (r ? ": not the factory registered under it" : ": a factory, although there is none")); }
    auto *c = sim.GetFactories(); MC_CHECK(c->size() == regs.size(), "GetFactories", "GetFactories has " << c->size() << " elements instead of " << regs.size()); size_t i = 0; for (auto *f : *c) { MC_CHECK(i < regs.size() && f == regs[i].f && c->at(i) == f, "GetFactories", "GetFactories: element " << i); ++i; } MC_CHECK(i == regs.size() && !c->at(i), "GetFactories", "GetFactories: beyond the end");
    for (auto &r : regs) { const Desc &d = F[r.d]; MC_CHECK(r.f->GetUuid() == U[d.uuid] && std::string(r.f->GetName()) == d.name, "factory", "factory " << d.name << " has another uuid or name"); auto *n = c->at(d.name); MC_CHECK(n && std::string(n->GetName()) == d.name, "GetFactories", "factory " << d.name << " is not found by name"); }
    MC_CHECK(!c->at("nothing"), "GetFactories", "unknown name"); int others = 0; for (auto &r : regs) others += F[r.d].other; MC_CHECK(factoriesAlive == others, "deleted", "a registered factory was deleted, or one that was refused is kept");
    auto same = [&](const char *name, auto &want) { auto *k = sim.GetContainer(name); MC_CHECK(k, "container", "no container " << name); auto *cs = k->GetComponents(); MC_CHECK(cs->size() == want.size(), "container", name << " has " << cs->size() << " elements instead of " << want.size()); for (size_t j = 0; j < want.size(); ++j) MC_CHECK(cs->at(j) == static_cast<Smp::IComponent *>(want[j]), "container", name << ": element " << j); };
    same("Models", models); same("Services", services); for (const char *n : {"a", "b", "Logger", "TK", "nothing"}) { Smp::IService *want = nullptr; for (auto *s : services) if (std::string(s->GetName()) == n) want = s; MC_CHECK(sim.GetService(n) == want, "GetService", "GetService(" << n << ")"); }
    auto first = [&](auto *have, const char *what) { using T = std::remove_pointer_t<decltype(have)>; T *want = nullptr; for (auto *s : services) if (!want) want = dynamic_cast<T *>(s); MC_CHECK(have == want, "standard services", what << " is not the first such service"); };
    first(sim.GetLogger(), "GetLogger"); first(sim.GetTimeKeeper(), "GetTimeKeeper"); first(sim.GetEventManager(), "GetEventManager"); first(sim.GetResolver(), "GetResolver"); first(sim.GetLinkRegistry(), "GetLinkRegistry"); first(sim.GetScheduler(), "GetScheduler");
  }
};
}
MC_SCENARIO(factories) {
  { World w; const int depth = mc::param("depth", 3); mc::context("factories"); std::string h;
  for (int i = 0; i < depth; ++i) {
    const int nr = static_cast<int>(w.regs.size()); int o = mc::choose(NF + nr + 4 * 6 + 1); if (o == NF + nr + 24) break; h += std::to_string(o) + ",";
    if (o < NF) { const Desc &d = F[o]; MC_OP("register factory " << d.name << " of uuid " << d.uuid); auto *f = w.make(o); const bool dup = w.find(d.uuid) != nullptr; std::string was = dup ? F[w.find(d.uuid)->d].name : ""; bool threw = false;
      try { w.sim.RegisterFactory(f); } catch (const Smp::DuplicateUuid &e) { threw = true; MC_CHECK(e.GetOldName() == was && std::string(e.GetNewName()) == d.name, "DuplicateUuid", "DuplicateUuid names other factories"); }
      MC_CHECK(threw == dup, "DuplicateUuid", (dup ? "a second factory with the same uuid is accepted" : "a factory with a new uuid is refused")); if (!threw) w.regs.push_back({o, f}); }
    else if ((o -= NF) < nr) { MC_OP("register factory " << F[w.regs[static_cast<size_t>(o)].d].name << " again"); bool threw = false; try { w.sim.RegisterFactory(w.regs[static_cast<size_t>(o)].f); } catch (const Smp::DuplicateUuid &) { threw = true; } MC_CHECK(threw, "DuplicateUuid", "the same factory is accepted twice"); }
    else { o -= nr; int u = o % 4, how = o / 4; static const char *const NAMES[] = {"a", "b", "1x", "", "a", "c_1"}; const char *name = NAMES[how]; const bool valid = how < 2 || how >= 4; const bool inBox = how == 4; if (inBox && !w.box) { w.box = new Box(&w.sim, &w.sim); w.loose.push_back({std::unique_ptr<Smp::IComponent>(w.box)}); } Smp::IComposite *parent = inBox ? static_cast<Smp::IComposite *>(w.box) : &w.sim; std::string desc = how == 1 ? "" : "description of " + std::string(name);
      MC_OP("create an instance of uuid " << u << " named '" << name << "'" << (inBox ? " in a model" : "")); int before = alive; std::string why; Smp::IComponent *c = nullptr; try { c = w.sim.CreateInstance(U[u], name, desc.c_str(), parent); } catch (const Smp::InvalidObjectName &) { why = "InvalidObjectName"; } catch (const Smp::Exception &e) { why = e.GetName(); }
      std::unique_ptr<Smp::IComponent> own(c); auto *r = w.find(u); if (!r) MC_CHECK(!c && why.empty(), "CreateInstance", "no factory for this uuid, but " << (c ? "an instance" : why)); else if (!valid) MC_CHECK(!c && why == "InvalidObjectName", "CreateInstance", "an invalid name gives " << (c ? "an instance" : why)); else if (F[r->d].made < 0) MC_CHECK(!c && !why.empty(), "CreateInstance", "an instance of another uuid was returned");
      else { MC_CHECK(c && why.empty(), "CreateInstance", "no instance, but " << why); const bool type = F[r->d].made == 0 ? dynamic_cast<A *>(c) != nullptr : F[r->d].made == 1 ? dynamic_cast<B *>(c) != nullptr : dynamic_cast<C *>(c) != nullptr; MC_CHECK(type, "CreateInstance", "instance of another type"); MC_CHECK(std::string(c->GetName()) == name && c->GetDescription() == desc && c->GetParent() == dynamic_cast<Smp::IObject *>(parent) && c->GetUuid() == U[u] && c->GetState() == Smp::ComponentStateKind::CSK_Created, "CreateInstance", "name, description, parent, uuid or state of the instance"); }
      MC_CHECK(alive == before + (c ? 1 : 0), "instances", "an instance that is not returned is kept"); MC_CHECK(std::string(r ? r->f->GetTypeName() : "x").size() > 0, "type name", "no type name"); own.reset(); MC_CHECK(alive == before, "instances", "the instance is not deleted"); }
    w.check();
  }
  mc::visit(mc::hashStr(h)); mc::outcome(mc::hashStr(h)); }
  MC_CHECK(alive == 0 && factoriesAlive == 0, "deleted", factoriesAlive << " factories and " << alive << " instances are left after the simulator");
}
// models and services of the simulator, in every state
MC_SCENARIO(containers) {
  { World w; const int depth = mc::param("depth", 4); mc::context("containers"); std::string h; bool running = false;
  for (int i = 0; i < depth; ++i) {
    int o = mc::choose(16); if (o == 15) break; h += std::to_string(o) + ","; const St st = w.sim.GetState(); const bool open = st == St::SSK_Building || st == St::SSK_Standby; bool threw = false; std::string why;
    auto used = [&](const std::string &n) { for (auto *m : w.models) if (n == m->GetName()) return true; for (auto *s : w.services) if (n == s->GetName()) return true; return false; };
    auto add = [&](auto *c, bool model) { const std::string n = c->GetName(); const bool dup = used(n); MC_OP((model ? "AddModel " : "AddService ") << n); using T = std::remove_pointer_t<decltype(c)>; try { if constexpr (std::is_base_of_v<Smp::IModel, T>) w.sim.AddModel(c); else w.sim.AddService(c); } catch (const Smp::DuplicateName &) { threw = true; why = "DuplicateName"; } catch (const Smp::InvalidSimulatorState &) { threw = true; why = "InvalidSimulatorState"; } catch (const Smp::Exception &e) { threw = true; why = e.GetName(); }
      const std::string want = !open ? "InvalidSimulatorState" : dup ? "DuplicateName" : ""; MC_CHECK(why == want, "added", (model ? "AddModel" : "AddService") << " in state " << static_cast<int>(st) << (dup ? " with a name in use" : "") << ": " << (why.empty() ? "accepted" : why)); if (threw) delete c; else if constexpr (std::is_base_of_v<Smp::IModel, T>) w.models.push_back(c); else w.services.push_back(c); };
    switch (o) { case 0: add(new A("a", "", &w.sim, &w.sim), true); break; case 1: add(new B("b", "", &w.sim, &w.sim), true); break; case 2: add(new C("a", "", &w.sim, &w.sim), false); break; case 3: add(new C("b", "", &w.sim, &w.sim), false); break; case 4: add(new StubLogger("Logger", "", &w.sim, &w.sim), false); break; case 5: add(new StubLogger("a", "", &w.sim, &w.sim), false); break; case 6: add(new Clock("TK", "", &w.sim, &w.sim), false); break; case 7: add(new Xsmp::Services::XsmpEventManager("TK", "", &w.sim, &w.sim), false); break; case 8: add(new Xsmp::Services::XsmpResolver("b", "", &w.sim, &w.sim), false); break; case 9: add(new Xsmp::Services::XsmpLinkRegistry("links", "", &w.sim, &w.sim), false); break;
    case 10: { // the order in the containers and a model deleted
      if (w.models.empty()) break; MC_OP("delete model " << w.models.front()->GetName()); auto *k = w.sim.GetContainer("Models"); k->DeleteComponent(w.models.front()); w.models.erase(w.models.begin()); break; }
    case 11: MC_OP("Connect"); w.sim.Connect(); break; case 12: if (!running && st == St::SSK_Standby) { MC_OP("Run"); w.sim.Run(); } break; case 13: MC_OP("Hold"); w.sim.Hold(true); break; default: MC_OP("Exit"); w.sim.Exit(); break; }
    w.check();
  }
  mc::visit(mc::hashStr(h)); mc::outcome(mc::hashStr(h)); }
  MC_CHECK(alive == 0, "deleted", alive << " components are left after the simulator");
}
