// C28: the simulator drives every component of the tree through the phases, whenever the component is added.
#include "mc.h"
#include "simenv.h"
#include <Xsmp/Services/XsmpLinkRegistry.h>
#include <memory>
namespace {
using K = Smp::ComponentStateKind; using EM = Smp::Services::IEventManager;
const char *const PHASES[] = {"Publish", "Configure", "Connect", "Disconnect"};
struct World;
struct Rec { int id; Smp::IComponent *c; int parent; int calls[4] = {}; bool service; bool composite; int made; }; // parent: -1 top level
World *W = nullptr; bool orderToo = false;
void hook(int id, int phase, const void *arg1, const void *arg2);
template <class Base> struct Leaf : Base { int id; Leaf(int i, const char *n, Smp::IComposite *p, Smp::ISimulator *s) : Base(n, "", p, s), id(i) {}
  void Publish(Smp::IPublication *r) override { Base::Publish(r); if (r) r->PublishField("f", "", &f); hook(id, 0, r, nullptr); } void Configure(Smp::Services::ILogger *l, Smp::Services::ILinkRegistry *k) override { Base::Configure(l, k); hook(id, 1, l, k); }
  void Connect(Smp::ISimulator *s) override { Base::Connect(s); hook(id, 2, s, nullptr); } void Disconnect() override { Base::Disconnect(); hook(id, 3, nullptr, nullptr); } Smp::Int32 f = 0; };
struct Subs { Xsmp::Container<Smp::IModel> first, second; explicit Subs(Xsmp::Composite *o) : first("first", "", o, 0, -1), second("second", "", o, 0, -1) {} };
struct ModelBase : public Xsmp::Model, public virtual Xsmp::Composite { Subs subs; ModelBase(const char *n, const char *d, Smp::IComposite *p, Smp::ISimulator *s) : Xsmp::Model(n, d, p, s), subs(this) {} };
struct ServiceBase : public Xsmp::Service, public virtual Xsmp::Composite { Subs subs; ServiceBase(const char *n, const char *d, Smp::IComposite *p, Smp::ISimulator *s) : Xsmp::Service(n, d, p, s), subs(this) {} };
struct LeafModel : public Leaf<Xsmp::Model> { using Leaf::Leaf; }; struct LeafService : public Leaf<Xsmp::Service> { using Leaf::Leaf; };
struct CompModel : public Leaf<ModelBase> { using Leaf::Leaf; };
struct CompService : public Leaf<ServiceBase> { using Leaf::Leaf; };
struct World {
  std::unique_ptr<Xsmp::Simulator> simp{new Xsmp::Simulator("sim", "")}; Xsmp::Simulator &sim{*simp}; StubLogger *log; Xsmp::Services::XsmpLinkRegistry *links; Xsmp::Services::XsmpEventManager *em; std::vector<Rec> recs; std::vector<std::pair<int, int>> seq; int budget = 0, ops = 0; bool walking = false, added = false, over = false;
  std::unique_ptr<EpModel> holder; std::unique_ptr<Xsmp::EntryPoint> leave; int connectedAtLeave = -1;
  World() { W = this; log = addService<StubLogger>(sim, "Logger"); log->counting = false; links = addService<Xsmp::Services::XsmpLinkRegistry>(sim, "Links"); em = addService<Xsmp::Services::XsmpEventManager>(sim, "EM"); recs.reserve(32);
    holder = std::make_unique<EpModel>("h", "", nullptr, &sim); leave = std::make_unique<Xsmp::EntryPoint>("e", "", holder.get(), [this] { connectedAtLeave = 0; for (auto &r : recs) connectedAtLeave += r.c->GetState() == K::CSK_Connected; }); em->Subscribe(EM::SMP_LeaveConnectingId, leave.get()); }
  ~World() { over = true; simp.reset(); W = nullptr; }
  Subs *subs(int id) { if (auto *m = dynamic_cast<CompModel *>(recs[static_cast<size_t>(id)].c)) return &m->subs; if (auto *s = dynamic_cast<CompService *>(recs[static_cast<size_t>(id)].c)) return &s->subs; return nullptr; }
  // add a component: below `parent`, or at the top level of the simulator
  int add(int parent, bool service, bool composite, bool second = false) {
    int id = static_cast<int>(recs.size()); std::string n = "c" + std::to_string(id); Smp::IComposite *up = parent < 0 ? static_cast<Smp::IComposite *>(&sim) : dynamic_cast<Smp::IComposite *>(recs[static_cast<size_t>(parent)].c); Smp::IComponent *c;
    if (service) { Smp::IService *s = composite ? static_cast<Smp::IService *>(new CompService(id, n.c_str(), up, &sim)) : new LeafService(id, n.c_str(), up, &sim); c = s; recs.push_back({id, c, parent, {}, service, composite, ops}); sim.AddService(s); }
    else { Smp::IModel *m = composite ? static_cast<Smp::IModel *>(new CompModel(id, n.c_str(), up, &sim)) : new LeafModel(id, n.c_str(), up, &sim); c = m; recs.push_back({id, c, parent, {}, service, composite, ops}); if (parent < 0) sim.AddModel(m); else (second ? subs(parent)->second : subs(parent)->first).AddComponent(m); }
    MC_OP((walking ? "      adds " : "add ") << (composite ? "composite " : "") << (service ? "service " : "model ") << n << (parent < 0 ? "" : " to c" + std::to_string(parent)) << (second ? " (second container)" : "")); if (walking) added = true; return id;
  }
  void change(int id) { // something a hook may do
    if (budget <= 0 || !mc::flip()) return; --budget; Rec &r = recs[static_cast<size_t>(id)]; int p = r.parent; const int parent = p; bool legal = sim.GetState() == Smp::SimulatorStateKind::SSK_Building || sim.GetState() == Smp::SimulatorStateKind::SSK_Connecting;
    switch (mc::choose(7)) { case 0: if (r.composite) add(id, false, mc::flip(), mc::flip()); break; case 1: if (parent >= 0) add(parent, false, mc::flip()); break; case 2: if (parent >= 0) add(parent, false, false, true); break; case 3: if (legal) add(-1, false, mc::flip()); break; case 4: if (legal) add(-1, true, mc::flip()); break;
    case 5: { int q = parent >= 0 ? recs[static_cast<size_t>(parent)].parent : -1; if (q >= 0) add(q, false, false); break; } default: for (auto &x : recs) if (x.composite && x.parent < 0 && x.id != id && x.id != parent) { add(x.id, false, false); break; } break; }
  }
};
void hook(int id, int phase, const void *a, const void *b) {
  if (!W || W->over) return; World &w = *W; Rec &r = w.recs[static_cast<size_t>(id)]; w.seq.emplace_back(id, phase); ++r.calls[phase]; MC_OP("    " << PHASES[phase] << " c" << id);
  MC_CHECK(r.calls[phase] == 1, "twice", PHASES[phase] << " of component c" << id << " is called again"); MC_CHECK(phase == 0 || r.calls[phase - 1] == 1, "phase order", PHASES[phase] << " of component c" << id << " is called without the phases before");
  if (phase < 3 && r.parent >= 0) MC_CHECK(w.recs[static_cast<size_t>(r.parent)].calls[phase] == 1, "parent first", PHASES[phase] << " of component c" << id << " is called before its parent's");
  if (phase == 0) MC_CHECK(a != nullptr, "arguments", "Publish without publication"); if (phase == 1) MC_CHECK(a == static_cast<Smp::Services::ILogger *>(w.log) && b == static_cast<Smp::Services::ILinkRegistry *>(w.links), "arguments", "Configure with another logger or link registry"); if (phase == 2) MC_CHECK(a == static_cast<Smp::ISimulator *>(&w.sim), "arguments", "Connect with another simulator");
  if (phase == 0) { auto *f = r.c->GetFields(); MC_CHECK(f && f->size() == 1 && f->at(size_t{0})->GetParent() == r.c, "publication", "the publication given to c" << id << " is not its own"); }
  if (phase < 3) w.change(id);
}
// what the documentation asks for: Models then Services (or the other way round), each component at once followed by its children
void walk(World &w, const std::vector<std::array<int, 4>> &before, int id, int upto, std::vector<std::pair<int, int>> &out) {
  for (int p = 0; p <= upto; ++p) if (!before[static_cast<size_t>(id)][static_cast<size_t>(p)]) out.emplace_back(id, p);
  if (auto *s = w.subs(id)) { for (auto *m : *s->first.GetComponents()) walk(w, before, w.recs[static_cast<size_t>(std::stoi(m->GetName() + 1))].id, upto, out); for (auto *m : *s->second.GetComponents()) walk(w, before, std::stoi(m->GetName() + 1), upto, out); }
}
void drive(World &w, int upto, int root) { // root: -1 the whole simulator, else the components below
  std::vector<std::array<int, 4>> before; for (auto &r : w.recs) before.push_back({r.calls[0], r.calls[1], r.calls[2], r.calls[3]});
  w.seq.clear(); w.added = false; w.walking = true; w.connectedAtLeave = -1;
  if (root >= 0) w.sim.Reconnect(w.recs[static_cast<size_t>(root)].c); else if (upto == 0) w.sim.Publish(); else if (upto == 1) w.sim.Configure(); else w.sim.Connect();
  w.walking = false; const char *op = root >= 0 ? "Reconnect" : PHASES[upto];
  auto below = [&](int id) { if (root < 0) return true; for (int p = w.recs[static_cast<size_t>(id)].parent; p >= 0; p = w.recs[static_cast<size_t>(p)].parent) if (p == root) return true; return false; };
  for (auto &r : w.recs) { bool in = below(r.id); for (int p = 0; p < 4; ++p) { int old = r.id < static_cast<int>(before.size()) ? before[static_cast<size_t>(r.id)][static_cast<size_t>(p)] : 0; int want = in && p <= upto ? 1 : old; MC_CHECK(r.calls[p] == want, r.calls[p] < want ? "skipped" : "driven", op << ": " << PHASES[p] << " of c" << r.id << (r.calls[p] < want ? " is not called" : " is called")); }
    if (in) MC_CHECK(r.c->GetState() == (upto == 0 ? std::max(r.c->GetState(), K::CSK_Publishing) : upto == 1 ? std::max(r.c->GetState(), K::CSK_Configured) : K::CSK_Connected), "state", op << ": state of c" << r.id); }
  if (root < 0 && upto == 2) MC_CHECK(w.connectedAtLeave == static_cast<int>(w.recs.size()), "leave", "SMP_LeaveConnecting is emitted before all components are connected");
  if (!w.added) {
    std::vector<std::pair<int, int>> models, services, want; if (root >= 0) { for (auto &r : w.recs) if (r.parent == root) { bool sec = w.subs(root)->second.GetComponent(r.c->GetName()) != nullptr; walk(w, before, r.id, upto, sec ? services : models); } } else for (auto &r : w.recs) if (r.parent < 0) walk(w, before, r.id, upto, r.service ? services : models);
    auto both = [](auto a, const auto &b) { a.insert(a.end(), b.begin(), b.end()); return a; }; const bool documented = w.seq == both(models, services), other = root < 0 && w.seq == both(services, models);
    MC_CHECK(documented || other, "sequence", op << ": the components are not driven in the order of their containers, each followed by its children"); if (orderToo) MC_CHECK(documented, "services first", op << ": the components of the Services container are driven before those of the Models container");
  }
}
}
// the order of the two containers of the simulator
MC_SCENARIO(order) {
  World w; mc::context("order"); int a = w.add(-1, false, true); w.add(a, false, false); int s = w.add(-1, true, true); w.add(s, false, false); if (mc::flip()) w.add(-1, false, false); int p = mc::choose(3); MC_OP(PHASES[p]); orderToo = true; drive(w, p, -1);
}
MC_SCENARIO(phases) {
  orderToo = false;
  World w; const int depth = mc::param("depth", 3); static const int maxAdds = 2; mc::context("component tree");
  switch (mc::choose(mc::param("trees", 4))) { case 0: w.add(-1, false, false); break; case 1: { int a = w.add(-1, false, true); w.add(a, false, false); break; } case 2: { int a = w.add(-1, false, true); int b = w.add(a, false, true); w.add(b, false, false, true); w.add(a, false, false); w.add(-1, true, false); break; } default: { int s = w.add(-1, true, true); w.add(s, false, true); w.add(-1, false, true); break; } }
  w.budget = mc::param("budget", 0); int phase = -1, adds = 0; bool exited = false;
  for (int i = 0; i < depth; ++i) {
    ++w.ops; const auto st = w.sim.GetState(); bool standby = st == Smp::SimulatorStateKind::SSK_Standby; enum { Stop, Pub, Conf, Conn, AddModel, AddService, AddBelow, Reconnect, Exit };
    std::vector<int> can{Stop}; if (st == Smp::SimulatorStateKind::SSK_Building) { can.push_back(Pub); can.push_back(Conf); can.push_back(Conn); } if (standby) { can.push_back(Reconnect); can.push_back(Exit); } if (adds < maxAdds && !exited) { can.push_back(AddModel); can.push_back(AddService); can.push_back(AddBelow); }
    int o = can[static_cast<size_t>(mc::choose(static_cast<int>(can.size())))]; if (o == Stop) break;
    switch (o) { case Pub: MC_OP("Publish"); phase = std::max(phase, 0); drive(w, 0, -1); break; case Conf: MC_OP("Configure"); drive(w, 1, -1); break; case Conn: MC_OP("Connect"); drive(w, 2, -1); break;
    case AddModel: ++adds; w.add(-1, false, mc::flip()); break; case AddService: ++adds; w.add(-1, true, mc::flip()); break; case AddBelow: { ++adds; std::vector<int> c; for (auto &r : w.recs) if (r.composite) c.push_back(r.id); if (!c.empty()) w.add(c[static_cast<size_t>(mc::choose(static_cast<int>(c.size())))], false, mc::flip(), mc::flip()); break; }
    case Reconnect: { int id = mc::choose(static_cast<int>(w.recs.size())); if (w.recs[static_cast<size_t>(id)].c->GetState() != K::CSK_Connected) break; MC_OP("Reconnect c" << id); drive(w, 2, id); break; }
    default: { MC_OP("Exit"); exited = true; std::vector<int> was; for (auto &r : w.recs) was.push_back(r.c->GetState() == K::CSK_Connected); w.seq.clear(); w.sim.Exit(); for (auto &r : w.recs) { MC_CHECK(r.calls[3] == was[static_cast<size_t>(r.id)], "disconnect", "Exit: Disconnect of c" << r.id << " is called " << r.calls[3] << " times"); MC_CHECK(r.c->GetState() != K::CSK_Connected, "disconnect", "c" << r.id << " is still connected"); } break; } }
  }
  std::string h; for (auto &r : w.recs) { for (int c : r.calls) h += std::to_string(c); h += std::to_string(r.parent) + (r.service ? "s" : "m"); } mc::visit(mc::hashStr(h + std::to_string(w.ops) + std::to_string(w.budget))); mc::outcome(mc::hashStr(h));
}
