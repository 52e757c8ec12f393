// C25, C26: every sequence of simulator calls, made from outside and from inside global events, component hooks and init entry points.
// The run is recorded as a tree (call -> what happened inside it); a model of the state machine then walks the tree.
#include "mc.h"
#include "simenv.h"
#include <map>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>
namespace {
using S = Smp::SimulatorStateKind; using EM = Smp::Services::IEventManager; using C = Smp::ComponentStateKind;
const char *name(S s) { static const char *const N[] = {"Building", "Connecting", "Initialising", "Standby", "Executing", "Storing", "Restoring", "Reconnecting", "Exiting", "Aborting"}; return N[static_cast<int>(s)]; }
const char *const EVENTS[] = {"", "LeaveConnecting", "EnterInitialising", "LeaveInitialising", "EnterStandby", "LeaveStandby", "EnterExecuting", "LeaveExecuting", "EnterStoring", "LeaveStoring", "EnterRestoring", "LeaveRestoring", "EnterExiting", "EnterAborting", "EpochTimeChanged", "MissionTimeChanged", "EnterReconnecting", "LeaveReconnecting", "PreSimTimeChange", "PostSimTimeChange"};
enum Op { Publish, Configure, Connect, Initialise, Run, HoldNow, HoldSoon, Store, Restore, Reconnect, Exit, Abort, Pre, AddInit, OPS };
const char *const OPNAMES[] = {"Publish", "Configure", "Connect", "Initialise", "Run", "Hold(true)", "Hold(false)", "Store", "Restore", "Reconnect", "Exit", "Abort", "PreSimTimeChange", "AddInitEntryPoint"};
struct Node { enum Kind { Call, Event, Hook, Init } kind; int id; S state; std::vector<Node> in; bool threw = false; };
struct Cfg { bool logger, events, resolver; };
struct World;
struct HookModel : public EpModel { using EpModel::EpModel; World *w = nullptr;
  void Publish(Smp::IPublication *r) override; void Configure(Smp::Services::ILogger *l, Smp::Services::ILinkRegistry *k) override; void Connect(Smp::ISimulator *s) override; void Disconnect() override; };
struct Top : public virtual Xsmp::Model, public virtual Xsmp::Composite { Xsmp::Container<Smp::IModel> subs; Top(Xsmp::Simulator &sim) : Xsmp::Model("top", "", &sim, &sim), subs("subs", "", static_cast<Xsmp::Composite *>(this), 0, -1) {} };
struct World {
  std::unique_ptr<Xsmp::Simulator> simp{new Xsmp::Simulator("sim", "")}; Xsmp::Simulator &sim{*simp}; Xsmp::Services::XsmpEventManager *em = nullptr; Top *top; HookModel *m; std::vector<std::unique_ptr<Xsmp::EntryPoint>> obs; std::vector<std::unique_ptr<Xsmp::EntryPoint>> inits; Node root{Node::Call, OPS, S::SSK_Building, {}}; Node *at = &root; int budget = 0, inHook = 0; std::string dir; std::vector<Op> nested;
  explicit World(Cfg c) {
    if (c.logger) addService<StubLogger>(sim, "Logger")->counting = false; if (c.resolver) addService<Xsmp::Services::XsmpResolver>(sim, "Resolver"); if (c.events) em = addService<Xsmp::Services::XsmpEventManager>(sim, "EM"); top = new Top(sim); sim.AddModel(top); m = new HookModel("m", "", static_cast<Xsmp::Composite *>(top), &sim); m->w = this; top->subs.AddComponent(m);
    if (em) for (int e = 1; e <= 19; ++e) if (e != 14 && e != 15) { obs.push_back(std::make_unique<Xsmp::EntryPoint>(("o" + std::to_string(e)).c_str(), "", m, [this, e] { happens(Node::Event, e); })); em->Subscribe(e, obs.back().get()); }
    dir = (access("/dev/shm", W_OK) == 0 ? "/dev/shm/xsmp-c25-" : "/tmp/xsmp-c25-") + std::to_string(getpid());
  }
  ~World() { at = nullptr; simp.reset(); unlink((dir + "/simulator.bin").c_str()); rmdir(dir.c_str()); }
  void happens(Node::Kind k, int id) {
    if (!at) return; // the simulator is being destroyed
    Node *up = at; size_t i = up->in.size(); up->in.push_back(Node{k, id, sim.GetState(), {}}); at = &up->in[i]; MC_OP("    " << (k == Node::Event ? EVENTS[id] : k == Node::Init ? "init entry point" : "component hook") << (k == Node::Event ? "" : " " + std::to_string(id)) << " in " << name(at->state));
    if (k == Node::Hook) ++inHook; while (budget > 0 && mc::flip()) { --budget; Op o = nested[static_cast<size_t>(mc::choose(static_cast<int>(nested.size())))]; if (!(inHook && o <= Connect)) call(o); } if (k == Node::Hook) --inHook; at = up;
  }
  void call(Op o) {
    if (o == Restore && em && !sim.GetResolver()) return; // what a Restore that raises leaves in the event manager is not specified
    Node *up = at; size_t i = up->in.size(); up->in.push_back(Node{Node::Call, o, sim.GetState(), {}}); at = &up->in[i]; if (o == AddInit) { at->id = OPS + static_cast<int>(inits.size()); } Node *me = at; MC_OP((up == &root ? "" : "      inside: ") << OPNAMES[o]);
    try {
      switch (o) { case Publish: sim.Publish(); break; case Configure: sim.Configure(); break; case Connect: sim.Connect(); break; case Initialise: sim.Initialise(); break; case Run: sim.Run(); break; case HoldNow: sim.Hold(true); break; case HoldSoon: sim.Hold(false); break;
      case Store: sim.Store(dir.c_str()); break; case Restore: { sim.Restore(dir.c_str()); break; } case Reconnect: sim.Reconnect(top); break; case Exit: sim.Exit(); break; case Abort: sim.Abort(); break; case Pre: if (em) em->Emit(EM::SMP_PreSimTimeChangeId); break;
      case AddInit: { int k = static_cast<int>(inits.size()); inits.push_back(std::make_unique<Xsmp::EntryPoint>(("i" + std::to_string(k)).c_str(), "", m, [this, k] { happens(Node::Init, k); })); sim.AddInitEntryPoint(inits.back().get()); break; } default: break; }
    } catch (const Smp::Exception &) { me->threw = true; MC_OP("      raises"); }
    me->state = sim.GetState(); at = up;
  }
};
void HookModel::Publish(Smp::IPublication *r) { Xsmp::Model::Publish(r); w->happens(Node::Hook, 0); } void HookModel::Configure(Smp::Services::ILogger *l, Smp::Services::ILinkRegistry *k) { Xsmp::Model::Configure(l, k); w->happens(Node::Hook, 1); } void HookModel::Connect(Smp::ISimulator *s) { Xsmp::Model::Connect(s); w->happens(Node::Hook, 2); } void HookModel::Disconnect() { Xsmp::Model::Disconnect(); w->happens(Node::Hook, 3); }
// the state machine
struct Machine {
  bool events; S s = S::SSK_Building; C comp = C::CSK_Created; std::vector<int> inits; std::vector<int> emitting; bool pending = false, holding = false, stored = false; std::string trail;
  std::string where(const Node &n) { return std::string(n.kind == Node::Call ? OPNAMES[std::min(n.id, static_cast<int>(AddInit))] : EVENTS[n.id]); }
  // the next thing that happens inside n must be this
  size_t pos = 0; struct Cursor { const Node &n; size_t i = 0; };
  bool aborted() const { return s == S::SSK_Aborting; }
  void inside(const Node &n) { for (auto &x : n.in) { MC_CHECK(x.kind == Node::Call, "events", "something other than a call of this check happens inside"); op(x); } }
  void happens(Cursor &c, Node::Kind k, int id, const char *op) {
    if (!events && k == Node::Event) return;
    const Node *x = c.i < c.n.in.size() ? &c.n.in[c.i] : nullptr;
    if (aborted() && (!x || x->kind != k || x->id != id)) return; // aborted meanwhile: the rest of this phase may be left out
    const std::string what = k == Node::Event ? std::string("event ") + EVENTS[id] : k == Node::Hook ? "component hook " + std::to_string(id) : "init entry point " + std::to_string(id);
    MC_CHECK(x && x->kind == k && x->id == id, k == Node::Event ? "events" : k == Node::Hook ? "components" : "init", op << " in state " << name(s) << ": expected " << what << ", but " << (!x ? std::string("nothing more happens") : x->kind == Node::Event ? std::string("event ") + EVENTS[x->id] + " is emitted" : x->kind == Node::Hook ? "component hook " + std::to_string(x->id) + " runs" : "init entry point " + std::to_string(x->id) + " runs"));
    MC_CHECK(x->state == s, "state", what << " happens in state " << name(x->state) << " instead of " << name(s)); ++c.i; if (k == Node::Event && id != EM::SMP_PreSimTimeChangeId) emitting.push_back(id); trail += std::to_string(k) + "," + std::to_string(id) + ";"; inside(*x); if (k == Node::Event && id != EM::SMP_PreSimTimeChangeId) emitting.pop_back();
  }
  bool to(S next) { if (aborted()) return false; s = next; return true; }
  bool standby() const { return s == S::SSK_Standby && (emitting.empty() || emitting.back() != EM::SMP_LeaveStandbyId); }
  void drive(Cursor &c, C upto, const char *op) { if (comp == C::CSK_Created) { comp = C::CSK_Publishing; happens(c, Node::Hook, 0, op); } if (upto == C::CSK_Publishing) return; if (comp == C::CSK_Publishing) { comp = C::CSK_Configured; happens(c, Node::Hook, 1, op); } if (upto == C::CSK_Configured) return; if (comp == C::CSK_Configured) { comp = C::CSK_Connected; happens(c, Node::Hook, 2, op); } }
  void initialise(Cursor &c, const char *op) { happens(c, Node::Event, EM::SMP_EnterInitialisingId, op); auto list = inits; for (int k : list) happens(c, Node::Init, k, op); happens(c, Node::Event, EM::SMP_LeaveInitialisingId, op); }
  void hold(Cursor &c, const char *op) { holding = true; pending = false; happens(c, Node::Event, EM::SMP_LeaveExecutingId, op); holding = false; if (to(S::SSK_Standby)) happens(c, Node::Event, EM::SMP_EnterStandbyId, op); }
  void op(const Node &n) {
    Cursor c{n}; int o = std::min(n.id, static_cast<int>(AddInit) + 0); if (n.id >= OPS) o = AddInit; const char *w = OPNAMES[o]; S before = s; bool mayThrow = false;
    auto enter = [&] { happens(c, Node::Event, EM::SMP_LeaveStandbyId, w); }; auto leave = [&] { if (to(S::SSK_Standby)) happens(c, Node::Event, EM::SMP_EnterStandbyId, w); };
    switch (o) {
    case Publish: if (s == S::SSK_Building) drive(c, C::CSK_Publishing, w); break; case Configure: if (s == S::SSK_Building) drive(c, C::CSK_Configured, w); break;
    case Connect: if (s == S::SSK_Building) { s = S::SSK_Connecting; drive(c, C::CSK_Connected, w); happens(c, Node::Event, EM::SMP_LeaveConnectingId, w); if (to(S::SSK_Initialising)) { initialise(c, w); leave(); } } break;
    case Initialise: if (standby()) { enter(); if (to(S::SSK_Initialising)) { initialise(c, w); leave(); } } break;
    case Run: if (standby() && (emitting.empty() || emitting.back() != EM::SMP_EnterStandbyId)) { enter(); if (to(S::SSK_Executing)) happens(c, Node::Event, EM::SMP_EnterExecutingId, w); } break;
    case HoldNow: if (s == S::SSK_Executing && !holding) hold(c, w); break; case HoldSoon: if (s == S::SSK_Executing && !holding) pending = events; break;
    case Store: if (standby()) { enter(); if (to(S::SSK_Storing)) { happens(c, Node::Event, EM::SMP_EnterStoringId, w); if (!aborted()) stored = true; happens(c, Node::Event, EM::SMP_LeaveStoringId, w); leave(); } } break;
    case Restore: if (standby()) { mayThrow = true; enter(); if (to(S::SSK_Restoring)) { happens(c, Node::Event, EM::SMP_EnterRestoringId, w); happens(c, Node::Event, EM::SMP_LeaveRestoringId, w); leave(); } } break;
    case Reconnect: if (standby()) { enter(); if (to(S::SSK_Reconnecting)) { happens(c, Node::Event, EM::SMP_EnterReconnectingId, w); drive(c, C::CSK_Connected, w); happens(c, Node::Event, EM::SMP_LeaveReconnectingId, w); leave(); } } break;
    case Exit: if (standby()) { enter(); if (to(S::SSK_Exiting)) { happens(c, Node::Event, EM::SMP_EnterExitingId, w); if (comp == C::CSK_Connected) { comp = C::CSK_Disconnected; happens(c, Node::Hook, 3, w); } } } break;
    case Abort: if (!aborted()) { s = S::SSK_Aborting; happens(c, Node::Event, EM::SMP_EnterAbortingId, w); } break;
    case Pre: if (events) { const bool due = pending; happens(c, Node::Event, EM::SMP_PreSimTimeChangeId, w); // a hold asked for while the event is being emitted may wait for the next one
      if (s == S::SSK_Executing && !holding && (due || (pending && c.i < n.in.size()))) hold(c, w); } break;
    case AddInit: if (s == S::SSK_Building || s == S::SSK_Connecting || s == S::SSK_Standby) inits.push_back(n.id - OPS); break;
    default: break;
    }
    MC_CHECK(c.i == n.in.size(), c.i < n.in.size() && n.in[c.i].kind == Node::Init ? "init" : "events", w << " in state " << name(before) << ": more happens than expected: " << (c.i < n.in.size() ? (n.in[c.i].kind == Node::Event ? std::string("event ") + EVENTS[n.in[c.i].id] : n.in[c.i].kind == Node::Hook ? "component hook " + std::to_string(n.in[c.i].id) : "init entry point " + std::to_string(n.in[c.i].id)) : ""));
    MC_CHECK(n.state == s, "state", w << " in state " << name(before) << " leads to state " << name(n.state) << " instead of " << name(s)); MC_CHECK(mayThrow || !n.threw, "raises", w << " in state " << name(before) << " raises an exception"); (void)stored;
  }
};
void go(std::vector<Op> ops, std::vector<Op> nested) {
  Cfg cfg{true, true, true}; if (mc::param("poor", 0)) { cfg.logger = mc::flip(); cfg.events = mc::flip(); cfg.resolver = mc::flip(); } World w(cfg); w.nested = nested; int depth = mc::param("depth", 4); bool up = mc::param("connected", 0) != 0; mc::context("calls");
  if (up) { w.call(AddInit); w.call(Connect); }
  w.budget = mc::param("budget", 0);
  for (int i = 0; i < depth; ++i) { int k = mc::choose(static_cast<int>(ops.size()) + 1); if (k == static_cast<int>(ops.size())) break; w.call(ops[static_cast<size_t>(k)]); }
  Machine m; m.events = cfg.events; m.inside(w.root); MC_CHECK(w.sim.GetState() == m.s, "state", "final state " << name(w.sim.GetState()) << " instead of " << name(m.s)); MC_CHECK(w.m->GetState() == m.comp, "components", "final component state");
  std::string h = m.trail + "|" + name(m.s) + (m.pending ? "p" : ""); mc::outcome(mc::hashStr(h)); mc::visit(mc::hashStr(h));
}
}
MC_SCENARIO(all) { go({Publish, Configure, Connect, Initialise, Run, HoldNow, HoldSoon, Store, Restore, Reconnect, Exit, Abort, Pre, AddInit}, {Abort, AddInit, Initialise, Run, HoldNow, HoldSoon, Store, Reconnect, Exit, Pre, Restore, Publish, Configure, Connect}); }
// the entry points executed while initialising
MC_SCENARIO(init) { go({Connect, Initialise, AddInit, Run, HoldNow, Store, Abort}, {AddInit, Initialise, Abort}); }
