// C29: Store and Restore of a whole simulation to files, with every way of failing part-way.
#include "mc.h"
#include "simenv.h"
#include <Smp/IPersist.h>
#include <Smp/IStorageReader.h>
#include <Smp/IStorageWriter.h>
#include <Xsmp/Persist.h>
#include <Xsmp/Persist/StdVector.h>
#include <Xsmp/Services/XsmpLinkRegistry.h>
#include <Xsmp/Services/XsmpTimeKeeper.h>
#ifdef WITH_SCHEDULER
#include <Xsmp/Services/XsmpScheduler.h>
#endif
#include <fstream>
#include <functional>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <sys/stat.h>
#include <unistd.h>
namespace {
using S = Smp::SimulatorStateKind; using EM = Smp::Services::IEventManager; using I32 = Smp::Int32;
struct Boom : std::runtime_error { using std::runtime_error::runtime_error; };
// how one component fails: at which of its two storage calls, and with what
struct Fault { int component = -1, at = 0, kind = 0; bool store = true; } fault; int stored = 0;
void maybe(int component, int at, bool store, const Smp::IObject *o) {
  if (fault.component != component || fault.at != at || fault.store != store) return;
  switch (fault.kind) { case 0: if (store) ::Xsmp::Exception::throwCannotStore(o, "no"); else ::Xsmp::Exception::throwCannotRestore(o, "no"); break; case 1: throw Boom("no"); default: throw 7; }
}
template <class Base> struct Fields : Base { using Base::Base; I32 state = 0, other = 0; I32 arr[2] = {}; void Publish(Smp::IPublication *r) override { Base::Publish(r); r->PublishField("state", "", &state, Smp::ViewKind::VK_All, true); r->PublishField("other", "", &other, Smp::ViewKind::VK_All, false); auto *x = r->PublishArray("arr", "", Smp::ViewKind::VK_All, true); x->PublishField("[0]", "", &arr[0], Smp::ViewKind::VK_All, true); x->PublishField("[1]", "", &arr[1], Smp::ViewKind::VK_All, true); } };
template <class Base, int ID> struct Persistent : Base, public virtual Smp::IPersist { using Base::Base; I32 a = 0; std::vector<I32> b;
  void Store(Smp::IStorageWriter *w) override { maybe(ID, 0, true, this); ::Xsmp::Persist::Store(nullptr, w, a); maybe(ID, 1, true, this); ::Xsmp::Persist::Store(nullptr, w, b); }
  void Restore(Smp::IStorageReader *r) override { maybe(ID, 0, false, this); ::Xsmp::Persist::Restore(nullptr, r, a); maybe(ID, 1, false, this); ::Xsmp::Persist::Restore(nullptr, r, b); } };
template <class Base> struct Box : public Base, public virtual Xsmp::Composite { Xsmp::Container<Smp::IModel> one, two; Box(Smp::String8 n, Smp::String8 d, Smp::IComposite *p, Smp::ISimulator *s) : Base(n, d, p, s), one("one", "", static_cast<Xsmp::Composite *>(this), 0, -1), two("two", "", static_cast<Xsmp::Composite *>(this), 0, -1) {} };
using Leaf = Fields<EpModel>; using Q = Persistent<Xsmp::Model, 0>; using R = Box<Xsmp::Model>; using T = Persistent<Fields<Xsmp::Model>, 1>; using Svc = Persistent<Fields<Box<Xsmp::Service>>, 2>; using PM = Persistent<Xsmp::Model, 3>;
struct World;
struct Values { std::vector<int> v; bool sub = false, left = false; bool operator==(const Values &o) const { return v == o.v; } };
std::string base() { static const std::string b = std::string(access("/dev/shm", W_OK) == 0 ? "/dev/shm/xsmp-c29-" : "/tmp/xsmp-c29-"); return b + std::to_string(getpid()); }
const std::string FILE_NAME = "/simulator.bin";
struct Dir { std::string root = base(); Dir() { mkdir(root.c_str(), 0700); } ~Dir() { for (const char *d : {"/a", "/b"}) { unlink((root + d + FILE_NAME).c_str()); rmdir((root + d + FILE_NAME).c_str()); rmdir((root + d).c_str()); unlink((root + d).c_str()); } rmdir(root.c_str()); } };
struct World {
  std::unique_ptr<Xsmp::Simulator> simp{new Xsmp::Simulator("sim", "")}; Xsmp::Simulator &sim{*simp}; Xsmp::Services::XsmpEventManager *em; Xsmp::Services::XsmpTimeKeeper *tk; R *r; Q *q; Leaf *leaf; T *t; Svc *svc; PM *pm; EpModel *watch; std::vector<std::unique_ptr<Xsmp::EntryPoint>> obs; std::vector<std::string> seen; std::unique_ptr<Xsmp::EntryPoint> user; Smp::Services::EventId id = 0; int heard = 0;
#ifdef WITH_SCHEDULER
  Xsmp::Services::XsmpScheduler *sch; std::unique_ptr<Xsmp::EntryPoint> tick; int ticks = 0;
#endif
  World() {
    addService<StubLogger>(sim, "Logger")->counting = false; addService<Xsmp::Services::XsmpResolver>(sim, "Resolver"); tk = addService<Xsmp::Services::XsmpTimeKeeper>(sim, "TK");
#ifdef WITH_SCHEDULER
    sch = addService<Xsmp::Services::XsmpScheduler>(sim, "Sch");
#endif
    em = addService<Xsmp::Services::XsmpEventManager>(sim, "EM"); addService<Xsmp::Services::XsmpLinkRegistry>(sim, "LR"); svc = addService<Svc>(sim, "svc"); t = new T("t", "", svc, &sim); svc->one.AddComponent(t);
    r = new R("r", "", &sim, &sim); sim.AddModel(r); q = new Q("q", "", r, &sim); r->one.AddComponent(q); leaf = new Leaf("leaf", "", r, &sim); r->two.AddComponent(leaf); pm = new PM("pm", "", &sim, &sim); sim.AddModel(pm); watch = new EpModel("watch", "", &sim, &sim); sim.AddModel(watch);
    const char *const N[] = {"", "", "", "", "EnterStandby", "LeaveStandby", "", "", "EnterStoring", "LeaveStoring", "EnterRestoring", "LeaveRestoring"};
    for (int e : {4, 5, 8, 9, 10, 11}) { std::string n = N[e]; obs.push_back(std::make_unique<Xsmp::EntryPoint>(n.c_str(), "", watch, [this, n] { seen.push_back(n + ":" + std::to_string(static_cast<int>(sim.GetState()))); })); em->Subscribe(e, obs.back().get()); }
    user = std::make_unique<Xsmp::EntryPoint>("user", "", leaf, [this] { ++heard; }); id = em->QueryEventId("user event");
#ifdef WITH_SCHEDULER
    tick = std::make_unique<Xsmp::EntryPoint>("tick", "", leaf, [this] { ++ticks; });
#endif
    sim.Connect(); seen.clear();
#ifdef WITH_SCHEDULER
    sch->SetTargetSpeed(100);
#endif
  }
  ~World() { seen.clear(); simp.reset(); }
  std::vector<I32 *> cells() { return {&q->a, &leaf->state, &leaf->arr[1], &t->state, &t->a, &svc->state, &pm->a}; } // the state
  void bump(int k) { auto c = cells(); if (k < static_cast<int>(c.size())) { ++*c[static_cast<size_t>(k)]; return; } switch (k - static_cast<int>(c.size())) { case 0: q->b.push_back(static_cast<I32>(q->b.size()) + 5); break; case 1: svc->b.insert(svc->b.begin(), 3); break; case 2: tk->SetMissionStartTime(tk->GetMissionStartTime() + 1000); break; case 3: if (subscribed) em->Unsubscribe(id, user.get()); else em->Subscribe(id, user.get()); subscribed = !subscribed; break; default:
#ifdef WITH_SCHEDULER
    { sch->AddSimulationTimeEvent(tick.get(), 10, 10, 1); sim.Run(15); left = true; } // one occurrence executed, one left
#endif
    break; } }
#ifdef WITH_SCHEDULER
  static constexpr int KINDS = 12;
#else
  static constexpr int KINDS = 11;
#endif
  bool subscribed = false, left = false;
  Values values() { Values v; v.sub = subscribed; v.left = left; for (auto *c : cells()) v.v.push_back(*c); v.v.push_back(leaf->arr[0]); v.v.push_back(-1); v.v.insert(v.v.end(), q->b.begin(), q->b.end()); v.v.push_back(-1); v.v.insert(v.v.end(), svc->b.begin(), svc->b.end()); v.v.push_back(-1); v.v.push_back(static_cast<int>(tk->GetMissionStartTime() / 1000 % 100000)); int h = heard; em->Emit(id); v.v.push_back(heard - h); v.v.push_back(static_cast<int>(tk->GetSimulationTime()));
    return v; }
};
std::string text(const Values &v) { std::string r; for (int x : v.v) r += (r.empty() ? "" : " ") + std::to_string(x); return r; }
// one call of Store or Restore: what is documented to happen around it
bool persist(World &w, bool store, const std::string &dir, bool judgeEvents = true) {
  w.seen.clear(); bool threw = false; MC_OP((store ? "Store " : "Restore ") << dir.substr(dir.rfind('/'))); try { if (store) w.sim.Store(dir.c_str()); else w.sim.Restore(dir.c_str()); } catch (const Smp::Exception &e) { threw = true; MC_OP("  raises " << e.GetName()); } catch (const std::exception &) { threw = true; MC_OP("  raises a standard exception"); } catch (...) { threw = true; MC_OP("  raises something"); }
  MC_CHECK(w.sim.GetState() == S::SSK_Standby, "standby", (store ? "Store" : "Restore") << (threw ? " that fails" : "") << " leaves the simulator in state " << static_cast<int>(w.sim.GetState()));
  if (judgeEvents) { std::vector<std::string> want = store ? std::vector<std::string>{"LeaveStandby:3", "EnterStoring:5", "LeaveStoring:5", "EnterStandby:3"} : std::vector<std::string>{"LeaveStandby:3", "EnterRestoring:6", "LeaveRestoring:6", "EnterStandby:3"}; MC_CHECK(w.seen == want, "events", (store ? "Store" : "Restore") << (threw ? " that fails" : "") << ": the events (and the states they are seen in) differ"); }
  return !threw;
}
void judge(World &w, const Values &want, const char *when) { Values got = w.values(); MC_CHECK(got == want, "values", when << ": the state is " << text(got) << " instead of " << text(want)); }
// the scheduled event that was left is executed, nothing else is
void finish(World &w) {
#ifdef WITH_SCHEDULER
  if (w.sim.GetState() != S::SSK_Standby) return; int t = w.ticks; MC_OP("Run"); w.sim.Run(100); MC_CHECK(w.ticks - t == (w.left ? 1 : 0), "scheduler", "the simulation executes " << w.ticks - t << " scheduled events instead of " << (w.left ? 1 : 0)); w.left = false;
#else
  (void)w;
#endif
}
std::string slurp(const std::string &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
void spit(const std::string &f, const std::string &d) { std::ofstream(f, std::ios::binary) << d; }
}
// sequences of changes, stores and restores
MC_SCENARIO(sequences) {
  Dir dir; auto w = std::make_unique<World>(); fault = {}; const int depth = mc::param("depth", 4); mc::context("store and restore"); const std::string f[2] = {dir.root + "/a", dir.root + "/b"}; Values saved[2]; bool have[2] = {}; Values now = w->values(); std::string h;
  for (int i = 0; i < depth; ++i) {
    int o = mc::choose(World::KINDS + 8); if (o == World::KINDS + 7) break; h += std::to_string(o) + ","; I32 other = w->leaf->other;
    if (o < World::KINDS) { MC_OP("change " << o); w->bump(o); continue; } o -= World::KINDS;
    if (o < 2) { Values before = w->values(); MC_CHECK(persist(*w, true, f[o]), "store", "Store raises"); saved[o] = before; have[o] = true; judge(*w, before, "after Store"); }
    else if (o < 4) { o -= 2; bool ok = persist(*w, false, f[o]); MC_CHECK(ok == have[o], "restore", (ok ? "Restore without a stored file succeeds" : "Restore raises")); if (ok) { w->subscribed = saved[o].sub; w->left = saved[o].left; judge(*w, saved[o], "after Restore"); } }
    else if (o < 6) { o -= 4; if (!have[o]) break; MC_OP("new simulation"); w = std::make_unique<World>(); MC_CHECK(persist(*w, false, f[o]), "restore", "Restore into a new simulation raises"); w->subscribed = saved[o].sub; w->left = saved[o].left; judge(*w, saved[o], "in a new simulation"); continue; }
    else { MC_OP("other field"); ++w->leaf->other; continue; }
    MC_CHECK(w->leaf->other == other, "not state", "a field that is not state was changed");
  }
  Values last = w->values(); finish(*w); mc::visit(mc::hashStr(h)); mc::outcome(mc::hashStr(text(last)));
}
// everything that can go wrong, then the simulation is used again
MC_SCENARIO(failures) {
  Dir dir; World w; fault = {}; mc::context("failure"); const std::string a = dir.root + "/a", b = dir.root + "/b"; for (int k = 0; k < World::KINDS; ++k) w.bump(k); w.leaf->other = 5; const Values good = w.values(); if (!persist(w, true, a)) mc::fail("store", "Store raises"); const std::string bytes = slurp(a + FILE_NAME);
  for (int k = 0; k < World::KINDS; ++k) if (k != 11) w.bump(k); const Values second = w.values(); bool restoring = false, whole = false, sure = true; int kind = mc::choose(9); std::string where = b; std::string what;
  switch (kind) {
  case 0: fault = {mc::choose(4), mc::choose(2), mc::choose(3), true}; what = "component " + std::to_string(fault.component) + " raises while being stored"; break;
  case 1: fault = {mc::choose(4), mc::choose(2), mc::choose(3), false}; restoring = true; where = a; what = "component " + std::to_string(fault.component) + " raises while being restored"; break;
  case 2: spit(b, "file"); what = "the directory is a file"; break;
  case 3: spit(b, "file"); where = b + "/sub"; what = "the directory is below a file"; break;
  case 4: mkdir(b.c_str(), 0700); mkdir((b + FILE_NAME).c_str(), 0700); restoring = mc::flip(); what = "the file is a directory"; break;
  case 5: mkdir(b.c_str(), 0700); if (symlink("/dev/full", (b + FILE_NAME).c_str()) != 0 || access("/dev/full", W_OK) != 0) return; what = "the disk is full"; break;
  case 6: restoring = true; what = "no file"; break;
  case 7: { int cut = mc::choose(static_cast<int>(bytes.size())); mkdir(b.c_str(), 0700); spit(b + FILE_NAME, bytes.substr(0, static_cast<size_t>(cut))); restoring = true; what = "the file ends after " + std::to_string(cut) + " of " + std::to_string(bytes.size()) + " bytes"; break; }
  default: restoring = true; whole = true; where = a; sure = false; what = "nothing"; break;
  }
  MC_OP("failure: " << what); const bool partial = restoring && kind != 6 && kind != 4; bool ok = persist(w, !restoring, where, !partial || whole); fault = {}; if (kind == 2 || kind == 3) unlink(b.c_str());
  MC_CHECK(ok == !sure, "reported", (restoring ? "Restore" : "Store") << ": " << what << ", but " << (ok ? "no exception is raised" : "an exception is raised"));
  MC_CHECK(w.leaf->other == 5, "not state", "a field that is not state was changed"); if (!partial) judge(w, second, "after the failure");
  MC_CHECK(slurp(a + FILE_NAME) == bytes, "file", "the file stored before was changed");
  const int depth = mc::param("depth", 2); bool known = whole; bool exited = false; std::string h = std::to_string(kind) + what;
  if (known) { judge(w, good, "after Restore"); w.subscribed = good.sub; w.left = good.left; } bool eventsKnown = !partial || whole; Values saved; bool haveB = false;
  for (int i = 0; i < depth && !exited; ++i) {
    int o = mc::choose(6); h += std::to_string(o);
    switch (o) {
    case 0: MC_CHECK(persist(w, false, a), "recovers", "the simulation cannot be restored after " << what); w.subscribed = good.sub; w.left = good.left; known = true; eventsKnown = true; judge(w, good, "restored after the failure"); break;
    case 1: { if (kind == 4 || kind == 5) break; Values v = w.values(); MC_CHECK(persist(w, true, b, eventsKnown), "recovers", "the simulation cannot be stored after " << what); saved = v; haveB = true; break; }
    case 2: if (haveB) { MC_CHECK(persist(w, false, b), "recovers", "the simulation cannot be restored after " << what); w.subscribed = saved.sub; w.left = saved.left; judge(w, saved, "restored from a later file"); } break;
    case 3: MC_OP("Run, Hold");
#ifdef WITH_SCHEDULER
      w.sim.Run(1);
#else
      w.sim.Run(); MC_CHECK(w.sim.GetState() == S::SSK_Executing, "controllable", "Run after a failure: state"); w.sim.Hold(true);
#endif
      MC_CHECK(w.sim.GetState() == S::SSK_Standby, "controllable", "Run and Hold after a failure: state"); break;
    case 4: MC_OP("Initialise"); w.sim.Initialise(); MC_CHECK(w.sim.GetState() == S::SSK_Standby, "controllable", "Initialise after a failure: state"); break;
    default: MC_OP("Exit"); w.sim.Exit(); MC_CHECK(w.sim.GetState() == S::SSK_Exiting, "controllable", "Exit after a failure: state"); exited = true; break;
    }
  }
  if (eventsKnown) finish(w); mc::visit(mc::hashStr(h)); mc::outcome(mc::hashStr(h));
}
