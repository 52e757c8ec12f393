// The scheduler (with the real time keeper, event manager and simulator) against a list of pending events.
// Entry points are the observation: every call must be the one that the list says comes next, at its time.
#pragma once
#include "mc.h"
#include "memstore.h"
#include "simenv.h"
#include <Smp/Services/InvalidCycleTime.h>
#include <Smp/Services/InvalidEventId.h>
#include <Smp/Services/InvalidEventTime.h>
#include <Xsmp/Services/XsmpScheduler.h>
#include <Xsmp/Services/XsmpTimeKeeper.h>
#include <map>
#include <memory>
#include <set>
namespace sched {
using EM = Smp::Services::IEventManager; using D = Smp::Duration; using Id = Smp::Services::EventId;
enum Kind { Imm, Sim, Mission, Epoch, Zulu };
const char *const KIND[] = {"immediate", "simulation", "mission", "epoch", "Zulu"};
struct Ev { int ep; Kind kind; D time; /* on the clock of its kind */ D cycle; Smp::Int64 rep; long seq; bool moved = false, late = false; /* late: posted while time changes */ bool past = false; // its last occurrence was passed by a change of epoch or mission time
   bool imm() const { return kind == Imm; } };
struct State { // what the scheduler must know
  std::map<Id, Ev> ev; long seq = 0; std::set<Id> used;
};
struct World {
  static constexpr int EPS = 3; static constexpr D FAR = 4000000000000000000;
  std::unique_ptr<Xsmp::Simulator> simp; Xsmp::Simulator &sim; Xsmp::Services::XsmpEventManager *em; Xsmp::Services::XsmpTimeKeeper *tk; Xsmp::Services::XsmpScheduler *sch; EpModel *m; StubLogger *log;
  std::vector<std::unique_ptr<Xsmp::EntryPoint>> eps; std::unique_ptr<Xsmp::EntryPoint> pre, post;
  State s; D now = 0; D epochOff = 1000, missionOff = 500; // epoch time - simulation time, mission time - simulation time
  int posts = 0; bool early = false; // Hold(false) was called before the first time change of the run
  bool running = false, held = false, timeHold = false, changing = false; D softHold = 0; D holdAt = -1; Id current = -1; bool currentGone = false; // the running event was removed while it runs
  int budget = 0, depth = 0, calls = 0, mayCalls = 0; bool mutate = false, vague = false, shifts = false; bool preOps = false; int opset = 0; std::vector<Id> ids; std::string trail;
  explicit World(bool hooks) : simp(new Xsmp::Simulator("sim", "")), sim(*simp) {
    log = addService<StubLogger>(sim, "Logger"); em = addService<Xsmp::Services::XsmpEventManager>(sim, "EM"); tk = addService<Xsmp::Services::XsmpTimeKeeper>(sim, "TimeKeeper"); sch = addService<Xsmp::Services::XsmpScheduler>(sim, "Scheduler"); addService<Xsmp::Services::XsmpResolver>(sim, "Resolver"); m = new EpModel("m", "", &sim, &sim); sim.AddModel(m);
    static const char *const N[] = {"a", "b", "c"}; for (int k = 0; k < EPS; ++k) eps.push_back(std::make_unique<Xsmp::EntryPoint>(N[k], "", m, [this, k] { call(k); }));
    pre = std::make_unique<Xsmp::EntryPoint>("pre", "", m, [this] { MC_CHECK(sch->GetCurrentEventId() == -1, "current", "an event is current while time changes"); changing = true; inside("PreSimTimeChange"); });
    post = std::make_unique<Xsmp::EntryPoint>("post", "", m, [this] { ++posts; changing = false; for (auto &e : s.ev) e.second.late = false; D t = tk->GetSimulationTime(); MC_CHECK(t >= now, "time", "simulation time goes back from " << now << " to " << t); now = t; inside("PostSimTimeChange"); });
    sim.Connect(); tk->SetEpochTime(epochOff); tk->SetMissionTime(missionOff); preOps = hooks; em->Subscribe(EM::SMP_PreSimTimeChangeId, pre.get()); em->Subscribe(EM::SMP_PostSimTimeChangeId, post.get());
    sch->SetTargetSpeed(100);
  }
  ~World() { simp.reset(); }
  // may a be called now although b is also pending?
  D due(const Ev &e) const { return e.kind == Epoch ? e.time - epochOff : e.kind == Mission ? e.time - missionOff : e.time; }
  bool before(const Ev &a, const Ev &b) const { if (a.imm() != b.imm()) return a.imm() || (due(a) <= due(b) && (a.moved || b.moved)); if (!a.imm() && due(a) != due(b)) return due(a) < due(b); return a.seq < b.seq || a.moved || b.moved; }
  // epoch or mission time changed: occurrences that are over are skipped
  void skip(Ev &e) { if ((e.kind != Epoch && e.kind != Mission) || due(e) >= clock()) return; while (due(e) < clock() && e.rep != 0) { e.time += e.cycle; if (e.rep > 0) --e.rep; } if (due(e) < clock()) e.past = true; }
  void shifted() { for (auto &e : s.ev) if (e.second.kind == Epoch || e.second.kind == Mission) { if (e.first == current && !e.second.moved) continue; skip(e.second); e.second.moved = true; e.second.late |= changing; } query(); }
  void setEpoch(D by) { D to = clock() + epochOff + by; MC_OP("SetEpochTime(+" << by << ")"); epochOff += by; missionOff += by; tk->SetEpochTime(to); shifted(); }
  void setMission(D by, bool start) { MC_OP((start ? "SetMissionStartTime: " : "SetMissionTime: ") << "mission time +" << by); missionOff += by; if (start) tk->SetMissionStartTime(epochOff - missionOff); else tk->SetMissionTime(clock() + missionOff); shifted(); }
  D nextTime() const { D t = INT64_MAX; for (auto &e : s.ev) if ((e.first != current || e.second.moved) && !e.second.imm() && e.second.kind != Zulu && !e.second.past) t = std::min(t, std::max(clock(), due(e.second))); return t; }
  void call(int k) {
    Id id = sch->GetCurrentEventId(); now = std::max(now, tk->GetSimulationTime()); D clock = tk->GetSimulationTime(); MC_OP(" event " << id << " runs entry point " << char('a' + k) << " at " << clock);
    MC_CHECK(running, "standby", "an entry point is executed while the simulation is not running");
    MC_CHECK(!held, "held", "entry point " << char('a' + k) << " is executed after the simulation was held");
    MC_CHECK(!timeHold || clock == softHold, "held", "time advances to " << clock << " after Hold(false) at " << softHold);
    auto it = s.ev.find(id); MC_CHECK(it != s.ev.end(), "unknown", "event " << id << " is executed, which was removed or never posted");
    Ev &e = it->second; MC_CHECK(e.ep == k, "entry point", "event " << id << " runs entry point " << char('a' + k) << " instead of " << char('a' + e.ep));
    MC_CHECK(e.imm() || clock == due(e), "due", KIND[e.kind] << " event " << id << " due at " << due(e) << " is executed at " << clock);
    MC_CHECK(e.kind != Epoch || tk->GetEpochTime() == e.time, "due", "epoch event " << id << " is executed at epoch time " << tk->GetEpochTime());
    MC_CHECK(e.kind != Mission || tk->GetMissionTime() == e.time, "due", "mission event " << id << " is executed at mission time " << tk->GetMissionTime());
    MC_CHECK(current == -1, "nested", "event " << id << " is executed inside event " << current);
    for (auto &o : s.ev) if (o.first != id && o.second.kind != Zulu && !o.second.past) MC_CHECK(before(e, o.second), "order", KIND[e.kind] << " event " << id << " (due " << due(e) << ") is executed before " << KIND[o.second.kind] << " event " << o.first << " (due " << due(o.second) << ")");
    MC_CHECK(++calls < 60, "endless", "events are executed without end"); trail += "(" + std::to_string(id) + "@" + std::to_string(clock) + ")";
    current = id; currentGone = false; e.moved = false; e.past = false; if (e.imm()) e.time = clock; inside("event"); 
    MC_CHECK(sch->GetCurrentEventId() == id, "current", "the current event is " << sch->GetCurrentEventId() << " while event " << id << " runs");
    it = s.ev.find(id); current = -1; if (it == s.ev.end()) return; Ev &f = it->second;
    if (f.moved) { if (f.rep > 0) --f.rep; return; } if (f.rep == 0) { s.ev.erase(it); return; } if (f.rep > 0) --f.rep; if (f.imm()) f.kind = Sim; f.time += f.cycle; skip(f);
  }
  void inside(const char *where) { if (budget <= 0 || !running || (!preOps && current == -1) || !mc::flip()) return; --budget; MC_OP("  in " << where << ":"); op(true); }
  void query() {
    MC_CHECK(sch->GetCurrentEventId() == current, "current", "the current event is " << sch->GetCurrentEventId() << ", expected " << current);
    D t = sch->GetNextScheduledEventTime(), x = nextTime(); if (holdAt >= 0 && running) x = std::min(x, holdAt); // holdAt: the end of this run may itself be an event
    bool alt = false; for (auto &e : s.ev) alt |= e.second.past && t >= clock() && t <= x; alt |= holdAt >= 0 && running && t == nextTime(); MC_CHECK(t == x || alt, "next", "GetNextScheduledEventTime gives " << t << ", expected " << x);
  }
  // posts ------------------------------------------------------------------------------------------------------
  void post_(Kind k, int ep, D dt, D cycle, Smp::Int64 rep) {
    bool badTime = dt < 0, badCycle = rep != 0 && cycle <= 0; Id id = -1; int raised = 0; MC_OP("post " << KIND[k] << " event " << char('a' + ep) << " in " << dt << " cycle " << cycle << " repeat " << rep); auto *p = eps[static_cast<size_t>(ep)].get();
    try {
      switch (k) { case Imm: id = sch->AddImmediateEvent(p); break; case Sim: id = sch->AddSimulationTimeEvent(p, dt, cycle, rep); break; case Mission: id = sch->AddMissionTimeEvent(p, clock() + dt + missionOff, cycle, rep); break; case Epoch: id = sch->AddEpochTimeEvent(p, clock() + dt + epochOff, cycle, rep); break;
      default: id = sch->AddZuluTimeEvent(p, dt < 0 ? 0 : FAR, cycle, rep); }
    } catch (const Smp::Services::InvalidEventTime &) { raised = 1; } catch (const Smp::Services::InvalidCycleTime &) { raised = 2; }
    MC_CHECK((raised != 0) == (badTime || badCycle) && (raised != 1 || badTime) && (raised != 2 || badCycle), "refused", "posting in " << dt << " cycle " << cycle << " repeat " << rep << (raised == 1 ? " raises InvalidEventTime" : raised ? " raises InvalidCycleTime" : " is accepted"));
    if (raised) { query(); return; } MC_CHECK(s.used.insert(id).second && id != -1, "identifier", "identifier " << id << " is given twice"); s.ev[id] = Ev{ep, k, k == Zulu ? FAR : clock() + dt + (k == Epoch ? epochOff : k == Mission ? missionOff : 0), cycle, rep, s.seq++}; s.ev[id].late = changing; ids.push_back(id); query();
  }
  D clock() const { return tk->GetSimulationTime(); }
  static constexpr int POSTS[] = {14, 22, 6, 8};
  void post1() {
    int ep = static_cast<int>(ids.size()) % EPS; 
    if (opset == 3) { switch (mc::choose(8)) { case 0: post_(Epoch, ep, 1, 0, 0); break; case 1: post_(Epoch, ep, 0, 2, 2); break; case 2: post_(Epoch, ep, 3, 2, -1); break; case 3: post_(Mission, ep, 2, 0, 0); break; case 4: post_(Mission, ep, 1, 1, 3); break; case 5: post_(Sim, ep, 0, 2, -1); break; case 6: post_(Mission, ep, 4, 0, 0); break; default: post_(Sim, ep, 1, 0, 0); } return; }
    switch (mc::choose(POSTS[opset])) {
    case 0: post_(Imm, ep, 0, 0, 0); break; case 1: post_(Sim, ep, 0, 0, 0); break; case 2: post_(Sim, ep, 1, 0, 0); break; case 3: post_(Sim, ep, 1, 1, -1); break; case 4: post_(Sim, ep, 0, 2, 1); break; case 5: post_(Sim, ep, 2, 0, 0); break;
    case 6: post_(Mission, ep, 1, 1, 1); break; case 7: post_(Epoch, ep, 1, 0, 0); break; case 8: post_(Epoch, ep, 0, 1, 2); break; case 9: post_(Mission, ep, 2, 0, 0); break; case 10: post_(Sim, ep, -1, 0, 0); break; case 11: post_(Epoch, ep, 2, 1, 1); break; case 12: post_(Sim, ep, 1, 0, 1); break; case 13: post_(Sim, ep, 3, 0, 0); break;
    case 14: post_(Mission, ep, -1, 0, 0); break; case 15: post_(Epoch, ep, -1, 0, 0); break; case 16: post_(Mission, ep, 0, 0, 0); break; case 17: post_(Mission, ep, 1, 2, -1); break; case 18: post_(Epoch, ep, 1, -1, 1); break; case 19: post_(Mission, ep, 1, 0, -1); break; case 20: post_(Sim, ep, 1, -1, 0); break; default: post_(Epoch, ep, 0, 3, -1); break;
    }
  }
  // mutations --------------------------------------------------------------------------------------------------
  template <class F> bool raises(F f) { try { f(); } catch (const Smp::Services::InvalidEventId &) { return true; } return false; }
  void known(Id id, bool threw, bool ok, const char *what) { if ((currentGone && id == current) || vague) return; MC_CHECK(threw == !ok, "identifier", what << "(" << id << ") " << (threw ? "raises InvalidEventId" : "accepts an event that is unknown or of another kind")); }
  void remove(Id id) {
    MC_OP("RemoveEvent(" << id << ")"); bool ok = s.ev.count(id); if (ok) { s.ev.erase(id); } bool was = currentGone; bool threw = raises([&] { sch->RemoveEvent(id); }); if (was && id == current) return; known(id, threw, ok, "RemoveEvent"); if (id == current) currentGone = true; query();
  }
  void setTime(Kind k, Id id, D dt) {
    auto it = s.ev.find(id); bool ok = it != s.ev.end() && (it->second.kind == k || (k == Sim && it->second.imm())); D t = clock() + dt; MC_OP("SetEvent" << KIND[k] << "Time(" << id << ", now" << (dt < 0 ? "" : "+") << dt << ")");
    bool threw = raises([&] { switch (k) { case Sim: sch->SetEventSimulationTime(id, dt); break; case Mission: sch->SetEventMissionTime(id, t + missionOff); break; case Epoch: sch->SetEventEpochTime(id, t + epochOff); break; default: sch->SetEventZuluTime(id, dt < 0 ? 0 : FAR); } });
    known(id, threw, ok, "SetEvent...Time"); if (!ok) return; if (dt < 0) { s.ev.erase(it); if (id == current) currentGone = true; } else if (k != Zulu) { it->second.kind = k; it->second.time = t + (k == Epoch ? epochOff : k == Mission ? missionOff : 0); it->second.past = false; it->second.moved = true; it->second.late = changing; } query();
  }
  void setCycle(Id id, D cycle) {
    auto it = s.ev.find(id); bool ok = it != s.ev.end(), bad = ok && it->second.rep != 0 && cycle <= 0, badc = false; MC_OP("SetEventCycleTime(" << id << ", " << cycle << ")"); bool threw = raises([&] { try { sch->SetEventCycleTime(id, cycle); } catch (const Smp::Services::InvalidCycleTime &) { badc = true; } });
    known(id, threw, ok, "SetEventCycleTime"); if (!ok) return; MC_CHECK(badc == bad, "refused", "SetEventCycleTime(" << id << ", " << cycle << ") with repeat " << it->second.rep << (badc ? " raises" : " is accepted")); if (!bad) it->second.cycle = cycle; query();
  }
  void setRepeat(Id id, Smp::Int64 rep) {
    auto it = s.ev.find(id); bool ok = it != s.ev.end(), bad = ok && it->second.cycle <= 0 && rep != 0, badc = false; MC_OP("SetEventRepeat(" << id << ", " << rep << ")"); bool threw = raises([&] { try { sch->SetEventRepeat(id, rep); } catch (const Smp::Services::InvalidCycleTime &) { badc = true; } });
    known(id, threw, ok, "SetEventRepeat"); if (!ok) return; MC_CHECK(badc == bad, "refused", "SetEventRepeat(" << id << ", " << rep << ") with cycle time " << it->second.cycle << (badc ? " raises" : " is accepted")); if (!bad) it->second.rep = rep; query();
  }
  Id target() { size_t k = static_cast<size_t>(mc::choose(static_cast<int>(ids.size()) + 1)); return k < ids.size() ? ids[k] : 1000; }
  void mutation() {
    Id id = target();
    switch (mc::choose(13)) { case 0: remove(id); break; case 1: setTime(Sim, id, 0); break; case 2: setTime(Sim, id, 1); break; case 3: setTime(Sim, id, 3); break; case 4: setTime(Sim, id, -1); break; case 5: setRepeat(id, 0); break; case 6: setRepeat(id, 1); break; case 7: setCycle(id, 2); break;
    case 8: setTime(Mission, id, 1); break; case 9: setTime(Epoch, id, 0); break; case 10: setCycle(id, 0); break; case 11: setRepeat(id, -1); break; default: setTime(Zulu, id, -1); break; }
  }
  void shift() { switch (mc::choose(8)) { case 0: setEpoch(1); break; case 1: setEpoch(-1); break; case 2: setEpoch(3); break; case 3: setEpoch(-3); break; case 4: setMission(1, false); break; case 5: setMission(-2, true); break; case 6: setMission(3, true); break; default: setEpoch(2); } }
  // running ----------------------------------------------------------------------------------------------------
  void hold(bool immediate) {
    MC_OP("Hold(" << immediate << ")"); sim.Hold(immediate); if (immediate) { held = true; MC_CHECK(sim.GetState() == Smp::SimulatorStateKind::SSK_Standby, "state", "not in Standby after Hold(true)"); } else if (!timeHold) { timeHold = true; softHold = now; early = posts == 0; }
  }
  void op(bool in) {
    if (shifts) { shift(); return; } int n = in && !held ? (current != -1 ? 4 : 3) : 2; switch (mc::choose(n)) { case 0: if (mutate) { mutation(); break; } post1(); break; case 1: post1(); break; case 2: hold(true); break; default: hold(false); }
  }
  void run(D d) {
    D start = clock(); bool zero = d == 0; (void)zero; MC_OP("Run(" << d << ") at " << start); running = true; held = timeHold = early = false; posts = 0; holdAt = start + d; now = start; changing = false; sim.Run(d); running = false; D end = clock(); holdAt = -1; changing = false;
    MC_OP(" held at " << end); MC_CHECK(sim.GetState() == Smp::SimulatorStateKind::SSK_Standby, "state", "the simulator is not in Standby after Run");
    MC_CHECK(current == -1 && sch->GetCurrentEventId() == -1, "current", "event " << sch->GetCurrentEventId() << " is current after Run");
    if (held) { MC_CHECK(end == now, "time", "the clock reads " << end << " after a hold at " << now); }
    else { D stop = timeHold ? softHold : start + d; MC_CHECK(end == stop, "time", "Run(" << d << ") from " << start << " stops at " << end << " instead of " << stop);
      for (auto &e : s.ev) if (e.second.kind != Zulu && !e.second.late && !e.second.past) MC_CHECK(!e.second.imm() && (due(e.second) > end || (timeHold && early && due(e.second) == end)), "lost", KIND[e.second.kind] << " event " << e.first << " due at " << due(e.second) << " is not executed by a run until " << end); }
    query(); for (auto &e : s.ev) e.second.late = false;
  }
};
}
