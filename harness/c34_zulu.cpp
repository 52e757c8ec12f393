// C34: events at Zulu time are executed by the timer thread, once per occurrence, when they are due and not before.
#include "mc.h"
#include "rt.h"
#include "simenv.h"
#include <Smp/Services/InvalidCycleTime.h>
#include <Smp/Services/InvalidEventId.h>
#include <Smp/Services/InvalidEventTime.h>
#include <Xsmp/Services/XsmpScheduler.h>
#include <Xsmp/Services/XsmpTimeKeeper.h>
#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <thread>
namespace {
using EM = Smp::Services::IEventManager; using D = Smp::Duration; using Id = Smp::Services::EventId; using SK = Smp::SimulatorStateKind;
constexpr D U = 100; // ns
struct Exec { Id id; int ep; long from, to; D z, zTo; int tid; bool zulu; };
enum What { Add, Remove, Move, Repeat };
struct Call { What w; long from = 0, to = 0; Id id = -1; int ep = 0; D at = 0, cycle = 0; Smp::Int64 rep = 0; bool zulu = true, ok = true; D zFrom = 0, zTo = 0; };
struct World {
  std::unique_ptr<Xsmp::Simulator> simp{new Xsmp::Simulator("sim", "")}; Xsmp::Simulator &sim{*simp}; Xsmp::Services::XsmpEventManager *em; Xsmp::Services::XsmpTimeKeeper *tk; Xsmp::Services::XsmpScheduler *sch; EpModel *m;
  std::vector<std::unique_ptr<Xsmp::EntryPoint>> eps; std::vector<Exec> execs; std::vector<Call> calls; long clock = 0; int runner = 0, timer = 0, busy = 0; bool running = false, exited = false, held = false; long exitAt = -1; int behaviour = 0;
  std::map<Id, bool> isZulu; Id firstId[2]; static constexpr int NEP = 12;
  World() {
    addService<StubLogger>(sim, "Logger")->counting = false; em = addService<Xsmp::Services::XsmpEventManager>(sim, "EM"); tk = addService<Xsmp::Services::XsmpTimeKeeper>(sim, "TimeKeeper"); sch = addService<Xsmp::Services::XsmpScheduler>(sim, "Scheduler"); m = new EpModel("m", "", &sim, &sim); sim.AddModel(m);
    for (int k = 0; k < NEP; ++k) eps.push_back(std::make_unique<Xsmp::EntryPoint>(("e" + std::to_string(k)).c_str(), "", m, [this, k] { ran(k); }));
    sim.Connect(); sch->SetTargetSpeed(0.01);
  }
  ~World() { simp.reset(); }
  Id current() const { rt::Calm c; return sch->GetCurrentEventId(); }
  // entry points 0..8: Zulu events (0 has a behaviour), 9..11: events of simulation time
  void ran(int k) {
    size_t i; Id id = current(); { rt::Quiet q; bool z = k < 9;
      if (z) { MC_CHECK(rt::tid() != 0 && rt::tid() != 2, "thread", "a Zulu event is executed by thread " << rt::tid()); if (!timer) timer = rt::tid(); MC_CHECK(timer == rt::tid(), "thread", "Zulu events are executed by threads " << timer << " and " << rt::tid()); auto s = sim.GetState(); MC_CHECK(s == SK::SSK_Standby || s == SK::SSK_Executing || s == SK::SSK_Exiting, "state", "a Zulu event is executed in state " << static_cast<int>(s)); }
      else { MC_CHECK(rt::tid() == runner && running, "thread", "an event of simulation time is executed by thread " << rt::tid()); }
      MC_CHECK(busy == 0 || (!z && behaviour == 4), "nested", "an event is executed while another one is"); ++busy; MC_CHECK(!exited, "exit", "an event is executed after the simulation has exited"); i = execs.size(); execs.push_back({id, k, ++clock, 0, rt::now() - rt::startTime, 0, rt::tid(), z}); }
    rt::point("in event"); if (k == 0) behave();
    if (k == 0 && (behaviour == 4 || behaviour == 5)) ++done;
    Id now = current(); { rt::Quiet q; MC_CHECK(now == execs[i].id, "current", "the current event is " << now << " instead of " << execs[i].id); execs[i].to = ++clock; execs[i].zTo = rt::now() - rt::startTime; --busy; }
  }
  void behave() {
    switch (behaviour) { case 0: break; case 1: sim.Hold(true); { rt::Quiet q; held = true; } break; case 2: add(4, U); break; case 3: rt::sleep(U + U / 2); break;
    case 4: run(1); break; case 5: sim.Exit(); { rt::Quiet q; exitAt = ++clock; } break; case 6: remove(firstId[0]); break; case 7: move(firstId[0], U); break; case 8: remove(firstId[1]); break; case 9: addSim(10, 0); break; default: break; }
  }
  size_t begin(Call c) { rt::Quiet q; c.from = ++clock; c.zFrom = rt::now() - rt::startTime; calls.push_back(c); return calls.size() - 1; }
  void end(size_t k, bool ok, Id id) { rt::Quiet q; auto &c = calls[k]; c.to = ++clock; c.ok = ok; c.id = id; c.zTo = rt::now() - rt::startTime; }
  Id add(int ep, D dt, D cycle = 0, Smp::Int64 rep = 0) { Call c; c.w = Add; c.ep = ep; c.at = rt::now() - rt::startTime + dt; c.cycle = cycle; c.rep = rep; auto k = begin(c); Id id = -1; bool ok = true, badCycle = false; try { id = sch->AddZuluTimeEvent(eps[static_cast<size_t>(ep)].get(), tk0 + c.at, cycle, rep); } catch (const Smp::Services::InvalidEventTime &) { ok = false; } catch (const Smp::Services::InvalidCycleTime &) { ok = false; badCycle = true; } end(k, ok, id);
    { rt::Quiet q; const Call &f = calls[k]; bool cyc = rep != 0 && cycle <= 0; MC_CHECK(!ok || f.at >= f.zFrom, "past", "a Zulu event is accepted for " << f.at << " at " << f.zFrom); MC_CHECK(!ok || !cyc, "cycle", "a Zulu event is accepted with repeat " << rep << " and cycle " << cycle); MC_CHECK(!badCycle || cyc, "cycle", "a valid cycle is refused"); } return id; }
  Id addSim(int ep, D dt) { Call c; c.w = Add; c.ep = ep; c.zulu = false; auto k = begin(c); Id id = sch->AddSimulationTimeEvent(eps[static_cast<size_t>(ep)].get(), dt, 0, 0); end(k, true, id); return id; }
  void remove(Id id) { Call c; c.w = Remove; c.id = id; auto k = begin(c); bool ok = true; try { sch->RemoveEvent(id); } catch (const Smp::Services::InvalidEventId &) { ok = false; } end(k, ok, id); }
  void move(Id id, D dt) { Call c; c.w = Move; c.id = id; c.at = rt::now() - rt::startTime + dt; auto k = begin(c); bool ok = true; try { sch->SetEventZuluTime(id, tk0 + c.at); } catch (const Smp::Services::InvalidEventId &) { ok = false; } end(k, ok, id); }
  void repeat(Id id, Smp::Int64 n) { Call c; c.w = Repeat; c.id = id; c.rep = n; auto k = begin(c); bool ok = true; try { sch->SetEventCycleTime(id, U); sch->SetEventRepeat(id, n); } catch (const Smp::Services::InvalidEventId &) { ok = false; } end(k, ok, id); }
  std::atomic<int> done{0}; D tk0 = 0; // Zulu time at the start of the execution
  void run(D d) { { rt::Quiet q; runner = rt::tid(); running = true; } sim.Run(d); rt::Quiet q; running = false; auto s = sim.GetState(); MC_CHECK(s == SK::SSK_Standby, "state", "after Run the simulator is in state " << static_cast<int>(s)); }
  std::string show() const {
    std::vector<std::pair<long, std::string>> l; std::string r;
    for (auto &c : calls) { static const char *const N[] = {"post", "RemoveEvent", "SetEventZuluTime", "SetEventRepeat"}; std::string s = N[c.w]; if (c.w == Add) s += std::string(c.zulu ? "" : " simulation") + " e" + std::to_string(c.ep); if (c.w == Repeat) s += " " + std::to_string(c.rep); if ((c.w == Add && c.zulu) || c.w == Move) s += " at " + std::to_string(c.at); if (c.cycle) s += " cycle " + std::to_string(c.cycle) + " repeat " + std::to_string(c.rep); s += " (" + std::to_string(c.id) + ")"; if (!c.ok) s += " raises"; l.emplace_back(c.from, s + " until " + std::to_string(c.to) + ", zulu " + std::to_string(c.zFrom) + ".." + std::to_string(c.zTo)); }
    for (auto &e : execs) l.emplace_back(e.from, "event " + std::to_string(e.id) + " runs e" + std::to_string(e.ep) + " at zulu " + std::to_string(e.z) + " until " + std::to_string(e.to)); if (exitAt >= 0) l.emplace_back(exitAt, "exit");
    std::sort(l.begin(), l.end()); for (auto &x : l) r += "\n  [" + std::to_string(x.first) + "] " + x.second; return r;
  }
  void judge(bool complete, bool prompt) {
    std::map<Id, Call> added; for (auto &c : calls) if (c.w == Add && c.ok) MC_CHECK(added.emplace(c.id, c).second, "identifier", "identifier " << c.id << " is given twice" << show());
    std::map<Id, std::vector<Exec>> by; for (auto &e : execs) { by[e.id].push_back(e); auto it = added.find(e.id); MC_CHECK(it != added.end() && it->second.ep == e.ep && it->second.from < e.from, "unknown", "event " << e.id << " is executed, which nobody has posted" << show()); }
    for (auto &c : calls) if (c.w == Add && !c.ok) MC_CHECK(c.at < c.zTo || (c.rep && c.cycle <= 0), "refused", "a Zulu event in the future is refused" << show());
    for (auto &[id, c] : added) {
      auto &ex = by[id]; if (!c.zulu) continue; std::vector<Call> rm, mv, rp; for (auto &k : calls) if (k.id == id) { if (k.w == Remove) rm.push_back(k); if (k.w == Move && k.ok) mv.push_back(k); if (k.w == Repeat && k.ok) rp.push_back(k); }
      // a move to the past removes the event
      long gone = -1, goneFrom = -1; int removed = 0; for (auto &k : rm) if (k.ok) { ++removed; gone = k.to; goneFrom = k.from; } MC_CHECK(removed <= 1, "removed twice", "event " << id << " is removed twice" << show());
      bool mayBePast = false, isPast = false; for (auto &k : mv) { if (k.at < k.zTo) mayBePast = true; if (k.at < k.zFrom) { isPast = true; if (gone < 0) { gone = k.to; goneFrom = k.from; } } }
      std::int64_t most = c.rep + 1; for (auto &k : rp) most += k.rep + 1; size_t all = static_cast<size_t>(most + static_cast<std::int64_t>(mv.size()));
      MC_CHECK(ex.size() <= all, "twice", "event " << id << " is executed " << ex.size() << " times" << show());
      if (mv.empty() && rp.empty()) MC_CHECK(ex.size() <= static_cast<size_t>(c.rep + 1), "twice", "event " << id << " is executed " << ex.size() << " times instead of " << c.rep + 1 << show());
      // moved before its first execution began: not more often than before
      if (rp.empty() && std::all_of(mv.begin(), mv.end(), [&](auto &k) { return ex.empty() || k.to < ex[0].from; })) MC_CHECK(ex.size() <= static_cast<size_t>(c.rep + 1), "twice", "event " << id << " is executed " << ex.size() << " times instead of " << c.rep + 1 << show());
      if (gone >= 0) { int n = 0; for (auto &e : ex) if (e.from > gone) ++n; MC_CHECK(n == 0 || (n == 1 && inFlight(ex, gone)), "removed", "event " << id << " is executed after its removal" << show()); }
      if (complete && !removed && !isPast && !mayBePast && rp.empty()) MC_CHECK(ex.size() >= static_cast<size_t>(c.rep + 1), "lost", "event " << id << " is executed " << ex.size() << " times instead of " << c.rep + 1 << show());
      if (complete && !removed && !rp.empty() && !mayBePast) { bool before = std::all_of(rp.begin(), rp.end(), [&](auto &k) { return ex.empty() || k.to < ex[0].from; }); if (before && mv.empty()) MC_CHECK(static_cast<std::int64_t>(ex.size()) == rp.back().rep + 1, "lost", "event " << id << " is executed " << ex.size() << " times after SetEventRepeat" << show()); }
      for (auto &k : rm) if (!k.ok && !mayBePast) MC_CHECK((removed && goneFrom < k.to) || (!ex.empty() && ex.back().from < k.to), "pending", "RemoveEvent refuses event " << id << " which is pending" << show());
      // due times: the n-th after the last start, where a move starts anew
      for (size_t i = 0; i < ex.size(); ++i) {
        auto &e = ex[i]; std::vector<std::pair<D, long>> due; // and when this became the due time
        auto cyc = c.cycle; if (!rp.empty()) cyc = U;
        if (mv.empty()) due.emplace_back(c.at + static_cast<D>(i) * cyc, i ? ex[i - 1].to : c.to); else { for (size_t n = 0; n <= i; ++n) { if (std::any_of(mv.begin(), mv.end(), [&](auto &k) { return k.to > e.from || n == i || k.to > ex[0].from; }) && std::none_of(mv.begin(), mv.end(), [&](auto &k) { return k.to < ex[0].from; })) due.emplace_back(c.at + static_cast<D>(n) * cyc, c.to); for (auto &k : mv) if (k.from < e.from) due.emplace_back(k.at + static_cast<D>(n) * cyc, k.to); } for (auto &k : mv) if (k.to > e.from || inFlight(ex, k.to)) due.emplace_back(c.at + static_cast<D>(i) * cyc, c.to); }
        D low = INT64_MAX; for (auto &d : due) low = std::min(low, d.first); MC_CHECK(e.z >= low, "early", "event " << id << " is executed at " << e.z << ", before its time" << show());
        if (prompt) { bool ok = false; for (auto &d : due) { D at = d.first; for (auto &k : calls) if (k.to == d.second) at = std::max(at, k.zTo); // posted late
            for (auto &o : execs) if (o.from < e.from) at = std::max(at, o.zTo); ok |= e.z >= d.first && e.z <= at; } MC_CHECK(ok, "late", "event " << id << " is executed at " << e.z << show()); }
      }
    }
  }
  // of two events that are due the earlier one comes first, at the same instant the one posted first
  void order() const {
    std::map<Id, Call> once; for (auto &c : calls) if (c.w == Add && c.ok && c.zulu && !c.rep) once.emplace(c.id, c); for (auto &c : calls) if (c.w != Add && (c.w != Remove || c.ok)) once.erase(c.id);
    for (auto &e : execs) { auto a = once.find(e.id); if (a == once.end()) continue; for (auto &[id, b] : once) if (id != e.id && b.zTo < a->second.at && (b.at < a->second.at || (b.at == a->second.at && id < e.id))) MC_CHECK(std::any_of(execs.begin(), execs.end(), [&, i = id](auto &o) { return o.id == i && o.from < e.from; }), "order", "event " << e.id << " is executed before event " << id << show()); }
  }
  // its execution may have been decided already at that time
  bool inFlight(const std::vector<Exec> &ex, long t) const { for (auto &e : ex) if (e.from > t) { for (auto &o : execs) if (o.zulu && o.from > t && o.from < e.from) return false; return e.z <= zAt(t); } return false; }
  D zAt(long t) const { D z = 0; for (auto &c : calls) { if (c.from <= t) z = std::max(z, c.zFrom); if (c.to <= t) z = std::max(z, c.zTo); } for (auto &e : execs) { if (e.from <= t) z = std::max(z, e.z); if (e.to && e.to <= t) z = std::max(z, e.zTo); } return z; }
};
World *W;
constexpr int NOPS = 12; const char *const NAME[NOPS] = {"post in 1", "remove the first event", "move the first event to now+2", "move the first event to now", "wait 1, remove the first event", "post cyclic", "query", "move the first event to the past", "wait 1, move the second event to now", "remove the second event", "repeat the first event", "post in the past, and with invalid cycles"};
void op(int o, int ep) {
  MC_OP("thread " << rt::tid() << ": " << NAME[o]); mc::context(NAME[o]);
  switch (o) {
  case 0: W->add(ep, U); break; case 1: W->remove(W->firstId[0]); break; case 2: W->move(W->firstId[0], 2 * U); break; case 3: W->move(W->firstId[0], 0); break; case 4: rt::sleep(U); W->remove(W->firstId[0]); break; case 5: W->add(ep, U, U, 1); break;
  case 6: { (void)W->sch->GetCurrentEventId(); (void)W->sch->GetNextScheduledEventTime(); break; } case 7: W->move(W->firstId[0], -U); break; case 8: rt::sleep(U); W->move(W->firstId[1], 0); break; case 9: W->remove(W->firstId[1]); break; case 10: W->repeat(W->firstId[0], 1); break; default: W->add(ep, -1); W->add(ep, U, 0, 1); W->add(ep, U, -1, -1); break;
  }
}
void program(int len, int nops, bool running) {
  std::unique_ptr<World> w; std::vector<int> prog; int ending; bool timeouts = mc::param("timeouts", 1) != 0;
  { rt::Quiet q; w = std::make_unique<World>(); W = w.get(); } rt::sleep(1); // the timer thread has started
  { rt::Quiet q; w->tk0 = w->tk->GetZuluTime() - (rt::now() - rt::startTime);
    if (running) { static const int B[] = {0, 1, 2, 3, 6, 7, 8, 9}; w->behaviour = B[mc::choose(mc::param("behaviours", 8))]; } else { static const int B[] = {0, 4, 5, 2, 6, 7, 8, 3}; w->behaviour = B[mc::choose(mc::param("behaviours", 8))]; }
    ending = mc::choose(mc::param("endings", 3)); for (int i = 0; i < len; ++i) prog.push_back(mc::choose(nops)); }
  if (w->behaviour == 5) { prog.clear(); len = 0; } // Exit is not to be called while other threads use the components
  { rt::Calm c; D dt = mc::flip() ? U : 2 * U; w->firstId[0] = w->add(0, U); w->firstId[1] = w->add(1, dt); if (running) { w->addSim(9, 1); w->addSim(10, 1); } }
  MC_OP("behaviour " << w->behaviour << " ending " << ending); std::string what; for (int o : prog) what += std::string(what.empty() ? "" : " | ") + NAME[o];
  if (len) { std::thread t([&prog] { int e = 2; for (int o : prog) op(o, e++); }); if (running) w->run(2); t.join(); } else if (running) w->run(2);
  if (!running && mc::flip()) rt::sleep(U);
  mc::context("end"); bool complete = false;
  if (ending == 0) { rt::settle(); rt::sleep(10 * U); complete = true; if (running && w->sim.GetState() == SK::SSK_Standby) { w->run(3); } complete = w->exitAt < 0; }
  else if (ending == 1 && w->behaviour != 5 && w->behaviour != 4) { w->sim.Exit(); rt::Quiet q; w->exitAt = ++w->clock; w->exited = true; MC_CHECK(w->sim.GetState() == SK::SSK_Exiting, "exit", "not in Exiting state after Exit"); MC_CHECK(!w->busy, "exit", "Exit returns while an event is executed"); }
  if (ending == 1) rt::sleep(5 * U);
  if (ending && (w->behaviour == 4 || w->behaviour == 5)) { rt::settle(); rt::sleep(10 * U); } // do not destroy a simulator that is in use
  if (w->behaviour == 4 || w->behaviour == 5) (void)w->done.load(); // the user knows that the event that runs or exits is over
  w->simp.reset();
  { rt::Quiet q; w->judge(complete, !timeouts); if (w->exitAt < 0) w->order(); std::string tr; for (auto &e : w->execs) tr += std::to_string(e.id) + "@" + std::to_string(e.z) + ","; mc::outcome(mc::hashStr(what + tr)); mc::visit(mc::hashStr(w->show())); }
  w.reset();
}
}
MC_SCENARIO(standby) { program(mc::param("len", 1), mc::param("ops", NOPS), false); }
MC_SCENARIO(running) { program(mc::param("len", 1), mc::param("ops", NOPS), true); }
