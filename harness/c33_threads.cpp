// C33: one thread runs the simulation, others hold it, post, remove and move events: nothing hangs, nothing is lost.
#include "mc.h"
#include "rt.h"
#include "simenv.h"
#include <Smp/Services/InvalidEventId.h>
#include <Xsmp/Services/XsmpScheduler.h>
#include <Xsmp/Services/XsmpTimeKeeper.h>
#include <algorithm>
#include <condition_variable>
#include <map>
#include <mutex>
#include <memory>
#include <thread>
namespace {
using EM = Smp::Services::IEventManager; using D = Smp::Duration; using Id = Smp::Services::EventId; using SK = Smp::SimulatorStateKind;
struct Exec { Id id; int ep; D at; long from, to; long changes; int run; std::int64_t z; };
enum What { Add, Remove, Move, Hold, Speed };
struct Call { What w; long from, to; Id id; int ep; bool imm; D dt, cycle; Smp::Int64 rep; D simFrom, simTo; long chFrom, chTo; bool ok, now; int run; bool executing; std::int64_t z; };
struct RunRec { long from, begun, to; D start, d, end; std::int64_t z, zb = 0; };
struct World {
  std::mutex mx; std::condition_variable cv; bool isBegun = false;
  Xsmp::Simulator sim{"sim", ""}; Xsmp::Services::XsmpEventManager *em; Xsmp::Services::XsmpTimeKeeper *tk; Xsmp::Services::XsmpScheduler *sch; EpModel *m;
  std::vector<std::unique_ptr<Xsmp::EntryPoint>> eps; std::unique_ptr<Xsmp::EntryPoint> start, post, leave, standby; std::vector<Exec> execs; std::vector<Call> calls; std::vector<RunRec> runs;
  std::vector<std::pair<long, D>> changed; // when time changed
  long clock = 0; int runner = 0; bool busy = false, over = false, executing = false; D stop = -1; int nested = 0; std::string trail; int leaves = 0, allLeaves = 0, standbys = 0;
  World() {
    addService<StubLogger>(sim, "Logger")->counting = false; em = addService<Xsmp::Services::XsmpEventManager>(sim, "EM"); tk = addService<Xsmp::Services::XsmpTimeKeeper>(sim, "TimeKeeper"); sch = addService<Xsmp::Services::XsmpScheduler>(sim, "Scheduler"); m = new EpModel("m", "", &sim, &sim); sim.AddModel(m);
    for (int k = 0; k < 8; ++k) eps.push_back(std::make_unique<Xsmp::EntryPoint>(("e" + std::to_string(k)).c_str(), "", m, [this, k] { ran(k); }));
    start = std::make_unique<Xsmp::EntryPoint>("start", "", m, [this] { { rt::Quiet q; runs.back().begun = ++clock; runs.back().zb = rt::now(); executing = true; } if (runs.back().d < 0) { { std::scoped_lock lk(mx); isBegun = true; } cv.notify_all(); } }); post = std::make_unique<Xsmp::EntryPoint>("post", "", m, [this] { D t = simTime(); rt::Quiet q; MC_CHECK(changed.empty() || changed.back().second <= t, "time", "simulation time goes back"); changed.emplace_back(++clock, t); });
    leave = std::make_unique<Xsmp::EntryPoint>("leave", "", m, [this] { rt::Quiet q; MC_CHECK(sim.GetState() == SK::SSK_Executing || sim.GetState() == SK::SSK_Aborting, "events", "SMP_LeaveExecuting is emitted in state " << static_cast<int>(sim.GetState())); ++allLeaves; MC_CHECK(++leaves == 1, "events", "SMP_LeaveExecuting is emitted twice for one run"); });
    standby = std::make_unique<Xsmp::EntryPoint>("standby", "", m, [this] { rt::Quiet q; MC_CHECK(++standbys <= allLeaves, "events", "SMP_EnterStandby is emitted without SMP_LeaveExecuting"); });
    em->Subscribe(EM::SMP_EnterExecutingId, start.get()); sim.Connect(); em->Subscribe(EM::SMP_PostSimTimeChangeId, post.get()); em->Subscribe(EM::SMP_LeaveExecutingId, leave.get()); em->Subscribe(EM::SMP_EnterStandbyId, standby.get()); sch->SetTargetSpeed(mc::param("fast", 0) ? 100 : 0.01); /* one unit of simulation time lasts 100 ns */
  }
  D simTime() const { rt::Calm c; return tk->GetSimulationTime(); }
  Id current() const { rt::Calm c; return sch->GetCurrentEventId(); }
  long nowChanges() const { return static_cast<long>(changed.size()); }
  void ran(int k) {
    size_t i; Id id = current(); D t = simTime(); { rt::Quiet q; MC_CHECK(rt::tid() == runner, "thread", "an event is executed by thread " << rt::tid() << " instead of the one that runs the simulation"); MC_CHECK(!busy, "nested", "an event is executed inside another one"); MC_CHECK(!over, "standby", "an event is executed outside of a run"); busy = true; i = execs.size(); execs.push_back({id, k, t, ++clock, 0, nowChanges(), static_cast<int>(runs.size()), rt::now()}); }
    rt::point("in event"); if (k == 6) hold(true); if (k == 7) hold(false);
    id = current(); { rt::Quiet q; MC_CHECK(id == execs[i].id, "current", "the current event changes while an event runs"); execs[i].to = ++clock; busy = false; }
  }
  size_t begin(Call c) { c.simFrom = simTime(); rt::Quiet q; c.from = ++clock; c.to = 0; c.chFrom = nowChanges(); c.run = static_cast<int>(runs.size()); c.executing = executing && sim.GetState() == SK::SSK_Executing; calls.push_back(c); return calls.size() - 1; }
  void end(size_t k, bool ok, Id id) { { rt::Quiet q; calls[k].to = ++clock; } D t = simTime(); rt::Quiet q; auto &c = calls[k]; c.simTo = t; c.chTo = nowChanges(); c.ok = ok; c.id = id; c.z = rt::now(); }
  Id add(int ep, bool imm, D dt, D cycle = 0, Smp::Int64 rep = 0) { auto k = begin({Add, 0, 0, 0, ep, imm, dt, cycle, rep, 0, 0, 0, 0, false, false, 0, false, 0}); Id id = imm ? sch->AddImmediateEvent(eps[static_cast<size_t>(ep)].get()) : sch->AddSimulationTimeEvent(eps[static_cast<size_t>(ep)].get(), dt, cycle, rep); end(k, true, id); return id; }
  void remove(Id id) { auto k = begin({Remove, 0, 0, id, 0, false, 0, 0, 0, 0, 0, 0, 0, false, false, 0, false, 0}); bool ok = true; try { sch->RemoveEvent(id); } catch (const Smp::Services::InvalidEventId &) { ok = false; } end(k, ok, id); }
  void move(Id id, D dt) { auto k = begin({Move, 0, 0, id, 0, false, dt, 0, 0, 0, 0, 0, 0, false, false, 0, false, 0}); bool ok = true; try { sch->SetEventSimulationTime(id, dt); } catch (const Smp::Services::InvalidEventId &) { ok = false; } end(k, ok, id); }
  void hold(bool now) { auto k = begin({Hold, 0, 0, 0, 0, false, 0, 0, 0, 0, 0, 0, 0, false, now, 0, false, 0}); sim.Hold(now); end(k, true, 0); }
  void speed() { auto k = begin({Speed, 0, 0, 0, 0, false, 0, 0, 0, 0, 0, 0, 0, false, false, 0, false, 0}); sch->SetTargetSpeed(100); end(k, true, 0); { rt::Quiet q; MC_CHECK(sch->GetTargetSpeed() == 100, "speed", "the target speed is not the one set"); } }
  void run(D d) {
    D t = simTime(); { rt::Quiet q; runs.push_back({++clock, 0, 0, t, d, 0, 0}); leaves = 0; runner = rt::tid(); MC_OP("Run(" << d << ") at " << runs.back().start); } if (d < 0) sim.Run(); else sim.Run(d);
    t = simTime(); rt::Quiet q; executing = false; auto &r = runs.back(); r.to = ++clock; r.end = t; r.z = rt::now(); auto s = sim.GetState(); MC_CHECK(s == SK::SSK_Standby || s == SK::SSK_Aborting, "state", "after Run the simulator is in state " << static_cast<int>(s)); MC_OP(" Run ends at " << r.end); MC_CHECK(!busy, "state", "Run returns while an event is executed"); trail += "|" + std::to_string(r.end);
  }
  // afterwards ------------------------------------------------------------------------------------------------
  std::string show() const {
    std::vector<std::pair<long, std::string>> l; std::string r;
    for (auto &c : calls) { static const char *const N[] = {"post", "RemoveEvent", "SetEventSimulationTime", "Hold", "SetTargetSpeed"}; std::string s = N[c.w]; if (c.w == Add) s += std::string(c.imm ? " immediate" : "") + " e" + std::to_string(c.ep) + (c.imm ? "" : " in " + std::to_string(c.dt)) + " -> "; if (c.w == Hold) s += c.now ? "(true)" : "(false)"; else s += "(" + std::to_string(c.id) + ")"; if (!c.ok) s += " raises"; l.emplace_back(c.from, s + " until " + std::to_string(c.to)); }
    for (auto &e : execs) l.emplace_back(e.from, "event " + std::to_string(e.id) + " runs e" + std::to_string(e.ep) + " at " + std::to_string(e.at) + " until " + std::to_string(e.to)); for (auto &r : runs) { l.emplace_back(r.from, "Run(" + std::to_string(r.d) + ")"); l.emplace_back(r.begun, "executing"); l.emplace_back(r.to, "Run returns"); } for (auto &c : changed) l.emplace_back(c.first, "time " + std::to_string(c.second));
    std::sort(l.begin(), l.end()); for (auto &x : l) r += "\n  [" + std::to_string(x.first) + "] " + x.second; return r;
  }
  void judge(bool complete) {
    std::map<Id, Call> added; for (auto &c : calls) if (c.w == Add) { MC_CHECK(added.emplace(c.id, c).second, "identifier", "identifier " << c.id << " is given twice" << show()); }
    std::map<Id, std::vector<Exec>> by; for (auto &e : execs) by[e.id].push_back(e);
    for (auto &e : execs) { auto it = added.find(e.id); MC_CHECK(it != added.end() && it->second.ep == e.ep && it->second.from < e.from, "unknown", "event " << e.id << " is executed, which nobody has posted" << show()); if (it == added.end()) return; }
    for (auto &[id, c] : added) {
      auto &ex = by[id]; std::vector<Call> rm, mv; for (auto &k : calls) if (k.id == id && k.w == Remove) rm.push_back(k); else if (k.id == id && k.w == Move) mv.push_back(k);
      long gone = -1, goneFrom = -1; int removed = 0; for (auto &k : rm) if (k.ok) { ++removed; gone = k.to; goneFrom = k.from; } MC_CHECK(removed <= 1, "removed twice", "event " << id << " is removed twice" << show());
      bool moved = std::any_of(mv.begin(), mv.end(), [](auto &k) { return k.ok; }); size_t all = static_cast<size_t>(c.rep + 1);
      MC_CHECK(ex.size() <= all + (moved ? 1u : 0u), "twice", "event " << id << " is executed " << ex.size() << " times instead of " << all << show()); // moved while it runs: one more
      if (removed) MC_CHECK(std::count_if(ex.begin(), ex.end(), [&](auto &e) { return e.from > gone; }) <= 0 || dispatched(ex, gone), "removed", "event " << id << " is executed after its removal" << show());
      bool finished = ex.size() >= all; long last = finished ? nextStep(ex.back().to) : -1; // an event is known until its execution is over
      if (removed && finished && !moved) MC_CHECK(goneFrom < last, "removed twice", "RemoveEvent accepts event " << id << " after its last execution" << show());
      for (auto &k : rm) if (!k.ok) MC_CHECK((removed && goneFrom < k.to) || (finished && ex.back().from < k.to), "pending", "RemoveEvent refuses event " << id << " which is pending" << show());
      for (auto &k : mv) if (!k.ok) MC_CHECK((removed && goneFrom < k.to) || (finished && ex.back().from < k.to), "pending", "SetEventSimulationTime refuses event " << id << " which is pending" << show());
      if (complete && !removed) MC_CHECK(finished, "lost", "event " << id << " is executed " << ex.size() << " times instead of " << all << show());
      for (size_t i = 0; i < ex.size(); ++i) {
        auto &e = ex[i]; bool ok = c.imm ? e.at >= c.simFrom : i == 0 ? e.at - c.dt >= c.simFrom && e.at - c.dt <= c.simTo : e.at == ex[i - 1].at + c.cycle; for (auto &k : mv) if (k.ok && k.from < e.from) ok |= e.at - k.dt >= k.simFrom && e.at - k.dt <= k.simTo;
        MC_CHECK(ok, "due", "event " << id << " is executed at " << e.at << show());
      }
      // at once: at most the time change under way comes before an immediate event (or the next run)
      if (c.imm && !ex.empty() && ex[0].run == c.run && !moved) MC_CHECK(ex[0].changes - c.chTo <= 1, "late", "immediate event " << id << " is executed after " << ex[0].changes - c.chTo << " changes of time" << show());
    }
    // the simulation does not outrun its target speed
    if (!mc::param("fast", 0)) for (auto &e : execs) { if (std::any_of(calls.begin(), calls.end(), [&](auto &k) { return k.w == Speed && k.from < e.from; })) continue; auto &r = runs[static_cast<size_t>(e.run - 1)]; MC_CHECK(e.z >= r.zb + (e.at - r.start) * 100, "early", "event " << e.id << ", due at " << e.at << ", is executed " << e.z - r.zb << " ns after the start of the run" << show()); }
    // a target speed that leaves nothing to wait for holds at once: nothing takes time any more
    for (auto &k : calls) if (k.w == Speed) { std::int64_t z = k.z; for (auto &o : calls) z = std::max(z, o.z); for (auto &r : runs) if (r.to > k.to) MC_CHECK(r.z <= z, "late", "Run ends " << r.z - z << " ns after SetTargetSpeed" << show()); }
    // the scheduler does not sleep on what is due now
    for (auto &[id, c] : added) { auto &ex = by[id]; if (c.dt == 0 && !ex.empty() && ex[0].run == c.run && c.executing && std::none_of(calls.begin(), calls.end(), [&, i = id](auto &k) { return k.w == Move && k.id == i; })) MC_CHECK(ex[0].z <= c.z, "late", "event " << id << ", due now, is executed " << ex[0].z - c.z << " ns after it was posted" << show()); }
    // order: whatever was pending when the previous step of the simulation ended comes in its order
    auto mvd = [&](Id id) { return std::any_of(calls.begin(), calls.end(), [&](auto &k) { return k.w == Move && k.id == id; }); };
    for (auto &e : execs) {
      long step = runs[static_cast<size_t>(e.run - 1)].from; for (auto &o : execs) if (o.to && o.to < e.from) step = std::max(step, o.to); for (auto &t : changed) if (t.first < e.from) step = std::max(step, t.first);
      auto &a = added[e.id]; if (mvd(e.id)) continue;
      for (auto &[id, b] : added) if (id != e.id && b.to < step && !mvd(id)) {
        auto &ox = by[id]; if (std::any_of(calls.begin(), calls.end(), [&, i = id](auto &k) { return k.w == Remove && k.id == i && k.ok && k.from < e.from; })) continue; size_t done = static_cast<size_t>(std::count_if(ox.begin(), ox.end(), [&](auto &o) { return o.from < e.from; })); if (done >= static_cast<size_t>(b.rep + 1)) continue;
        bool first = b.imm ? !a.imm || id < e.id : !a.imm && !ox.empty() && done < ox.size() && (ox[done].at < e.at || (ox[done].at == e.at && id < e.id && !b.rep && !a.rep)); MC_CHECK(!first, "order", "event " << e.id << " is executed before event " << id << show());
      }
    }
    // holds
    for (auto &h : calls) if (h.w == Hold && h.executing && h.run > 0) {
      auto &r = runs[static_cast<size_t>(h.run - 1)]; if (h.to > r.to && !r.to) continue; long done = h.to; for (auto &o : calls) if (o.w == Hold && o.from < h.to && o.to > h.from) done = std::max(done, o.to); if (done > r.to) continue;
      long later = 0; for (auto &t : changed) if (t.first > done && t.first < r.to) ++later; MC_CHECK(later <= 1, "held", "time changes " << later << " times after Hold(" << h.now << ")" << show());
      if (h.now) { std::int64_t z = h.z; for (auto &o : calls) if (o.w == Hold && o.to == done) z = o.z; MC_CHECK(r.z <= z, "held", "Run returns " << r.z - z << " ns after Hold(true)" << show()); long n = 0; for (auto &e : execs) if (e.from > done && e.from < r.to) ++n; MC_CHECK(n <= 1, "held", n << " events are executed after Hold(true)" << show()); }
    }
    // a run that nobody holds ends at its time
    for (auto &r : runs) if (r.begun && r.d >= 0 && std::none_of(calls.begin(), calls.end(), [&](auto &h) { return h.w == Hold && h.from < r.to && h.to > r.from; }) && sim.GetState() == SK::SSK_Standby) MC_CHECK(r.end == r.start + r.d, "end", "Run(" << r.d << ") from " << r.start << " ends at " << r.end << show());
    for (auto &r : runs) if (!r.begun) MC_CHECK(std::any_of(calls.begin(), calls.end(), [&](auto &h) { return h.w == Hold && h.now && h.from < r.to && h.to > r.from; }) || holdEnds(r) || sim.GetState() == SK::SSK_Aborting, "refused", "Run is refused although nobody holds the simulation" << show());
  }
  long nextStep(long t) const { long n = clock + 1; for (auto &e : execs) if (e.from > t) n = std::min(n, e.from); for (auto &c : changed) if (c.first > t) n = std::min(n, c.first); for (auto &r : runs) if (r.to > t) n = std::min(n, r.to); return n; }
  // the event was already being dispatched when it was removed
  bool dispatched(const std::vector<Exec> &ex, long gone) const { int n = 0; for (auto &e : ex) if (e.from > gone) { ++n; for (auto &o : execs) if (o.from > gone && o.from < e.from) return false; for (auto &t : changed) if (t.first > gone && t.first < e.from) return false; } return n <= 1; }
  bool holdEnds(const RunRec &r) const { for (auto &h : calls) if (h.w == Hold && h.from < r.to && h.to > r.from) return true; return false; }
};
World *W; Id firstId[4];
constexpr int NOPS = 13; const char *const NAME[NOPS] = {"Hold(true)", "post immediate", "post in 1", "remove the first event", "post in 0", "Hold(false)", "move the first event to now", "query", "post cyclic", "move the first event to now+1", "remove the second event", "Abort", "SetTargetSpeed(100)"};
void op(int o, int ep) {
  MC_OP("thread " << rt::tid() << ": " << NAME[o]); mc::context(NAME[o]);
  switch (o) {
  case 0: W->hold(true); break; case 1: W->add(ep, true, 0); break; case 2: W->add(ep, false, 1); break; case 3: W->remove(firstId[0]); break; case 4: W->add(ep, false, 0); break; case 5: W->hold(false); break; case 6: W->move(firstId[0], 0); break; case 8: W->add(ep, false, 0, 1, 1); break; case 9: W->move(firstId[0], 1); break; case 10: W->remove(firstId[1]); break;
  case 7: { Id c = W->sch->GetCurrentEventId(); auto n = W->sch->GetNextScheduledEventTime(); auto t = W->tk->GetSimulationTime(); auto s = W->sim.GetState(); rt::Quiet q; MC_CHECK(c >= -1, "current", "the current event is " << c); MC_CHECK(n >= 0 && t >= 0, "next", "next event " << n << ", time " << t); MC_CHECK(s == SK::SSK_Standby || s == SK::SSK_Executing || s == SK::SSK_Aborting, "state", "state " << static_cast<int>(s)); break; }
  case 12: W->speed(); break;
  default: W->sim.Abort(); break;
  }
}
void program(int threads, int len, int nops) {
  std::unique_ptr<World> w; std::vector<std::vector<int>> prog; int nruns = mc::param("runs", 1);
  { rt::Quiet q; w = std::make_unique<World>(); W = w.get(); } rt::sleep(1); { rt::Quiet q; // the timer thread has started
    switch (mc::choose(mc::param("presets", 4))) { case 0: firstId[0] = w->add(0, false, 1); firstId[1] = w->add(1, false, 1); break; case 1: firstId[0] = w->add(0, false, 0); firstId[1] = w->add(1, false, 2); break; case 2: firstId[0] = w->add(0, false, 1, 1, 1); firstId[1] = w->add(1, true, 0); break; default: firstId[0] = w->add(6, false, 1); firstId[1] = w->add(1, false, 1); }
    for (int t = 0; t < threads; ++t) { prog.emplace_back(); for (int i = 0; i < len; ++i) { int lo = i == 0 && t > 0 ? prog[static_cast<size_t>(t - 1)][0] : 0; prog.back().push_back(lo + mc::choose(nops - lo)); } } }
  std::string what; for (auto &p : prog) for (int o : p) what += std::string(what.empty() ? "" : " | ") + NAME[o];
  { std::vector<std::thread> th; int ep = 2; for (auto &p : prog) { th.emplace_back([&p, ep] { int e = ep; for (int o : p) op(o, e++); }); ep += len; } for (int i = 0; i < nruns; ++i) w->run(2); for (auto &t : th) t.join(); }
  rt::settle(); mc::context("closing run"); bool aborted = w->sim.GetState() == SK::SSK_Aborting; if (!aborted) { size_t k = w->runs.size(); w->run(9); if (w->sim.GetState() == SK::SSK_Standby && w->tk->GetSimulationTime() < 9 + w->runs[k].start) w->run(9); w->run(9); }
  { rt::Quiet q; w->judge(!aborted); w->over = true; std::string tr; for (auto &e : w->execs) tr += std::to_string(e.id) + "@" + std::to_string(e.at) + ","; mc::outcome(mc::hashStr(what + w->trail + tr)); mc::visit(mc::hashStr(w->show())); } mc::context("end"); w.reset();
}
}
MC_SCENARIO(two_threads) { program(1, mc::param("len2", 2), mc::param("ops2", NOPS)); }
MC_SCENARIO(three_threads) { if (mc::param("ops3", NOPS) > 0) program(2, 1, mc::param("ops3", NOPS)); }
// Run() without an end: time never goes beyond what somebody has posted
MC_SCENARIO(unbounded) {
  if (!mc::param("unbounded", 1)) return; std::unique_ptr<World> w; std::vector<int> prog; const int len = static_cast<int>(mc::param("lenu", 2));
  { rt::Quiet q; w = std::make_unique<World>(); W = w.get(); } rt::sleep(1); { rt::Quiet q; static const int OPS[] = {0, 1, 2, 3, 4, 6, 7, 9, 10};
    switch (mc::choose(4)) { case 0: firstId[0] = firstId[1] = w->add(0, false, 1); break; case 1: firstId[0] = w->add(0, false, 0); firstId[1] = w->add(1, false, 2); break; case 2: firstId[0] = w->add(0, false, 1, 1, 1); firstId[1] = w->add(1, true, 0); break; default: firstId[0] = w->add(0, false, 1); firstId[1] = w->add(1, false, 1); }
    for (int i = 0; i < len; ++i) prog.push_back(OPS[mc::choose(9)]); }
  std::string what = "unbounded"; for (int o : prog) what += std::string(" ") + NAME[o]; mc::context("Run()");
  { std::thread th([&] { int e = 2; for (int o : prog) op(o, e++); { std::unique_lock lk(w->mx); w->cv.wait(lk, [&] { return w->isBegun; }); } rt::sleep(1000); w->hold(true); }); w->run(-1); th.join(); }
  { rt::Quiet q; MC_CHECK(w->runs[0].end <= 2 + len, "end", "Run() ends at " << w->runs[0].end << w->show()); }
  rt::settle(); mc::context("closing run"); w->run(9); w->run(9);
  { rt::Quiet q; for (auto &c : w->calls) c.z = std::numeric_limits<std::int64_t>::max(); /* the sleep may end early */ w->judge(true); w->over = true; std::string tr; for (auto &e : w->execs) tr += std::to_string(e.id) + "@" + std::to_string(e.at) + ","; mc::outcome(mc::hashStr(what + w->trail + tr)); mc::visit(mc::hashStr(w->show())); } mc::context("end"); w.reset();
}
