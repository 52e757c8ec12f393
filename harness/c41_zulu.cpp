// C41: Zulu events after Store and Restore.
#include "mc.h"
#include "memstore.h"
#include "rt.h"
#include "simenv.h"
#include <Smp/Services/InvalidEventId.h>
#include <Xsmp/Services/XsmpScheduler.h>
#include <Xsmp/Services/XsmpTimeKeeper.h>
#include <algorithm>
#include <map>
#include <memory>
namespace {
using D = Smp::Duration; using Id = Smp::Services::EventId; constexpr D U = 100;
struct World {
  std::unique_ptr<Xsmp::Simulator> simp{new Xsmp::Simulator("sim", "")}; Xsmp::Simulator &sim{*simp}; Xsmp::Services::XsmpTimeKeeper *tk; Xsmp::Services::XsmpScheduler *sch; EpModel *m; std::vector<std::unique_ptr<Xsmp::EntryPoint>> eps; std::vector<std::pair<Id, D>> ran;
  World() {
    addService<StubLogger>(sim, "Logger")->counting = false; addService<Xsmp::Services::XsmpEventManager>(sim, "EM"); tk = addService<Xsmp::Services::XsmpTimeKeeper>(sim, "TimeKeeper"); sch = addService<Xsmp::Services::XsmpScheduler>(sim, "Scheduler"); addService<Xsmp::Services::XsmpResolver>(sim, "Resolver"); m = new EpModel("m", "", &sim, &sim); sim.AddModel(m);
    for (int k = 0; k < 4; ++k) eps.push_back(std::make_unique<Xsmp::EntryPoint>(("e" + std::to_string(k)).c_str(), "", m, [this] { Id id; { rt::Calm c; id = sch->GetCurrentEventId(); } rt::Quiet q; ran.emplace_back(id, rt::now() - rt::startTime); MC_OP(" event " << id << " runs at " << ran.back().second); }));
    sim.Connect();
  }
};
struct Ev { D at, cycle; Smp::Int64 rep; };
void go() {
  std::unique_ptr<World> w; std::map<Id, Ev> ev; std::vector<Id> ids; { rt::Quiet q; w = std::make_unique<World>(); } rt::sleep(1); D base; { rt::Calm c; base = w->tk->GetZuluTime() - (rt::now() - rt::startTime); }
  auto z = [&] { return rt::now() - rt::startTime; }; int k = 0;
  auto post = [&](D at, D cycle, Smp::Int64 rep) { Id id = w->sch->AddZuluTimeEvent(w->eps[static_cast<size_t>(k++)].get(), base + at, cycle, rep); ev[id] = {at, cycle, rep}; ids.push_back(id); MC_OP("post Zulu event " << id << " at " << at << " cycle " << cycle << " repeat " << rep); };
  // this thread acts half way between the events: which of two things happening at the same instant comes first is not specified
  D t0 = z(); rt::sleep(U / 2); post(t0 + 6 * U, 0, 0); if (mc::flip()) post(t0 + 3 * U, 2 * U, 3); if (mc::flip()) post(t0 + 6 * U, 0, 0);
  // the state to be restored; occurrences executed before the store are over
  auto settle = [&] { std::map<Id, Ev> e = ev; for (auto &r : w->ran) { auto it = e.find(r.first); if (it == e.end()) continue; if (it->second.rep == 0) e.erase(it); else { --it->second.rep; it->second.at += it->second.cycle; } } return e; };
  if (mc::flip()) rt::sleep(4 * U); MC_OP("Store at " << z()); MemWriter a; w->sch->Store(&a); auto saved = settle();
  // anything else
  for (int i = 0; i < mc::param("disturb", 2); ++i) switch (mc::choose(7)) {
    case 0: break; case 1: { MC_OP("remove event " << ids[0]); try { w->sch->RemoveEvent(ids[0]); } catch (const Smp::Services::InvalidEventId &) {} break; } case 2: { MC_OP("move event " << ids.back()); try { w->sch->SetEventZuluTime(ids.back(), base + z() + U + U / 2); } catch (const Smp::Services::InvalidEventId &) {} break; }
    case 3: if (k < 4) post(z() + 2 * U + U / 2, 0, 0); break; case 4: rt::sleep(3 * U); break; case 5: { try { w->sch->SetEventCycleTime(ids.back(), U); w->sch->SetEventRepeat(ids.back(), 5); } catch (const Smp::Services::InvalidEventId &) {} break; } default: rt::sleep(U); }
  { rt::Quiet q; w->ran.clear(); } MC_OP("Restore at " << z()); D at = z(); MemReader r(a.data); w->sch->Restore(&r); MC_CHECK(r.pos == a.data.size(), "bytes", "Restore leaves part of what Store has written");
  for (int i = 0; i < mc::param("after", 1); ++i) switch (mc::choose(3)) { case 0: break; case 1: { Id id = ids[0]; bool ok = true, first = z() >= saved[id].at; MC_OP("remove event " << id); try { w->sch->RemoveEvent(id); } catch (const Smp::Services::InvalidEventId &) { ok = false; } MC_CHECK(ok || first, "identifier", "event " << id << " is unknown after Restore"); if (ok) saved.erase(id); break; } default: rt::sleep(U); }
  rt::settle(); rt::sleep(30 * U); std::map<Id, std::vector<D>> got; for (auto &x : w->ran) got[x.first].push_back(x.second);
  for (auto &[id, t] : got) MC_CHECK(saved.count(id) || id == ids[0], "unknown", "event " << id << " is executed, which was not pending at the store");
  for (auto &[id, e] : saved) { // occurrences that were due before the restore may have been executed late or be skipped
    std::vector<D> want; size_t past = 0; for (Smp::Int64 i = 0; i <= e.rep; ++i) { D due = e.at + i * e.cycle; if (due <= at) ++past; else want.push_back(due); } auto &t = got[id]; std::string s; for (D x : t) s += " " + std::to_string(x); std::string n; for (D x : want) n += " " + std::to_string(x);
    std::vector<D> late, tail; for (D x : t) if (t.size() - late.size() > want.size()) late.push_back(x); tail.assign(t.begin() + static_cast<long>(late.size()), t.end()); MC_CHECK(late.size() <= past && tail == want, "times", "after Restore at " << at << " event " << id << " is executed at" << s << " instead of" << n);
  }
  std::string tr; for (auto &x : w->ran) tr += std::to_string(x.first) + "@" + std::to_string(x.second) + ","; { rt::Quiet q; mc::outcome(mc::hashStr(tr)); mc::visit(mc::hashStr(tr)); } w->simp.reset();
}
}
MC_SCENARIO(zulu) { go(); }
// a restoration made while a Zulu event is executed, by the event itself or by another thread
MC_SCENARIO(meanwhile) {
  if (!mc::param("meanwhile", 1)) return; std::unique_ptr<World> w; { rt::Quiet q; w = std::make_unique<World>(); } rt::sleep(1); D base; { rt::Calm c; base = w->tk->GetZuluTime() - (rt::now() - rt::startTime); } auto z = [&] { return rt::now() - rt::startTime; };
  bool known, own; int rep, posts, kind; { rt::Quiet q; known = mc::flip(); own = mc::flip(); rep = mc::choose(3); posts = mc::choose(3); kind = mc::choose(4); } MemWriter a; bool inside = false, done = false, restored = false; Id s = -1; D t0 = z() + 10 * U, at = 0; std::vector<std::pair<Id, D>> &ran = w->ran; std::map<Id, D> sims;
  Xsmp::EntryPoint *after = w->eps[1].get(); std::vector<Id> ids;
  auto act = [&] { { rt::Quiet q; ran.clear(); } at = z(); MC_OP("Restore at " << at); MemReader r(a.data); w->sch->Restore(&r); for (int i = 0; i < posts; ++i) { Id id = kind == 0 ? w->sch->AddImmediateEvent(after) : kind == 1 ? w->sch->AddSimulationTimeEvent(after, 1) : kind == 2 ? w->sch->AddSimulationTimeEvent(after, 1, 1, 1) : w->sch->AddZuluTimeEvent(after, base + t0 + 9 * U, 0, 0); rt::Quiet q; ids.push_back(id); MC_OP("post event " << id); } restored = true; };
  Xsmp::EntryPoint e("e", "", w->m, [&] { Id id; { rt::Calm c; id = w->sch->GetCurrentEventId(); } bool first; { rt::Quiet q; first = !done; done = true; if (restored || !first) ran.emplace_back(id, z()); MC_OP(" Zulu event " << id << " runs at " << z()); } if (!first) return; if (own) act(); else { inside = true; rt::waitFor("restoration", [&] { return restored; }); } MC_OP(" it ends"); });
  auto post = [&] { s = w->sch->AddZuluTimeEvent(&e, base + t0, U, rep); MC_OP("post Zulu event " << s << " at " << t0 << " repeat " << rep); };
  if (known) post(); MC_OP("Store"); w->sch->Store(&a); if (!known) post();
  if (!own) { rt::waitFor("event", [&] { return inside; }); act(); } rt::sleep(30 * U); rt::settle(); MC_OP("Run(3)"); w->sim.Run(3); rt::sleep(U);
  { rt::Quiet q; std::map<Id, std::vector<D>> got; for (auto &x : ran) got[x.first].push_back(x.second); for (auto &[id, t] : got) MC_CHECK((known && id == s) || std::count(ids.begin(), ids.end(), id), "unknown", "event " << id << " is executed, which was not pending at the store");
    for (Id id : ids) MC_CHECK(got[id].size() == (kind == 2 ? 2u : 1u), "posted", "event " << id << ", posted after the restoration, is executed " << got[id].size() << " times");
    if (known) { auto &t = got[s]; std::vector<D> want; for (int i = 0; i <= rep; ++i) if (t0 + i * U > at) want.push_back(t0 + i * U); size_t late = t.size() > want.size() ? t.size() - want.size() : 0; std::string str; for (D x : t) str += " " + std::to_string(x); MC_CHECK(late <= static_cast<size_t>(rep) + 1 - want.size() && std::vector<D>(t.begin() + static_cast<long>(late), t.end()) == want, "times", "Zulu event " << s << " (at " << t0 << ", repeat " << rep << ") restored at " << at << " is executed at" << str); }
    for (Id id : ids) MC_CHECK(!known || id != s, "identifier", "a new event gets the identifier of a restored one"); std::string tr; for (auto &x : ran) tr += std::to_string(x.first) + "@" + std::to_string(x.second) + ","; mc::outcome(mc::hashStr(tr)); mc::visit(mc::hashStr(tr)); }
  w->simp.reset();
}
