// C30: the time keeper against four plain numbers; callbacks of its events act on it.
#include "mc.h"
#include "memstore.h"
#include "simenv.h"
#include <Smp/Services/IScheduler.h>
#include <Smp/Services/InvalidSimulationTime.h>
#include <Xsmp/Services/XsmpTimeKeeper.h>
#include <chrono>
#include <memory>
namespace {
using EM = Smp::Services::IEventManager; using D = Smp::Duration;
struct StubScheduler : Xsmp::Service, virtual Smp::Services::IScheduler {
  using Xsmp::Service::Service; D next = 1000000000000000; using Id = Smp::Services::EventId; using Ep = Smp::IEntryPoint;
  Id AddImmediateEvent(const Ep *) override { return 0; } Id AddSimulationTimeEvent(const Ep *, D, D, Smp::Int64) override { return 0; } Id AddMissionTimeEvent(const Ep *, D, D, Smp::Int64) override { return 0; } Id AddEpochTimeEvent(const Ep *, Smp::DateTime, D, Smp::Int64) override { return 0; } Id AddZuluTimeEvent(const Ep *, Smp::DateTime, D, Smp::Int64) override { return 0; }
  void SetEventSimulationTime(Id, D) override {} void SetEventMissionTime(Id, D) override {} void SetEventEpochTime(Id, Smp::DateTime) override {} void SetEventZuluTime(Id, Smp::DateTime) override {} void SetEventCycleTime(Id, D) override {} void SetEventRepeat(Id, Smp::Int64) override {} void RemoveEvent(Id) override {} Id GetCurrentEventId() const override { return -1; } D GetNextScheduledEventTime() const override { return next; }
};
struct Model { D sim = 0, off = 0, start = 0; bool operator==(const Model &o) const { return sim == o.sim && off == o.off && start == o.start; } };
const D VALS[] = {1000, 0, -7, 3600000000000, INT64_MAX / 4, INT64_MIN / 4};
struct World {
  Xsmp::Simulator sim{"sim", ""}; StubScheduler *sch; Xsmp::Services::XsmpEventManager *em; Xsmp::Services::XsmpTimeKeeper *tk; EpModel *m; std::unique_ptr<Xsmp::EntryPoint> early, pre, post, epoch, mission;
  Model a; int budget = 0, depth = 0; int nvals; long epochs = 0, missions = 0; int current = 0; bool stored = false; std::string data; Model sa;
  explicit World(int values) : nvals(values) {
    addService<StubLogger>(sim, "Logger"); sch = addService<StubScheduler>(sim, "Scheduler"); em = addService<Xsmp::Services::XsmpEventManager>(sim, "EM"); tk = addService<Xsmp::Services::XsmpTimeKeeper>(sim, "TimeKeeper"); m = new EpModel("m", "", &sim, &sim); sim.AddModel(m);
    auto make = [&](const char *n, std::function<void()> f) { return std::make_unique<Xsmp::EntryPoint>(n, "", m, std::move(f)); };
    early = make("early", [this] { inside("early subscriber of PreSimTimeChange", 1); }); pre = make("pre", [this] { inside("PreSimTimeChange", 2); }); post = make("post", [this] { inside("PostSimTimeChange", 1); });
    epoch = make("epoch", [this] { ++epochs; inside("EpochTimeChanged", current); }); mission = make("mission", [this] { ++missions; inside("MissionTimeChanged", current); });
    em->Subscribe(EM::SMP_PreSimTimeChangeId, early.get()); sim.Connect();
    em->Subscribe(EM::SMP_PreSimTimeChangeId, pre.get()); em->Subscribe(EM::SMP_PostSimTimeChangeId, post.get()); em->Subscribe(EM::SMP_EpochTimeChangedId, epoch.get()); em->Subscribe(EM::SMP_MissionTimeChangedId, mission.get()); check("at first");
  }
  void check(const char *when) {
    MC_CHECK(tk->GetSimulationTime() == a.sim, "simulation time", when << ": simulation time is " << tk->GetSimulationTime() << ", expected " << a.sim);
    MC_CHECK(tk->GetEpochTime() == a.sim + a.off, "epoch time", when << ": epoch time is " << tk->GetEpochTime() << ", expected " << a.sim + a.off);
    MC_CHECK(tk->GetMissionStartTime() == a.start, "mission start", when << ": mission start is " << tk->GetMissionStartTime() << ", expected " << a.start);
    MC_CHECK(tk->GetMissionTime() == a.sim + a.off - a.start, "mission time", when << ": mission time is " << tk->GetMissionTime() << ", expected " << a.sim + a.off - a.start);
  }
  // how: 0 no time change is going on (ignored), 1 the moment is not settled (ignored or treated), 2 during the change (treated)
  void setSim(D v, int how) {
    D cur = a.sim, max = sch->next; bool bad = v < cur || v > max; bool raised = false; MC_OP("SetSimulationTime(" << v << ") between " << cur << " and " << max);
    try { tk->SetSimulationTime(v); } catch (const Smp::Services::InvalidSimulationTime &e) { raised = true; MC_CHECK(e.GetCurrentTime() == cur && e.GetProvidedTime() == v && e.GetMaximumTime() == max, "exception", "InvalidSimulationTime tells " << e.GetCurrentTime() << ", " << e.GetProvidedTime() << ", " << e.GetMaximumTime()); }
    D now = tk->GetSimulationTime(); if (how == 1) { MC_CHECK(now == cur || (!bad && now == v), "simulation time", "simulation time becomes " << now); MC_CHECK(!raised || bad, "refused", "a valid time is refused"); a.sim = now; return; }
    MC_CHECK(raised == (how == 2 && bad), "refused", "SetSimulationTime(" << v << ") with current " << cur << " and maximum " << max << (raised ? " raises" : " does not raise")); if (how == 2 && !bad) a.sim = v; check("after SetSimulationTime");
  }
  void offsets(int k, D v) {
    long e = epochs, s = missions; int bud = budget; std::string what = k == 0 ? "SetEpochTime" : k == 1 ? "SetMissionStartTime" : "SetMissionTime"; MC_OP(what << "(" << v << ")");
    Model before = a; (void)before; if (k == 0) { a.off = v - a.sim; tk->SetEpochTime(v); } else if (k == 1) { a.start = v; tk->SetMissionStartTime(v); } else { a.start = a.sim + a.off - v; tk->SetMissionTime(v); }
    if (bud == budget) MC_CHECK(epochs - e == (k == 0) && missions - s == (k != 0), "events", what << " emits EpochTimeChanged " << epochs - e << " times and MissionTimeChanged " << missions - s << " times"); else MC_CHECK(k == 0 ? epochs > e : missions > s, "events", what << " emits no event");
    check(what.c_str());
  }
  D val() { return VALS[mc::choose(nvals)]; }
  void inside(const char *where, int how) {
    check(where); if (budget <= 0 || depth > 1 || !mc::flip()) return; int outer = current; current = how; --budget; ++depth; MC_OP(" in " << where << ":");
    switch (mc::choose(4)) { case 0: { D c[] = {a.sim - 1, a.sim, a.sim + (sch->next - a.sim) / 2, sch->next, sch->next + 1}; setSim(c[mc::choose(5)], how); break; } case 1: offsets(0, val()); break; case 2: offsets(1, val()); break; default: offsets(2, val()); }
    --depth; current = outer;
  }
  void tick(D dt) { // what the scheduler does to execute an event
    sch->next = a.sim + dt; MC_OP("time advances to " << sch->next); em->Emit(EM::SMP_PreSimTimeChangeId); setSim(sch->next, 2); D t = a.sim; em->Emit(EM::SMP_PostSimTimeChangeId); MC_CHECK(a.sim == t, "simulation time", "simulation time changes in PostSimTimeChange"); sch->next = 1000000000000000;
  }
  void op() {
    switch (mc::choose(8)) {
    case 0: mc::context("epoch"); offsets(0, val()); break; case 1: mc::context("start"); offsets(1, val()); break; case 2: mc::context("mission"); offsets(2, val()); break;
    case 3: { mc::context("outside"); D c[] = {a.sim - 1, a.sim, a.sim + 1, 0, INT64_MAX, INT64_MIN}; setSim(c[mc::choose(6)], 0); break; }
    case 4: { mc::context("tick"); const D dt[] = {0, 1, 1000000000}; tick(dt[mc::choose(3)]); break; }
    case 5: { mc::context("store"); MC_OP("Store"); MemWriter w; tk->Store(&w); data = w.data; stored = true; sa = a; break; }
    case 7: { if (!stored) return; mc::context("truncated restore"); std::string part = data.substr(0, static_cast<size_t>(mc::choose(static_cast<int>(data.size())))); MC_OP("Restore from the first " << part.size() << " of " << data.size() << " bytes"); MemReader r(part); bool raised = false; try { tk->Restore(&r); } catch (const Smp::Exception &) { raised = true; } MC_CHECK(raised, "truncated", "Restore from a truncated storage does not raise"); break; }
    default: { if (!stored) return; mc::context("restore"); MC_OP("Restore"); MemReader r(data); tk->Restore(&r); MC_CHECK(r.pos == data.size(), "bytes", "Restore reads " << r.pos << " of " << data.size() << " bytes"); a = sa; break; }
    }
    check("after the operation");
  }
  std::uint64_t hash() { std::uint64_t h = mc::mix(static_cast<std::uint64_t>(a.sim), mc::mix(static_cast<std::uint64_t>(a.off), static_cast<std::uint64_t>(a.start))); return mc::mix(h, mc::hashStr(stored ? data : "-")); }
};
}
MC_SCENARIO(history) {
  auto base = mc::liveBlocks();
  { World w(static_cast<int>(mc::param("values", 4))); int depth = static_cast<int>(mc::param("depth", 3)); w.budget = static_cast<int>(mc::param("inside", 1)); for (int d = 0; d < depth; ++d) { w.op(); mc::outcome(w.hash()); if (mc::visit(mc::mix(w.hash(), static_cast<std::uint64_t>(d * 8 + w.budget)))) break; } }
  MC_CHECK(mc::liveBlocks() == base, "leak", mc::liveBlocks() - base << " blocks remain");
}
MC_SCENARIO(zulu) { // Zulu time is the system clock on the time scale of DateTime
  World w(1); using namespace std::chrono; const D Y2000 = 946728000LL * 1000000000LL; auto now = [] { return duration_cast<nanoseconds>(system_clock::now().time_since_epoch()).count(); };
  D lo = now() - Y2000, z = w.tk->GetZuluTime(), hi = now() - Y2000; w.offsets(0, 5); w.tick(1000); D z2 = w.tk->GetZuluTime(), hi2 = now() - Y2000; if (hi2 < lo) return; // the clock was set back meanwhile
  MC_CHECK(lo <= z && z <= hi, "zulu", "Zulu time " << z << " is not between " << lo << " and " << hi); MC_CHECK(hi <= z2 && z2 <= hi2, "zulu", "Zulu time depends on the other times");
}
