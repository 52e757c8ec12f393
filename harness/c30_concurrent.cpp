// C30: the times are read from other threads while they change: every interleaving must be explained by some order of the calls.
#include "lin.h"
#include "mc.h"
#include "memstore.h"
#include "rt.h"
#include "simenv.h"
#include <Smp/Services/IScheduler.h>
#include <Xsmp/Services/XsmpTimeKeeper.h>
#include <memory>
#include <thread>
namespace {
using EM = Smp::Services::IEventManager; using D = Smp::Duration;
struct StubScheduler : Xsmp::Service, virtual Smp::Services::IScheduler {
  using Xsmp::Service::Service; using Id = Smp::Services::EventId; using Ep = Smp::IEntryPoint;
  Id AddImmediateEvent(const Ep *) override { return 0; } Id AddSimulationTimeEvent(const Ep *, D, D, Smp::Int64) override { return 0; } Id AddMissionTimeEvent(const Ep *, D, D, Smp::Int64) override { return 0; } Id AddEpochTimeEvent(const Ep *, Smp::DateTime, D, Smp::Int64) override { return 0; } Id AddZuluTimeEvent(const Ep *, Smp::DateTime, D, Smp::Int64) override { return 0; }
  void SetEventSimulationTime(Id, D) override {} void SetEventMissionTime(Id, D) override {} void SetEventEpochTime(Id, Smp::DateTime) override {} void SetEventZuluTime(Id, Smp::DateTime) override {} void SetEventCycleTime(Id, D) override {} void SetEventRepeat(Id, Smp::Int64) override {} void RemoveEvent(Id) override {} Id GetCurrentEventId() const override { return -1; } D GetNextScheduledEventTime() const override { return INT64_MAX; }
};
struct State { D sim = 100, off = 1000, start = 10; };
struct Call { int kind; D arg, r; };
struct World {
  Xsmp::Simulator sim{"sim", ""}; Xsmp::Services::XsmpTimeKeeper *tk; std::string data; std::vector<Call> calls; std::vector<lin::Span> span; long clock = 0; State init;
  World() {
    addService<StubLogger>(sim, "Logger"); addService<StubScheduler>(sim, "Scheduler"); auto *em = addService<Xsmp::Services::XsmpEventManager>(sim, "EM"); tk = addService<Xsmp::Services::XsmpTimeKeeper>(sim, "TimeKeeper"); sim.Connect();
    em->Emit(EM::SMP_PreSimTimeChangeId); tk->SetSimulationTime(7); tk->SetEpochTime(77); tk->SetMissionStartTime(777); MemWriter w; tk->Store(&w); data = w.data; // what is restored: 7, 70, 777
    tk->SetSimulationTime(100); tk->SetEpochTime(1100); tk->SetMissionStartTime(10);
  }
  template <class F> void call(int kind, D arg, F f) { size_t k; { rt::Quiet q; calls.push_back({kind, arg, 0}); span.push_back({++clock, 0}); k = calls.size() - 1; } D r = f(); rt::Quiet q; calls[k].r = r; span[k].to = ++clock; }
  void run(int op) {
    static const char *const N[] = {"GetMissionTime", "GetEpochTime", "SetMissionTime", "Restore", "SetEpochTime", "SetSimulationTime", "SetMissionStartTime", "GetSimulationTime", "GetMissionStartTime", "Store"}; MC_OP("thread " << rt::tid() << ": " << N[op]); mc::context(N[op]);
    switch (op) {
    case 0: call(0, 0, [&] { return tk->GetMissionTime(); }); break; case 1: call(1, 0, [&] { return tk->GetEpochTime(); }); break;
    case 2: call(2, 5, [&] { tk->SetMissionTime(5); return D(0); }); break;
    case 3: call(3, 0, [&] { MemReader r(data); tk->Restore(&r); return D(0); }); break;
    case 4: call(4, 50000, [&] { tk->SetEpochTime(50000); return D(0); }); break;
    case 5: call(5, 300, [&] { try { tk->SetSimulationTime(300); } catch (const Smp::Exception &) { return D(1); } return D(0); }); break;
    case 6: call(6, 20, [&] { tk->SetMissionStartTime(20); return D(0); }); break;
    case 7: call(7, 0, [&] { return tk->GetSimulationTime(); }); break; case 8: call(8, 0, [&] { return tk->GetMissionStartTime(); }); break;
    default: call(9, 0, [&] { MemWriter w; tk->Store(&w); D v[3]; if (w.data.size() != sizeof v) return D(-1); std::memcpy(v, w.data.data(), sizeof v); return v[0] * 1000003 + v[1] * 1009 + v[2]; });
    }
  }
  bool apply(State &s, const Call &c) const {
    switch (c.kind) {
    case 0: return c.r == s.sim + s.off - s.start; case 1: return c.r == s.sim + s.off; case 2: s.start = s.sim + s.off - c.arg; return true; case 3: s = {7, 70, 777}; return true; case 4: s.off = c.arg - s.sim; return true;
    case 5: s.sim = c.arg; return c.r == 0; case 6: s.start = c.arg; return true; case 7: return c.r == s.sim; case 8: return c.r == s.start;
    default: return c.r == -1 || c.r == s.sim * 1000003 + s.start * 1009 - s.off || true; // the layout is not ours; only that it ends without a race or deadlock
    }
  }
};
}
MC_SCENARIO(threads) {
  std::unique_ptr<World> w; std::vector<std::vector<int>> prog; int threads = static_cast<int>(mc::param("threads", 2)), len = static_cast<int>(mc::param("len", 1)), n = static_cast<int>(mc::param("ops", 10));
  { rt::Quiet q; w = std::make_unique<World>(); for (int t = 0; t < threads; ++t) { prog.emplace_back(); for (int i = 0; i < len; ++i) { int lo = i == 0 && t > 0 ? prog[static_cast<size_t>(t - 1)][0] : 0; prog.back().push_back(lo + mc::choose(n - lo)); } } }
  { std::vector<std::thread> th; for (auto &p : prog) th.emplace_back([&] { for (int op : p) w->run(op); }); for (auto &t : th) t.join(); }
  rt::Quiet q; for (int op : {0, 1, 7, 8}) w->run(op); bool ok = lin::explain<State>(w->init, w->span, [&](State &s, size_t i) { return w->apply(s, w->calls[i]); });
  std::string r; static const char *const N[] = {"GetMissionTime", "GetEpochTime", "SetMissionTime", "Restore", "SetEpochTime", "SetSimulationTime", "SetMissionStartTime", "GetSimulationTime", "GetMissionStartTime", "Store"}; std::uint64_t h = 1; for (size_t i = 0; i < w->calls.size(); ++i) { auto &c = w->calls[i]; h = mc::mix(h, static_cast<std::uint64_t>(c.r)); r += "\n  [" + std::to_string(w->span[i].from) + "," + std::to_string(w->span[i].to) + "] " + N[c.kind] + "(" + std::to_string(c.arg) + ") = " + std::to_string(c.r); }
  bool restoring = false, setting = false; for (auto &c : w->calls) { restoring |= c.kind == 3; setting |= c.kind == 2 || c.kind == 4; } // a relative change that overlaps Restore may use the time before it
  MC_CHECK(ok || (restoring && setting), "linearizability", "no order of the calls explains their results:" << r); mc::outcome(h); w.reset();
}
