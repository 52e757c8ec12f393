// C35: the event manager against a plain map of names, ids and subscription lists; callbacks act on it while it emits.
#include "mc.h"
#include "memstore.h"
#include "simenv.h"
#include <Smp/Services/EntryPointAlreadySubscribed.h>
#include <Smp/Services/EntryPointNotSubscribed.h>
#include <Smp/Services/InvalidEventId.h>
#include <Smp/Services/InvalidEventName.h>
#include <map>
#include <memory>
#include <stdexcept>
namespace {
using EM = Smp::Services::IEventManager; using Id = Smp::Services::EventId;
const std::pair<const char *, Id> PRE[] = {{EM::SMP_LeaveConnecting, 1}, {EM::SMP_EnterInitialising, 2}, {EM::SMP_LeaveInitialising, 3}, {EM::SMP_EnterStandby, 4}, {EM::SMP_LeaveStandby, 5}, {EM::SMP_EnterExecuting, 6}, {EM::SMP_LeaveExecuting, 7}, {EM::SMP_EnterStoring, 8}, {EM::SMP_LeaveStoring, 9}, {EM::SMP_EnterRestoring, 10}, {EM::SMP_LeaveRestoring, 11}, {EM::SMP_EnterExiting, 12}, {EM::SMP_EnterAborting, 13}, {EM::SMP_EpochTimeChanged, 14}, {EM::SMP_MissionTimeChanged, 15}, {EM::SMP_EnterReconnecting, 16}, {EM::SMP_LeaveReconnecting, 17}, {EM::SMP_PreSimTimeChange, 18}, {EM::SMP_PostSimTimeChange, 19}};
struct World {
  static constexpr int NEP = 3;
  Xsmp::Simulator sim{"sim", ""}; StubLogger *log = nullptr; Xsmp::Services::XsmpEventManager *em; EpModel *m; std::unique_ptr<Xsmp::EntryPoint> ep[NEP];
  std::map<std::string, Id> names; std::map<Id, std::vector<int>> subs; struct Frame { Id id; std::vector<int> list; size_t pos = 0; }; std::vector<Frame> frames; int budget = 0; bool thrown = false; int nested = 0;
  bool stored = false; std::string data; std::map<std::string, Id> snames; std::map<Id, std::vector<int>> ssubs;
  explicit World(bool logger) {
    if (logger) log = addService<StubLogger>(sim, "Logger"); addService<Xsmp::Services::XsmpResolver>(sim, "Resolver"); em = addService<Xsmp::Services::XsmpEventManager>(sim, "EM"); m = new EpModel("m", "", &sim, &sim); sim.AddModel(m);
    for (int i = 0; i < NEP; ++i) ep[i] = std::make_unique<Xsmp::EntryPoint>(("e" + std::to_string(i)).c_str(), "", m, [this, i] { called(i); });
    for (auto &[n, i] : PRE) names[n] = i;
  }
  void called(int i) {
    MC_CHECK(!frames.empty(), "spurious", "entry point e" << i << " is executed by no emission"); Frame &f = frames.back(); MC_OP("  e" << i << " executed");
    MC_CHECK(f.pos < f.list.size() && f.list[f.pos] == i, "delivery", "emission of " << f.id << " executes e" << i << ", expected " << (f.pos < f.list.size() ? "e" + std::to_string(f.list[f.pos]) : std::string("nothing more"))); ++f.pos;
    if (budget > 0 && frames.size() < 3 && mc::choose(2)) { --budget; ++nested; op(); }
    if (thrown) { thrown = false; throw std::runtime_error("callback"); }
  }
  std::vector<Id> ids() { std::vector<Id> r = {6}; for (const char *n : {"a", "b"}) if (auto it = names.find(n); it != names.end()) r.push_back(it->second); return r; }
  bool known(Id i) { for (auto &[n, x] : names) if (x == i) return true; return false; }
  Id pickId() { auto v = ids(); Id top = 0; for (auto &[n, x] : names) top = std::max(top, x); v.push_back(top + 1); int k = mc::choose(static_cast<int>(v.size()) + 2); return k < static_cast<int>(v.size()) ? v[static_cast<size_t>(k)] : k == static_cast<int>(v.size()) ? 0 : -1; }
  void query(const char *n) {
    MC_OP("QueryEventId(" << (n ? n : "null") << ")");
    Id id = 0; try { id = em->QueryEventId(n); } catch (const Smp::Services::InvalidEventName &) { MC_CHECK(!n || !*n, "query refused", "name '" << n << "' refused"); return; }
    MC_CHECK(n && *n, "query accepted", "an empty or null name is accepted");
    if (auto it = names.find(n); it != names.end()) MC_CHECK(it->second == id, "same id", "'" << n << "' is now " << id << ", was " << it->second); else { MC_CHECK(!known(id), "distinct id", "'" << n << "' gets id " << id << " of another event"); names[n] = id; }
  }
  void emit(Id id) {
    bool sync = nested % 2 == 0; MC_OP("Emit(" << id << ")");
    if (!known(id)) { try { em->Emit(id, sync); } catch (const Smp::Services::InvalidEventId &) { return; } mc::fail("emit unknown", "Emit of unknown id " + std::to_string(id) + " is accepted"); return; }
    frames.push_back({id, subs[id]}); size_t depth = frames.size();
    try { em->Emit(id, sync); } catch (const Smp::Exception &e) { mc::fail("emit raises", std::string("Emit raises ") + e.GetName()); } catch (const std::exception &e) { mc::fail("emit raises", "Emit raises a foreign exception"); }
    MC_CHECK(frames.size() == depth, "frames", "emissions interleave"); Frame f = frames.back(); frames.pop_back(); MC_CHECK(f.pos == f.list.size(), "missed", "emission of " << id << " executed " << f.pos << " of " << f.list.size() << " entry points");
  }
  void op() {
    switch (mc::choose(9)) {
    case 0: { const char *n[] = {"a", "b", "SMP_EnterExecuting", "", nullptr}; int k = mc::choose(5); mc::context("query"); query(n[k]); break; }
    case 1: case 2: { Id id = pickId(); int e = mc::choose(NEP); mc::context("subscribe"); MC_OP("Subscribe(" << id << ", e" << e << ")"); auto &l = subs[id]; bool in = std::find(l.begin(), l.end(), e) != l.end(), k = known(id); std::string ex; try { em->Subscribe(id, ep[e].get()); } catch (const Smp::Exception &x) { ex = x.GetName(); } const char *want = !k ? "InvalidEventId" : in ? "EntryPointAlreadySubscribed" : ""; MC_CHECK(ex == want, "subscribe", "Subscribe(" << id << ", e" << e << "): '" << ex << "', expected '" << want << "'"); if (ex.empty()) l.push_back(e); break; }
    case 3: { Id id = pickId(); int e = mc::choose(NEP); mc::context("unsubscribe"); MC_OP("Unsubscribe(" << id << ", e" << e << ")"); auto &l = subs[id]; auto it = std::find(l.begin(), l.end(), e); bool k = known(id); std::string ex; try { em->Unsubscribe(id, ep[e].get()); } catch (const Smp::Exception &x) { ex = x.GetName(); } const char *want = !k ? "InvalidEventId" : it == l.end() ? "EntryPointNotSubscribed" : ""; MC_CHECK(ex == want, "unsubscribe", "Unsubscribe(" << id << ", e" << e << "): '" << ex << "', expected '" << want << "'"); if (ex.empty()) l.erase(it); break; }
    case 4: { Id id = pickId(); mc::context("emit"); emit(id); break; }
    case 5: if (frames.empty()) return; mc::context("throw"); MC_OP("callback raises"); thrown = true; break;
    case 6: if (!frames.empty()) return; { mc::context("store"); MC_OP("Store"); MemWriter w; em->Store(&w); data = w.data; stored = true; snames = names; ssubs = subs; } break;
    case 7: if (!frames.empty() || !stored) return; { mc::context("truncated restore"); std::string part = data.substr(0, static_cast<size_t>(mc::choose(2)) * data.size() * 2 / 3); MC_OP("Restore from the first " << part.size() << " of " << data.size() << " bytes"); MemReader r(part); bool raised = false; try { em->Restore(&r); } catch (const Smp::Exception &) { raised = true; } MC_CHECK(raised, "truncated", "Restore from a truncated storage does not raise"); } break;
    default: if (!frames.empty() || !stored) return; { mc::context("restore"); MC_OP("Restore"); MemReader r(data); em->Restore(&r); MC_CHECK(r.pos == data.size(), "bytes", "Restore reads " << r.pos << " of " << data.size() << " bytes"); names = snames; subs = ssubs; } break;
    }
  }
  std::uint64_t hash() { std::uint64_t h = 7; for (auto &[n, i] : names) h = mc::mix(h, mc::mix(mc::hashStr(n), static_cast<std::uint64_t>(i))); for (auto &[i, l] : subs) { if (l.empty()) continue; h = mc::mix(h, static_cast<std::uint64_t>(i + 100)); for (int e : l) h = mc::mix(h, static_cast<std::uint64_t>(e)); } h = mc::mix(h, mc::hashStr(stored ? data : "-")); return h; }
};
}
MC_SCENARIO(history) {
  auto w = std::make_unique<World>(mc::choose(2)); const int depth = static_cast<int>(mc::param("depth", 4)); w->budget = static_cast<int>(mc::param("inside", 1));
  if (int pre = mc::choose(3); pre) { w->query("a"); const int L[3][3] = {{}, {0, 1, 2}, {2, 0, -1}}; for (int e : L[pre]) if (e >= 0) { w->em->Subscribe(w->names["a"], w->ep[e].get()); w->subs[w->names["a"]].push_back(e); } } // start with subscriptions
  for (int d = 0; d < depth; ++d) { w->op(); if (mc::visit(mc::mix(w->hash(), static_cast<std::uint64_t>(d * 8 + w->budget * 64)))) break; }
  for (Id id : w->ids()) { w->budget = 0; w->emit(id); }
}
/// predefined events keep their ids whatever is queried before, and every transition of names
MC_SCENARIO(names) {
  auto w = std::make_unique<World>(true); const char *n[] = {"x", "X", "x ", "SMP_", "smp_enterstandby", "SMP_EnterStandby2", "19", "\xc3\xa9"}; int k = mc::choose(8), p = mc::choose(19), j = mc::choose(8); mc::context("names"); w->query(n[k]); w->query(PRE[p].first); w->query(n[j]); for (auto &x : PRE) w->query(x.first); for (auto *x : n) w->query(x); for (auto *x : n) w->query(x);
  std::string big(static_cast<size_t>(1) << (4 + k), 'n'); w->query(big.c_str()); w->query(big.c_str()); for (int i = 0; i < 40; ++i) w->query(("many" + std::to_string(i)).c_str()); for (int i = 0; i < 40; ++i) { auto s = "many" + std::to_string(i); w->query(s.c_str()); Id id = w->names[s]; w->em->Subscribe(id, w->ep[i % 3].get()); w->subs[id].push_back(i % 3); } for (int i = 0; i < 40; ++i) w->emit(w->names["many" + std::to_string(i)]);
}
