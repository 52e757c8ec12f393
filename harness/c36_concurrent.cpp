// C36: the event manager used from several threads: every interleaving must be explained by some order of the calls.
#include "mc.h"
#include "rt.h"
#include "simenv.h"
#include <map>
#include <memory>
#include <optional>
#include <thread>
namespace {
using Id = Smp::Services::EventId;
struct Call { int kind; std::string name; Id id; int ep; long from, to; std::string ex; Id rid; std::vector<int> ran; }; // kind 0 query 1 subscribe 2 unsubscribe 3 emit
struct State { std::map<std::string, Id> names; std::map<Id, std::vector<int>> subs; };
struct World {
  Xsmp::Simulator sim{"sim", ""}; StubLogger *log; Xsmp::Services::XsmpEventManager *em; EpModel *m; std::unique_ptr<Xsmp::EntryPoint> ep[3];
  std::vector<Call> calls; long clock = 0; std::vector<size_t> stack[8]; Id shared = 0; int unsubSelf = 0; State init;
  World() {
    log = addService<StubLogger>(sim, "Logger"); log->counting = false; em = addService<Xsmp::Services::XsmpEventManager>(sim, "EM"); m = new EpModel("m", "", &sim, &sim); sim.AddModel(m);
    for (int i = 0; i < 3; ++i) ep[i] = std::make_unique<Xsmp::EntryPoint>(("e" + std::to_string(i)).c_str(), "", m, [this, i] { ran(i); });
    init.names["SMP_EnterExecuting"] = 6;
  }
  size_t begin(Call c) { rt::Quiet q; c.from = ++clock; c.to = 0; c.rid = 0; calls.push_back(c); return calls.size() - 1; }
  void end(size_t k, const std::string &ex, Id rid) { rt::Quiet q; ++clock; if (!calls[k].to) calls[k].to = clock; calls[k].ex = ex; calls[k].rid = rid; }
  void ran(int i) {
    { rt::Quiet q; auto &s = stack[rt::tid()]; MC_CHECK(!s.empty(), "spurious", "e" << i << " executed by a thread that emits nothing"); Call &c = calls[s.back()]; ++clock; if (!c.to) c.to = clock; c.ran.push_back(i); }
    rt::point("in callback");
    if (i == 2) unsubscribe(6, 2);
  }
  Id query(const char *n) { auto k = begin({0, n, 0, 0, 0, 0, "", 0, {}}); Id id = 0; std::string ex; try { id = em->QueryEventId(n); } catch (const Smp::Exception &e) { rt::Quiet q; ex = e.GetName(); } end(k, ex, id); if (id) { rt::Quiet q; shared = id; } return id; }
  void subscribe(Id id, int e) { auto k = begin({1, "", id, e, 0, 0, "", 0, {}}); std::string ex; try { em->Subscribe(id, ep[e].get()); } catch (const Smp::Exception &x) { rt::Quiet q; ex = x.GetName(); } end(k, ex, 0); }
  void unsubscribe(Id id, int e) { auto k = begin({2, "", id, e, 0, 0, "", 0, {}}); std::string ex; try { em->Unsubscribe(id, ep[e].get()); } catch (const Smp::Exception &x) { rt::Quiet q; ex = x.GetName(); } end(k, ex, 0); }
  void emit(Id id) { auto k = begin({3, "", id, 0, 0, 0, "", 0, {}}); { rt::Quiet q; stack[rt::tid()].push_back(k); } std::string ex; try { em->Emit(id); } catch (const Smp::Exception &x) { rt::Quiet q; ex = x.GetName(); } { rt::Quiet q; stack[rt::tid()].pop_back(); } end(k, ex, 0); }
  // is there an order of the calls, respecting real time, that a sequential event manager could have followed?
  bool apply(State &s, const Call &c) const {
    auto known = [&](Id i) { for (auto &[n, x] : s.names) if (x == i) return true; return false; };
    if (c.kind == 0) { if (!c.ex.empty()) return false; auto it = s.names.find(c.name); if (it != s.names.end()) return it->second == c.rid; if (known(c.rid)) return false; s.names[c.name] = c.rid; return true; }
    if (!known(c.id)) return c.ex == "InvalidEventId" && c.ran.empty();
    auto &l = s.subs[c.id]; auto it = std::find(l.begin(), l.end(), c.ep);
    if (c.kind == 1) { if (it != l.end()) return c.ex == "EntryPointAlreadySubscribed"; if (!c.ex.empty()) return false; l.push_back(c.ep); return true; }
    if (c.kind == 2) { if (it == l.end()) return c.ex == "EntryPointNotSubscribed"; if (!c.ex.empty()) return false; l.erase(it); return true; }
    return c.ex.empty() && c.ran == l;
  }
  bool explain(const State &s, unsigned done) const {
    if (done == (1u << calls.size()) - 1) return true;
    for (size_t i = 0; i < calls.size(); ++i) if (!(done >> i & 1)) { bool first = true; for (size_t j = 0; j < calls.size(); ++j) if (!(done >> j & 1) && j != i && calls[j].to < calls[i].from) first = false; if (!first) continue; State t = s; if (apply(t, calls[i]) && explain(t, done | 1u << i)) return true; }
    return false;
  }
  std::string show() const { std::string r; static const char *const N[] = {"QueryEventId", "Subscribe", "Unsubscribe", "Emit"}; for (auto &c : calls) { r += std::string("\n  [") + std::to_string(c.from) + "," + std::to_string(c.to) + "] " + N[c.kind] + "(" + c.name + (c.kind ? std::to_string(c.id) : "") + (c.kind == 1 || c.kind == 2 ? ",e" + std::to_string(c.ep) : "") + ")"; if (c.kind == 0) r += " = " + std::to_string(c.rid); if (!c.ex.empty()) r += " raises " + c.ex; for (int e : c.ran) r += " e" + std::to_string(e); } return r; }
};
World *W;
const char *const NAME[] = {"query a", "query a then subscribe", "emit", "subscribe e0", "unsubscribe e0", "subscribe e1", "query b", "query a then emit", "use the id of another thread", "subscribe an id that may not exist yet", "unsubscribe e2", "query a predefined name", "query b then subscribe"};
constexpr int NOPS = 13;
void run(int op) {
  MC_OP("thread " << rt::tid() << ": " << NAME[op]); mc::context(NAME[op]);
  switch (op) {
  case 0: W->query("a"); break; case 6: W->query("b"); break; case 11: { Id i = W->query("SMP_EnterExecuting"); rt::Quiet q; MC_CHECK(i == 6, "predefined", "predefined id is " << i); break; }
  case 1: { Id i = W->query("a"); W->subscribe(i, 0); break; } case 12: { Id i = W->query("b"); W->subscribe(i, 1); break; }
  case 7: { Id i = W->query("a"); W->emit(i); break; }
  case 2: W->emit(6); break; case 3: W->subscribe(6, 0); break; case 4: W->unsubscribe(6, 0); break; case 5: W->subscribe(6, 1); break; case 10: W->unsubscribe(6, 2); break;
  case 8: { Id i; { rt::Quiet q; i = W->shared; } if (i) { W->subscribe(i, 1); } else W->emit(6); break; }
  default: W->subscribe(20, 0); break;
  }
}
void program(int threads, int len, int nops) {
  std::unique_ptr<World> w; std::vector<std::vector<int>> prog;
  { rt::Quiet q; w = std::make_unique<World>(); W = w.get(); const int L[4][3] = {{-1}, {0, -1}, {1, 2, -1}, {2, 0, 1}}; int p = mc::choose(4); for (int e : L[p]) { if (e < 0) break; w->em->Subscribe(6, w->ep[e].get()); w->init.subs[6].push_back(e); } MC_OP("subscribed at first: " << w->init.subs[6].size());
    for (int t = 0; t < threads; ++t) { prog.emplace_back(); for (int i = 0; i < len; ++i) { int lo = i == 0 && t > 0 ? prog[static_cast<size_t>(t - 1)][0] : 0; prog.back().push_back(lo + mc::choose(nops - lo)); } } }
  { std::vector<std::thread> th; for (auto &p : prog) th.emplace_back([&p] { for (int op : p) run(op); }); for (auto &t : th) t.join(); }
  rt::Quiet q; bool ok = w->explain(w->init, 0); std::string what; for (auto &p : prog) for (int op : p) what += std::string(what.empty() ? "" : " | ") + NAME[op]; MC_CHECK(ok, "linearizability", "no order of the calls explains their results:" << w->show()); std::uint64_t h = 1; for (auto &c : w->calls) h = mc::mix(h, mc::hashStr(c.ex) + static_cast<std::uint64_t>(c.rid) + c.ran.size()); mc::outcome(h);
  // and afterwards
  if (w->init.names.size() && ok) { w.reset(); }
}
}
MC_SCENARIO(two_threads) { program(2, static_cast<int>(mc::param("len2", 2)), static_cast<int>(mc::param("ops2", NOPS))); }
MC_SCENARIO(three_threads) { if (mc::param("ops3", NOPS) > 0) program(3, 1, static_cast<int>(mc::param("ops3", NOPS))); }
