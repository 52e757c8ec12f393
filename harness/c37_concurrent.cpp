// C37: the link registry used from several threads: every interleaving must be explained by some order of the calls.
#include "lin.h"
#include "mc.h"
#include "rt.h"
#include "simenv.h"
#include <Smp/ILinkingComponent.h>
#include <Xsmp/Object.h>
#include <Xsmp/Services/XsmpLinkRegistry.h>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <thread>
namespace {
void asked(int i);
struct Linking : Xsmp::Model { int index; Linking(const char *n, int i, Smp::ISimulator *s) : Xsmp::Model(n, "", nullptr, s), index(i) {} void RemoveLinks(const Smp::IComponent *) override { asked(index); } };
struct Plain : Xsmp::Object, virtual Smp::IComponent { using Xsmp::Object::Object; Smp::Uuid u{};
  Smp::ComponentStateKind GetState() const override { return Smp::ComponentStateKind::CSK_Created; } void Publish(Smp::IPublication *) override {} void Configure(Smp::Services::ILogger *, Smp::Services::ILinkRegistry *) override {} void Connect(Smp::ISimulator *) override {} void Disconnect() override {}
  Smp::IField *GetField(Smp::String8) const override { return nullptr; } const Smp::FieldCollection *GetFields() const override { return nullptr; } const Smp::Uuid &GetUuid() const override { return u; } };
struct Call { int kind, s; long r; std::multiset<int> who; }; // 0 add 1 remove 2 count 3 can remove 4 remove links 5 sources
struct State { unsigned n[3] = {}; };
struct World {
  Xsmp::Simulator sim{"sim", ""}; Xsmp::Services::XsmpLinkRegistry *reg; std::unique_ptr<Linking> a, b, t; std::unique_ptr<Plain> p; Smp::IComponent *src[3]; std::vector<Call> calls; std::vector<lin::Span> span; long clock = 0; std::vector<size_t> stack[8]; State init;
  World() { reg = new Xsmp::Services::XsmpLinkRegistry("LinkRegistry", "", &sim, &sim); sim.AddService(reg); a = std::make_unique<Linking>("a", 0, &sim); b = std::make_unique<Linking>("a", 1, &sim); t = std::make_unique<Linking>("t", 9, &sim); p = std::make_unique<Plain>("p", ""); src[0] = a.get(); src[1] = b.get(); src[2] = p.get(); }
  size_t begin(int kind, int s) { rt::Quiet q; calls.push_back({kind, s, 0, {}}); span.push_back({++clock, 0}); return calls.size() - 1; }
  void end(size_t k, long r) { rt::Quiet q; ++clock; if (!span[k].to) span[k].to = clock; calls[k].r = r; }
  void add(int s) { auto k = begin(0, s); long r = 0; try { reg->AddLink(src[s], t.get()); } catch (const Smp::Exception &) { r = 1; } end(k, r); }
  bool remove(int s) { auto k = begin(1, s); bool r = reg->RemoveLink(src[s], t.get()); end(k, r); return r; }
  void count(int s) { auto k = begin(2, s); end(k, reg->GetLinkCount(src[s], t.get())); }
  void can() { auto k = begin(3, 0); end(k, reg->CanRemove(t.get())); }
  void removeLinks() { auto k = begin(4, 0); { rt::Quiet q; stack[rt::tid()].push_back(k); } reg->RemoveLinks(t.get()); { rt::Quiet q; stack[rt::tid()].pop_back(); } end(k, 0); }
  void sources() { auto k = begin(5, 0); const auto *c = reg->GetLinkSources(t.get()); end(k, c ? 1 : 0); }
  bool apply(State &s, const Call &c) const {
    switch (c.kind) {
    case 0: ++s.n[c.s]; return c.r == 0; case 1: { bool r = s.n[c.s] > 0; if (r) --s.n[c.s]; return c.r == r; } case 2: return c.r == static_cast<long>(s.n[c.s]); case 3: return c.r == (s.n[2] == 0);
    case 4: { std::multiset<int> w; for (int i = 0; i < 2; ++i) if (s.n[i]) w.insert(i); return w == c.who; } default: return c.r == 1; }
  }
};
World *W;
void asked(int i) { { rt::Quiet q; auto &s = W->stack[rt::tid()]; MC_CHECK(!s.empty(), "unprompted", "source asked without RemoveLinks"); size_t k = s.back(); ++W->clock; if (!W->span[k].to) W->span[k].to = W->clock; W->calls[k].who.insert(i); } rt::point("in RemoveLinks of the source"); while (W->remove(i)) {} }
const char *const NAME[] = {"add a", "remove a", "add b", "remove b", "count a", "can remove", "remove links", "sources", "add p", "remove p", "count b"};
constexpr int NOPS = 11;
void run(int op) {
  MC_OP("thread " << rt::tid() << ": " << NAME[op]); mc::context(NAME[op]);
  switch (op) { case 0: W->add(0); break; case 1: W->remove(0); break; case 2: W->add(1); break; case 3: W->remove(1); break; case 4: W->count(0); break; case 5: W->can(); break; case 6: W->removeLinks(); break; case 7: W->sources(); break; case 8: W->add(2); break; case 9: W->remove(2); break; default: W->count(1); }
}
void program(int threads, int len, int nops) {
  std::unique_ptr<World> w; std::vector<std::vector<int>> prog;
  { rt::Quiet q; w = std::make_unique<World>(); W = w.get(); int p = mc::choose(5); for (int i = 0; i < 2; ++i) for (int k = 0; k < (p >> i & 1); ++k) { w->reg->AddLink(w->src[i], w->t.get()); ++w->init.n[i]; } if (p == 4) { w->reg->AddLink(w->src[2], w->t.get()); ++w->init.n[2]; } MC_OP("links at first: a " << w->init.n[0] << ", b " << w->init.n[1] << ", p " << w->init.n[2]);
    for (int t = 0; t < threads; ++t) { prog.emplace_back(); for (int i = 0; i < len; ++i) { int lo = i == 0 && t > 0 ? prog[static_cast<size_t>(t - 1)][0] : 0; prog.back().push_back(lo + mc::choose(nops - lo)); } } }
  { std::vector<std::thread> th; for (auto &p : prog) th.emplace_back([&p] { for (int op : p) run(op); }); for (auto &t : th) t.join(); }
  rt::Quiet q;
  // what can be read at the end belongs to the history, too
  for (int i = 0; i < 3; ++i) W->count(i); W->can(); auto last = w->calls.size();
  bool ok = lin::explain<State>(w->init, w->span, [&](State &s, size_t i) { return w->apply(s, w->calls[i]); });
  static const char *const N[] = {"AddLink", "RemoveLink", "GetLinkCount", "CanRemove", "RemoveLinks", "GetLinkSources"};
  if (!ok) { std::string r; for (size_t i = 0; i < last; ++i) { auto &c = w->calls[i]; r += "\n  [" + std::to_string(w->span[i].from) + "," + std::to_string(w->span[i].to) + "] " + N[c.kind] + "(" + std::to_string(c.s) + ") = " + std::to_string(c.r); for (int x : c.who) r += " asks " + std::to_string(x); } mc::fail("linearizability", "no order of the calls explains their results:" + r); }
  const auto *c = w->reg->GetLinkSources(w->t.get()); std::multiset<const Smp::IComponent *> got, want; for (size_t i = 0; i < c->size(); ++i) got.insert(c->at(i)); for (size_t i = 0; i < 3; ++i) if (w->calls[last - 4 + i].r) want.insert(w->src[i]);
  MC_CHECK(got == want, "sources", "at the end the target has " << got.size() << " sources, " << want.size() << " have links");
  std::uint64_t h = 1; for (auto &x : w->calls) h = mc::mix(h, static_cast<std::uint64_t>(x.kind * 100 + x.r * 10) + x.who.size()); mc::outcome(h); w.reset();
}
}
MC_SCENARIO(two_threads) { program(2, static_cast<int>(mc::param("len2", 2)), static_cast<int>(mc::param("ops2", NOPS))); }
MC_SCENARIO(three_threads) { if (mc::param("ops3", NOPS) > 0) program(3, 1, static_cast<int>(mc::param("ops3", NOPS))); }
