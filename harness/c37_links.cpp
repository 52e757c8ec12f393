// C37: the link registry against a map of counts; sources act on it while they are asked to remove their links.
#include "mc.h"
#include "simenv.h"
#include <Smp/ILinkingComponent.h>
#include <Xsmp/Object.h>
#include <Xsmp/Services/XsmpLinkRegistry.h>
#include <algorithm>
#include <map>
#include <memory>
#include <stdexcept>
namespace {
struct World; World *W; void asked(int i, const Smp::IComponent *t);
struct Linking : Xsmp::Model { int index = 0; Linking(const char *n, int i, Smp::IComposite *p, Smp::ISimulator *s) : Xsmp::Model(n, "", p, s), index(i) {} void RemoveLinks(const Smp::IComponent *t) override { asked(index, t); } };
struct Plain : Xsmp::Object, virtual Smp::IComponent { // a component that cannot be asked
  using Xsmp::Object::Object; Smp::Uuid u{};
  Smp::ComponentStateKind GetState() const override { return Smp::ComponentStateKind::CSK_Created; } void Publish(Smp::IPublication *) override {} void Configure(Smp::Services::ILogger *, Smp::Services::ILinkRegistry *) override {} void Connect(Smp::ISimulator *) override {} void Disconnect() override {}
  Smp::IField *GetField(Smp::String8) const override { return nullptr; } const Smp::FieldCollection *GetFields() const override { return nullptr; } const Smp::Uuid &GetUuid() const override { return u; }
};
constexpr int MAXS = 5, NT = 2;
struct World {
  Xsmp::Simulator sim{"sim", ""}; Xsmp::Services::XsmpLinkRegistry *reg; std::unique_ptr<Linking> l[4], target[NT]; std::unique_ptr<Plain> plain; Smp::IComponent *src[MAXS]; int ns; int policy[4] = {}; std::map<std::pair<int, int>, unsigned> n; std::vector<std::pair<int, int>> log; int depth = 0; bool throwing = false; std::uint64_t hist = 0;
  explicit World(int sources) : ns(sources) {
    reg = new Xsmp::Services::XsmpLinkRegistry("LinkRegistry", "", &sim, &sim); sim.AddService(reg);
    static const char *const N[4] = {"a", "b", "a", "c"}; // two sources share a name
    for (int i = 0; i < 4; ++i) { l[i] = std::make_unique<Linking>(N[i], i, nullptr, &sim); src[i] = l[i].get(); }
    plain = std::make_unique<Plain>("p", ""); src[4] = plain.get(); for (int i = 0; i < NT; ++i) target[i] = std::make_unique<Linking>("t", 10 + i, nullptr, &sim);
    if (ns < MAXS) std::swap(src[ns - 1], src[4]); // the plain one is always the last
  }
  bool isPlain(int s) { return src[s] == plain.get(); }
  // a target of number 2 is source 0: components may link to each other
  const Smp::IComponent *tgt(int t) { return t < NT ? static_cast<const Smp::IComponent *>(target[t].get()) : src[0]; }
  static constexpr int nt() { return NT + 1; }
  void add(int s, int t) { MC_OP("AddLink(" << s << " -> " << t << ")"); try { reg->AddLink(src[s], tgt(t)); } catch (const Smp::Exception &e) { mc::fail("refused", std::string("AddLink raises ") + e.GetName()); } ++n[{s, t}]; }
  void remove(int s, int t) { unsigned &c = n[{s, t}]; MC_OP("RemoveLink(" << s << " -> " << t << "), " << c << " links"); bool r = reg->RemoveLink(src[s], tgt(t)); MC_CHECK(r == (c > 0), "remove result", "RemoveLink of " << c << " links returns " << r); if (c) --c; }
  void removeAll(int t) {
    std::vector<int> must; for (int s = 0; s < ns; ++s) if (n[{s, t}] && !isPlain(s)) must.push_back(s); auto before = n; size_t from = log.size();
    MC_OP("RemoveLinks(" << t << ")"); bool ex = false; ++depth; try { reg->RemoveLinks(tgt(t)); } catch (const std::runtime_error &) { ex = true; } --depth; MC_OP("RemoveLinks returns");
    if (ex) { MC_CHECK(throwing, "exception", "RemoveLinks raises"); throwing = false; return; }
    for (int s : must) { auto k = std::count(log.begin() + static_cast<long>(from), log.end(), std::pair<int, int>(s, t)); if (k == 0 && n[{s, t}] == 0) continue; // someone else dropped its links meanwhile
      MC_CHECK(k >= 1, "asked", "source " << s << " still has " << n[{s, t}] << " links and has not been asked to remove them"); if (depth == 0 && nested == 0) MC_CHECK(k == 1, "asked once", "source " << s << " asked " << k << " times"); }
  }
  int nested = 0;
  void onAsked(int i, const Smp::IComponent *target_) {
    int t = 0; while (t < nt() && tgt(t) != target_) ++t; int s = -1; for (int k = 0; k < ns; ++k) if (src[k] == l[i].get()) s = k; MC_OP("  source " << s << " asked to remove its links to " << t);
    MC_CHECK(s >= 0 && t < nt(), "wrong component", "a component that is no source is asked"); MC_CHECK(depth > 0, "unprompted", "asked without RemoveLinks"); log.push_back({s, t});
    switch (mc::choose(mc::param("callbacks", 6) >= 6 ? 6 : 2)) {
    case 0: while (n[{s, t}]) remove(s, t); break; // reports every removal
    case 1: break;                                  // says nothing
    case 2: ++nested; for (int k = 0; k < ns; ++k) while (n[{k, t}]) remove(k, t); break; // drops those of the others too
    case 3: if (nested < 2) { ++nested; while (n[{s, t}]) remove(s, t); add(s, (t + 1) % nt()); add((s + 1) % ns, t); } break; // links something else
    case 4: if (nested < 1) { ++nested; while (n[{s, t}]) remove(s, t); removeAll(t); } break; // asks again
    default: if (nested < 1) { ++nested; throwing = true; throw std::runtime_error("RemoveLinks"); } break;
    }
  }
  void check() {
    for (int t = 0; t < nt(); ++t) {
      bool can = true; std::vector<Smp::IComponent *> want;
      for (int s = 0; s < ns; ++s) { unsigned c = n[{s, t}]; auto k = reg->GetLinkCount(src[s], tgt(t)); MC_CHECK(k == c, "count", s << " -> " << t << ": GetLinkCount is " << k << ", expected " << c); if (c) { want.push_back(src[s]); if (isPlain(s)) can = false; } }
      for (int k = 0; k < NT; ++k) MC_CHECK(reg->GetLinkCount(target[k].get(), tgt(t)) == 0, "direction", "a link nobody added is counted");
      const auto *c = reg->GetLinkSources(tgt(t)); MC_CHECK(c, "sources", "no collection"); std::vector<Smp::IComponent *> got; for (size_t i = 0; i < c->size(); ++i) got.push_back(c->at(i)); std::vector<Smp::IComponent *> it; for (auto *x : *c) it.push_back(x);
      MC_CHECK(it == got, "sources", "iteration and indexes differ"); std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); MC_CHECK(want == got, "sources", "target " << t << " has " << got.size() << " sources, expected " << want.size());
      for (auto *w : want) { auto *x = c->at(w->GetName()); MC_CHECK(x && std::string(x->GetName()) == w->GetName(), "sources", "source '" << w->GetName() << "' not found by name"); }
      MC_CHECK(reg->CanRemove(tgt(t)) == can, "can remove", "CanRemove(" << t << ") is " << !can);
    }
  }
  void op() { int k = mc::choose(ns * nt() * 2 + nt()); if (k < nt()) { nested = 0; removeAll(k); return; } k -= nt(); int s = k / 2 / nt(), t = k / 2 % nt(); if (k % 2) add(s, t); else remove(s, t); }
  std::uint64_t hash(int d) { std::uint64_t h = static_cast<std::uint64_t>(d); for (auto &[k, v] : n) if (v) h = mc::mix(h, static_cast<std::uint64_t>(k.first * 10 + k.second) * 100 + v); for (int t = 0; t < nt(); ++t) for (auto *x : *reg->GetLinkSources(tgt(t))) for (int s = 0; s < ns; ++s) if (src[s] == x) h = mc::mix(h, static_cast<std::uint64_t>(s + 1)); return h; }
};
void asked(int i, const Smp::IComponent *t) { W->onAsked(i, t); }
}
MC_SCENARIO(history) {
  int ns = static_cast<int>(mc::param("sources", 4)), depth = static_cast<int>(mc::param("depth", 4)); auto base = mc::liveBlocks();
  { auto w = std::make_unique<World>(ns); W = w.get(); bool eager = mc::flip(); MC_OP((eager ? "queried after every step" : "queried at the end"));
    for (int d = 0; d < depth; ++d) { w->op(); if (eager) { w->check(); if (mc::visit(w->hash(d))) return; } }
    w->check(); mc::outcome(w->hash(0)); W = nullptr; }
  MC_CHECK(mc::liveBlocks() == base, "leak", mc::liveBlocks() - base << " blocks remain");
}
MC_SCENARIO(many_links) { // counts beyond small integers
  World w(4); W = &w; const unsigned N[] = {255, 256, 257, 300}; unsigned k = N[mc::choose(4)]; for (unsigned i = 0; i < k; ++i) { w.reg->AddLink(w.src[1], w.tgt(0)); ++w.n[{1, 0}]; } w.check(); if (mc::flip()) { w.remove(1, 0); w.check(); } for (unsigned i = 0; i < k; ++i) w.remove(1, 0); w.check();
}
