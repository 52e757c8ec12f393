// C15: event sources and sinks against a plain set of subscriptions; sinks act on the subscriptions while they are notified.
#include "mc.h"
#include <Smp/EventSinkAlreadySubscribed.h>
#include <Smp/EventSinkNotSubscribed.h>
#include <Smp/InvalidEventSink.h>
#include <Xsmp/Composite.h>
#include <Xsmp/EventConsumer.h>
#include <Xsmp/EventProvider.h>
#include <Xsmp/EventSink.h>
#include <Xsmp/EventSource.h>
#include <Xsmp/Model.h>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>
namespace {
using K = Smp::PrimitiveTypeKind;
struct Consumer : Xsmp::Model, virtual Xsmp::EventConsumer { using Xsmp::Model::Model; };
struct Provider : Xsmp::Model, virtual Xsmp::EventProvider { using Xsmp::Model::Model; using Xsmp::Model::RemoveLinks; };
template <class T> struct Arg; // argument kinds: kind, values, equality
template <> struct Arg<void> { static constexpr K kind = K::PTK_None; };
template <> struct Arg<Smp::Int32> { static constexpr K kind = K::PTK_Int32; static Smp::Int32 val(int i) { return i ? -2147483647 - 1 : 7; } static bool eq(Smp::Int32 a, Smp::Int32 b) { return a == b; } };
template <> struct Arg<bool> { static constexpr K kind = K::PTK_Bool; static bool val(int i) { return i; } static bool eq(bool a, bool b) { return a == b; } };
template <> struct Arg<Smp::UInt64> { static constexpr K kind = K::PTK_UInt64; static Smp::UInt64 val(int i) { return i ? ~0ull : 1ull << 63; } static bool eq(Smp::UInt64 a, Smp::UInt64 b) { return a == b; } };
template <> struct Arg<Smp::Float64> { static constexpr K kind = K::PTK_Float64; static Smp::Float64 val(int i) { return i ? 1e300 : -0.5; } static bool eq(double a, double b) { return a == b; } };
template <> struct Arg<Smp::String8> { static constexpr K kind = K::PTK_String8; static Smp::String8 val(int i) { return i ? "" : "text"; } static bool eq(Smp::String8 a, Smp::String8 b) { return std::string(a) == b; } };
enum class Color : Smp::Int32 { red = 1, blue = -3 };
template <> struct Arg<Color> { static constexpr K kind = K::PTK_Int32; static Color val(int i) { return i ? Color::red : Color::blue; } static bool eq(Color a, Color b) { return a == b; } };

struct Got { int sink; Smp::IObject *sender; int val; };
constexpr int NSRC = 2;
template <class T> struct World {
  static constexpr bool V = std::is_void_v<T>;
  using Callback = std::conditional_t<V, std::function<void(Smp::IObject *)>, std::function<void(Smp::IObject *, std::conditional_t<V, int, T>)>>;
  Provider p{"p"}; Consumer c[2] = {Consumer{"c0"}, Consumer{"c1"}};
  std::unique_ptr<Xsmp::EventSource<T>> src[NSRC]; int nsink;
  std::optional<Xsmp::EventSink<T>> sink[3]; std::unique_ptr<Smp::IEventSink> other;
  std::set<int> sub[NSRC]; std::vector<Got> got; int budget = 0, depth = 0;
  int emitting = -1, value = 0; Smp::IObject *sender = nullptr;
  struct Frame { int src; std::set<int> must, may, done; Smp::IObject *sender; int value; }; std::vector<Frame> frames;
  std::string where;
  explicit World(int n) : nsink(n) {
    for (int i = 0; i < NSRC; ++i) { auto nm = "s" + std::to_string(i); if constexpr (V) src[i] = std::make_unique<Xsmp::EventSource<void>>(nm.c_str(), "", &p); else src[i] = std::make_unique<Xsmp::EventSource<T>>(nm.c_str(), "", &p, Arg<T>::kind); }
    for (int i = 0; i < n; ++i) {
      auto nm = "k" + std::to_string(i);
      // sinks 0 and 1 are on consumer 0, the last one on consumer 1
      if constexpr (V) sink[i].emplace(nm.c_str(), "", &c[i == n - 1], [this, i](Smp::IObject *o) { notify(i, o, 0); });
      else sink[i].emplace(nm.c_str(), "", &c[i == n - 1], [this, i](Smp::IObject *o, T v) { int k = -1; for (int j : {0, 1}) if (Arg<T>::eq(v, Arg<T>::val(j))) k = j; notify(i, o, k); }, Arg<T>::kind);
    }
    if constexpr (V) other = std::make_unique<Xsmp::EventSink<Smp::Int32>>("k9", "", &c[0], [](Smp::IObject *, Smp::Int32) { mc::fail("wrongtype-notified", "the incompatible sink was notified"); }, K::PTK_Int32);
    else other = std::make_unique<Xsmp::EventSink<void>>("k9", "", &c[0], [](Smp::IObject *) { mc::fail("wrongtype-notified", "the incompatible sink was notified"); });
  }
  void forget(int s, int k) { sub[s].erase(k); for (auto &f : frames) if (f.src == s) { f.must.erase(k); f.may.erase(k); } }
  void subscribe(int s, int k) {
    const bool had = sub[s].count(k); bool ok = true; MC_OP(where << "subscribe sink " << k << " to source " << s); mc::context("subscribe");
    try { src[s]->Subscribe(&*sink[k]); } catch (const Smp::EventSinkAlreadySubscribed &e) { ok = false; MC_CHECK(e.GetEventSink() == &*sink[k], "exception", "exception names another sink"); }
    MC_CHECK(ok != had, "subscribe", "Subscribe " << (ok ? "accepted a subscribed sink" : "refused a sink that is not subscribed"));
    if (!had) { sub[s].insert(k); for (auto &f : frames) if (f.src == s) f.may.insert(k); }
  }
  void unsubscribe(int s, int k) {
    const bool had = sub[s].count(k); bool ok = true; MC_OP(where << "unsubscribe sink " << k << " from source " << s); mc::context("unsubscribe");
    try { src[s]->Unsubscribe(&*sink[k]); } catch (const Smp::EventSinkNotSubscribed &e) { ok = false; MC_CHECK(e.GetEventSink() == &*sink[k], "exception", "exception names another sink"); }
    MC_CHECK(ok == had, "unsubscribe", "Unsubscribe " << (ok ? "accepted a sink that is not subscribed" : "refused a subscribed sink"));
    if (had) forget(s, k);
  }
  void removeLinks(int w) { MC_OP(where << "remove the links to consumer " << w); mc::context("removelinks"); p.RemoveLinks(&c[w]); for (int s = 0; s < NSRC; ++s) for (int k = 0; k < nsink; ++k) if ((k == nsink - 1) == (w == 1)) forget(s, k); }
  void emit(int s, int form, int v) {
    Smp::IObject *snd = form == 0 ? static_cast<Smp::IObject *>(&p) : form == 1 ? static_cast<Smp::IObject *>(src[s].get()) : nullptr;
    MC_OP(where << "emit source " << s << " value " << v << " form " << form); mc::context("emit");
    frames.push_back({s, sub[s], {}, {}, snd, v});
    if constexpr (V) { if (form == 0) { if (v) src[s]->Emit(); else (*src[s])(); } else if (v) src[s]->Emit(snd); else (*src[s])(snd); }
    else { T a = Arg<T>::val(v); if (form == 0) { if (v) src[s]->Emit(a); else (*src[s])(a); } else if (v) src[s]->Emit(snd, a); else (*src[s])(snd, a); }
    Frame f = frames.back(); frames.pop_back();
    for (int k : f.must) MC_CHECK(f.done.count(k), "missed", "sink " << k << " subscribed to source " << s << " was not notified");
  }
  void notify(int k, Smp::IObject *o, int v) {
    MC_CHECK(!frames.empty(), "spurious", "sink " << k << " notified outside any emission");
    Frame &f = frames.back();
    MC_OP("  sink " << k << " notified");
    MC_CHECK(f.must.count(k) || f.may.count(k), "notified", "sink " << k << " is not subscribed to source " << f.src << " but was notified");
    MC_CHECK(!f.done.count(k), "twice", "sink " << k << " notified twice by one emission");
    MC_CHECK(o == f.sender, "sender", "sink " << k << " got another sender");
    if constexpr (!V) MC_CHECK(v == f.value, "argument", "sink " << k << " got value #" << v << " instead of #" << f.value);
    f.done.insert(k);
    if (budget > 0) { const int before = budget; auto w = where; where += "    in sink " + std::to_string(k) + ": "; act(true); where = w; (void)before; }
  }
  void act(bool inside) { // one operation
    const int ns = nsink, n = 2 * NSRC * ns + 2 + NSRC; int op = mc::choose(inside ? n + 1 : n);
    if (inside) { if (op == n) return; --budget; }
    if (op < NSRC * ns) subscribe(op / ns, op % ns);
    else if ((op -= NSRC * ns) < NSRC * ns) unsubscribe(op / ns, op % ns);
    else if ((op -= NSRC * ns) < 2) removeLinks(op);
    else { op -= 2; if (inside && frames.size() > 1) return; emit(op, inside ? 0 : mc::choose(3), V ? 0 : mc::choose(2)); }
  }
};
template <class T> void run(const char *label) {
  const int depth = mc::param("depth", 3), n = mc::param("sinks", 3);
  World<T> w(n); MC_OP("argument " << label);
  // an incompatible sink is always refused
  for (auto &s : w.src) { bool ok = false; try { s->Subscribe(w.other.get()); } catch (const Smp::InvalidEventSink &) { ok = true; } MC_CHECK(ok, "incompatible", "a sink of another argument type was accepted"); ok = false; try { s->Unsubscribe(w.other.get()); } catch (const Smp::EventSinkNotSubscribed &) { ok = true; } MC_CHECK(ok, "unsubscribe", "an unknown sink was unsubscribed"); }
  // start from any subscription state of source 0
  for (int k = 0; k < n; ++k) if (mc::flip()) w.subscribe(0, k);
  for (int d = depth; d > 0; --d) {
    std::uint64_t h = mc::hashStr(label); for (auto &s : w.sub) for (int k = 0; k < n; ++k) h = mc::mix(h, s.count(k)); if (mc::visit(mc::mix(h, d))) return;
    w.budget = mc::param("inside", 2); w.act(false);
  }
  w.budget = 0; for (int s = 0; s < NSRC; ++s) w.emit(s, s, 1);
  for (int s = 0; s < NSRC; ++s) mc::outcome(mc::hashStr(label + std::to_string(s) + std::to_string(w.sub[s].size())));
}
MC_SCENARIO(events) { run<void>("void"); }
MC_SCENARIO(kinds) {
  switch (mc::choose(6)) { case 0: run<Smp::Int32>("Int32"); break; case 1: run<bool>("Bool"); break; case 2: run<Smp::UInt64>("UInt64"); break; case 3: run<Smp::Float64>("Float64"); break; case 4: run<Smp::String8>("String8"); break; default: run<Color>("enum"); }
}
// every pair of argument kinds: exactly the equal ones are compatible
MC_SCENARIO(compatibility) {
  static const K ks[] = {K::PTK_None, K::PTK_Bool, K::PTK_Int8, K::PTK_UInt8, K::PTK_Int32, K::PTK_UInt32, K::PTK_Int64, K::PTK_Duration, K::PTK_DateTime, K::PTK_Float32, K::PTK_Float64};
  const int a = mc::choose(11), b = mc::choose(11); Provider p("p"); Consumer c("c");
  std::unique_ptr<Smp::IEventSource> s; if (a) s = std::make_unique<Xsmp::EventSource<Smp::Int64>>("s", "", &p, ks[a]); else s = std::make_unique<Xsmp::EventSource<void>>("s", "", &p);
  std::unique_ptr<Smp::IEventSink> k; if (b) k = std::make_unique<Xsmp::EventSink<Smp::Int64>>("k", "", &c, [](Smp::IObject *, Smp::Int64) {}, ks[b]); else k = std::make_unique<Xsmp::EventSink<void>>("k", "", &c, [](Smp::IObject *) {});
  bool ok = true; MC_OP("source kind " << static_cast<int>(ks[a]) << ", sink kind " << static_cast<int>(ks[b]));
  try { s->Subscribe(k.get()); } catch (const Smp::InvalidEventSink &) { ok = false; }
  MC_CHECK(ok == (a == b), "incompatible", "Subscribe " << (ok ? "accepted" : "refused"));
  bool un = true; try { s->Unsubscribe(k.get()); } catch (const Smp::EventSinkNotSubscribed &) { un = false; } MC_CHECK(un == ok, "unsubscribe", "Unsubscribe after a " << (ok ? "accepted" : "refused") << " subscription");
  MC_CHECK(p.GetEventSource("s") == s.get() && p.GetEventSources()->size() == 1 && c.GetEventSink("k") == k.get() && c.GetEventSinks()->size() == 1, "registered", "source or sink is not found by name in its parent");
  MC_CHECK(k->GetEventArgType() == ks[b] && k->GetParent() == static_cast<Smp::IObject *>(&c) && s->GetParent() == static_cast<Smp::IObject *>(&p), "identity", "wrong kind or parent");
}
} // namespace
