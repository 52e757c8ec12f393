// C14 (part 1): every sequence of lifecycle calls, on components built like the generated ones.
#include "mc.h"
#include <Smp/InvalidComponentState.h>
#include <Smp/InvalidFieldName.h>
#include <Xsmp/ComponentHelper.h>
#include <Xsmp/Model.h>
#include <Xsmp/Publication/Publication.h>
#include <Xsmp/Publication/TypeRegistry.h>
#include <Xsmp/Service.h>
#include <memory>
#include <string>
#include <vector>
namespace {
using S = Smp::ComponentStateKind;
const char *name(S s) { switch (s) { case S::CSK_Created: return "Created"; case S::CSK_Publishing: return "Publishing"; case S::CSK_Configured: return "Configured"; case S::CSK_Connected: return "Connected"; case S::CSK_Disconnected: return "Disconnected"; default: return "?"; } }
struct Call { std::string hook; const void *a, *b; S state; bool operator==(const Call &o) const { return hook == o.hook && a == o.a && b == o.b; } };
std::vector<Call> calls; std::string throwing; struct Boom {};
char token[4]; // stands for the services: never dereferenced by a component
template <class T> T *tok(int i) { return reinterpret_cast<T *>(&token[i]); }
void hook(const std::string &h, const Smp::IComponent *c, const void *a = nullptr, const void *b = nullptr) { calls.push_back({h, a, b, c->GetState()}); if (h == throwing) throw Boom{}; }
// what the code generator writes between a base class and the user's class
template <class Base, class User> struct Gen : Base {
  using Base::Base;
  void Publish(Smp::IPublication *r) override { Base::Publish(r); Xsmp::Component::Helper::Publish<User>(this, r); }
  void Configure(Smp::Services::ILogger *l, Smp::Services::ILinkRegistry *k) override { Base::Configure(l, k); Xsmp::Component::Helper::Configure<User>(this, l, k); }
  void Connect(Smp::ISimulator *s) override { Base::Connect(s); Xsmp::Component::Helper::Connect<User>(this, s); }
  void Disconnect() override { Xsmp::Component::Helper::Disconnect<User>(this); Base::Disconnect(); }
  using Base::GetSimulator; using Base::RemoveLinks;
};
#define USER(NAME) template <class B> struct NAME : Gen<B, NAME<B>> { friend class Xsmp::Component::Helper; static constexpr const char *label = #NAME; using Gen<B, NAME<B>>::Gen;
USER(None) };
USER(Full) void DoPublish(Smp::IPublication *p) { hook("publish", this, p); } void DoConfigure(Smp::Services::ILogger *l, Smp::Services::ILinkRegistry *r) { hook("configure", this, l, r); } void DoConnect(Smp::ISimulator *s) { hook("connect", this, s); } void DoDisconnect() { hook("disconnect", this); } };
USER(Empty) void DoPublish() { hook("publish", this); } void DoConfigure() { hook("configure", this); } void DoConnect() { hook("connect", this); } void DoDisconnect() { hook("disconnect", this); } };
USER(Logger) void DoPublish() { hook("publish", this); } void DoConfigure(Smp::Services::ILogger *l) { hook("configure", this, l); } void DoConnect(Smp::ISimulator *s) { hook("connect", this, s); } };
USER(Registry) void DoPublish(Smp::IPublication *p) { hook("publish", this, p); } void DoConfigure(Smp::Services::ILinkRegistry *l) { hook("configure", this, nullptr, l); } void DoDisconnect() { hook("disconnect", this); } };
// a user class derived from another user class: both hooks run, parent first (last for Disconnect)
template <class B> struct Derived : Gen<Full<B>, Derived<B>> { static constexpr const char *label = "Derived"; using Gen<Full<B>, Derived<B>>::Gen;
  void DoPublish(Smp::IPublication *p) { hook("publish2", this, p); } void DoConfigure(Smp::Services::ILogger *l, Smp::Services::ILinkRegistry *r) { hook("configure2", this, l, r); } void DoConnect(Smp::ISimulator *s) { hook("connect2", this, s); } void DoDisconnect() { hook("disconnect2", this); } };
// hooks expected for an accepted call
std::vector<std::string> hooksOf(const std::string &label, const std::string &op) {
  if (label == "None") return {};
  if (label == "Logger" && op == "disconnect") return {};
  if (label == "Registry" && op == "connect") return {};
  if (label == "Derived") { if (op == "disconnect") return {op + "2", op}; return {op, op + "2"}; }
  return {op};
}
void argsOf(const std::string &label, const std::string &op, const void *&a, const void *&b) {
  if (op == "publish") { if (label == "Empty" || label == "Logger") a = nullptr; }
  else if (op == "configure") { if (label == "Empty") a = b = nullptr; if (label == "Logger") b = nullptr; if (label == "Registry") a = nullptr; }
  else if (op == "connect") { if (label == "Empty") a = nullptr; }
  else a = b = nullptr;
}
template <class T> void run(const char *base) {
  const std::string label = T::label;
  Xsmp::Publication::TypeRegistry reg(nullptr); Smp::Int32 value{};
  auto cmp = std::make_unique<T>("cmp", "desc", nullptr, tok<Smp::ISimulator>(3));
  T &c = *cmp; Xsmp::Publication::Publication pub(cmp.get(), &reg); pub.PublishField("f", "", &value);
  S state = S::CSK_Created; bool published = false; Smp::ISimulator *sim = tok<Smp::ISimulator>(3);
  MC_OP(base << " of user type " << label);
  for (int d = mc::param("depth", 5); d > 0; --d) {
    if (mc::visit(mc::mix(mc::hashStr(label + base), static_cast<int>(state) * 8 + published * 4 + (sim != nullptr) * 2 + (sim == tok<Smp::ISimulator>(3)) + d * 64))) return;
    const int op = mc::choose(8); calls.clear(); throwing.clear();
    std::string what; const void *a = nullptr, *b = nullptr; S from{}, to{}; std::function<void()> call;
    bool nullReceiver = false;
    switch (op) {
    case 0: nullReceiver = true; what = "publish"; from = S::CSK_Created; to = S::CSK_Publishing; call = [&] { c.Publish(nullptr); }; break;
    case 1: what = "publish"; a = static_cast<Smp::IPublication *>(&pub); from = S::CSK_Created; to = S::CSK_Publishing; call = [&] { c.Publish(&pub); }; break;
    case 2: what = "configure"; a = tok<char>(0); b = tok<char>(1); from = S::CSK_Publishing; to = S::CSK_Configured; call = [&] { c.Configure(tok<Smp::Services::ILogger>(0), tok<Smp::Services::ILinkRegistry>(1)); }; break;
    case 3: what = "configure"; from = S::CSK_Publishing; to = S::CSK_Configured; call = [&] { c.Configure(nullptr, nullptr); }; break;
    case 4: what = "connect"; a = tok<char>(2); from = S::CSK_Configured; to = S::CSK_Connected; call = [&] { c.Connect(tok<Smp::ISimulator>(2)); }; break;
    case 5: what = "connect"; from = S::CSK_Configured; to = S::CSK_Connected; call = [&] { c.Connect(nullptr); }; break;
    case 6: what = "disconnect"; from = S::CSK_Connected; to = S::CSK_Disconnected; call = [&] { c.Disconnect(); }; break;
    default: what = "removelinks"; call = [&] { c.RemoveLinks(nullptr); c.RemoveLinks(&c); }; break;
    }
    const bool allowed = what == "removelinks" || (state == from && !nullReceiver);
    if (allowed && what != "removelinks") { auto h = hooksOf(label, what); if (!h.empty()) { int t = mc::choose(static_cast<int>(h.size()) + 1); if (t) throwing = h[t - 1]; } }
    MC_OP(what << (a || b || what == "disconnect" ? "" : "(null)") << (throwing.empty() ? "" : " whose hook " + throwing + " throws") << " in state " << name(state));
    mc::context("lifecycle call"); std::string got = "ok";
    try { call(); } catch (const Boom &) { got = "boom"; }
    catch (const Smp::InvalidComponentState &e) { got = "state"; MC_CHECK(e.GetInvalidState() == state && e.GetExpectedState() == from && e.GetSender() == &c, "exception:" + what, "exception names state " << name(e.GetInvalidState()) << " and expects " << name(e.GetExpectedState())); }
    catch (const Smp::Exception &e) { got = e.GetName(); }
    const std::string key = what + ":" + label;
    if (!allowed) {
      MC_CHECK(calls.empty(), "refused-hook:" + what, "hook " << calls[0].hook << " was called by a " << what << " refused in state " << name(state));
      MC_CHECK(c.GetState() == state, "refused-state:" + what, "a refused " << what << " changed the state from " << name(state) << " to " << name(c.GetState()));
      if (state != from) MC_CHECK(got == "state", "refused:" + what, what << " in state " << name(state) << " gave '" << got << "' instead of InvalidComponentState");
      else MC_CHECK(got != "ok" && got != "boom", "refused:" + what, "Publish(null) was accepted");
    } else {
      MC_CHECK(got == (throwing.empty() ? "ok" : "boom"), "accepted:" + key, what << " in state " << name(state) << " gave '" << got << "'");
      std::vector<Call> want; if (what != "removelinks") { argsOf(label, what, a, b); for (auto &h : hooksOf(label, what)) { want.push_back({h, a, b, {}}); if (h == throwing) break; } }
      std::string seen; for (auto &k : calls) seen += k.hook + " ";
      MC_CHECK(calls == want, "hooks:" + key, "hooks called: " << seen << "(expected " << want.size() << " calls with the arguments of " << what << ")");
      for (auto &k : calls) {
        const bool ok = what == "disconnect" ? k.state == S::CSK_Connected : what == "configure" ? k.state == S::CSK_Configured || k.state == S::CSK_Publishing : k.state == to;
        MC_CHECK(ok, "hookstate:" + what, "state is " << name(k.state) << " in hook " << k.hook);
      }
      const S old = state; if (what != "removelinks") state = to;
      if (!throwing.empty()) { // how far a failed call went is the implementation's choice, but it stays on the path
        MC_CHECK(c.GetState() == old || c.GetState() == to, "throw-state:" + what, "state " << name(c.GetState()) << " after a hook of " << what << " threw");
        state = c.GetState();
      }
      MC_CHECK(c.GetState() == state, "state:" + what, "state " << name(c.GetState()) << " after " << what << " instead of " << name(state));
      if (state == to) { if (what == "publish") published = true; if (what == "connect") sim = op == 4 ? tok<Smp::ISimulator>(2) : nullptr; if (what == "disconnect") sim = nullptr; }
    }
    mc::context("observe");
    MC_CHECK(c.GetSimulator() == sim, "simulator:" + what, "GetSimulator() is " << (c.GetSimulator() ? "set" : "null") << " after " << what << " in state " << name(state));
    const bool fields = c.GetFields() != nullptr; MC_CHECK(fields == published && (c.GetProperties() != nullptr) == published && (c.GetOperations() != nullptr) == published, "publication:" + what, "fields are " << (fields ? "" : "not ") << "available in state " << name(state));
    if (published) { MC_CHECK(c.GetFields() == pub.GetFields() && c.GetField("f") == pub.GetField("f"), "publication:" + what, "the fields are not those of the publication"); }
    else MC_CHECK(c.GetField("f") == nullptr && c.CreateRequest("o") == nullptr, "publication:" + what, "a field is available before publication");
    MC_CHECK(std::string(c.GetName()) == "cmp" && std::string(c.GetDescription()) == "desc" && !c.GetParent(), "identity", "identity changed");
    mc::outcome(mc::hashStr(label + what + got + name(state)));
  }
}
template <class B> void types(const char *base) {
  switch (mc::choose(6)) { case 0: run<None<B>>(base); break; case 1: run<Full<B>>(base); break; case 2: run<Empty<B>>(base); break; case 3: run<Logger<B>>(base); break; case 4: run<Registry<B>>(base); break; default: run<Derived<B>>(base); }
}
MC_SCENARIO(lifecycle) { switch (mc::choose(3)) { case 0: types<Xsmp::Component>("component"); break; case 1: types<Xsmp::Model>("model"); break; default: types<Xsmp::Service>("service"); } }
} // namespace
