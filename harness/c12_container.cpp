// C12: containers against a plain bounded sequence of owned components.
#include "mc.h"
#include <Smp/CannotDelete.h>
#include <Smp/ContainerFull.h>
#include <Smp/DuplicateName.h>
#include <Smp/InvalidObjectType.h>
#include <Smp/NotContained.h>
#include <Xsmp/Aggregate.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/EntryPoint.h>
#include <Xsmp/EntryPointPublisher.h>
#include <Xsmp/EventConsumer.h>
#include <Xsmp/EventProvider.h>
#include <Xsmp/EventSink.h>
#include <Xsmp/EventSource.h>
#include <Xsmp/FallibleModel.h>
#include <Xsmp/Field.h>
#include <Xsmp/Model.h>
#include <Xsmp/Publication/Publication.h>
#include <Xsmp/Publication/TypeRegistry.h>
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <vector>
namespace {
struct Interface { virtual ~Interface() = default; };
struct Top : public Xsmp::Component, public virtual Xsmp::Composite, public virtual Xsmp::EntryPointPublisher, public virtual Xsmp::EventProvider, public virtual Xsmp::EventConsumer, public virtual Xsmp::FallibleModel { using Xsmp::Component::Component; };
int alive[16], dead[16], disconnected[16];
std::function<void(int)> onDisconnect;
template <class Base> struct C : Base {
  int id; C(int i, const char *n, Smp::IComposite *p) : Base(n, "", p), id(i) { ++alive[i]; }
  ~C() override { --alive[id]; ++dead[id]; }
  void Disconnect() override { Base::Disconnect(); ++disconnected[id]; if (onDisconnect) onDisconnect(id); }
};
struct GoodBase : public Xsmp::Model, public virtual Interface { using Xsmp::Model::Model; };
using Good = C<GoodBase>; using Wrong = C<Xsmp::Model>;
// candidates: id -> name, parent right?, type right?
struct Cand { const char *name; bool parent; bool type; };
const Cand CAND[] = {{"a", true, true}, {"b", true, true}, {"a", true, true}, {"c", true, true}, {"sib", true, true}, {"w", true, false}, {"p", false, true}, {"ep", true, true}, {"es", true, true}, {"ek", true, true}, {"fl", true, true}, {"fi", true, true}, {"pr", true, true}, {"op", true, true}};
constexpr int NCAND = 14;
using Model = std::vector<int>;
std::string show(const Model &m) { std::string s; for (int i : m) s += std::string(CAND[i].name) + std::to_string(i) + " "; return s; }
int idOf(const void *v) { return v ? -2 : -1; }
int idOf(Smp::IComponent *c) { if (auto *g = dynamic_cast<Good *>(c)) return g->id; if (auto *g = dynamic_cast<Wrong *>(c)) return g->id; return c ? -2 : -1; }
int idOf(Interface *c) { auto *g = dynamic_cast<Good *>(c); return g ? g->id : -1; }
int find(const Model &m, const std::string &n) { for (int i : m) if (CAND[i].name == n) return i; return -1; }
void observe(Xsmp::Container<Interface> &c, const Model &m, const std::string &k) {
  mc::context("observe"); const auto &cc = c;
  MC_CHECK(c.GetCount() == static_cast<Smp::Int64>(m.size()) && c.size() == m.size() && c.empty() == m.empty(), "count:" + k, "count " << c.GetCount() << " for content " << show(m));
  std::size_t i = 0; for (auto *e : c) { MC_CHECK(i < m.size() && idOf(e) == m[i], "order:" + k, "element " << i << " is " << idOf(e) << ", content should be " << show(m)); ++i; }
  MC_CHECK(i == m.size(), "order:" + k, "iteration gives " << i << " elements instead of " << show(m));
  i = m.size(); for (auto it = cc.crbegin(); it != cc.crend(); ++it) { --i; MC_CHECK(idOf(*it) == m[i], "order:" + k, "reverse iteration differs at " << i); }
  i = 0; for (auto *e : *c.GetComponents()) { MC_CHECK(i < m.size() && idOf(e) == m[i], "components:" + k, "GetComponents() element " << i << " is " << idOf(e) << ", content " << show(m)); ++i; }
  MC_CHECK(i == m.size() && c.GetComponents()->size() == m.size(), "components:" + k, "GetComponents() has " << i << " elements, content " << show(m));
  for (i = 0; i < m.size() + 2; ++i) {
    int want = i < m.size() ? m[i] : -1;
    MC_CHECK(idOf(c.GetComponent(i)) == want && idOf(c.GetComponents()->at(i)) == want, "index:" + k, "GetComponent(" << i << ") is " << idOf(c.GetComponent(i)) << ", content " << show(m));
    int got = -1; try { got = idOf(cc.at(i)); } catch (const std::out_of_range &) {} MC_CHECK(got == want, "index:" + k, "at(" << i << ") is " << got << ", content " << show(m));
  }
  for (const char *n : {"a", "b", "c", "sib", "w", "p", "ep", "", "zz"}) {
    int want = find(m, n); MC_CHECK(idOf(c.GetComponent(n)) == want && idOf(c.GetComponents()->at(n)) == want, "name:" + k, "GetComponent(\"" << n << "\") is " << idOf(c.GetComponent(n)) << ", content " << show(m));
    int got = -1; try { got = idOf(c.at(std::string_view(n))); } catch (const std::out_of_range &) {} MC_CHECK(got == want, "name:" + k, "at(\"" << n << "\") is " << got << ", content " << show(m));
  }
  MC_CHECK(c.GetComponent(nullptr) == nullptr, "name:" + k, "GetComponent(null) is not null");
}
enum Err { None, Full, Dup, Type, NotIn, Cannot, Parent, Other };
const char *const ERR[] = {"nothing", "ContainerFull", "DuplicateName", "InvalidObjectType", "NotContained", "CannotDelete", "InvalidParent", "another exception"};
template <class F> Err call(F f) {
  try { f(); return None; }
  catch (const Smp::ContainerFull &e) { return Full; } catch (const Smp::DuplicateName &) { return Dup; } catch (const Smp::InvalidObjectType &) { return Type; }
  catch (const Smp::NotContained &) { return NotIn; } catch (const Smp::CannotDelete &) { return Cannot; }
  catch (const Smp::Exception &e) { return std::string(e.GetName()) == "InvalidParent" ? Parent : Other; }
}
}
MC_SCENARIO(sequences) {
  for (auto &x : alive) x = 0;
  for (auto &x : dead) x = 0;
  for (auto &x : disconnected) x = 0;
  onDisconnect = nullptr;
  const int depth = mc::param("depth", 3), n = mc::param("cands", 7);
  const Smp::Int64 lower = mc::choose(3), upper = mc::pick<Smp::Int64>({-1, 2, 1, 0, 3});
  MC_OP("lower " << lower << " upper " << upper);
  std::vector<std::pair<Smp::IComponent *, int>> outside; // still ours
  {
    Xsmp::Publication::TypeRegistry reg(nullptr);
    Top top("top"), other("other");
    Xsmp::Publication::Publication pub(&top, &reg); top.Publish(&pub); Smp::Int32 value = 3; pub.PublishField("fi", "", &value); pub.PublishOperation("op", "", Smp::ViewKind::VK_All); pub.PublishProperty("pr", "", Smp::Uuids::Uuid_Int32, Smp::AccessKind::AK_ReadWrite, Smp::ViewKind::VK_All);
    Xsmp::EntryPoint ep("ep", "", &top, [] {}); Xsmp::EventSource<void> es("es", "", &top);
    Xsmp::EventSink<void> ek("ek", "", &top, [](Smp::IObject *) {}); Xsmp::SimpleField<Smp::Bool, Xsmp::Annotation::failure> fl(&reg, Smp::Uuids::Uuid_Bool, "fl", "", &top);
    Xsmp::Container<Interface> sibling("sibling", "", &top, 0, -1);
    auto *sib = new Good(15, "sib", &top); sibling.AddComponent(sib);
    {
      Xsmp::Container<Interface> c("ctn", "desc", &top, lower, upper);
      MC_CHECK(top.GetContainer("ctn") == &c && c.GetLower() == lower && c.GetUpper() == upper && c.GetParent() == static_cast<Smp::IObject *>(&top), "identity", "container identity");
      Model m; observe(c, m, "new"); int nextDelete = -1;
      std::vector<Smp::IComponent *> p(NCAND, nullptr); std::vector<int> state(NCAND, 0); // 0 unused, 1 outside, 2 inside, 3 destroyed
      auto make = [&](int i) { if (state[static_cast<std::size_t>(i)] == 0) { Smp::IComposite *par = CAND[i].parent ? &top : &other; p[static_cast<std::size_t>(i)] = CAND[i].type ? static_cast<Smp::IComponent *>(new Good(i, CAND[i].name, par)) : new Wrong(i, CAND[i].name, par); state[static_cast<std::size_t>(i)] = 1; } };
      auto connect = [&](int i) { auto *x = p[static_cast<std::size_t>(i)]; static Xsmp::Publication::TypeRegistry r2(nullptr); Xsmp::Publication::Publication pp(x, &r2); x->Publish(&pp); x->Configure(nullptr, nullptr); x->Connect(nullptr); };
      if (upper < 0 || upper == 3) { // also start from filled containers, with connected components and a deletion nested in a Disconnect
        int start = mc::choose(4);
        if (start) { for (int i : {0, 1, 3}) { make(i); c.AddComponent(p[static_cast<std::size_t>(i)]); m.push_back(i); state[static_cast<std::size_t>(i)] = 2; connect(i); } nextDelete = start == 1 ? 0 : start == 2 ? 1 : 3; MC_OP("filled with a0 b1 c3, all connected; the first Disconnect will delete " << nextDelete); observe(c, m, "filled"); }
      }
      for (int d = 0; d < depth; ++d) {
        int op = mc::choose(2 * n + 3 + 4); std::string k = "op";
        if (op < n) {
          int i = op; if (state[static_cast<std::size_t>(i)] == 3) break; make(i); k = "add";
          MC_OP("add " << CAND[i].name << i); mc::context("AddComponent");
          std::set<Err> allowed;
          if (!CAND[i].type) allowed.insert(Type);
          if (upper >= 0 && static_cast<Smp::Int64>(m.size()) >= upper) allowed.insert(Full);
          if (find(m, CAND[i].name) >= 0 || i == 4 || i >= 7) allowed.insert(Dup);
          if (!CAND[i].parent) allowed.insert(Parent);
          Err e = call([&] { c.AddComponent(p[static_cast<std::size_t>(i)]); });
          MC_CHECK(allowed.empty() ? e == None : allowed.count(e) > 0, std::string(allowed.empty() ? "refused" : e == None ? "accepted" : "exception") + ":add", "adding " << CAND[i].name << i << " to " << show(m) << "raised " << ERR[e]);
          if (e == None) { m.push_back(i); state[static_cast<std::size_t>(i)] = 2; }
        } else if (op < 2 * n) {
          int i = op - n; if (state[static_cast<std::size_t>(i)] != 1 && state[static_cast<std::size_t>(i)] != 2) break; k = "delete";
          bool in = state[static_cast<std::size_t>(i)] == 2; bool conn = p[static_cast<std::size_t>(i)]->GetState() == Smp::ComponentStateKind::CSK_Connected; int before = disconnected[i];
          MC_OP("delete " << CAND[i].name << i << (conn ? " (connected)" : "")); mc::context("DeleteComponent");
          bool can = in && static_cast<Smp::Int64>(m.size()) > lower;
          int victim = -1; if (can && conn && nextDelete >= 0 && nextDelete != i && state[static_cast<std::size_t>(nextDelete)] == 2) victim = nextDelete;
          bool victimGone = false; bool once = false;
          onDisconnect = victim >= 0 ? std::function<void(int)>([&](int who) { if (who != i || once) return; once = true; MC_OP("  its Disconnect deletes " << CAND[victim].name << victim); auto er = call([&] { c.DeleteComponent(p[static_cast<std::size_t>(victim)]); }); victimGone = er == None; }) : nullptr;
          Err e = call([&] { c.DeleteComponent(p[static_cast<std::size_t>(i)]); }); onDisconnect = nullptr;
          Err want = !in ? NotIn : can ? None : Cannot;
          MC_CHECK(e == want, "delete", "deleting " << CAND[i].name << i << " of " << show(m) << "raised " << ERR[e] << " instead of " << ERR[want]);
          if (victimGone) { MC_CHECK(alive[victim] == 0 && dead[victim] == 1, "ownership", "the component deleted from a Disconnect was not destroyed once"); m.erase(std::find(m.begin(), m.end(), victim)); state[static_cast<std::size_t>(victim)] = 3; }
          if (e == None) { m.erase(std::find(m.begin(), m.end(), i)); state[static_cast<std::size_t>(i)] = 3; MC_CHECK(disconnected[i] == before + conn, "disconnect", "deleting a " << (conn ? "connected" : "unconnected") << " component disconnected it " << disconnected[i] - before << " times"); }
        } else if (op == 2 * n) { MC_OP("delete null"); mc::context("DeleteComponent(null)"); Err e = call([&] { c.DeleteComponent(nullptr); }); MC_CHECK(e == NotIn, "delete-null", "deleting null raised " << ERR[e]); }
        else if (op == 2 * n + 1) { MC_OP("add null"); mc::context("AddComponent(null)"); Err e = call([&] { c.AddComponent(nullptr); }); MC_CHECK(e == Type || (e == Full && upper >= 0), "add-null", "adding null raised " << ERR[e]); }
        else if (op == 2 * n + 2) { MC_OP("delete a component of the sibling container"); mc::context("DeleteComponent"); Err e = call([&] { c.DeleteComponent(sib); }); MC_CHECK(e == NotIn && alive[15] == 1, "delete", "deleting a foreign component raised " << ERR[e]); }
        else { // connect the op-th contained component (0..2) or arm a nested deletion of the first
          int w = op - 2 * n - 3;
          if (w < 3) { if (static_cast<std::size_t>(w) >= m.size()) break; auto *x = p[static_cast<std::size_t>(m[static_cast<std::size_t>(w)])]; if (x->GetState() != Smp::ComponentStateKind::CSK_Created) break; MC_OP("connect " << m[static_cast<std::size_t>(w)]); mc::context("connect"); connect(m[static_cast<std::size_t>(w)]); }
          else { if (m.empty() || nextDelete >= 0) break; nextDelete = m[static_cast<std::size_t>(mc::choose(static_cast<int>(m.size())))]; MC_OP("later a Disconnect will delete " << nextDelete); }
        }
        observe(c, m, k);
        for (int i = 0; i < n; ++i) MC_CHECK(alive[i] == (state[static_cast<std::size_t>(i)] == 1 || state[static_cast<std::size_t>(i)] == 2) && dead[i] == (state[static_cast<std::size_t>(i)] == 3), "ownership", "component " << i << " is alive " << alive[i] << " and was destroyed " << dead[i] << " times in state " << state[static_cast<std::size_t>(i)] << " (1 ours, 2 contained, 3 deleted)");
      }
      mc::outcome(mc::hashStr(show(m)));
      for (int i = 0; i < n; ++i) if (state[static_cast<std::size_t>(i)] == 1) outside.emplace_back(p[static_cast<std::size_t>(i)], i);
      mc::context("~Container");
    }
    for (int i = 0; i < n; ++i) { bool ours = false; for (auto &o : outside) ours |= o.second == i; MC_CHECK(alive[i] == ours && (ours || dead[i] <= 1), "ownership", "component " << i << " is alive " << alive[i] << ", destroyed " << dead[i] << " times after its container's end"); }
    for (auto &o : outside) delete o.first;
  }
}
