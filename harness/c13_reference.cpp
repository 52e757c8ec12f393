// C13: references against a plain bounded sequence; links to a deleted component are dropped.
#include "mc.h"
#include <Smp/CannotRemove.h>
#include <Smp/InvalidObjectType.h>
#include <Smp/NotReferenced.h>
#include <Smp/ReferenceFull.h>
#include <Xsmp/Aggregate.h>
#include <Xsmp/Model.h>
#include <Xsmp/Reference.h>
#include <memory>
#include <string>
#include <vector>
namespace {
struct Interface { virtual ~Interface() = default; };
struct Agg : public Xsmp::Component, public virtual Xsmp::Aggregate { using Xsmp::Component::Component; using Xsmp::Component::RemoveLinks; };
struct Good : public Xsmp::Model, public virtual Interface { int id; Good(int i, const char *n) : Xsmp::Model(n), id(i) {} };
struct Wrong : public Xsmp::Model { using Xsmp::Model::Model; };
const char *const NAMES[] = {"a", "b", "a", "c"}; constexpr int N = 4; // 4: a component of a wrong type
using Model = std::vector<int>;
std::string show(const Model &m) { std::string s; for (int i : m) s += std::string(NAMES[i]) + std::to_string(i) + " "; return s; }
int idOf(Smp::IComponent *c) { auto *g = dynamic_cast<Good *>(c); return g ? g->id : -1; }
int idOf(Good *c) { return c ? c->id : -1; }
int idOf(Interface *c) { auto *g = dynamic_cast<Good *>(c); return g ? g->id : -1; }
int find(const Model &m, const std::string &n) { for (int i : m) if (NAMES[i] == n) return i; return -1; }
bool named(const Model &m, const std::string &n, int id) { if (id < 0) return find(m, n) < 0; for (int i : m) if (i == id && NAMES[i] == n) return true; return false; }
template <class T> void observe(Xsmp::Reference<T> &c, const Model &m, const std::string &k) {
  mc::context("observe"); const auto &cc = c;
  MC_CHECK(c.GetCount() == static_cast<Smp::Int64>(m.size()) && c.size() == m.size() && c.empty() == m.empty() && c.GetComponents()->size() == m.size(), "count:" + k, "count " << c.GetCount() << " for content " << show(m));
  std::size_t i = 0; for (auto *e : cc) { MC_CHECK(i < m.size() && idOf(e) == m[i], "order:" + k, "element " << i << " is " << idOf(e) << ", content should be " << show(m)); ++i; }
  MC_CHECK(i == m.size(), "order:" + k, "iteration gives " << i << " elements instead of " << show(m));
  i = m.size(); for (auto it = c.rbegin(); it != c.rend(); ++it) { --i; MC_CHECK(idOf(*it) == m[i], "order:" + k, "reverse iteration differs at " << i); }
  i = 0; for (auto *e : *c.GetComponents()) { MC_CHECK(i < m.size() && idOf(e) == m[i], "components:" + k, "GetComponents() element " << i << " is " << idOf(e) << ", content " << show(m)); ++i; }
  for (i = 0; i < m.size() + 2; ++i) {
    int want = i < m.size() ? m[i] : -1;
    MC_CHECK(idOf(c.GetComponent(i)) == want && idOf(c.GetComponents()->at(i)) == want, "index:" + k, "GetComponent(" << i << ") is " << idOf(c.GetComponent(i)) << ", content " << show(m));
    int got = -1; try { got = idOf(c.at(i)); } catch (const std::out_of_range &) {} MC_CHECK(got == want, "index:" + k, "at(" << i << ") is " << got);
  }
  for (const char *n : {"a", "b", "c", "w", "", "zz"}) {
    MC_CHECK(named(m, n, idOf(c.GetComponent(n))) && named(m, n, idOf(c.GetComponents()->at(n))), "name:" + k, "GetComponent(\"" << n << "\") is " << idOf(c.GetComponent(n)) << ", content " << show(m));
    int got = -1; try { got = idOf(cc.at(std::string_view(n))); } catch (const std::out_of_range &) {} MC_CHECK(named(m, n, got), "name:" + k, "at(\"" << n << "\") is " << got);
  }
  MC_CHECK(c.GetComponent(nullptr) == nullptr, "name:" + k, "GetComponent(null) is not null");
}
enum Err { None, Full, Type, NotIn, Cannot, Other };
const char *const ERR[] = {"nothing", "ReferenceFull", "InvalidObjectType", "NotReferenced", "CannotRemove", "another exception"};
template <class F> Err call(F f) {
  try { f(); return None; } catch (const Smp::ReferenceFull &) { return Full; } catch (const Smp::InvalidObjectType &) { return Type; }
  catch (const Smp::NotReferenced &) { return NotIn; } catch (const Smp::CannotRemove &) { return Cannot; } catch (const Smp::Exception &) { return Other; }
}
template <class T, bool WRONGOK> void body() {
  const int depth = mc::param("depth", 4);
  const Smp::Int64 lower = mc::choose(3), upper = mc::pick<Smp::Int64>({-1, 2, 1, 0, 3}); MC_OP("lower " << lower << " upper " << upper);
  Agg agg("agg"), agg2("agg2"); Xsmp::Reference<T> r("ref", "desc", &agg, lower, upper); Xsmp::Reference<Smp::IComponent> second("second", "", &agg, 0, -1);
  MC_CHECK(agg.GetReference("ref") == &r && r.GetLower() == lower && r.GetUpper() == upper && agg.GetReferences()->size() == 2, "identity", "reference identity");
  std::vector<std::unique_ptr<Good>> o; for (int i = 0; i < N; ++i) o.push_back(std::make_unique<Good>(i, NAMES[i])); Wrong w("w");
  for (int i = 0; i < N; ++i) second.AddComponent(o[static_cast<std::size_t>(i)].get());
  Model m, m2{0, 1, 2, 3}; observe(r, m, "new");
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose(3 * N + 5); std::string k; int i = op % N; auto *p = o[static_cast<std::size_t>(i)].get();
    if (op < N) { k = "add"; MC_OP("add " << NAMES[i] << i); mc::context("AddComponent"); Err want = upper >= 0 && static_cast<Smp::Int64>(m.size()) >= upper ? Full : None; Err e = call([&] { r.AddComponent(p); }); MC_CHECK(e == want, "add", "adding to " << show(m) << "raised " << ERR[e] << " instead of " << ERR[want]); if (e == None) m.push_back(i); }
    else if (op < 2 * N) { k = "remove"; MC_OP("remove " << NAMES[i] << i); mc::context("RemoveComponent"); auto it = std::find(m.begin(), m.end(), i); Err want = it == m.end() ? NotIn : static_cast<Smp::Int64>(m.size()) <= lower ? Cannot : None; Err e = call([&] { r.RemoveComponent(p); }); MC_CHECK(e == want, "remove", "removing from " << show(m) << "raised " << ERR[e] << " instead of " << ERR[want]); if (e == None) m.erase(it); }
    else if (op < 3 * N) { k = "forget"; MC_OP("component " << NAMES[i] << i << " goes: RemoveLinks"); mc::context("RemoveLinks"); agg.RemoveLinks(p); m.erase(std::remove(m.begin(), m.end(), i), m.end()); m2.erase(std::remove(m2.begin(), m2.end(), i), m2.end()); }
    else if (op == 3 * N) { k = "add"; MC_OP("add null"); mc::context("AddComponent(null)"); Err e = call([&] { r.AddComponent(nullptr); }); MC_CHECK(e == Type || (e == Full && upper >= 0), "add-null", "adding null raised " << ERR[e]); }
    else if (op == 3 * N + 1) { k = "add"; MC_OP("add a component of a wrong type"); mc::context("AddComponent"); Err e = call([&] { r.AddComponent(&w); }); bool full = upper >= 0 && static_cast<Smp::Int64>(m.size()) >= upper; MC_CHECK(e == Type || (e == Full && full), "add-type", "adding a component of a wrong type raised " << ERR[e]); }
    else if (op == 3 * N + 2) { k = "remove"; MC_OP("remove null"); mc::context("RemoveComponent(null)"); Err e = call([&] { r.RemoveComponent(nullptr); }); MC_CHECK(e == NotIn, "remove-null", "removing null raised " << ERR[e]); }
    else if (op == 3 * N + 3) { k = "remove"; MC_OP("remove a component of a wrong type"); mc::context("RemoveComponent"); Err e = call([&] { r.RemoveComponent(&w); }); MC_CHECK(e == NotIn, "remove-type", "removing a foreign component raised " << ERR[e]); }
    else { k = "forget"; MC_OP("RemoveLinks of a foreign component and from another aggregate"); mc::context("RemoveLinks"); agg.RemoveLinks(&w); agg2.RemoveLinks(o[0].get()); }
    observe(r, m, k); observe(second, m2, k);
  }
  mc::outcome(mc::hashStr(show(m)));
}
}
MC_SCENARIO(of_interface) { body<Interface, false>(); }
MC_SCENARIO(of_class) { body<Good, false>(); }
