// C11: collections against a plain sequence, over all operation sequences.
#include "mc.h"
#include <Smp/DuplicateName.h>
#include <Xsmp/Collection.h>
#include <Xsmp/Object.h>
#include <memory>
#include <string>
#include <vector>
namespace {
struct Interface { virtual ~Interface() = default; int tag = 0; };
int destroyed[8], created[8];
struct Obj : public virtual Interface, public Xsmp::Object { int id; Obj(int i, const char *n, Smp::IObject *p = nullptr) : Xsmp::Object(n, "", p), id(i) { ++created[i]; } ~Obj() override { ++destroyed[id]; } };
struct NotObject : public virtual Interface {};
const char *const NAMES[] = {"a", "b", "a", "A", "ab", "c"}; // object i has NAMES[i]
constexpr int NOBJ = 5;
using Model = std::vector<int>;
int firstNamed(const Model &m, const char *n) { for (int i : m) if (std::string(NAMES[i]) == n) return i; return -1; }
std::string show(const Model &m) { std::string s; for (int i : m) s += std::string(NAMES[i]) + std::to_string(i) + " "; return s; }
int idOf(Smp::IObject *o) { auto *x = dynamic_cast<Obj *>(o); return x ? x->id : -1; }
int idOf(Interface *o) { auto *x = dynamic_cast<Obj *>(o); return x ? x->id : -1; }
template <class C> void observe(const C &c, const Model &m, const char *after) {
  mc::context("observe"); std::string k = std::string(after);
  MC_CHECK(c.size() == m.size(), "size:" + k, "size() is " << c.size() << " for content " << show(m));
  MC_CHECK(c.empty() == m.empty(), "empty:" + k, "empty() is " << c.empty() << " for content " << show(m));
  std::size_t i = 0;
  for (auto *e : c) { MC_CHECK(i < m.size() && idOf(e) == m[i], "order:" + k, "element " << i << " is object " << idOf(e) << ", content should be " << show(m)); ++i; }
  MC_CHECK(i == m.size(), "order:" + k, "iteration gives " << i << " elements, content is " << show(m));
  for (i = 0; i < m.size() + 2; ++i) MC_CHECK(idOf(c.at(i)) == (i < m.size() ? m[i] : -1), "at:" + k, "at(" << i << ") is object " << idOf(c.at(i)) << ", content " << show(m));
  MC_CHECK(c.at(static_cast<std::size_t>(-1)) == nullptr, "at:" + k, "at(max) is not null");
  for (const char *n : {"a", "b", "A", "ab", "c", "", "abc"}) { std::string copy(n); MC_CHECK(idOf(c.at(copy.c_str())) == firstNamed(m, n), "name:" + k, "at(\"" << n << "\") is object " << idOf(c.at(copy.c_str())) << ", content " << show(m)); }
  MC_CHECK(c.at(static_cast<Smp::String8>(nullptr)) == nullptr, "name:" + k, "at(null) is not null");
}
template <class C, class P> bool tryAdd(C &c, P p, const char *name) {
  try { c.Add(p); return true; }
  catch (const Smp::DuplicateName &e) { MC_CHECK(std::string(e.GetDuplicateName()) == name, "exception", "DuplicateName names '" << e.GetDuplicateName() << "' instead of " << name); return false; }
}
template <class C, class T, bool DUP> void plain(C &c) {
  std::vector<std::unique_ptr<Obj>> o; for (int i = 0; i < NOBJ; ++i) o.push_back(std::make_unique<Obj>(i, NAMES[i]));
  Model m; observe(c, m, "new");
  const int depth = mc::param("depth", 4), n = mc::param("objects", 4);
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose(2 * n + 1); mc::context("op");
    if (op < n) {
      MC_OP("Add " << NAMES[op] << op); bool dup = !DUP && firstNamed(m, NAMES[op]) >= 0;
      bool ok = tryAdd(c, static_cast<T *>(o[static_cast<std::size_t>(op)].get()), NAMES[op]);
      MC_CHECK(ok == !dup, dup ? "duplicate-accepted" : "refused", "adding " << NAMES[op] << (ok ? " was accepted" : " was refused") << " with content " << show(m));
      if (ok) m.push_back(op);
      observe(c, m, "Add");
    } else if (op < 2 * n) {
      int i = op - n; MC_OP("Remove " << NAMES[i] << i); auto it = std::find(m.begin(), m.end(), i);
      bool ok = c.Remove(static_cast<T *>(o[static_cast<std::size_t>(i)].get()));
      MC_CHECK(ok == (it != m.end()), "remove-result", "Remove returned " << ok << " for object " << i << " of " << show(m));
      if (it != m.end()) m.erase(it);
      observe(c, m, "Remove");
    } else { MC_OP("clear"); c.clear(); m.clear(); observe(c, m, "clear"); }
  }
  mc::outcome(mc::hashStr(show(m)));
}
}
MC_SCENARIO(collection_object) { Xsmp::Collection<Smp::IObject> c("c", "d"); MC_CHECK(std::string(c.GetName()) == "c" && std::string(c.GetDescription()) == "d" && !c.GetParent(), "self", "name"); plain<decltype(c), Smp::IObject, false>(c); }
MC_SCENARIO(collection_interface) {
  Xsmp::Collection<Interface> c("c"); NotObject n; bool threw = false;
  try { c.Add(&n); } catch (const Smp::Exception &) { threw = true; } MC_CHECK(threw && c.size() == 0, "not-object", "an element that is not an object was added");
  plain<decltype(c), Interface, false>(c);
}
MC_SCENARIO(collection_duplicates) { Xsmp::Collection<Smp::IObject, true> c("c"); plain<decltype(c), Smp::IObject, true>(c); }
MC_SCENARIO(containing) {
  for (auto &x : destroyed) x = 0;
  for (auto &x : created) x = 0;
  const int depth = mc::param("depth", 4), n = mc::param("objects", 4);
  {
    Xsmp::ContainingCollection<Smp::IObject> c("c"); Model m; std::vector<Smp::IObject *> ptr(NOBJ, nullptr); bool everDead[NOBJ] = {}; bool in[NOBJ] = {};
    observe(c, m, "new");
    for (int d = 0; d < depth; ++d) {
      int op = mc::choose(2 * n + 1); mc::context("op");
      if (op < n) {
        if (in[op]) break; // a second object with the same identity: no new behaviour
        bool viaArgs = mc::flip(); MC_OP("Add " << NAMES[op] << op << (viaArgs ? " in place" : "")); bool dup = firstNamed(m, NAMES[op]) >= 0; bool ok = true; Obj *raw = nullptr;
        created[op] = destroyed[op] = 0; everDead[op] = false;
        try { raw = viaArgs ? c.Add<Obj>(op, NAMES[op]) : c.Add(std::make_unique<Obj>(op, NAMES[op])); } catch (const Smp::DuplicateName &) { ok = false; }
        MC_CHECK(ok == !dup, dup ? "duplicate-accepted" : "refused", "adding " << NAMES[op] << (ok ? " was accepted" : " was refused") << " with content " << show(m));
        if (ok) { m.push_back(op); in[op] = true; ptr[static_cast<std::size_t>(op)] = raw; MC_CHECK(raw && raw->id == op && static_cast<Smp::IObject *>(raw) == c.at(m.size() - 1), "result", "Add returned another object"); }
        else everDead[op] = true;
      } else if (op < 2 * n) {
        int i = op - n; if (!ptr[static_cast<std::size_t>(i)]) break; MC_OP("Remove " << NAMES[i] << i);
        bool ok = c.Remove(ptr[static_cast<std::size_t>(i)]); MC_CHECK(ok == in[i], "remove-result", "Remove returned " << ok);
        if (in[i]) { in[i] = false; everDead[i] = true; m.erase(std::find(m.begin(), m.end(), i)); }
      } else { MC_OP("clear"); c.clear(); for (int i : m) { in[i] = false; everDead[i] = true; } m.clear(); }
      observe(c, m, "op");
      for (int i = 0; i < n; ++i) MC_CHECK(destroyed[i] == (everDead[i] ? created[i] : 0), "ownership", "object " << i << " was created " << created[i] << " and destroyed " << destroyed[i] << " times, in collection: " << in[i]);
    }
    mc::outcome(mc::hashStr(show(m)));
  }
  for (int i = 0; i < n; ++i) MC_CHECK(destroyed[i] == created[i], "ownership", "object " << i << " was created " << created[i] << " and destroyed " << destroyed[i] << " times after the collection's end");
}
MC_SCENARIO(delegate) {
  std::vector<std::unique_ptr<Obj>> o; for (int i = 0; i < NOBJ; ++i) o.push_back(std::make_unique<Obj>(i, NAMES[i]));
  Xsmp::Collection<Smp::IObject> base("base", "desc"); Xsmp::DelegateCollection<Smp::IObject> c(&base); Model mb, m;
  auto all = [&] { Model x = mb; x.insert(x.end(), m.begin(), m.end()); return x; };
  observe(c, all(), "new");
  const int depth = mc::param("depth", 4), n = mc::param("objects", 4);
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose(4 * n + 2); mc::context("op"); int i = op % n;
    if (op < n) { MC_OP("Add " << NAMES[i] << i); bool dup = firstNamed(all(), NAMES[i]) >= 0; bool ok = tryAdd(c, o[static_cast<std::size_t>(i)].get(), NAMES[i]); MC_CHECK(ok == !dup, dup ? "duplicate-accepted" : "refused", "adding " << NAMES[i] << i << (ok ? " was accepted" : " was refused") << " with content " << show(all())); if (ok) m.push_back(i); }
    else if (op < 2 * n) { MC_OP("Remove " << NAMES[i] << i); auto it = std::find(m.begin(), m.end(), i); bool ok = c.Remove(o[static_cast<std::size_t>(i)].get()); MC_CHECK(ok == (it != m.end()), "remove-result", "Remove returned " << ok); if (it != m.end()) m.erase(it); }
    else if (op < 3 * n) { if (firstNamed(all(), NAMES[i]) >= 0) break; MC_OP("delegate: Add " << NAMES[i] << i); base.Add(o[static_cast<std::size_t>(i)].get()); mb.push_back(i); }
    else if (op < 4 * n) { auto it = std::find(mb.begin(), mb.end(), i); if (it == mb.end()) break; MC_OP("delegate: Remove " << NAMES[i] << i); base.Remove(o[static_cast<std::size_t>(i)].get()); mb.erase(it); }
    else if (op == 4 * n) { MC_OP("clear"); c.clear(); m.clear(); } else { MC_OP("delegate: clear"); base.clear(); mb.clear(); }
    observe(c, all(), "op"); observe(base, mb, "op");
  }
  MC_CHECK(std::string(c.GetName()) == "base" && std::string(c.GetDescription()) == "desc" && c.GetParent() == nullptr, "self", "a delegate collection has another identity than its delegate");
}
