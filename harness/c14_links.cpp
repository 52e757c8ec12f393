// C14 (part 2): RemoveLinks drops exactly the links towards the given component, whatever links exist.
#include "mc.h"
#include <Smp/IArrayField.h>
#include <Smp/IDataflowField.h>
#include <Smp/ISimpleArrayField.h>
#include <Smp/ISimpleField.h>
#include <Smp/IStructureField.h>
#include <Smp/Publication/IStructureType.h>
#include <Xsmp/Aggregate.h>
#include <Xsmp/Composite.h>
#include <Xsmp/EventConsumer.h>
#include <Xsmp/EventProvider.h>
#include <Xsmp/EventSink.h>
#include <Xsmp/EventSource.h>
#include <Xsmp/Field.h>
#include <Xsmp/Model.h>
#include <Xsmp/Publication/Publication.h>
#include <Xsmp/Publication/TypeRegistry.h>
#include <Xsmp/Reference.h>
#include <memory>
#include <set>
#include <string>
#include <vector>
namespace {
using Arr = Xsmp::Array<Smp::Int32, 2>;
using SArr = Xsmp::Array<Smp::Int32, 2, Xsmp::Annotation::simpleArray>;
struct Pair {
  Smp::Int32 a, b;
  template <typename B> struct _Field : public B {
    _Field(Smp::Publication::ITypeRegistry *r, Smp::Uuid t, Smp::String8 n, Smp::String8 d = "", Smp::IObject *p = nullptr, Smp::ViewKind v = Smp::ViewKind::VK_None, const Pair &x = {})
        : B(r, t, n, d, p, v), a{r, Smp::Uuids::Uuid_Int32, "a", "", this, v, x.a}, b{r, Smp::Uuids::Uuid_Int32, "b", "", this, v, x.b} {}
    typename B::template Field<Smp::Int32>::input a; typename B::template Field<Smp::Int32>::input b;
  };
};
const Smp::Uuid ARR{1, 1, 1, 1, 1}, SARR{1, 1, 1, 1, 2}, PAIR{1, 1, 1, 1, 3};
using Types = Xsmp::Publication::TypeRegistry;
void fill(Types &t) {
    t.AddArrayType("Arr", "", ARR, Smp::Uuids::Uuid_Int32, 4, 2, false); t.AddArrayType("SArr", "", SARR, Smp::Uuids::Uuid_Int32, 4, 2, true);
    auto *s = t.AddStructureType("Pair", "", PAIR); s->AddField("a", "", Smp::Uuids::Uuid_Int32, 0, Smp::ViewKind::VK_All, true, true); s->AddField("b", "", Smp::Uuids::Uuid_Int32, 4, Smp::ViewKind::VK_All, true, true);
}
int notified[8];
struct Target : Xsmp::Model, virtual Xsmp::Composite, virtual Xsmp::EventConsumer {
  int id; Xsmp::EventSink<void> s1, s2; Xsmp::Field<Smp::Int32>::input i1, i2; Xsmp::Field<Arr>::input arr; Xsmp::Field<SArr>::input sarr; Xsmp::Field<Pair>::input st; Xsmp::Publication::Publication pub;
  Smp::Int32 p1{}, p2{}; Arr parr{}; SArr psarr{}; Pair pst{};
  Target(int i, Types &t, const char *n, Smp::IComposite *parent) : Xsmp::Model(n, "", parent), id(i), s1("s1", "", this, [i](Smp::IObject *) { ++notified[2 * i]; }), s2("s2", "", this, [i](Smp::IObject *) { ++notified[2 * i + 1]; }),
    i1(&t, Smp::Uuids::Uuid_Int32, "i1", "", this), i2(&t, Smp::Uuids::Uuid_Int32, "i2", "", this), arr(&t, ARR, "arr", "", this), sarr(&t, SARR, "sarr", "", this), st(&t, PAIR, "st", "", this), pub(this, &t) {
    Publish(&pub); for (Smp::IField *f : std::initializer_list<Smp::IField *>{&i1, &i2, &arr, &sarr, &st}) pub.PublishField(f);
    pub.PublishField("p1", "", &p1, Smp::ViewKind::VK_All, true, true); pub.PublishField("p2", "", &p2, Smp::ViewKind::VK_All, true, true);
    pub.PublishField("parr", "", parr.data(), ARR, Smp::ViewKind::VK_All, true, true); pub.PublishField("psarr", "", psarr.data(), SARR, Smp::ViewKind::VK_All, true, true); pub.PublishField("pst", "", &pst, PAIR, Smp::ViewKind::VK_All, true, true);
  }
  ~Target() override { id = -1; }
};
struct Source : Xsmp::Model, virtual Xsmp::Aggregate, virtual Xsmp::EventProvider {
  Xsmp::EventSource<void> e1, e2; Xsmp::Reference<Target> r1, r2; Xsmp::Field<Smp::Int32>::output o; Xsmp::Field<Arr>::output arr; Xsmp::Field<SArr>::output sarr; Xsmp::Field<Pair>::output st; Xsmp::Publication::Publication pub;
  Smp::Int32 p{}; Arr parr{}; SArr psarr{}; Pair pst{}; Smp::Int32 nested{};
  explicit Source(Types &t) : Xsmp::Model("src"), e1("e1", "", this), e2("e2", "", this), r1("r1", "", this, 0, -1), r2("r2", "", this, 0, -1),
    o(&t, Smp::Uuids::Uuid_Int32, "o", "", this), arr(&t, ARR, "arr", "", this), sarr(&t, SARR, "sarr", "", this), st(&t, PAIR, "st", "", this), pub(this, &t) {
    Publish(&pub); for (Smp::IField *f : std::initializer_list<Smp::IField *>{&o, &arr, &sarr, &st}) pub.PublishField(f);
    pub.PublishField("p", "", &p, Smp::ViewKind::VK_All, true, false, true); pub.PublishField("parr", "", parr.data(), ARR, Smp::ViewKind::VK_All, true, false, true); pub.PublishField("psarr", "", psarr.data(), SARR, Smp::ViewKind::VK_All, true, false, true); pub.PublishField("pst", "", &pst, PAIR, Smp::ViewKind::VK_All, true, false, true);
    pub.PublishStructure("anon", "")->PublishField("n", "", &nested, Smp::ViewKind::VK_All, true, false, true);
  }
  using Xsmp::Model::RemoveLinks;
};
// the links that can be made: what, from which feature, to which target feature (same id in both targets)
struct Link { const char *what; int kind; };
const char *const LINKS[] = {"e1>s1", "e1>s2", "e2>s1", "r1", "r2", "o>i1", "o>i2", "o>p1", "p>i1", "p>p1", "p>p2", "arr>arr", "arr>parr", "arr[1]>i2", "parr>arr", "parr>parr", "sarr>sarr", "psarr>psarr", "psarr>sarr", "st>st", "pst>pst", "st>pst", "anon.n>i1"};
constexpr int NL = sizeof LINKS / sizeof *LINKS;
Smp::IField *field(Smp::IComponent *c, const std::string &n) { return c->GetField(n.c_str()); }
void connect(Source &s, Target &t, const std::string &l) {
  auto p = l.find('>'); std::string from = l.substr(0, p), to = p == l.npos ? "" : l.substr(p + 1);
  if (l[0] == 'r') { static_cast<Smp::IReference &>(l == "r1" ? s.r1 : s.r2).AddComponent(&t); return; }
  if (l[0] == 'e') { (from == "e1" ? s.e1 : s.e2).Subscribe(to == "s1" ? &t.s1 : &t.s2); return; }
  dynamic_cast<Smp::IDataflowField &>(*field(&s, from)).Connect(field(&t, to));
}
void leaves(Smp::IField *f, std::vector<Smp::Int32> &out) {
  if (auto *s = dynamic_cast<Smp::ISimpleField *>(f)) out.push_back(s->GetValue());
  else if (auto *a = dynamic_cast<Smp::ISimpleArrayField *>(f)) for (Smp::UInt64 i = 0; i < a->GetSize(); ++i) out.push_back(a->GetValue(i));
  else if (auto *r = dynamic_cast<Smp::IArrayField *>(f)) for (Smp::UInt64 i = 0; i < r->GetSize(); ++i) leaves(r->GetItem(i), out);
  else if (auto *t = dynamic_cast<Smp::IStructureField *>(f)) for (auto *x : *t->GetFields()) leaves(x, out);
}
void assign(Smp::IField *f, Smp::Int32 v) {
  Smp::AnySimple a{Smp::PrimitiveTypeKind::PTK_Int32, v};
  if (auto *s = dynamic_cast<Smp::ISimpleField *>(f)) s->SetValue(a);
  else if (auto *x = dynamic_cast<Smp::ISimpleArrayField *>(f)) for (Smp::UInt64 i = 0; i < x->GetSize(); ++i) x->SetValue(i, a);
  else if (auto *r = dynamic_cast<Smp::IArrayField *>(f)) for (Smp::UInt64 i = 0; i < r->GetSize(); ++i) assign(r->GetItem(i), v);
  else if (auto *t = dynamic_cast<Smp::IStructureField *>(f)) for (auto *y : *t->GetFields()) assign(y, v);
}
const char *const OUT[] = {"o", "p", "arr", "parr", "sarr", "psarr", "st", "pst", "anon.n"}; const char *const IN[] = {"i1", "i2", "p1", "p2", "arr", "parr", "sarr", "psarr", "st", "pst"};
// which fields of t follow the outputs of s
std::set<std::string> follows(Source &s, Target &t) {
  std::set<std::string> r;
  for (auto *o : OUT) {
    for (auto *i : IN) assign(field(&t, i), 0);
    assign(field(&s, o), 5); dynamic_cast<Smp::IDataflowField &>(*field(&s, o)).Push();
    if (std::string(o) == "arr") for (auto *x : {"arr[0]", "arr[1]"}) if (auto *d = dynamic_cast<Smp::IDataflowField *>(field(&s, x))) d->Push();
    for (auto *i : IN) { std::vector<Smp::Int32> v; leaves(field(&t, i), v); for (auto x : v) if (x == 5) r.insert(std::string(o) + ">" + i); }
    assign(field(&s, o), 0);
  }
  return r;
}
// the links that are there, seen from outside
std::set<std::string> seen(Source &s, Target *t, int id, std::set<Target *> alive) {
  std::set<std::string> r; for (int &n : notified) n = 0;
  s.e1.Emit(); int a = notified[2 * id], b = notified[2 * id + 1]; for (int &n : notified) n = 0; s.e2.Emit();
  if (a) r.insert("e1>s1" + std::string(a > 1 ? "!" : "")); if (b) r.insert("e1>s2" + std::string(b > 1 ? "!" : "")); if (notified[2 * id]) r.insert("e2>s1"); if (notified[2 * id + 1]) r.insert("e2>s2?");
  for (auto *x : *static_cast<Smp::IReference &>(s.r1).GetComponents()) if (x == static_cast<Smp::IComponent *>(t)) r.insert("r1"); else if (!alive.count(dynamic_cast<Target *>(x))) r.insert("r1?");
  for (auto *x : *static_cast<Smp::IReference &>(s.r2).GetComponents()) if (x == static_cast<Smp::IComponent *>(t)) r.insert("r2"); else if (!alive.count(dynamic_cast<Target *>(x))) r.insert("r2?");
  if (t) for (auto &l : follows(s, *t)) r.insert(l == "arr>i2" ? "arr[1]>i2" : l);
  else for (auto *o : OUT) { assign(field(&s, o), 7); dynamic_cast<Smp::IDataflowField &>(*field(&s, o)).Push(); }
  return r;
}
std::string show(const std::set<std::string> &s) { std::string r; for (auto &x : s) r += x + " "; return r; }
MC_SCENARIO(links) {
  const int depth = mc::param("links", 3), extra = mc::param("nested", 1);
  Types types(nullptr); fill(types); Source s(types);
  // target 0 and 1 are siblings; 2 (when made) is a child of target 0
  struct Top : Xsmp::Model, virtual Xsmp::Composite { using Xsmp::Model::Model; } top("top");
  std::unique_ptr<Target> t[3]; t[0] = std::make_unique<Target>(0, types, "A", &top); t[1] = std::make_unique<Target>(1, types, "B", &top);
  std::set<std::string> links[3]; const bool deep = extra && mc::flip(); if (deep) { t[2] = std::make_unique<Target>(2, types, "N", t[0].get()); MC_OP("N is a child of A"); }
  int last = -1;
  for (int d = 0; d < depth; ++d) {
    int c = mc::choose((deep ? 3 : 2) * NL + 1); if (c == (deep ? 3 : 2) * NL) break;
    int i = c / NL; const std::string l = LINKS[c % NL];
    if (links[i].count(l)) return;
    // two links of the same connection list keep their order, others commute: only explore one order of those
    if (last >= 0) { auto src = [](const std::string &x) { return x.substr(0, x.find_first_of(">[")); }; if (c < last && src(LINKS[last % NL]) != src(l)) return; }
    last = c; MC_OP("link " << l << " to " << "ABN"[i]); mc::context("connect");
    // an array item must not be connected twice to the same field
    connect(s, *t[i], l); links[i].insert(l);
  }
  std::set<Target *> alive{t[0].get(), t[1].get(), t[2].get()};
  for (int i = 0; i < (deep ? 3 : 2); ++i) { auto got = seen(s, t[i].get(), i, alive); MC_CHECK(got == links[i], "connected", "links of " << "ABN"[i] << ": " << show(got) << "instead of " << show(links[i])); }
  const int victim = mc::choose(deep ? 5 : 4);
  mc::context("RemoveLinks"); static const char *const VN[] = {"A", "B", "N"};
  if (victim >= (deep ? 3 : 2)) { MC_OP("RemoveLinks(" << (victim == (deep ? 4 : 3) ? "itself" : "null") << ")"); if (victim == (deep ? 4 : 3)) s.RemoveLinks(&s); else s.RemoveLinks(nullptr); }
  else { MC_OP("RemoveLinks(" << VN[victim] << ")"); s.RemoveLinks(t[victim].get()); links[victim].clear(); if (victim == 0 && deep) { for (auto it = links[2].begin(); it != links[2].end();) it = it->find('>') != it->npos && (*it)[0] != 'e' ? links[2].erase(it) : std::next(it); } }
  for (int i = 0; i < (deep ? 3 : 2); ++i) {
    auto got = seen(s, t[i].get(), i, alive);
    for (auto &l : got) MC_CHECK(links[i].count(l), "kept:" + l, "link " << l << " to " << "ABN"[i] << " is still there after RemoveLinks");
    for (auto &l : links[i]) MC_CHECK(got.count(l), "lost:" + l, "link " << l << " to " << "ABN"[i] << " has disappeared");
  }
  if (victim < 2 && !(deep && victim == 0)) { // the target may now be destroyed
    MC_OP("destroy " << VN[victim]); mc::context("destroyed target"); alive.erase(t[victim].get()); t[victim].reset();
    for (int i = 0; i < (deep ? 3 : 2); ++i) { auto got = seen(s, t[i].get(), i, alive); if (i == victim) { for (auto &l : got) MC_CHECK(false, "dangling:" + l, "link " << l << " remains after destruction"); } else MC_CHECK(got == links[i], "lost", "links of " << VN[i] << " are now " << show(got)); }
  }
  mc::outcome(mc::hashStr(show(links[0]) + "/" + show(links[1]) + std::to_string(victim)));
}
} // namespace
