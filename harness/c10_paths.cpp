// C10: legal names; every object's path resolves to it and a path only resolves to what its segments denote.
#include "mc.h"
#include <Smp/IArrayField.h>
#include <Smp/ISimpleArrayField.h>
#include <Smp/IStructureField.h>
#include <Smp/InvalidObjectName.h>
#include <Smp/Publication/IStructureType.h>
#include <Xsmp/Aggregate.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/EntryPoint.h>
#include <Xsmp/EntryPointPublisher.h>
#include <Xsmp/EventConsumer.h>
#include <Xsmp/EventProvider.h>
#include <Xsmp/EventSink.h>
#include <Xsmp/EventSource.h>
#include <Xsmp/Factory.h>
#include <Xsmp/FallibleModel.h>
#include <Xsmp/Field.h>
#include <Xsmp/Helper.h>
#include <Xsmp/Model.h>
#include <Xsmp/Object.h>
#include <Xsmp/Publication/Publication.h>
#include <Xsmp/Publication/TypeRegistry.h>
#include <Xsmp/Reference.h>
#include <Xsmp/Service.h>
#include <Xsmp/Services/XsmpResolver.h>
#include <Xsmp/Simulator.h>
#include <cctype>
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace {
struct Top : public Xsmp::Model, public virtual Xsmp::Composite, public virtual Xsmp::Aggregate, public virtual Xsmp::EntryPointPublisher, public virtual Xsmp::EventProvider, public virtual Xsmp::EventConsumer, public virtual Xsmp::FallibleModel { using Xsmp::Model::Model; };
bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
bool digit(char c) { return c >= '0' && c <= '9'; }
enum Legal { No, Yes, Open };
Legal legal(const std::string &s) { // letter (letter|digit|_)*  or an array item [digits]; a name followed by indices is left open
  std::size_t i = 0;
  if (!s.empty() && letter(s[0])) { while (i < s.size() && (letter(s[i]) || digit(s[i]) || s[i] == '_')) ++i; if (i == s.size()) return Yes; }
  bool named = i > 0, items = false;
  while (i < s.size() && s[i] == '[') { std::size_t j = i + 1; while (j < s.size() && digit(s[j])) ++j; if (j == i + 1 || j == s.size() || s[j] != ']') return No; if (items || named) { i = j + 1; items = named = true; continue; } i = j + 1; items = true; }
  if (i == s.size() && items) return named ? Open : Yes;
  return No;
}
void checkOne(const std::string &n) {
  MC_OP("name \"" << n << "\""); mc::context("Object");
  Legal want = legal(n); bool ok = true; std::string got;
  try { Xsmp::Object o(n.c_str(), "desc", nullptr); got = o.GetName(); } catch (const Smp::InvalidObjectName &e) { ok = false; MC_CHECK(n == e.GetInvalidName(), "exception", "InvalidObjectName reports the name \"" << e.GetInvalidName() << "\" instead of \"" << n << "\""); }
  if (want == Yes) MC_CHECK(ok && got == n, "legal", "the legal name \"" << n << "\" was " << (ok ? "stored as \"" + got + "\"" : "refused"));
  if (want == No) MC_CHECK(!ok, "illegal", "the illegal name \"" << n << "\" was accepted");
  mc::outcome(static_cast<std::uint64_t>(want * 2 + ok));
}
}
MC_SCENARIO(names) {
  static const char A[] = "aZ_09[]./ -\x80"; std::string n; int len = mc::choose(mc::param("len", 4) + 1);
  for (int i = 0; i < len; ++i) n += A[mc::choose(12)];
  checkOne(n);
}
MC_SCENARIO(characters) { int c = 1 + mc::choose(255); std::string s(1, static_cast<char>(c)); for (const std::string &n : {s, "a" + s, "a" + s + "b", "[1" + s + "]", "[" + s + "]", "[1]" + s}) checkOne(n); }
MC_SCENARIO(named_kinds) {
  static const char *const N[] = {"a", "abc_1", "", "1", "_a", "a b", "a.b", "a/b", "[", "[]", "[a]", "[1", "a-", "é", "a\n", nullptr};
  static const char *const K[] = {"Object", "Model", "Service", "EntryPoint", "EventSource", "EventSink", "Container", "Reference", "simple field", "array field", "published field", "published structure", "published array", "published operation", "published property", "operation parameter", "float type", "integer type", "enumeration type", "string type", "array type", "structure type", "class type", "structure type field", "Simulator", "Factory", "null name"};
  const int k = mc::choose(26), ni = mc::choose(16); const char *n = N[ni]; if (k == 23 && !n) return; /* a null field name of a structure type is outside its contract */ MC_OP(K[k] << " named " << (n ? n : "<null>")); mc::context(K[k]);
  bool ok = true, want = ni < 2; std::string got;
  auto sim = std::make_unique<Xsmp::Simulator>("sim", ""); auto *reg = sim->GetTypeRegistry();
  Top top("top", "", sim.get(), sim.get()); Xsmp::Publication::Publication pub(&top, reg); top.Publish(&pub); Smp::Int32 v = 0;
  const Smp::Uuid u{1, 2, 3, 4, 5};
  try {
    switch (k) {
    case 0: { Xsmp::Object o(n, "", &top); got = o.GetName(); break; }
    case 1: { Xsmp::Model o(n, "", &top, sim.get()); got = o.GetName(); break; }
    case 2: { struct S : Xsmp::Service { using Xsmp::Service::Service; } o(n, "", sim.get(), sim.get()); got = o.GetName(); break; }
    case 3: { Xsmp::EntryPoint o(n, "", &top, [] {}); got = o.GetName(); break; }
    case 4: { Xsmp::EventSource<void> o(n, "", &top); got = o.GetName(); break; }
    case 5: { Xsmp::EventSink<void> o(n, "", &top, [](Smp::IObject *) {}); got = o.GetName(); break; }
    case 6: { Xsmp::Container<Smp::IModel> o(n, "", &top, 0, -1); got = o.GetName(); break; }
    case 7: { Xsmp::Reference<Smp::IModel> o(n, "", &top, 0, -1); got = o.GetName(); break; }
    case 8: { Xsmp::SimpleField<Smp::Int32> o(reg, Smp::Uuids::Uuid_Int32, n, "", &top); got = o.GetName(); break; }
    case 9: { reg->AddArrayType("T", "", u, Smp::Uuids::Uuid_Int32, 4, 2); Xsmp::ArrayField<Xsmp::Array<Smp::Int32, 2>> o(reg, u, n, "", &top); got = o.GetName(); break; }
    case 10: pub.PublishField(n, "", &v); got = (*pub.GetFields()->begin())->GetName(); break;
    case 11: pub.PublishStructure(n, ""); got = (*pub.GetFields()->begin())->GetName(); break;
    case 12: pub.PublishArray(n, "", 2, &v, Smp::PrimitiveTypeKind::PTK_Int32); got = (*pub.GetFields()->begin())->GetName(); break;
    case 13: pub.PublishOperation(n, "", Smp::ViewKind::VK_All); got = (*pub.GetOperations()->begin())->GetName(); break;
    case 14: pub.PublishProperty(n, "", Smp::Uuids::Uuid_Int32, Smp::AccessKind::AK_ReadWrite, Smp::ViewKind::VK_All); got = (*pub.GetProperties()->begin())->GetName(); break;
    case 15: { auto *op = pub.PublishOperation("op", "", Smp::ViewKind::VK_All); op->PublishParameter(n, "", Smp::Uuids::Uuid_Int32, Smp::Publication::ParameterDirectionKind::PDK_In); got = (*(*pub.GetOperations()->begin())->GetParameters()->begin())->GetName(); break; }
    case 16: got = reg->AddFloatType(n, "", u, 0, 1, true, true, "")->GetName(); break;
    case 17: got = reg->AddIntegerType(n, "", u, 0, 1, "")->GetName(); break;
    case 18: got = reg->AddEnumerationType(n, "", u, 4)->GetName(); break;
    case 19: got = reg->AddStringType(n, "", u, 4)->GetName(); break;
    case 20: got = reg->AddArrayType(n, "", u, Smp::Uuids::Uuid_Int32, 4, 2)->GetName(); break;
    case 21: got = reg->AddStructureType(n, "", u)->GetName(); break;
    case 22: reg->AddClassType("B", "", Smp::Uuid{9, 9, 9, 9, 9}, Smp::Uuids::Uuid_Void); got = reg->AddClassType(n, "", u, Smp::Uuid{9, 9, 9, 9, 9})->GetName(); break;
    case 23: got = n ? n : ""; { auto *t = reg->AddStructureType("S", "", u); t->AddField(n, "", Smp::Uuids::Uuid_Int32, 0, Smp::ViewKind::VK_All); Smp::Int32 m[2]{}; pub.PublishField("s", "", m, u, Smp::ViewKind::VK_All); got = (*dynamic_cast<Smp::IStructureField *>(pub.GetField("s"))->GetFields()->begin())->GetName(); } break;
    case 24: { Xsmp::Simulator s2(n, ""); got = s2.GetName(); break; }
    case 25: { std::unique_ptr<Smp::IFactory> f(Xsmp::Factory::Create<Top>(n, "", sim.get(), u)); got = f->GetName(); break; }
    default: break;
    }
  } catch (const Smp::InvalidObjectName &) { ok = false; }
  MC_CHECK(ok == want, "kind", K[k] << " named " << (n ? n : "<null>") << " was " << (ok ? "accepted" : "refused"));
  if (ok) MC_CHECK(got == n, "kind-name", K[k] << " named " << n << " has the name " << got);
  else {
    mc::context("after a refused creation");
    MC_CHECK(pub.GetFields()->size() == 0 || k == 23, "kind-left", "a refused " << K[k] << " left a field"); MC_CHECK(pub.GetOperations()->size() == (k == 15) && pub.GetProperties()->size() == 0, "kind-left", "a refused " << K[k] << " left an operation or property");
    MC_CHECK(top.GetContainers()->size() == 0 && top.GetReferences()->size() == 0 && top.GetEntryPoints()->size() == 0 && top.GetEventSources()->size() == 0 && top.GetEventSinks()->size() == 0, "kind-left", "a refused " << K[k] << " was registered by its parent");
    if (k >= 16 && k != 23 && k < 24) MC_CHECK(reg->GetType(u) == nullptr, "kind-left", "a refused " << K[k] << " was registered");
  }
}
namespace {
enum Sep { Slash, Dot, Item };
struct Node { Smp::IObject *obj; std::string name; Sep sep; int parent; bool component; std::map<std::string, int> kids, refs, hidden; bool array = false; int items = 0; };
struct Tree {
  std::vector<Node> n; std::vector<int> senders; std::unique_ptr<Xsmp::Simulator> sim; Smp::Services::IResolver *res = nullptr;
  std::vector<std::unique_ptr<Smp::IObject>> own; std::vector<std::unique_ptr<Xsmp::Publication::Publication>> pubs; Smp::Int32 mem[64]{};
  int add(Smp::IObject *o, const char *name, Sep s, int parent, bool comp = false) { if (!o) mc::error(std::string("no object ") + name); n.push_back({o, name, s, parent, comp, {}, {}, {}}); int i = static_cast<int>(n.size()) - 1; if (parent >= 0) n[static_cast<std::size_t>(parent)].kids[name] = i; return i; }
  void fields(int c, const Smp::FieldCollection *fs) {
    for (auto *f : *fs) { int i = add(f, f->GetName(), Dot, c); sub(i, f); }
  }
  void sub(int i, Smp::IField *f) {
    if (auto *st = dynamic_cast<Smp::IStructureField *>(f)) fields(i, st->GetFields());
    else if (auto *ar = dynamic_cast<Smp::IArrayField *>(f)) { n[static_cast<std::size_t>(i)].array = true; n[static_cast<std::size_t>(i)].items = static_cast<int>(ar->GetSize()); for (std::size_t k = 0; k < ar->GetSize(); ++k) { int j = add(ar->GetItem(k), ("[" + std::to_string(k) + "]").c_str(), Item, i); sub(j, ar->GetItem(k)); } }
  }
  Xsmp::Publication::Publication *publish(Smp::IComponent *c) { pubs.push_back(std::make_unique<Xsmp::Publication::Publication>(c, sim->GetTypeRegistry())); return pubs.back().get(); }
  int component(const char *name, Smp::IComposite *parent, int pn, Smp::IContainer *into, Top *&out) {
    out = new Top(name, "", parent, sim.get()); auto *pub = publish(out); out->Publish(pub); auto *reg = sim->GetTypeRegistry(); into ? into->AddComponent(out) : sim->AddModel(out);
    int c = add(out, name, Slash, pn, true); senders.push_back(c);
    pub->PublishField("f", "", &mem[0]); auto *s = pub->PublishStructure("s", ""); s->PublishField("x", "", &mem[1]); auto *nn = s->PublishStructure("n", ""); nn->PublishField("z", "", &mem[2]); nn->PublishField("f", "", &mem[3]);
    auto *a = pub->PublishArray("a", ""); for (int k = 0; k < 2; ++k) { auto *it = a->PublishStructure(k ? "[1]" : "[0]", ""); it->PublishField("x", "", &mem[4 + k]); }
    pub->PublishArray("sa", "", 3, &mem[8], Smp::PrimitiveTypeKind::PTK_Int32);
    pub->PublishField("ta", "", &mem[12], Smp::Uuid{7, 7, 7, 7, 7}, Smp::ViewKind::VK_All);
    fields(c, pub->GetFields());
    auto keep = [&](Smp::IObject *o) { own.emplace_back(o); return o; };
    add(keep(new Xsmp::EntryPoint("ep", "", out, [] {})), "ep", Dot, c); add(keep(new Xsmp::EventSource<void>("es", "", out)), "es", Dot, c); add(keep(new Xsmp::EventSink<void>("ek", "", out, [](Smp::IObject *) {})), "ek", Dot, c);
    add(keep(new Xsmp::SimpleField<Smp::Bool, Xsmp::Annotation::failure>(reg, Smp::Uuids::Uuid_Bool, "fl", "", out)), "fl", Dot, c);
    auto *op = pub->PublishOperation("op", "", Smp::ViewKind::VK_All); op->PublishParameter("p", "", Smp::Uuids::Uuid_Int32, Smp::Publication::ParameterDirectionKind::PDK_In); add(out->GetOperations()->at("op"), "op", Dot, c);
    pub->PublishProperty("pr", "", Smp::Uuids::Uuid_Int32, Smp::AccessKind::AK_ReadWrite, Smp::ViewKind::VK_All); add(out->GetProperties()->at("pr"), "pr", Dot, c);
    return c;
  }
  int hide(int c, const char *name, Smp::IObject *o) { n.push_back({o, name, Dot, c, false, {}, {}, {}}); int i = static_cast<int>(n.size()) - 1; n[static_cast<std::size_t>(c)].hidden["_" + std::string(name)] = i; return i; }
  Tree() {
    sim = std::make_unique<Xsmp::Simulator>("sim", ""); add(sim.get(), "sim", Slash, -1, true); auto *reg = sim->GetTypeRegistry();
    auto *st = reg->AddStructureType("S", "", Smp::Uuid{6, 6, 6, 6, 6}); st->AddField("x", "", Smp::Uuids::Uuid_Int32, 0, Smp::ViewKind::VK_All); st->AddField("y", "", Smp::Uuids::Uuid_Int32, 4, Smp::ViewKind::VK_All); reg->AddArrayType("AS", "", Smp::Uuid{7, 7, 7, 7, 7}, Smp::Uuid{6, 6, 6, 6, 6}, 8, 2);
    auto *r = new Xsmp::Services::XsmpResolver("XsmpResolver", "", sim.get(), sim.get()); sim->AddService(r); res = r; senders.push_back(add(r, "XsmpResolver", Slash, 0, true));
    Top *m, *nn, *k1, *k2, *l;
    int im = component("M", sim.get(), 0, nullptr, m), in = component("N", sim.get(), 0, nullptr, nn);
    auto *c = new Xsmp::Container<Smp::IModel>("c", "", m, 0, -1); own.emplace_back(c); hide(im, "c", c); auto *c2 = new Xsmp::Container<Smp::IModel>("c2", "", m, 0, -1); own.emplace_back(c2); hide(im, "c2", c2);
    component("K", m, im, c, k1); int ik = static_cast<int>(n.size()); ik = n[static_cast<std::size_t>(im)].kids["K"]; component("f1", m, im, c2, k2);
    auto *d = new Xsmp::Container<Smp::IModel>("d", "", k1, 0, -1); own.emplace_back(d); hide(ik, "d", d); component("M", k1, ik, d, l);
    auto *rf = new Xsmp::Reference<Smp::IModel>("r", "", m, 0, -1); own.emplace_back(rf); rf->AddComponent(nn); n[static_cast<std::size_t>(im)].refs["N"] = in; hide(im, "r", rf);
    hide(0, "Services", sim->GetContainer("Services")); hide(0, "Models", sim->GetContainer("Models"));
  }
  std::string path(int i) const { if (i == 0) return "/"; const Node &x = n[static_cast<std::size_t>(i)]; std::string p = path(x.parent); if (x.parent == 0) return p + x.name; return p + (x.sep == Slash ? "/" : x.sep == Dot ? "." : "") + x.name; }
  std::string show(const Smp::IObject *o) const { if (!o) return "<null>"; for (std::size_t i = 0; i < n.size(); ++i) if (n[i].obj == o) return path(static_cast<int>(i)); return Xsmp::Helper::GetPath(o); }
};
// items of an array published without the type registry (a known finding concerns their parent)
std::string anon(const std::string &p) { return p.find(".a[") != std::string::npos ? ":anonymous-array-item" : ""; }
Tree &tree() { static Tree *t = new Tree; return *t; }
// what the next segment denotes from node i: node, or -1; `visible`: through the standard rules, `ambiguous` otherwise
int step(const Tree &t, int i, const std::string &s, bool &standard) {
  const Node &x = t.n[static_cast<std::size_t>(i)];
  if (s == ".") return i;
  if (s == "..") return x.parent;
  if (auto k = x.kids.find(s); k != x.kids.end()) return k->second;
  standard = false;
  if (x.array && s.size() > 3 && s[0] == '[' && s[1] == '-') { int v = std::stoi(s.substr(2)); if (v > 0 && v <= x.items) return x.kids.at("[" + std::to_string(x.items - v) + "]"); }
  if (auto k = x.refs.find(s); k != x.refs.end()) { standard = true; return k->second; }
  if (auto k = x.hidden.find(s); k != x.hidden.end()) return k->second;
  return -1;
}
}
MC_SCENARIO(canonical) {
  Tree &t = tree(); const int N = static_cast<int>(t.n.size()); int i = mc::choose(N), j = mc::choose(static_cast<int>(t.senders.size())); const Node &x = t.n[static_cast<std::size_t>(i)];
  const std::string p = t.path(i); MC_OP("object " << p); mc::context("GetPath");
  std::string got = Xsmp::Helper::GetPath(x.obj); MC_CHECK(got == p, "path" + anon(p), "GetPath() gives " << got << " instead of " << p);
  bool hidden = false; for (auto &y : t.n) for (auto &h : y.hidden) hidden |= h.second == i;
  if (hidden) return;
  mc::context("ResolveAbsolute"); auto *o = t.res->ResolveAbsolute(p.c_str()); MC_CHECK(o == x.obj, "absolute", p << " resolves to " << t.show(o));
  // relative to a sender: up to the common ancestor, then down
  int s = t.senders[static_cast<std::size_t>(j)]; std::vector<int> up; for (int a = i; a >= 0; a = t.n[static_cast<std::size_t>(a)].parent) up.push_back(a);
  std::string rel; int a = s; for (;; a = t.n[static_cast<std::size_t>(a)].parent) { auto it = std::find(up.begin(), up.end(), a); if (it != up.end()) { bool first = rel.empty(); while (it != up.begin()) { --it; const Node &y = t.n[static_cast<std::size_t>(*it)]; if (!first) rel += (y.sep == Item ? "" : y.sep == Dot && rel.substr(rel.size() - 1) != "." ? "." : "/"); first = false; rel += y.name; } break; } rel += rel.empty() ? ".." : "/.."; }
  if (rel.empty()) rel = ".";
  for (const std::string &q : {rel, "./" + rel}) { MC_OP("from " << t.path(s) << ": " << q); mc::context("ResolveRelative"); o = t.res->ResolveRelative(q.c_str(), dynamic_cast<Smp::IComponent *>(t.n[static_cast<std::size_t>(s)].obj)); if (s == 0) continue; MC_CHECK(o == x.obj, "relative", q << " from " << t.path(s) << " resolves to " << t.show(o) << " instead of " << p); }
  // neither without its leading '/', nor relative with one
  MC_CHECK(t.res->ResolveAbsolute(p.c_str() + 1) == nullptr, "absolute-kind", "ResolveAbsolute accepts the relative path " << p.c_str() + 1); MC_CHECK(t.res->ResolveRelative(p.c_str(), t.res) == nullptr, "relative-kind", "ResolveRelative accepts the absolute path " << p);
  mc::outcome(mc::hashStr(p + rel));
}
MC_SCENARIO(paths) {
  Tree &t = tree();
  static const char *const SEG[] = {"M", "..", ".", "K", "N", "f", "s", "n", "z", "a", "[0]", "[1]", "x", "[2]", "[-1]", "[-3]", "f1", "op", "ep", "es", "ek", "fl", "pr", "sa", "ta", "_c", "_Models", "zz", "[]", "[x]", "[0x]", "_", "sim", "[00]", "XsmpResolver", "[99999999999999999999]", "...", "_r", "d", "ff"};
  const int nseg = mc::param("segs", 40), depth = mc::param("depth", 3); int s = mc::choose(static_cast<int>(t.senders.size()) + 1); bool abs = s == static_cast<int>(t.senders.size());
  int at = abs ? 0 : t.senders[static_cast<std::size_t>(s)]; std::string p = abs ? "/" : ""; bool canonical = true; int visible = -1; bool open = false; (void)visible;
  std::string anonUp, last; std::string base = abs ? "/" : t.path(at);
  for (int d = 0; d < depth; ++d) {
    std::string seg = SEG[mc::choose(nseg)]; int sep = p.empty() || (abs && d == 0) ? -1 : mc::choose(seg[0] == '[' ? 3 : 2); // 0: '/', 1: '.', 2: none
    if (sep == 1 && (seg[0] == '.' || last[0] == '.')) return; // dots would merge
    if (d == 0 && !abs && seg[0] == '[') canonical = false;
    if (at >= 0 && seg == ".." && t.n[static_cast<std::size_t>(at)].sep == Item && t.n[static_cast<std::size_t>(t.n[static_cast<std::size_t>(at)].parent)].name == "a") anonUp = ":anonymous-array-item";
    bool standard = true; int nx = at < 0 ? -1 : step(t, at, seg, standard);
    if (seg == "[00]" && at >= 0 && t.n[static_cast<std::size_t>(at)].array) open = true; // other spelling of an index
    if (nx >= 0) {
      const Node &y = t.n[static_cast<std::size_t>(nx)]; int want = seg == ".." || seg == "." || y.sep == Slash || last == ".." || last == "." ? 0 : y.sep == Dot ? 1 : 2; if (sep >= 0 && sep != want) canonical = false;
      if (!standard) canonical = false;
      if (last == "." && y.sep != Slash && seg != "..") canonical = false;
    }
    p += sep == 0 ? "/" : sep == 1 ? "." : ""; p += seg; last = seg; at = nx;
    bool stopped = at < 0; if (stopped && d + 1 < depth && mc::flip() == 0) d = depth; // below an unresolved segment: end here, or add one more segment
    if (stopped && d + 1 < depth) d = depth - 2;
  }
  if (open) return;
  MC_OP((abs ? "absolute " : "from " + base + ": ") << p); mc::context(abs ? "ResolveAbsolute" : "ResolveRelative");
  auto *sender = abs ? nullptr : dynamic_cast<Smp::IComponent *>(t.n[static_cast<std::size_t>(t.senders[static_cast<std::size_t>(s)])].obj);
  Smp::IObject *o = abs ? t.res->ResolveAbsolute(p.c_str()) : t.res->ResolveRelative(p.c_str(), sender), *want = at >= 0 ? t.n[static_cast<std::size_t>(at)].obj : nullptr;
  if (canonical) MC_CHECK(o == want, "resolve" + anonUp, p << (abs ? "" : " from " + base) << " resolves to " << t.show(o) << " instead of " << t.show(want));
  else MC_CHECK(o == nullptr || o == want, "wrong-object" + anonUp, p << (abs ? "" : " from " + base) << " resolves to " << t.show(o) << " although it denotes " << t.show(want));
  mc::outcome(mc::hashStr(t.show(o)));
}
MC_SCENARIO(changes) { // components come and go
  Xsmp::Simulator sim("sim", ""); auto *r = new Xsmp::Services::XsmpResolver("XsmpResolver", "", &sim, &sim); sim.AddService(r);
  auto *m = new Top("M", "", &sim, &sim); sim.AddModel(m); Xsmp::Container<Smp::IModel> c("c", "", m, 0, -1), c2("c2", "", m, 0, -1); Xsmp::Reference<Smp::IModel> ref("r", "", m, 0, -1); auto *n = new Top("N", "", &sim, &sim); sim.AddModel(n);
  static const char *const NAMES[] = {"a", "b"}; Smp::IComponent *where[2][2] = {}; bool referenced = false; const int depth = mc::param("depth", 3) + 1;
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose(9);
    if (op < 8) { int k = op % 2, ci = op / 2 % 2; auto &ctn = ci ? c2 : c;
      if (op < 4) { if (where[0][k] || where[1][k]) return; MC_OP("add " << NAMES[k] << " to " << ctn.GetName()); auto *x = new Top(NAMES[k], "", m, &sim); ctn.AddComponent(x); where[ci][k] = x; }
      else { if (!where[ci][k]) return; MC_OP("delete " << NAMES[k]); ctn.DeleteComponent(where[ci][k]); where[ci][k] = nullptr; } }
    else if (!referenced) { ref.AddComponent(n); referenced = true; MC_OP("reference N"); } else { ref.RemoveComponent(n); referenced = false; MC_OP("forget N"); }
    for (int k = 0; k < 2; ++k) { Smp::IComponent *w = where[0][k] ? where[0][k] : where[1][k]; auto *o = r->ResolveAbsolute((std::string("/M/") + NAMES[k]).c_str()); MC_CHECK(o == w, "changed", "/M/" << NAMES[k] << " resolves to " << (o ? o->GetName() : "<null>")); o = r->ResolveRelative(NAMES[k], m); MC_CHECK(o == w, "changed", NAMES[k] << " from M resolves wrongly"); }
    auto *o = r->ResolveAbsolute("/M/N"); MC_CHECK(o == (referenced ? n : nullptr), "changed", "/M/N resolves to " << (o ? o->GetName() : "<null>"));
    MC_CHECK(r->ResolveAbsolute("/N") == n, "changed", "/N does not resolve to N");
  }
}
