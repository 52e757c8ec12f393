// C19: dataflow connections. Histories of connect, disconnect, write, push over outputs and inputs of every shape.
#include "mc.h"
#include "fields_zoo.h"
#include <Smp/Exception.h>
#include <Smp/FieldAlreadyConnected.h>
#include <Smp/InvalidTarget.h>
#include <set>
using namespace zoo;
namespace {
template <class T> Shape anon(K k, bool in, bool out, const char *n) { Shape s; s.name = n; s.input = in; s.output = out; s.make = [=](Env &e, const char *name) { auto m = std::make_unique<Mem<SArr<T, 2>>>(); e.pub.PublishArray(name, "", 2, m->b->v.data(), k, VK::VK_All, true, in, out); m->field = e.host.GetField(name); return m; }; return s; }
// a family: outputs first (published = auto-push not promised), then inputs that match, then fields that are no valid target
struct Item { Shape s; bool out, in, published, match; };
struct Family { const char *name; std::vector<Item> items; };
template <class T> Item typedItem(const char *n, Smp::Uuid u, bool match = true) { Item i; i.s = typedShape<T>(n, u); i.published = false; i.match = match; i.out = std::is_base_of_v<Smp::IDataflowField, T>; i.in = false; return i; }
template <class T> Item tin(const char *n, Smp::Uuid u, bool match = true) { auto i = typedItem<T>(n, u, match); i.in = true; return i; }
template <class T> Item pub(const char *n, Smp::Uuid u, bool in, bool out, bool match = true) { Item i; i.s = memShape<T>(n, u, true, in, out); i.published = true; i.in = in; i.out = out; i.match = match; return i; }
Item anonI(Shape s, bool match = true) { Item i; i.in = s.input; i.out = s.output; i.s = std::move(s); i.published = true; i.match = match; return i; }
const std::vector<Family> &families() {
  using Xsmp::Field; using A = Arr<Int32, 2>; using S = SArr<Int16, 2>;
  static const std::vector<Family> r = {
    {"simple", {typedItem<Field<Int32>::output>("o1", U::Uuid_Int32), typedItem<Field<Int32>::forcible::output>("o2", U::Uuid_Int32), pub<Int32>("po", U::Uuid_Int32, false, true), tin<Field<Int32>::input::output>("x", U::Uuid_Int32), tin<Field<Int32>::input>("i1", U::Uuid_Int32), tin<Field<Int32>::input::forcible>("i2", U::Uuid_Int32), pub<Int32>("pi", U::Uuid_Int32, true, false),
      typedItem<Field<Int32>>("n", U::Uuid_Int32, false), pub<Int32>("pn", U::Uuid_Int32, false, false, false), tin<Field<Float64>::input>("f", U::Uuid_Float64, false), tin<Field<Arr<Int32, 2>>::input>("arr", id(21), false), tin<Field<Mix>::input>("st", id(30), false)}},
    {"string", {typedItem<Field<Str4>::output>("o1", id(10)), pub<Str4>("po", id(10), false, true), tin<Field<Str4>::input>("i1", id(10)), pub<Str4>("pi", id(10), true, false), tin<Field<Int8>::input>("f", U::Uuid_Int8, false), tin<Field<SArr<Str4, 2>>::input>("a", id(24), false)}},
    {"simple array", {typedItem<Field<S>::output>("o1", id(20)), pub<S>("po", id(20), false, true), anonI(anon<Int16>(K::PTK_Int16, false, true, "ao")), tin<Field<S>::input>("i1", id(20)), tin<Field<S>::input::output>("x", id(20)), pub<S>("pi", id(20), true, false), anonI(anon<Int16>(K::PTK_Int16, true, false, "ai")),
      tin<Field<SArr<Bool, 2>>::input>("other kind", id(23), false), pub<SArr<E32, 2>>("other kind p", id(27), true, false, false), anonI(anon<Float64>(K::PTK_Float64, true, false, "other kind a"), false), tin<Field<SArr<E8, 3>>::input>("other size", id(22), false), typedItem<Field<S>>("n", id(20), false), tin<Field<A>::input>("array", id(21), false)}},
    {"array", {typedItem<Field<A>::output>("o1", id(21)), pub<A>("po", id(21), false, true), tin<Field<A>::input>("i1", id(21)), tin<Field<A>::input::output>("x", id(21)), pub<A>("pi", id(21), true, false), tin<Field<Arr<Str4, 2>>::input>("other kind", id(25), false), tin<Field<Arr<Arr<Int32, 2>, 2>>::input>("nested", id(41), false), typedItem<Field<A>>("n", id(21), false)}},
    {"structure", {typedItem<Field<Mix>::output>("o1", id(30)), pub<Mix>("po", id(30), false, true), tin<Field<Mix>::input>("i1", id(30)), pub<Mix>("pi", id(30), true, false), typedItem<Field<Mix>>("n", id(30), false), tin<Field<Deep>::input>("other", id(31), false), tin<Field<Int8>::input>("simple", U::Uuid_Int8, false)}},
    {"deep", {typedItem<Field<Deep>::output>("o1", id(31)), pub<Deep>("po", id(31), false, true), tin<Field<Deep>::input>("i1", id(31)), pub<Deep>("pi", id(31), true, false), tin<Field<DeepS>::input>("other", id(32), false)}},
    {"array of structures", {typedItem<Field<Arr<Mix, 2>>::output>("o1", id(40)), pub<Arr<Mix, 2>>("po", id(40), false, true), tin<Field<Arr<Mix, 2>>::input>("i1", id(40)), pub<Arr<Mix, 2>>("pi", id(40), true, false), tin<Field<A>::input>("other", id(21), false)}},
    {"array of arrays", {typedItem<Field<Arr<A, 2>>::output>("o1", id(41)), pub<Arr<A, 2>>("po", id(41), false, true), tin<Field<Arr<A, 2>>::input>("i1", id(41)), pub<Arr<A, 2>>("pi", id(41), true, false), tin<Field<Arr<S, 2>>::input>("other", id(42), false)}},
    {"array of simple arrays", {typedItem<Field<Arr<S, 2>>::output>("o1", id(42)), pub<Arr<S, 2>>("po", id(42), false, true), tin<Field<Arr<S, 2>>::input>("i1", id(42)), pub<Arr<S, 2>>("pi", id(42), true, false), tin<Field<Arr<A, 2>>::input>("other", id(41), false)}},
  };
  return r;
}
/// a place in the tree of an item: (item, first leaf, number of leaves, path)
struct Node { int item; size_t first, count; Smp::IField *f; std::string path; bool root; };
struct World {
  const Family &fam; Env env; std::vector<std::unique_ptr<Instance>> in; std::vector<std::vector<V>> val; std::vector<Node> nodes;
  std::set<std::pair<int, int>> conns; // node -> node
  explicit World(const Family &f) : fam(f) {
    in.reserve(f.items.size()); int k = 0;
    for (auto &i : f.items) { in.push_back(i.s.make(env, ("f" + std::to_string(k)).c_str())); val.emplace_back(); for (auto &l : in.back()->leaves) { l.literals = nullptr; l.write(value(l, k % 2)); val.back().push_back(l.read()); } ++k; }
    for (int i = 0; i < static_cast<int>(in.size()); ++i) { size_t n = 0; add(i, in[static_cast<size_t>(i)]->field, n, f.items[static_cast<size_t>(i)].s.name, true); }
  }
  static V value(const Leaf &l, int k) { // values that are literals of the enumerations, too
    if (l.kind == K::PTK_Int8) return vi(C::Int, k ? 5 : -2); if (l.kind == K::PTK_Int16) return vi(C::Int, k ? 5 : -300); if (l.kind == K::PTK_Int32) return vi(C::Int, k ? 5 : -70000); 
    switch (anym::classOf(l.kind)) { case C::Str: return vs(k ? "xyzw" : "ab"); case C::Bool: return vi(C::Bool, k); case C::Float: return vf(k ? 2.5 : -1); default: return vi(C::Int, k ? 9 : 4); }
  }
  void add(int item, Smp::IField *f, size_t &n, const std::string &path, bool root) {
    size_t me = nodes.size(); nodes.push_back({item, n, 0, f, path, root});
    if (dynamic_cast<Smp::ISimpleField *>(f)) ++n; else if (auto *sa = dynamic_cast<Smp::ISimpleArrayField *>(f)) n += sa->GetSize();
    else if (auto *a = dynamic_cast<Smp::IArrayField *>(f)) for (Smp::UInt64 i = 0; i < a->GetSize(); ++i) add(item, a->GetItem(i), n, path + "[" + std::to_string(i) + "]", false);
    else if (auto *st = dynamic_cast<Smp::IStructureField *>(f)) for (auto *x : *st->GetFields()) add(item, x, n, path + "." + x->GetName(), false);
    nodes[me].count = n - nodes[me].first;
  }
  const Item &it(const Node &n) const { return fam.items[static_cast<size_t>(n.item)]; }
  /// a leaf of an item takes a value; typed outputs push it on
  void set(int item, size_t leaf, const V &v) {
    auto &l = in[static_cast<size_t>(item)]->leaves[leaf]; if (auto *ff = dynamic_cast<Smp::IForcibleField *>(in[static_cast<size_t>(item)]->field)) if (ff->IsForced()) return;
    V &cur = val[static_cast<size_t>(item)][leaf]; cur = stored(l, v); if (fam.items[static_cast<size_t>(item)].published || !fam.items[static_cast<size_t>(item)].out) return;
    for (auto &[a, b] : conns) { auto &na = nodes[static_cast<size_t>(a)]; auto &nb = nodes[static_cast<size_t>(b)]; if (na.item == item && leaf >= na.first && leaf < na.first + na.count) set(nb.item, nb.first + leaf - na.first, cur); }
  }
  void pushNode(int a, std::set<std::pair<int, size_t>> *may) { // Push() of node a
    auto &na = nodes[static_cast<size_t>(a)]; bool pubd = it(na).published;
    for (auto &[x, b] : conns) { auto &nx = nodes[static_cast<size_t>(x)]; auto &nb = nodes[static_cast<size_t>(b)]; if (nx.item != na.item) continue;
      for (size_t k = 0; k < nx.count; ++k) { size_t leaf = nx.first + k; if (leaf < na.first || leaf >= na.first + na.count) continue;
        if (pubd && x != a) { may->insert({nb.item, nb.first + k}); continue; } // a published compound promises its own targets only
        set(nb.item, nb.first + k, val[static_cast<size_t>(na.item)][leaf]); } }
  }
  void check(const std::set<std::pair<int, size_t>> &may = {}) {
    for (size_t i = 0; i < in.size(); ++i) for (size_t k = 0; k < val[i].size(); ++k) { V r = in[i]->leaves[k].read(); if (may.count({static_cast<int>(i), k})) { val[i][k] = r; continue; }
      MC_CHECK(anym::same(r, val[i][k]), std::string("value:") + fam.name + ":" + fam.items[i].s.name, fam.name << ": " << fam.items[i].s.name << " leaf " << k << " is " << anym::show(r) << ", expected " << anym::show(val[i][k])); }
  }
  bool already(int a, int b) const { // some leaf of a is connected to the matching leaf of b
    auto &na = nodes[static_cast<size_t>(a)]; auto &nb = nodes[static_cast<size_t>(b)];
    for (auto &[x, y] : conns) { auto &nx = nodes[static_cast<size_t>(x)]; auto &ny = nodes[static_cast<size_t>(y)]; if (nx.item != na.item || ny.item != nb.item) continue; for (size_t k = 0; k < na.count; ++k) if (na.first + k >= nx.first && na.first + k < nx.first + nx.count && ny.first + (na.first + k - nx.first) == nb.first + k) return true; }
    return false;
  }
  std::uint64_t hash() const { std::string s; for (auto &c : conns) s += std::to_string(c.first) + ">" + std::to_string(c.second) + ";"; for (auto &v : val) for (auto &x : v) s += anym::show(x) + ","; return mc::hashStr(s); }
};
}
namespace {
bool narrow() { return mc::param("wide", 1) == 0; }
size_t leafOf(size_t n) { if (n > 2 && narrow()) return mc::choose(2) ? n - 1 : 0; return static_cast<size_t>(mc::choose(static_cast<int>(n))); }
V newValue(const Leaf &l, const V &cur) { if (!narrow()) return World::value(l, mc::choose(2)); V a = World::value(l, 0); return anym::same(a, cur) ? World::value(l, 1) : a; }
}
MC_SCENARIO(dataflow) {
  const Family &fam = families()[static_cast<size_t>(mc::choose(static_cast<int>(families().size())))];
  World w(fam); w.check(); const int depth = static_cast<int>(mc::param("depth", 3)); const bool inner = mc::param("inner", 1) != 0;
  std::vector<int> outs, ins, all; for (int i = 0; i < static_cast<int>(w.nodes.size()); ++i) { auto &n = w.nodes[static_cast<size_t>(i)]; auto &it = w.it(n); if (!n.root && !inner) continue; all.push_back(i); if (it.out && dynamic_cast<Smp::IDataflowField *>(n.f)) outs.push_back(i); if (n.root || (it.in && it.match)) ins.push_back(i); }
  auto pick = [&](const std::vector<int> &v) { return v[static_cast<size_t>(mc::choose(static_cast<int>(v.size())))]; };
  if (mc::param("pre", 0)) { // some inputs are already connected to the first output
    std::vector<int> roots; for (int i : ins) if (w.nodes[static_cast<size_t>(i)].root && w.it(w.nodes[static_cast<size_t>(i)]).match && w.it(w.nodes[static_cast<size_t>(i)]).in && i != outs[0]) roots.push_back(i);
    for (int b : roots) if (mc::choose(2)) { auto &na = w.nodes[static_cast<size_t>(outs[0])]; auto &nb = w.nodes[static_cast<size_t>(b)]; MC_OP(na.path << ".Connect(" << nb.path << ")"); mc::context("connect"); dynamic_cast<Smp::IDataflowField *>(na.f)->Connect(nb.f); w.conns.insert({outs[0], b}); for (size_t k = 0; k < na.count; ++k) w.set(nb.item, nb.first + k, w.val[0][k]); }
    w.check();
  }
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose(6); std::set<std::pair<int, size_t>> may;
    switch (op) {
    case 0: { // connect
      int a = pick(outs), b = pick(ins); auto &na = w.nodes[static_cast<size_t>(a)]; auto &nb = w.nodes[static_cast<size_t>(b)]; auto &ib = w.it(nb);
      if (nb.item <= na.item && a != b) return; // keeps the graph acyclic
      bool shape = na.root && nb.root ? ib.match : false; 
      if (!na.root || !nb.root) { // items: same place in the tree is a match, anything of another kind is not; leave the rest open
        if (!ib.match || !w.it(na).match || na.first != nb.first || na.count != nb.count || na.path.substr(na.path.find_first_of("[.") == std::string::npos ? na.path.size() : na.path.find_first_of("[.")) != nb.path.substr(nb.path.find_first_of("[.") == std::string::npos ? nb.path.size() : nb.path.find_first_of("[."))) return; shape = true; }
      bool isIn = nb.f->IsInput(), isOut = na.f->IsOutput(); if (nb.root) MC_CHECK(isIn == ib.in, "is-input", nb.path << ".IsInput() is " << isIn);
      int expect = a == b || !isIn || !isOut || !shape ? 1 : w.already(a, b) ? 2 : 0; // 1 InvalidTarget, 2 FieldAlreadyConnected
      MC_OP(na.path << ".Connect(" << nb.path << ")"); mc::context((std::string("connect ") + fam.name).c_str()); int got = 0; std::string ex;
      try { dynamic_cast<Smp::IDataflowField *>(na.f)->Connect(nb.f); } catch (const Smp::InvalidTarget &) { got = 1; } catch (const Smp::FieldAlreadyConnected &) { got = 2; } catch (const Smp::Exception &e) { got = 3; ex = e.GetName(); }
      const bool did = got == 0; if (expect == 2 && did && w.it(na).published && !w.conns.count({a, b})) got = 2, w.conns.insert({a, b}); // published: only the very same pair is refused
      else if (expect == 0 && got == 0) w.conns.insert({a, b});
      static const char *const N[] = {"accepted", "InvalidTarget", "FieldAlreadyConnected", "another exception"};
      MC_CHECK(got == expect, std::string("connect:") + fam.name + ":" + w.it(na).s.name + ">" + ib.s.name, fam.name << ": " << na.path << ".Connect(" << nb.path << ") " << N[got] << " " << ex << ", expected " << N[expect]);
      if (did) for (size_t k = 0; k < na.count; ++k) w.set(nb.item, nb.first + k, w.val[static_cast<size_t>(na.item)][na.first + k]);
      mc::outcome(mc::hashStr(std::string(fam.name) + na.path + nb.path + N[got])); break; }
    case 1: { // disconnect (part of the library's own interface)
      int a = pick(outs), b = pick(ins); auto &na = w.nodes[static_cast<size_t>(a)]; auto &nb = w.nodes[static_cast<size_t>(b)];
      if (!w.conns.count({a, b}) && (!na.root || !nb.root)) return;
      if (!w.conns.count({a, b}) && w.already(a, b)) return;
      auto *x = dynamic_cast<Xsmp::detail::IDataflowFieldExtension *>(na.f); if (!x) return; MC_OP(na.path << ".Disconnect(" << nb.path << ")"); mc::context("disconnect"); x->Disconnect(nb.f); w.conns.erase({a, b}); break; }
    case 2: { // C++ assignment to a leaf
      int i = mc::choose(static_cast<int>(fam.items.size())); if (!fam.items[static_cast<size_t>(i)].match) return; auto &ls = w.in[static_cast<size_t>(i)]->leaves; auto k = leafOf(ls.size()); V v = newValue(ls[k], w.val[static_cast<size_t>(i)][k]); MC_OP(fam.items[static_cast<size_t>(i)].s.name << " leaf " << k << " = " << anym::show(v)); mc::context("assign"); ls[k].write(v); w.set(i, k, v); break; }
    case 3: { // generic write
      int a = pick(all); auto &n = w.nodes[static_cast<size_t>(a)]; if (!w.it(n).match) return; auto &ls = w.in[static_cast<size_t>(n.item)]->leaves; mc::context("set");
      if (auto *s = dynamic_cast<Smp::ISimpleField *>(n.f)) { V v = newValue(ls[n.first], w.val[static_cast<size_t>(n.item)][n.first]); MC_OP(n.path << ".SetValue(" << anym::show(v) << ")"); s->SetValue(any({ls[n.first].kind, v})); w.set(n.item, n.first, v);
        if (w.it(n).published && w.it(n).out) for (auto &[x, y] : w.conns) { auto &nx = w.nodes[static_cast<size_t>(x)]; auto &ny = w.nodes[static_cast<size_t>(y)]; if (nx.item == n.item && n.first >= nx.first && n.first < nx.first + nx.count) may.insert({ny.item, ny.first + n.first - nx.first}); } }
      else if (auto *sa = dynamic_cast<Smp::ISimpleArrayField *>(n.f)) {
        if (mc::choose(2)) { auto k = leafOf(n.count); V v = newValue(ls[n.first + k], w.val[static_cast<size_t>(n.item)][n.first + k]); MC_OP(n.path << ".SetValue(" << k << ", " << anym::show(v) << ")"); sa->SetValue(k, any({ls[n.first + k].kind, v})); w.set(n.item, n.first + k, v); }
        else { int c = mc::choose(2); std::vector<Smp::AnySimple> vs; for (size_t k = 0; k < n.count; ++k) vs.push_back(any({ls[n.first + k].kind, World::value(ls[n.first + k], c)})); MC_OP(n.path << ".SetValues(" << c << ")"); sa->SetValues(n.count, vs.data()); for (size_t k = 0; k < n.count; ++k) w.set(n.item, n.first + k, World::value(ls[n.first + k], c)); }
        if (w.it(n).published && w.it(n).out) for (auto &[x, y] : w.conns) { auto &nx = w.nodes[static_cast<size_t>(x)]; auto &ny = w.nodes[static_cast<size_t>(y)]; for (size_t k = 0; k < n.count; ++k) if (nx.item == n.item && n.first + k >= nx.first && n.first + k < nx.first + nx.count) may.insert({ny.item, ny.first + n.first + k - nx.first}); }
      } else return;
      break; }
    case 4: { int a = pick(outs); auto &n = w.nodes[static_cast<size_t>(a)]; MC_OP(n.path << ".Push()"); mc::context("push"); dynamic_cast<Smp::IDataflowField *>(n.f)->Push(); w.pushNode(a, &may); break; }
    default: { // force / release a forcible input, or the fill and swap operations of a typed array
      if (fam.name == std::string("simple")) { auto *ff = dynamic_cast<Smp::IForcibleField *>(w.in[5]->field); if (ff->IsForced()) { MC_OP("i2.Unforce"); ff->Unforce(); } else { MC_OP("i2.Freeze"); ff->Freeze(); } }
      else if (fam.name == std::string("simple array")) { auto &f = static_cast<Typed<Xsmp::Field<SArr<Int16, 2>>::output, Smp::Publication::ITypeRegistry *, Smp::Uuid, const char *, const char *, Smp::IObject *, Smp::ViewKind> *>(w.in[0].get())->f; mc::context("fill");
        if (mc::choose(2)) { MC_OP("o1.fill(77)"); f.fill(77); w.set(0, 0, vi(C::Int, 77)); w.set(0, 1, vi(C::Int, 77)); } else { MC_OP("o1.swap({6, 7})"); SArr<Int16, 2> o{{6, 7}}; f.swap(o); w.set(0, 0, vi(C::Int, 6)); w.set(0, 1, vi(C::Int, 7)); } }
      else return; }
    }
    w.check(may);
    if (mc::visit(mc::mix(w.hash(), static_cast<std::uint64_t>(op * 16 + d) * 64 + static_cast<std::uint64_t>(&fam - families().data())))) return;
  }
  // who is connected shows in who receives the next values
  for (size_t i = 0; i < fam.items.size(); ++i) { auto &it = fam.items[i]; if (!it.match || it.in) continue;
    auto &ls = w.in[i]->leaves; MC_OP("every leaf of " << it.s.name << " = other values"); for (size_t k = 0; k < ls.size(); ++k) { V a = World::value(ls[k], 0); if (anym::same(a, w.val[i][k])) a = World::value(ls[k], 1); ls[k].write(a); w.set(static_cast<int>(i), k, a); }
    w.check(); if (it.out && it.published) { std::set<std::pair<int, size_t>> may; MC_OP(it.s.name << ".Push()"); dynamic_cast<Smp::IDataflowField *>(w.in[i]->field)->Push(); for (size_t a = 0; a < w.nodes.size(); ++a) if (w.nodes[a].item == static_cast<int>(i) && w.nodes[a].root) w.pushNode(static_cast<int>(a), &may); w.check(may); } }
}
namespace {
/// an input of another implementation: refuses the values above its limit
struct Picky : Smp::ISimpleField, Smp::ISimpleArrayField {
  const Smp::IField *like; Int32 limit; std::vector<Int32> v; bool arr;
  Picky(const Smp::IField *l, size_t n, Int32 lim, bool a) : like(l), limit(lim), v(n, 0), arr(a) {}
  Smp::String8 GetName() const override { return "picky"; } Smp::String8 GetDescription() const override { return ""; } Smp::IObject *GetParent() const override { return nullptr; }
  void Restore(Smp::IStorageReader *) override {} void Store(Smp::IStorageWriter *) override {}
  Smp::ViewKind GetView() const override { return Smp::ViewKind::VK_All; } Bool IsState() const override { return false; } Bool IsInput() const override { return true; } Bool IsOutput() const override { return false; }
  const Smp::Publication::IType *GetType() const override { return like->GetType(); }
  Smp::PrimitiveTypeKind GetPrimitiveTypeKind() const override { return K::PTK_Int32; }
  void put(size_t k, const Smp::AnySimple &x) { auto n = static_cast<Int32>(x); if (n > limit) throw std::out_of_range("refused"); v.at(k) = n; }
  Smp::AnySimple GetValue() const override { return {K::PTK_Int32, v[0]}; } void SetValue(Smp::AnySimple x) override { put(0, x); }
  Smp::UInt64 GetSize() const override { return v.size(); } Smp::AnySimple GetValue(Smp::UInt64 i) const override { return {K::PTK_Int32, v[i]}; } void SetValue(Smp::UInt64 i, Smp::AnySimple x) override { put(i, x); }
  void GetValues(Smp::UInt64 n, Smp::AnySimpleArray a) const override { for (Smp::UInt64 i = 0; i < n; ++i) a[i] = GetValue(i); } void SetValues(Smp::UInt64 n, Smp::AnySimpleArray a) override { for (Smp::UInt64 i = 0; i < n; ++i) put(i, a[i]); }
};
struct PickySimple : Picky { using Picky::Picky; };
const char *const OPS[] = {"=", "++", "--", "<<=", ">>=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^="};
Int32 apply(int op, Int32 a, Int32 b) { switch (op) { case 0: return b; case 1: return a + 1; case 2: return a - 1; case 3: return a << b; case 4: return a >> b; case 5: return a + b; case 6: return a - b; case 7: return a * b; case 8: return a / b; case 9: return a % b; case 10: return a & b; case 11: return a | b; default: return a ^ b; } }
template <class R> void write(R &&r, int op, Int32 b) { switch (op) { case 0: r = b; break; case 1: ++r; break; case 2: --r; break; case 3: r <<= b; break; case 4: r >>= b; break; case 5: r += b; break; case 6: r -= b; break; case 7: r *= b; break; case 8: r /= b; break; case 9: r %= b; break; case 10: r &= b; break; case 11: r |= b; break; default: r ^= b; } }
template <class F> bool refuses(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
}
// an input that does not take a value: the writer is told, the other fields are as if the input had not been asked
MC_SCENARIO(refused) {
  using O = Xsmp::Field<Int32>::output; using OA = Xsmp::Field<SArr<Int32, 2>>::output; using OE = Xsmp::Field<E32>::output; Env env; const int depth = static_cast<int>(mc::param("refusals", 2));
  const int limit = mc::choose(3) * 4; // 0, 4, 8
  switch (mc::choose(3)) {
  case 0: { O o{&env.types, U::Uuid_Int32, "o", "", &env.host, Smp::ViewKind::VK_All, 0}; Picky p(&o, 1, limit, false); Xsmp::Field<Int32>::input plain{&env.types, U::Uuid_Int32, "i", "", &env.host, Smp::ViewKind::VK_All, 0};
    const bool first = mc::flip(); if (first) o.Connect(&plain); o.Connect(static_cast<Smp::ISimpleField *>(&p)); if (!first) o.Connect(&plain); Int32 v = 0, pv = 0, iv = 0;
    for (int d = 0; d < depth; ++d) { int op = mc::choose(15); Int32 b = static_cast<Int32>(mc::choose(3)) * 3 + 1; if (op == 3 && v < 0) return; Int32 n = op < 13 ? apply(op, v, b) : op == 13 ? b : v; const bool no = n > limit; MC_OP("o " << (op < 13 ? OPS[op] : op == 13 ? "SetValue" : "Push") << " " << b << " with limit " << limit); mc::context("refused simple");
      bool got = refuses([&] { if (op < 13) write(o, op, b); else if (op == 13) static_cast<Smp::ISimpleField &>(o).SetValue({K::PTK_Int32, b}); else o.Push(); });
      MC_CHECK(got == no, std::string("refused:simple:") + std::to_string(op), "writing " << n << " to an output with an input that " << (no ? "refuses it raises nothing" : "takes it raises an exception")); v = n; if (!no) pv = n;
      MC_CHECK(static_cast<Int32>(o) == v && p.v[0] == pv, "refused:simple-value", "the output is " << static_cast<Int32>(o) << " (expected " << v << "), the input is " << p.v[0] << " (expected " << pv << ")");
      Int32 i = plain; MC_CHECK(i == v || (no && !first && i == iv), "refused:simple-other", "the other input is " << i << ", expected " << v); iv = i; mc::outcome(mc::mix(static_cast<std::uint64_t>(v) * 31 + static_cast<std::uint64_t>(pv), no)); if (mc::visit(mc::hashStr("simple" + std::to_string(d) + "," + std::to_string(limit) + "," + std::to_string(first) + "," + std::to_string(v) + "," + std::to_string(pv) + "," + std::to_string(i)))) return; }
    break; }
  case 1: { env.types.AddArrayType("SArrI32", "", id(900), U::Uuid_Int32, 4, 2, true); OA o{&env.types, id(900), "o", "", &env.host, Smp::ViewKind::VK_All, SArr<Int32, 2>{{0, 0}}}; Picky p(&o, 2, limit, true); o.Connect(static_cast<Smp::ISimpleArrayField *>(&p)); Int32 v[2] = {0, 0}, pv[2] = {0, 0};
    for (int d = 0; d < depth; ++d) { int op = mc::choose(17); size_t k = static_cast<size_t>(mc::choose(2)); Int32 b = static_cast<Int32>(mc::choose(3)) * 3 + 1; MC_OP("o[" << k << "] op " << op << " " << b << " with limit " << limit); mc::context("refused array"); if (op == 3 && v[k] < 0) return; SArr<Int32, 2> other{{b, 1}}; Smp::AnySimple both[2] = {{K::PTK_Int32, b}, {K::PTK_Int32, 1}}; bool got, no; const int via = op < 13 ? mc::choose(5) : 0; if (op < 13 && ((via == 1 && k != 0) || (via == 2 && k != 1))) return;
      got = refuses([&] { if (op < 13) { if (via == 0) write(o[k], op, b); else if (via == 1) write(o.front(), op, b); else if (via == 2) write(o.back(), op, b); else if (via == 3) write(*(o.begin() + static_cast<std::ptrdiff_t>(k)), op, b); else write(o.at(k), op, b); }
        else if (op == 13) static_cast<Smp::ISimpleArrayField &>(o).SetValue(k, {K::PTK_Int32, b}); else if (op == 14) static_cast<Smp::ISimpleArrayField &>(o).SetValues(2, both); else if (op == 15) o.fill(b); else o.swap(other); });
      if (op <= 13) { Int32 n = op < 13 ? apply(op, v[k], b) : b; no = n > limit; v[k] = n; if (!no) pv[k] = n; MC_CHECK(static_cast<Int32>(o[k]) == v[k] && static_cast<Int32>(o[1 - k]) == v[1 - k] && p.v[0] == pv[0] && p.v[1] == pv[1], "refused:array-value", "the output is {" << static_cast<Int32>(o[0]) << ", " << static_cast<Int32>(o[1]) << "}, the input is {" << p.v[0] << ", " << p.v[1] << "}"); }
      else { no = b > limit || (op != 15 && 1 > limit); for (int x = 0; x < 2; ++x) { MC_CHECK(p.v[static_cast<size_t>(x)] <= limit, "refused:array-limit", "the input took " << p.v[static_cast<size_t>(x)]); Int32 n = x == 0 || op == 15 ? b : 1, was = v[x]; v[x] = o[static_cast<size_t>(x)]; MC_CHECK(v[x] == n || (no && v[x] == was), "refused:array-item", "item " << x << " of the output is " << v[x] << " after a write of " << n); if (!no) MC_CHECK(p.v[static_cast<size_t>(x)] == n, "refused:array-pushed", "item " << x << " of the input is " << p.v[static_cast<size_t>(x)]); pv[x] = p.v[static_cast<size_t>(x)]; } }
      MC_CHECK(got == no, std::string("refused:array:") + std::to_string(op), "a write to an array output with an input that " << (no ? "refuses it raises nothing" : "takes it raises an exception")); mc::outcome(mc::mix(static_cast<std::uint64_t>(v[0]) * 31 + static_cast<std::uint64_t>(pv[0]), no)); if (no && op > 13) return; if (mc::visit(mc::hashStr("array" + std::to_string(d) + "," + std::to_string(limit) + "," + std::to_string(v[0]) + "," + std::to_string(v[1]) + "," + std::to_string(pv[0]) + "," + std::to_string(pv[1])))) return; }
    break; }
  default: { OE o{&env.types, id(3), "o", "", &env.host, Smp::ViewKind::VK_All, E32::A}; E32 store = E32::A; env.pub.PublishField("e", "", &store, id(3), VK::VK_All, true, true, false); auto *in = env.host.GetField("e"); o.Connect(in); E32 v = E32::A, pv = E32::A;
    for (int d = 0; d < depth; ++d) { E32 n = mc::choose(2) ? (mc::choose(2) ? E32::A : E32::B) : static_cast<E32>(limit); const bool no = n != E32::A && n != E32::B; MC_OP("o = " << static_cast<Int32>(n)); mc::context("refused literal"); bool got = refuses([&] { o = n; }); MC_CHECK(got == no, "refused:literal", "writing " << static_cast<Int32>(n) << " to an enumeration output with a published input " << (got ? "raises an exception" : "raises nothing")); v = n; if (!no) pv = n;
      MC_CHECK(static_cast<E32>(o) == v && store == pv, "refused:literal-value", "the output is " << static_cast<Int32>(static_cast<E32>(o)) << ", the published input is " << static_cast<Int32>(store)); }
  } }
}
