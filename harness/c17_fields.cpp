// C17: whatever the shape, a field holds exactly the last accepted value, whichever way it is written and read.
#include "mc.h"
#include "shapes.h"
#include <Smp/Exception.h>
#include <Smp/InvalidArrayIndex.h>
#include <Smp/InvalidArraySize.h>
#include <Smp/InvalidArrayValue.h>
#include <Smp/InvalidFieldValue.h>
using namespace zoo;
namespace {

struct World {
  Env env; std::unique_ptr<Instance> in; std::vector<V> model; const Shape &shape; std::vector<unsigned char> bytes;
  explicit World(const Shape &s) : shape(s) { in = s.make(env, "fld"); for (auto &l : in->leaves) model.push_back(l.read()); if (in->base) bytes.assign(in->base, in->base + in->size); }
  std::string at(size_t i) const { return shape.name + " leaf " + std::to_string(i); }
  void val(const Smp::AnySimple &a, size_t &n, const char *route) {
    MC_CHECK(n < model.size(), "too-many-leaves:" + std::string(route), shape.name << " has more leaves than its memory");
    V r = anym::raw(a); const Leaf &l = in->leaves[n];
    MC_CHECK(a.type == l.kind, std::string("kind:") + route, at(n) << " read through " << route << " has kind " << anym::name(a.type) << ", expected " << anym::name(l.kind));
    MC_CHECK(anym::same(r, model[n]), std::string("value:") + route, at(n) << " read through " << route << " is " << anym::show(r) << ", expected " << anym::show(model[n]));
    ++n;
  }
  void read(Smp::IField *f, size_t &n, int route, const std::string &path) {
    const char *const R[] = {"GetValue/GetItem/at(i)", "GetValues/GetField(name)", "path"};
    MC_CHECK(f, std::string("null:") + R[route], path << " not found through " << R[route]);
    if (route == 2) { auto *g = env.host.GetField(path.c_str()); MC_CHECK(g == f, "path:object", "GetField(\"" << path << "\") is another field"); }
    if (auto *s = dynamic_cast<Smp::ISimpleField *>(f)) { MC_CHECK(n < in->leaves.size() && s->GetPrimitiveTypeKind() == in->leaves[n].kind, "primitive-kind", path << " has kind " << anym::name(s->GetPrimitiveTypeKind())); val(s->GetValue(), n, R[route]); }
    else if (auto *sa = dynamic_cast<Smp::ISimpleArrayField *>(f)) {
      auto sz = sa->GetSize();
      if (route == 1) { std::vector<Smp::AnySimple> v(sz); sa->GetValues(sz, v.data()); for (auto &x : v) val(x, n, R[route]); }
      else for (Smp::UInt64 i = 0; i < sz; ++i) val(sa->GetValue(i), n, R[route]);
    } else if (auto *a = dynamic_cast<Smp::IArrayField *>(f)) { for (Smp::UInt64 i = 0; i < a->GetSize(); ++i) read(a->GetItem(i), n, route, path + "[" + std::to_string(i) + "]"); }
    else if (auto *st = dynamic_cast<Smp::IStructureField *>(f)) {
      auto *c = st->GetFields(); for (size_t i = 0; i < c->size(); ++i) { auto *x = c->at(i); auto *y = st->GetField(x->GetName()); MC_CHECK(y == x, "field-by-name", path << "." << x->GetName() << " by name is another field than by index"); read(route == 1 ? y : x, n, route, path + "." + x->GetName()); }
    } else mc::fail("shape", path + " is no kind of field");
  }
  void check() {
    for (size_t i = 0; i < model.size(); ++i) { V r = in->leaves[i].read(); MC_CHECK(anym::same(r, model[i]), "value:memory", at(i) << " in memory is " << anym::show(r) << ", expected " << anym::show(model[i])); }
    for (int route = 0; route < 3; ++route) { size_t n = 0; read(in->field, n, route, "fld"); MC_CHECK(n == model.size(), "leaf-count", shape.name << " has " << n << " leaves, expected " << model.size()); }
    if (in->base) { // bytes outside of the leaves
      std::vector<unsigned char> cur(in->base, in->base + in->size); for (auto &l : in->leaves) { auto o = static_cast<size_t>(static_cast<unsigned char *>(l.addr) - in->base); std::copy(cur.begin() + static_cast<long>(o), cur.begin() + static_cast<long>(o + l.size), bytes.begin() + static_cast<long>(o)); }
      MC_CHECK(cur == bytes, "outside-write", shape.name << ": a byte outside of the field changed");
    }
  }
  void sync() { if (in->base) bytes.assign(in->base, in->base + in->size); }
};
enum Outcome { Ok, Refused }; std::string lastEx;
template <class F> Outcome attempt(F f) { lastEx.clear(); try { f(); return Ok; } catch (const Smp::Exception &e) { lastEx = e.GetName(); return Refused; } }
struct Node { Smp::IField *f; size_t first, count; std::string path; };
void nodes(Smp::IField *f, size_t &n, std::vector<Node> &out, const std::string &path) {
  size_t me = out.size(); out.push_back({f, n, 0, path}); 
  if (dynamic_cast<Smp::ISimpleField *>(f)) ++n; else if (auto *sa = dynamic_cast<Smp::ISimpleArrayField *>(f)) n += sa->GetSize();
  else if (auto *a = dynamic_cast<Smp::IArrayField *>(f)) for (Smp::UInt64 i = 0; i < a->GetSize(); ++i) nodes(a->GetItem(i), n, out, path + "[" + std::to_string(i) + "]");
  else if (auto *st = dynamic_cast<Smp::IStructureField *>(f)) for (auto *x : *st->GetFields()) nodes(x, n, out, path + "." + x->GetName());
  out[me].count = n - out[me].first;
}
/// one write of `x` to leaf i by `w`; updates the model
template <class W> void writeLeaf(World &w, size_t i, const Val &x, const std::string &what, const std::string &key, W wr) {
  V out; int e = expectWrite(w.in->leaves[i], x, out); mc::context(key.c_str());
  Outcome o = attempt(wr);
  MC_CHECK(!(o == Refused && e == 1), "refused:" + key, what << " was refused (" << lastEx << ")");
  MC_CHECK(!(o == Ok && e == 0), "accepted:" + key, what << " was accepted, " << w.at(i) << " of kind " << anym::name(w.in->leaves[i].kind) << " now is " << anym::show(w.in->leaves[i].read()));
  if (o == Ok) w.model[i] = out;
  mc::outcome(mc::hashStr(key + (o == Ok ? "+" : "-")));
}
std::string show(const Val &v) { return std::string(anym::name(v.kind)) + " " + anym::show(v.v); }
}
MC_SCENARIO(simple) { // every kind of simple field x every value of every kind, after each of two values
  const Shape &s = simpleShapes()[static_cast<size_t>(mc::choose(static_cast<int>(simpleShapes().size())))];
  World w(s); auto *f = dynamic_cast<Smp::ISimpleField *>(w.in->field); const Leaf &l = w.in->leaves[0];
  MC_CHECK(f && w.in->leaves.size() == 1, "shape", s.name << " is no simple field"); w.check();
  auto ok = valid(l); int first = mc::choose(std::min(static_cast<int>(ok.size()) + 1, static_cast<int>(mc::param("first", 9))));
  if (first) { auto &x = ok[static_cast<size_t>(first - 1)]; MC_OP(s.name << ": SetValue(" << show(x) << ")"); writeLeaf(w, 0, x, s.name + " SetValue(" + show(x) + ")", "set:" + s.name, [&] { f->SetValue(any(x)); }); w.check(); }
  Val x{}; int ki = mc::choose(16); x.kind = anym::kinds()[static_cast<size_t>(ki)];
  if (x.kind != K::PTK_None) { auto &vals = anym::values(natural(x.kind)); x.v = vals[static_cast<size_t>(mc::choose(static_cast<int>(vals.size())))]; }
  if (l.kind == K::PTK_Float32 && x.kind == K::PTK_Float32) x.v.f = static_cast<double>(anym::toF32(x.v.f));
  MC_OP(s.name << ": SetValue(" << show(x) << ")");
  writeLeaf(w, 0, x, s.name + " SetValue(" + show(x) + ")", "set:" + s.name + " from " + anym::name(x.kind), [&] { f->SetValue(any(x)); });
  w.check();
  if (x.kind == l.kind && !l.literals) { // typed or memory access with the same value
    V v = stored(l, x.v); l.write(v); w.model[0] = v; w.sync(); w.check();
  }
}
MC_SCENARIO(compound) { // histories of writes on compound fields
  const Shape &s = compoundShapes()[static_cast<size_t>(mc::choose(static_cast<int>(compoundShapes().size())))];
  World w(s); std::vector<Node> ns; size_t n = 0; nodes(w.in->field, n, ns, "fld"); MC_CHECK(n == w.model.size(), "leaf-count", s.name << " has " << n << " leaves, expected " << w.model.size());
  w.check(); const int depth = static_cast<int>(mc::param("depth", 2)); const bool big = w.model.size() > static_cast<size_t>(mc::param("big", 4));
  for (int d = 0; d < depth; ++d) {
    bool last = d + 1 == depth;
    const Node &nd = ns[static_cast<size_t>(mc::choose(static_cast<int>(ns.size())))];
    std::vector<std::pair<Val, bool>> dummy;
    auto pickVal = [&](const Leaf &l) { auto v = valid(l); if (!last || big) { if (v.size() > 2) v.resize(2); } if (last || !big) { auto o = odd(l); v.insert(v.end(), o.begin(), o.end()); } return v[static_cast<size_t>(mc::choose(static_cast<int>(v.size())))]; };
    if (auto *f = dynamic_cast<Smp::ISimpleField *>(nd.f)) {
      const Leaf &l = w.in->leaves[nd.first];
      if (mc::choose(2)) { auto v = valid(l); auto &x = v[static_cast<size_t>(mc::choose(2))]; V nv = stored(l, x.v); MC_OP(nd.path << " = " << anym::show(nv) << " (C++)"); mc::context("c++ write"); l.write(nv); w.model[nd.first] = nv; w.sync(); }
      else { Val x = pickVal(l); MC_OP(nd.path << ".SetValue(" << show(x) << ")"); writeLeaf(w, nd.first, x, s.name + ": " + nd.path + ".SetValue(" + show(x) + ")", "set:" + s.name, [&] { f->SetValue(any(x)); }); }
    } else if (auto *sa = dynamic_cast<Smp::ISimpleArrayField *>(nd.f)) {
      const Smp::UInt64 sz = nd.count; MC_CHECK(sa->GetSize() == sz, "size", nd.path << ".GetSize() is " << sa->GetSize());
      switch (mc::choose(last ? 5 : 3)) {
      case 0: { auto i = static_cast<size_t>(mc::choose(static_cast<int>(sz))); Val x = pickVal(w.in->leaves[nd.first + i]); MC_OP(nd.path << ".SetValue(" << i << ", " << show(x) << ")"); writeLeaf(w, nd.first + i, x, s.name + ": " + nd.path + ".SetValue(" + std::to_string(i) + ", " + show(x) + ")", "set-item:" + s.name, [&] { sa->SetValue(i, any(x)); }); break; }
      case 1: { auto i = static_cast<size_t>(mc::choose(static_cast<int>(sz))); const Leaf &l = w.in->leaves[nd.first + i]; auto v = valid(l); auto &x = v[static_cast<size_t>(mc::choose(2))]; V nv = stored(l, x.v); MC_OP(nd.path << "[" << i << "] = " << anym::show(nv) << " (C++)"); mc::context("c++ write"); l.write(nv); w.model[nd.first + i] = nv; w.sync(); break; }
      case 2: { // SetValues: own-kind values, one of them possibly odd
        int bad = mc::choose(static_cast<int>(sz) + 1) - 1; std::vector<Val> vals; std::vector<Smp::AnySimple> a;
        for (size_t i = 0; i < sz; ++i) { const Leaf &l = w.in->leaves[nd.first + i]; auto v = valid(l); vals.push_back(v[i % 2 ? 0 : 1]); if (static_cast<int>(i) == bad) { auto o = odd(l); vals.back() = o[static_cast<size_t>(mc::choose(static_cast<int>(o.size())))]; } }
        for (auto &x : vals) a.push_back(any(x));
        int e = 1; std::vector<V> outs(sz); for (size_t i = 0; i < sz; ++i) { int x = expectWrite(w.in->leaves[nd.first + i], vals[i], outs[i]); if (x == 0) e = 0; else if (x == 2 && e == 1) e = 2; }
        std::string what = nd.path + ".SetValues(" + std::to_string(sz) + ", own kind" + (bad >= 0 ? ", item " + std::to_string(bad) + " = " + show(vals[static_cast<size_t>(bad)]) : "") + ")"; MC_OP(what); mc::context(("set-values:" + s.name).c_str());
        Outcome o = attempt([&] { sa->SetValues(sz, a.data()); });
        MC_CHECK(!(o == Refused && e == 1), "refused:set-values:" + s.name, s.name << ": " << what << " was refused (" << lastEx << ")"); MC_CHECK(!(o == Ok && e == 0), "accepted:set-values:" + s.name, s.name << ": " << what << " was accepted");
        if (o == Ok) for (size_t i = 0; i < sz; ++i) w.model[nd.first + i] = outs[i];
        mc::outcome(mc::hashStr("svs" + s.name + (o == Ok ? "+" : "-"))); break; }
      case 3: { // out of range index
        const Smp::UInt64 idx[] = {sz, sz + 1, 0x80000000ull, ~0ull}; auto i = idx[mc::choose(4)]; bool set = mc::choose(2); auto x = valid(w.in->leaves[nd.first])[0]; MC_OP(nd.path << (set ? ".SetValue(" : ".GetValue(") << i << ")"); mc::context("index"); bool ok = false;
        try { if (set) sa->SetValue(i, any(x)); else sa->GetValue(i); } catch (const Smp::InvalidArrayIndex &) { ok = true; } catch (const Smp::Exception &e) { lastEx = e.GetName(); }
        MC_CHECK(ok, "index:" + s.name, s.name << ": index " << i << " of " << nd.path << " did not raise InvalidArrayIndex"); break; }
      default: { const Smp::UInt64 len[] = {0, sz - 1, sz + 1}; auto k = len[mc::choose(3)]; bool set = mc::choose(2); MC_OP(nd.path << (set ? ".SetValues(" : ".GetValues(") << k << ")"); std::vector<Smp::AnySimple> a; for (size_t i = 0; i < sz + 2; ++i) a.push_back(any(valid(w.in->leaves[nd.first])[0])); mc::context("length"); bool ok = false; 
        try { if (set) sa->SetValues(k, a.data()); else sa->GetValues(k, a.data()); } catch (const Smp::InvalidArraySize &) { ok = true; } catch (const Smp::Exception &e) { lastEx = e.GetName(); }
        MC_CHECK(ok, "length:" + s.name, s.name << ": length " << k << " for " << nd.path << " did not raise InvalidArraySize"); }
      }
    } else if (auto *ar = dynamic_cast<Smp::IArrayField *>(nd.f)) {
      if (!last) return; // reads only
      const Smp::UInt64 sz = ar->GetSize(); const Smp::UInt64 idx[] = {sz, sz + 1, 0x80000000ull, ~0ull}; auto i = idx[mc::choose(4)]; MC_OP(nd.path << ".GetItem(" << i << ")"); mc::context("item index"); bool ok = false; try { ar->GetItem(i); } catch (const Smp::InvalidArrayIndex &) { ok = true; } catch (const Smp::Exception &) {}
      MC_CHECK(ok, "index:" + s.name, s.name << ": item " << i << " of " << nd.path << " did not raise InvalidArrayIndex");
    } else return; // structures are written through their fields
    w.check();
  }
}
namespace {
template <class T, class F> void operators(const char *n, Smp::Uuid u, bool bits) {
  Env e; F f(&e.types, u, "f", "", &e.host, VK::VK_All, T{5}); T r = 5;
  for (int d = 0; d < static_cast<int>(mc::param("opdepth", 3)); ++d) {
    int op = mc::choose(bits ? 12 : 7); T k = static_cast<T>(mc::choose(2) ? 3 : 1);
    MC_OP(n << " op " << op << " " << static_cast<long>(k)); mc::context(n);
    switch (op) {
    case 0: f = k; r = k; break; case 1: ++f; r = static_cast<T>(r + 1); break; case 2: --f; r = static_cast<T>(r - 1); break; case 3: f += k; r = static_cast<T>(r + k); break; case 4: f -= k; r = static_cast<T>(r - k); break; case 5: f *= k; r = static_cast<T>(r * k); break; case 6: f /= k; r = static_cast<T>(r / k); break;
    default: if constexpr (std::is_integral_v<T>) { switch (op) { case 7: f %= k; r = static_cast<T>(r % k); break; case 8: f &= k; r = static_cast<T>(r & k); break; case 9: f |= k; r = static_cast<T>(r | k); break; case 10: f ^= k; r = static_cast<T>(r ^ k); break; default: f &= 63; r = static_cast<T>(r & 63); f >>= 1; r = static_cast<T>(r >> 1); f <<= 1; r = static_cast<T>(r << 1); } }
    }
    const T &c = *std::as_const(f); V g = anym::raw(static_cast<Smp::ISimpleField &>(f).GetValue());
    MC_CHECK(c == r && anym::same(g, toV<T>(r)), std::string("operator:") + n, n << " is " << anym::show(toV(c)) << " / " << anym::show(g) << ", expected " << anym::show(toV(r)));
  }
}
template <class T, class F> void arrayOperators(const char *n, unsigned u) {
  Env e; F f(&e.types, id(u), "f", "", &e.host); T r[2] = {0, 0};
  for (int d = 0; d < static_cast<int>(mc::param("opdepth", 3)); ++d) {
    int op = mc::choose(14); auto i = static_cast<size_t>(mc::choose(2)); T k = 3; MC_OP(n << "[" << i << "] op " << op); mc::context(n);
    switch (op) {
    case 0: f[i] = k; r[i] = k; break; case 1: ++f[i]; ++r[i]; break; case 2: --f[i]; --r[i]; break; case 3: f[i] += k; r[i] = static_cast<T>(r[i] + k); break; case 4: f.at(i) *= k; r[i] = static_cast<T>(r[i] * k); break; case 5: f.front() = k; r[0] = k; break; case 6: f.back() = k; r[1] = k; break;
    case 7: { auto it = f.begin(); it += static_cast<long>(i); *it = k; r[i] = k; break; } case 8: { auto it = f.end(); --it; *it = static_cast<T>(7); r[1] = 7; break; } case 9: *(f.rbegin()) = k; r[1] = k; break;
    case 10: f.fill(k); r[0] = r[1] = k; break; case 11: { SArr<T, 2> o{{9, 8}}; SArr<T, 2> was{{r[0], r[1]}}; f.swap(o); r[0] = 9; r[1] = 8; MC_CHECK(o == was, "swap:" + std::string(n), "swap gave other values back"); break; }
    case 12: { bool ok = false; try { f.at(2); } catch (const std::exception &) { ok = true; } MC_CHECK(ok, "at:" + std::string(n), "at(2) did not throw"); break; }
    default: f[i] -= k; r[i] = static_cast<T>(r[i] - k); f[i] ^= 6; r[i] = static_cast<T>(r[i] ^ 6); break;
    }
    for (size_t j = 0; j < 2; ++j) { auto &c = std::as_const(f); V g = anym::raw(f.GetValue(j)); T x = c[j], y = c.begin()[j], z = c.data()[j], nx = f[j], ny = f.begin()[static_cast<long>(j)], nz = f.data()[static_cast<long>(j)]; MC_CHECK(x == r[j] && y == r[j] && z == r[j] && nx == r[j] && ny == r[j] && nz == r[j] && anym::same(g, toV<T>(r[j])), std::string("array-operator:") + n, n << "[" << j << "] is " << static_cast<long>(x) << ", expected " << static_cast<long>(r[j])); }
    T sum = 0; for (auto it = f.begin(); it != f.end(); ++it) { ++sum; } MC_CHECK(sum == 2 && f.size() == 2 && !f.empty(), "iterate", "iteration over " << static_cast<int>(sum) << " items");
  }
}
}
MC_SCENARIO(typed_operators) {
  switch (mc::choose(12)) {
  case 0: operators<Int8, Xsmp::Field<Int8>>("Int8", U::Uuid_Int8, true); break; case 1: operators<Int16, Xsmp::Field<Int16>>("Int16", U::Uuid_Int16, true); break; case 2: operators<Int32, Xsmp::Field<Int32>>("Int32", U::Uuid_Int32, true); break; case 3: operators<Int64, Xsmp::Field<Int64>>("Int64", U::Uuid_Int64, true); break;
  case 4: operators<Smp::UInt8, Xsmp::Field<Smp::UInt8>>("UInt8", U::Uuid_UInt8, true); break; case 5: operators<Smp::UInt16, Xsmp::Field<Smp::UInt16>::output>("UInt16 output", U::Uuid_UInt16, true); break; case 6: operators<Smp::UInt32, Xsmp::Field<Smp::UInt32>::forcible>("UInt32 forcible", U::Uuid_UInt32, true); break; case 7: operators<Smp::UInt64, Xsmp::Field<Smp::UInt64>>("UInt64", U::Uuid_UInt64, true); break;
  case 8: operators<Smp::Float32, Xsmp::Field<Smp::Float32>>("Float32", U::Uuid_Float32, false); break; case 9: operators<Float64, Xsmp::Field<Float64>::output>("Float64 output", U::Uuid_Float64, false); break;
  case 10: arrayOperators<Int16, Xsmp::Field<SArr<Int16, 2>>>("simple array", 20); break; default: arrayOperators<Int16, Xsmp::Field<SArr<Int16, 2>>::output>("simple array output", 20);
  }
}
