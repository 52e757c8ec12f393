// C20: Store and Restore of fields of every shape: exact values, exact status, exact bytes, whatever happened in between.
#include "mc.h"
#include "shapes.h"
#include "memstore.h"
#include <Smp/Exception.h>
#include <Smp/IFailure.h>
#include <Smp/IFallibleModel.h>
#include <Xsmp/FallibleModel.h>
using namespace zoo;
namespace {
template <class T> Shape off(const char *n, Smp::Uuid u) { return memShape<T>(n, u, false); }
Shape named(Shape s, const char *n) { s.name = n; return s; }
Shape anonymousTransient() {
  Shape s; s.name = "anonymous transient structure";
  s.make = [](Env &e, const char *name) { auto m = std::make_unique<Mem<Mix>>(); auto &d = m->b->v; auto *q = e.pub.PublishStructure(name, "", VK::VK_All, false); q->PublishField("a", "", &d.a); q->PublishField("b", "", &d.b); q->PublishField("c", "", &d.c); q->PublishField("s", "", &d.s, id(10)); q->PublishField("e", "", &d.e, id(2)); m->field = e.host.GetField(name); for (auto &l : m->leaves) l.state = false; return m; };
  return s;
}
Shape anonymousTransientArray() {
  Shape s; s.name = "anonymous transient array";
  s.make = [](Env &e, const char *name) { auto m = std::make_unique<Mem<Arr<Mix, 2>>>(); auto *p = e.pub.PublishArray(name, "", VK::VK_All, false); p->PublishField("[0]", "", &m->b->v[0], id(30)); p->PublishField("[1]", "", &m->b->v[1], id(30)); m->field = e.host.GetField(name); for (auto &l : m->leaves) l.state = false; return m; };
  return s;
}
Shape anonymousTransientSimple() {
  Shape s; s.name = "anonymous transient simple array";
  s.make = [](Env &e, const char *name) { auto m = std::make_unique<Mem<SArr<Int16, 3>>>(); e.pub.PublishArray(name, "", 3, m->b->v.data(), K::PTK_Int16, VK::VK_All, false); m->field = e.host.GetField(name); for (auto &l : m->leaves) l.state = false; return m; };
  return s;
}
template <class F> Shape ty(const char *n, Smp::Uuid u) { return typedShape<F>(n, u); }
const std::vector<Shape> &all() {
  static const std::vector<Shape> r = [] {
    auto r = compounds(); for (auto &s : simples()) r.push_back(s); using Xsmp::Field;
    r.push_back(off<Mix>("transient Mix", id(30))); r.push_back(off<SArr<Int16, 2>>("transient SArrI16", id(20))); r.push_back(off<Arr<Int32, 2>>("transient ArrI32", id(21))); r.push_back(off<Deep>("transient Deep", id(31))); r.push_back(off<Arr<Mix, 2>>("transient ArrMix", id(40))); r.push_back(off<Str4>("transient String", id(10))); r.push_back(off<Int32>("transient Int32", U::Uuid_Int32)); r.push_back(memShape<Arr<Deep, 2>>("ArrDeep", id(44)));
    r.push_back(anonymousTransient()); r.push_back(anonymousTransientArray()); r.push_back(anonymousTransientSimple());
    r.push_back(ty<Field<Int32>::transient>("typed transient Int32", U::Uuid_Int32)); r.push_back(ty<Field<Int32>::forcible::transient>("typed forcible transient Int32", U::Uuid_Int32)); r.push_back(ty<Field<Int32>::forcible::output>("typed forcible output Int32", U::Uuid_Int32)); r.push_back(ty<Field<Int32>::input>("typed input Int32", U::Uuid_Int32)); r.push_back(ty<Field<Mix>::transient>("typed transient Mix", id(30))); r.push_back(ty<Field<SArr<Int16, 2>>::transient>("typed transient SArrI16", id(20))); r.push_back(ty<Field<Arr<Int32, 2>>::transient>("typed transient ArrI32", id(21))); r.push_back(ty<Field<Mix>::forcible::output>("typed forcible output Mix", id(30))); r.push_back(ty<Field<Mix>::forcible::transient>("typed forcible transient Mix", id(30))); r.push_back(ty<Field<Arr<Mix, 2>>::forcible>("typed forcible ArrMix", id(40)));
    r.push_back(ty<Field<Int32>::failure>("failure Int32", U::Uuid_Int32)); r.push_back(ty<Field<Bool>::failure>("failure Bool", U::Uuid_Bool)); r.push_back(ty<Field<Int32>::failure::transient>("failure transient Int32", U::Uuid_Int32)); r.push_back(ty<Field<Int32>::failure::forcible>("failure forcible Int32", U::Uuid_Int32)); r.push_back(ty<Field<Int16>::failure::output>("failure output Int16", U::Uuid_Int16)); r.push_back(ty<Field<SArr<Int16, 2>>::failure>("failure SArrI16", id(20))); r.push_back(ty<Field<Arr<Int32, 2>>::failure>("failure ArrI32", id(21))); r.push_back(ty<Field<Mix>::failure>("failure Mix", id(30))); r.push_back(ty<Field<Mix>::failure::forcible>("failure forcible Mix", id(30)));
    return r;
  }();
  return r;
}
struct Obj { // one instance, with its own types and publication, and what it has to hold
  Env env; std::unique_ptr<Instance> in; std::vector<V> val; struct F { Smp::IForcibleField *f; bool v, state; }; std::vector<F> forced; struct X { Smp::IFailure *f; bool v, state; }; std::vector<X> failed; std::vector<unsigned char> pad; const Shape &s;
  explicit Obj(const Shape &sh) : s(sh) {
    in = s.make(env, "fld"); for (auto &l : in->leaves) val.push_back(l.read()); walk(in->field, true);
    if (in->base) pad.assign(in->base, in->base + in->size);
  }
  void walk(Smp::IField *f, bool st) {
    st = st && f->IsState(); if (auto *x = dynamic_cast<Smp::IForcibleField *>(f)) forced.push_back({x, x->IsForced(), st}); if (auto *x = dynamic_cast<Smp::IFailure *>(f)) failed.push_back({x, x->IsFailed(), st});
    if (auto *a = dynamic_cast<Smp::IArrayField *>(f)) { if (!dynamic_cast<Smp::ISimpleArrayField *>(f)) for (Smp::UInt64 i = 0; i < a->GetSize(); ++i) walk(a->GetItem(i), st); } else if (auto *t = dynamic_cast<Smp::IStructureField *>(f)) for (auto *c : *t->GetFields()) walk(c, st);
  }
  void check(const char *when) const {
    for (size_t i = 0; i < val.size(); ++i) { V v = in->leaves[i].read(); MC_CHECK(anym::same(v, val[i]), std::string("value:") + when + ":" + s.name, s.name << " " << when << ": leaf " << i << (in->leaves[i].state ? "" : " (no state)") << " is " << anym::show(v) << ", expected " << anym::show(val[i])); }
    for (size_t i = 0; i < forced.size(); ++i) MC_CHECK(forced[i].f->IsForced() == forced[i].v, std::string("forced:") + when + ":" + s.name, s.name << " " << when << ": forced status " << i << " is " << !forced[i].v);
    for (size_t i = 0; i < failed.size(); ++i) MC_CHECK(failed[i].f->IsFailed() == failed[i].v, std::string("failed:") + when + ":" + s.name, s.name << " " << when << ": failed status " << i << " is " << !failed[i].v);
    guards(when);
  }
  void guards(const char *when) const { // bytes of no leaf
    if (!in->base) return; std::vector<bool> own(in->size); for (auto &l : in->leaves) { auto *a = static_cast<unsigned char *>(l.addr); for (size_t k = 0; k < l.size; ++k) own[static_cast<size_t>(a - in->base) + k] = true; }
    for (size_t k = 0; k < in->size; ++k) if (!own[k]) MC_CHECK(in->base[k] == pad[k], std::string("padding:") + when + ":" + s.name, s.name << " " << when << ": byte " << k << " outside the fields changed");
  }
  void unforce() { for (auto &f : forced) if (f.v) { f.f->Unforce(); f.v = false; } }
  void write(size_t i, int p) { auto &l = in->leaves[i]; auto ok = valid(l); V v = stored(l, ok[static_cast<size_t>(p) % ok.size()].v); l.write(v); val[i] = v; }
  void writeAll(int p) { for (size_t i = 0; i < val.size(); ++i) write(i, p + static_cast<int>(i)); }
  std::uint64_t hash() const { std::uint64_t h = mc::hashStr(s.name); for (auto &v : val) h = mc::mix(h, mc::hashStr(anym::show(v))); for (auto &f : forced) h = h * 2 + f.v; for (auto &f : failed) h = h * 2 + f.v; return h; }
};
struct Snap { bool used = false; std::string data; std::vector<size_t> cuts; std::vector<V> val; std::vector<bool> forced, failed; };
void store(Obj &o, Snap &sn) {
  MemWriter w; o.in->field->Store(&w); o.check("after Store"); sn.used = true; sn.data = w.data; sn.cuts = w.cuts; sn.val = o.val; sn.forced.clear(); sn.failed.clear(); for (auto &f : o.forced) sn.forced.push_back(f.v); for (auto &f : o.failed) sn.failed.push_back(f.v);
  size_t least = 0; for (auto &l : o.in->leaves) if (l.state) least += l.kind == K::PTK_String8 ? 1 : 1; if (!least) { bool any = false; for (auto &f : o.forced) any |= f.state; for (auto &f : o.failed) any |= f.state; MC_CHECK(any || sn.data.empty(), "wrote:" + o.s.name, o.s.name << ": no state, yet " << sn.data.size() << " bytes are stored"); }
}
void restore(Obj &o, const Snap &sn) {
  std::string d = sn.data + "next field"; MemReader r(d); o.in->field->Restore(&r); MC_CHECK(r.pos == sn.data.size(), "bytes:" + o.s.name, o.s.name << ": " << sn.data.size() << " bytes written, " << r.pos << " read");
  for (size_t i = 0; i < o.val.size(); ++i) if (o.in->leaves[i].state) o.val[i] = sn.val[i];
  for (size_t i = 0; i < o.forced.size(); ++i) if (o.forced[i].state) o.forced[i].v = sn.forced[i];
  for (size_t i = 0; i < o.failed.size(); ++i) if (o.failed[i].state) o.failed[i].v = sn.failed[i];
  o.check("after Restore");
}
/// after a Restore that failed: every leaf, whatever it holds, is readable and writable
void settle(Obj &o, const Snap &sn, const char *when) {
  std::vector<V> old = o.val;
  for (size_t i = 0; i < o.val.size(); ++i) { auto &l = o.in->leaves[i]; V v = l.read(); if (!l.state) MC_CHECK(anym::same(v, old[i]), std::string("value:") + when + ":" + o.s.name, o.s.name << " " << when << ": leaf " << i << " has no state and changed to " << anym::show(v)); o.val[i] = v; }
  for (size_t i = 0; i < o.forced.size(); ++i) { bool v = o.forced[i].f->IsForced(); MC_CHECK(v == o.forced[i].v || (o.forced[i].state && v == sn.forced[i]), std::string("forced:") + when + ":" + o.s.name, o.s.name << " " << when << ": forced status " << i); o.forced[i].v = v; }
  for (size_t i = 0; i < o.failed.size(); ++i) { bool v = o.failed[i].f->IsFailed(); MC_CHECK(v == o.failed[i].v || (o.failed[i].state && v == sn.failed[i]), std::string("failed:") + when + ":" + o.s.name, o.s.name << " " << when << ": failed status " << i); o.failed[i].v = v; }
  o.guards(when);
}
}
/// histories of two identical objects and two snapshots
MC_SCENARIO(persist) {
  const Shape &s = all()[static_cast<size_t>(mc::choose(static_cast<int>(all().size())))];
  Obj a(s), b(s); Snap sn[2]; Obj *o[2] = {&a, &b}; a.check("at first");
  const int depth = static_cast<int>(mc::param("depth", 4)); const int snaps = static_cast<int>(mc::param("snaps", 1)), leaves = static_cast<int>(mc::param("leaves", 2));
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose(9); int who = d ? mc::choose(2) : 0; Obj &x = *o[who]; mc::context((s.name + " op " + std::to_string(op)).c_str());
    switch (op) {
    case 0: { int p = mc::choose(3); MC_OP("write all leaves of " << who << " pattern " << p); x.unforce(); x.writeAll(p); break; }
    case 1: { if (x.val.size() < 2) return; size_t i = static_cast<size_t>(mc::choose(std::min(leaves, static_cast<int>(x.val.size())))); if (i + 1 == static_cast<size_t>(leaves)) i = x.val.size() - 1; MC_OP("write leaf " << i << " of " << who); x.unforce(); x.write(i, 1); break; }
    case 2: { if (x.forced.empty()) return; size_t i = static_cast<size_t>(mc::choose(static_cast<int>(x.forced.size()))); MC_OP("toggle forced " << i << " of " << who); if (x.forced[i].v) x.forced[i].f->Unforce(); else x.forced[i].f->Freeze(); x.forced[i].v = !x.forced[i].v; break; }
    case 3: { if (x.failed.empty()) return; size_t i = static_cast<size_t>(mc::choose(static_cast<int>(x.failed.size()))); MC_OP("toggle failed " << i << " of " << who); if (x.failed[i].v) x.failed[i].f->Unfail(); else x.failed[i].f->Fail(); x.failed[i].v = !x.failed[i].v; break; }
    case 4: { int k = sn[0].used ? mc::choose(snaps) : 0; MC_OP("Store " << who << " -> " << k); store(x, sn[k]); break; }
    case 5: { int k = mc::choose(snaps); if (!sn[k].used) return; MC_OP("Restore " << k << " -> " << who); restore(x, sn[k]); break; }
    case 6: { // the storage gets full at each point
      MemWriter probe; x.in->field->Store(&probe); MC_OP("Store " << who << " in each smaller storage");
      for (size_t lim = 0; lim < probe.data.size(); ++lim) { MemWriter w; w.limit = lim; bool t = false; try { x.in->field->Store(&w); } catch (const Smp::Exception &) { t = true; } MC_CHECK(t, "full:" + s.name, s.name << ": Store into a storage of " << lim << " bytes, of " << probe.data.size() << " needed, is not reported"); x.check("after a failed Store"); }
      break; }
    default: { // truncated at each point: raises / gives a short read
      int k = mc::choose(snaps); if (!sn[k].used || sn[k].data.empty()) return; size_t n = sn[k].data.size(); bool fails = op == 7; MC_OP("Restore " << k << " -> " << who << " from each shorter storage" << (fails ? "" : " (short reads)"));
      for (size_t lim = 0; lim < n; ++lim) {
        std::string dd = sn[k].data.substr(0, lim); MemReader r(dd); r.fails = fails; bool t = false; try { x.in->field->Restore(&r); } catch (const Smp::Exception &) { t = true; }
        if (fails) MC_CHECK(t, "truncated:" + s.name, s.name << ": a storage truncated to " << lim << " of " << n << " bytes is not reported"); settle(x, sn[k], "after a truncated Restore"); x.unforce(); x.writeAll(0); x.check("after a truncated Restore and a write");
      }
      restore(x, sn[k]); break; }
    }
    a.check("later"); b.check("later");
    std::uint64_t h = mc::mix(a.hash(), b.hash()); for (auto &q : sn) { h = mc::mix(h, q.used); if (q.used) for (auto &v : q.val) h = mc::mix(h, mc::hashStr(anym::show(v))); for (bool f : q.forced) h = h * 2 + f; for (bool f : q.failed) h = h * 2 + f; }
    h = mc::mix(h, static_cast<std::uint64_t>(op * 2 + who)); h = mc::mix(h, static_cast<std::uint64_t>(d)); if (mc::visit(h)) return; 
  }
}
