// C18: forced fields. Every sequence of writes, Force, Freeze and Unforce, accepted and refused.
#include "mc.h"
#include "fields_zoo.h"
#include "memstore.h"
#include <Smp/Exception.h>
using namespace zoo;
namespace {
struct FShape { std::string name; K kind; std::function<void(Env &, Smp::ISimpleField *&, Smp::IForcibleField *&, Leaf &, std::function<void(const V &)> &, std::function<void()> &, std::function<V()> &, std::shared_ptr<void> &)> make; bool out; };
template <class F> struct Holder { F f; template <class... A> explicit Holder(A... a) : f(a...) {} };
template <class T, class F, class IN = typename Xsmp::Field<T>::input> FShape simple(const char *n, Smp::Uuid u, bool bump) {
  FShape s; s.name = n; s.kind = kindOf<T>(); s.out = std::is_base_of_v<Smp::IDataflowField, F>;
  s.make = [=](Env &e, Smp::ISimpleField *&sf, Smp::IForcibleField *&ff, Leaf &l, std::function<void(const V &)> &force, std::function<void()> &inc, std::function<V()> &target, std::shared_ptr<void> &keep) {
    struct Both { F f; IN in; Both(Env &e, Smp::Uuid u) : f(&e.types, u, "f", "", &e.host), in(&e.types, u, "in", "", &e.host) {} };
    auto b = std::make_shared<Both>(e, u); keep = b; sf = &b->f; ff = &b->f; Leaves ls; typed(ls, b->f); l = ls[0];
    force = [b](const V &v) { b->f.Force(fromV<T>(v)); };
    if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool> && !std::is_same_v<T, char>) { if (bump) inc = [b] { b->f += T{0}; ++b->f; --b->f; }; }
    if constexpr (std::is_base_of_v<Smp::IDataflowField, F>) { b->f.Connect(&b->in); target = [b] { return toV<T>(*std::as_const(b->in)); }; }
  };
  return s;
}
template <class T, class A, class G> FShape item(const char *n, Smp::Uuid u, G get) { // a forcible field inside an array or structure
  FShape s; s.name = n; s.kind = kindOf<T>(); s.out = false;
  s.make = [=](Env &e, Smp::ISimpleField *&sf, Smp::IForcibleField *&ff, Leaf &l, std::function<void(const V &)> &force, std::function<void()> &, std::function<V()> &, std::shared_ptr<void> &keep) {
    auto b = std::make_shared<Holder<A>>(&e.types, u, "f", "", &e.host, VK::VK_All); keep = b; auto &f = get(b->f); sf = &f; ff = &f; Leaves ls; typed(ls, f); l = ls[0]; force = [b, &f](const V &v) { f.Force(fromV<T>(v)); };
  };
  return s;
}
const std::vector<FShape> &shapes() {
  static const std::vector<FShape> r = [] {
    std::vector<FShape> r; using Xsmp::Field;
    r.push_back(simple<Int32, Field<Int32>::forcible>("Int32", U::Uuid_Int32, true)); r.push_back(simple<Float64, Field<Float64>::forcible>("Float64", U::Uuid_Float64, false)); r.push_back(simple<Bool, Field<Bool>::forcible>("Bool", U::Uuid_Bool, false)); r.push_back(simple<Str4, Field<Str4>::forcible>("String", id(10), false)); r.push_back(simple<E16, Field<E16>::forcible>("Enum", id(2), false));
    r.push_back(simple<Int16, Field<Int16>::forcible::output>("Int16 output", U::Uuid_Int16, true)); r.push_back(simple<Smp::UInt8, Field<Smp::UInt8>::forcible::transient>("UInt8 transient", U::Uuid_UInt8, true)); r.push_back(simple<Int8, Field<Int8>::forcible::input::output>("Int8 input output", U::Uuid_Int8, true)); r.push_back(simple<Smp::UInt64, Field<Smp::UInt64>::forcible::input>("UInt64 input", U::Uuid_UInt64, true)); r.push_back(simple<Smp::Float32, Field<Smp::Float32>::output::forcible>("Float32 output", U::Uuid_Float32, false));
    r.push_back(item<Int32, Field<Arr<Int32, 2>>::forcible>("array item", id(21), [](auto &f) -> auto & { return f[1]; })); r.push_back(item<Int8, Field<Mix>::forcible>("structure field", id(30), [](auto &f) -> auto & { return f.a; })); r.push_back(item<Int32, Field<DeepS>::forcible>("nested item", id(32), [](auto &f) -> auto & { return f.r[0]; })); r.push_back(item<Str4, Field<DeepS>::forcible>("nested string", id(32), [](auto &f) -> auto & { return f.m.s; }));
    return r;
  }();
  return r;
}
std::string show(const Val &v) { return std::string(anym::name(v.kind)) + " " + anym::show(v.v); }
}
MC_SCENARIO(force) {
  const FShape &s = shapes()[static_cast<size_t>(mc::choose(static_cast<int>(shapes().size())))];
  Env e; Smp::ISimpleField *f = nullptr; Smp::IForcibleField *ff = nullptr; Leaf l{}; std::function<void(const V &)> forceT; std::function<void()> inc; std::function<V()> target; std::shared_ptr<void> keep; s.make(e, f, ff, l, forceT, inc, target, keep);
  V val = l.read(); bool forced = false; auto ok = valid(l), bad = odd(l); if (ok.size() > 2) ok.resize(2);
  auto check = [&] {
    MC_CHECK(ff->IsForced() == forced, "forced:" + s.name, s.name << ": IsForced() is " << !forced);
    V a = anym::raw(f->GetValue()), b = l.read(); MC_CHECK(anym::same(a, val) && anym::same(b, val), "value:" + s.name, s.name << " is " << anym::show(a) << " / " << anym::show(b) << " (C++), expected " << anym::show(val) << (forced ? " (forced)" : ""));
    if (target) { V t = target(); MC_CHECK(anym::same(t, val), "target:" + s.name, s.name << ": the connected input is " << anym::show(t) << ", expected " << anym::show(val)); }
  };
  check();
  for (int d = 0; d < static_cast<int>(mc::param("depth", 4)); ++d) {
    int op = mc::choose(9); mc::context((s.name + " op " + std::to_string(op)).c_str());
    auto write = [&](const Val &x, bool force, const char *what, auto wr) {
      V out; int ex = expectWrite(l, x, out); bool acc = true; std::string why; MC_OP(what << "(" << show(x) << ")");
      try { wr(); } catch (const Smp::Exception &e2) { acc = false; why = e2.GetName(); }
      if (forced && !force) return; // no effect, refused or not
      MC_CHECK(!(acc && ex == 0), std::string("accepted:") + what + ":" + s.name, s.name << ": " << what << "(" << show(x) << ") was accepted"); MC_CHECK(!(!acc && ex == 1), std::string("refused:") + what + ":" + s.name, s.name << ": " << what << "(" << show(x) << ") was refused: " << why);
      if (acc) { val = out; if (force) forced = true; }
    };
    switch (op) {
    case 0: { auto &x = ok[static_cast<size_t>(mc::choose(static_cast<int>(ok.size())))]; write(x, false, "SetValue", [&] { f->SetValue(any(x)); }); break; }
    case 1: { auto &x = bad[static_cast<size_t>(mc::choose(static_cast<int>(bad.size())))]; write(x, false, "SetValue", [&] { f->SetValue(any(x)); }); break; }
    case 2: { auto &x = ok[static_cast<size_t>(mc::choose(static_cast<int>(ok.size())))]; V v = stored(l, x.v); MC_OP("= " << anym::show(v)); l.write(v); if (!forced) val = v; break; }
    case 3: { auto &x = ok[static_cast<size_t>(mc::choose(static_cast<int>(ok.size())))]; write(x, true, "Force", [&] { ff->Force(any(x)); }); break; }
    case 4: { auto &x = bad[static_cast<size_t>(mc::choose(static_cast<int>(bad.size())))]; write(x, true, "Force", [&] { ff->Force(any(x)); }); break; }
    case 5: { auto &x = ok[static_cast<size_t>(mc::choose(static_cast<int>(ok.size())))]; V v = stored(l, x.v); MC_OP("Force " << anym::show(v) << " (C++)"); forceT(v); val = v; forced = true; break; }
    case 6: MC_OP("Freeze"); ff->Freeze(); forced = true; break;
    case 7: MC_OP("Unforce"); ff->Unforce(); forced = false; break;
    default: if (!inc) return; MC_OP("+= 0, ++, --"); { anym::I lo, hi; anym::range(l.kind, lo, hi); if (val.i == hi || val.i == lo) return; } inc(); break;
    }
    check();
    std::uint64_t h = mc::hashStr(s.name + anym::show(val) + (forced ? "F" : "") + std::to_string(op)); if (mc::visit(h * 31 + static_cast<std::uint64_t>(d))) return;
  }
}
