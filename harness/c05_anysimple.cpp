// C05: every SetValue(kind, typed value) and every conversion operator against exact arithmetic.
#include "mc.h"
#include "anysimple_model.h"
using namespace anym;
namespace {
void checkIs(const Smp::AnySimple &a, K k, const V &v, const std::string &key, const std::string &why) {
  MC_CHECK(a.type == k && a.GetType() == k, key + ":type", why << ": type is " << name(a.type) << ", expected " << name(k));
  V r = raw(a);
  MC_CHECK(same(r, v), key + ":value", why << ": holds " << show(r) << ", expected " << show(v));
}
void readAll(const Smp::AnySimple &a, K k, const V &v) {
  for (int t = 0; t < NT; ++t) {
    V want; bool ok = convert(v, typeKind(t), true, want);
    if (ok && (k == K::PTK_Duration || k == K::PTK_DateTime) && classOf(typeKind(t)) == C::Float) ok = false; // documented: times are not numbers of float type
    V got; bool threw = false; std::string ctx = std::string("read ") + name(k) + " as " + name(typeKind(t));
    mc::context(ctx.c_str());
    try { got = get(a, t); } catch (const Smp::InvalidAnyType &) { threw = true; }
    MC_CHECK(threw == !ok, "read-refusal:" + ctx, ctx << " of " << show(v) << (threw ? " was refused" : " was accepted as " + show(got)) << ", expected " << (ok ? show(want) : "InvalidAnyType"));
    if (ok) MC_CHECK(same(got, want), "read-value:" + ctx, ctx << " of " << show(v) << " gave " << show(got) << ", expected " << show(want));
    mc::outcome(mc::hashStr(ctx + (threw ? "x" : "v")));
  }
}
}
MC_SCENARIO(set_and_read) {
  int t = mc::choose(NT);
  const V &v = values(t)[static_cast<size_t>(mc::choose(static_cast<int>(values(t).size())))];
  K target = kinds()[static_cast<size_t>(mc::choose(16))];
  int prev = mc::choose(3); // what the object held before
  MC_OP("previous=" << (prev == 0 ? "None" : prev == 1 ? "Int32 -7" : "String8 \"old\"") << "; SetValue(" << name(target) << ", " << name(typeKind(t)) << " " << show(v) << ")");
  long before = mc::liveBlocks();
  {
    Smp::AnySimple a; V pv; K pk = K::PTK_None;
    if (prev == 1) { a.SetValue(K::PTK_Int32, static_cast<Smp::Int32>(-7)); pv.c = C::Int; pv.i = -7; pk = K::PTK_Int32; }
    if (prev == 2) { a.SetValue(K::PTK_String8, "old"); pv.c = C::Str; pv.s = "old"; pk = K::PTK_String8; }
    V want; bool ok = convert(v, target, false, want), threw = false;
    std::string ctx = std::string("set ") + name(target) + " from " + name(typeKind(t));
    mc::context(ctx.c_str());
    try { set(a, target, t, v); } catch (const Smp::InvalidAnyType &) { threw = true; }
    MC_CHECK(threw == !ok, "set-refusal:" + ctx, ctx << " of " << show(v) << (threw ? " was refused" : " was accepted as " + show(raw(a))) << ", expected " << (ok ? show(want) : "InvalidAnyType"));
    mc::outcome(mc::hashStr(ctx + (threw ? "x" : "v")));
    if (ok) { checkIs(a, target, want, "set-value:" + ctx, ctx + " of " + show(v)); readAll(a, target, want); checkIs(a, target, want, "read-changes", "after reading"); }
    else { checkIs(a, pk, pv, "refused-set-changes", "after refused " + ctx); readAll(a, pk, pv); }
    // still usable
    mc::context("set after"); a.SetValue(K::PTK_String8, "new"); V s; s.c = C::Str; s.s = "new"; checkIs(a, K::PTK_String8, s, "unusable", "set afterwards");
  }
  mc::context("destroy");
  MC_CHECK(mc::liveBlocks() == before, "leak", "memory still allocated after destruction: " << mc::liveBlocks() - before << " blocks");
}
MC_SCENARIO(constructor) { // AnySimple(kind, value)
  int t = mc::choose(NT);
  const V &v = values(t)[static_cast<size_t>(mc::choose(static_cast<int>(values(t).size())))];
  K target = kinds()[static_cast<size_t>(mc::choose(16))];
  MC_OP("AnySimple(" << name(target) << ", " << name(typeKind(t)) << " " << show(v) << ")");
  V want; bool ok = convert(v, target, false, want), threw = false; mc::context("construct");
  auto mk = [&](auto x) { Smp::AnySimple a(target, x); checkIs(a, target, want, "construct", "constructed"); };
  try {
    switch (t) {
    case 0: mk(static_cast<Smp::Bool>(v.i != 0)); break; case 1: mk(static_cast<Smp::Char8>(v.i)); break; case 2: mk(static_cast<Smp::String8>(v.s ? v.s->c_str() : nullptr)); break;
    case 3: mk(static_cast<Smp::UInt8>(v.i)); break; case 4: mk(static_cast<Smp::UInt16>(v.i)); break; case 5: mk(static_cast<Smp::UInt32>(v.i)); break; case 6: mk(static_cast<Smp::UInt64>(v.i)); break;
    case 7: mk(static_cast<Smp::Int8>(v.i)); break; case 8: mk(static_cast<Smp::Int16>(v.i)); break; case 9: mk(static_cast<Smp::Int32>(v.i)); break; case 10: mk(static_cast<Smp::Int64>(v.i)); break;
    case 11: mk(static_cast<Smp::Float32>(v.f)); break; default: mk(static_cast<Smp::Float64>(v.f)); break;
    }
  } catch (const Smp::InvalidAnyType &) { threw = true; }
  MC_CHECK(threw == !ok, "construct-refusal", "construction of " << name(target) << " from " << show(v) << (threw ? " refused" : " accepted"));
}
