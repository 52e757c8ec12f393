// C06: value semantics of AnySimple over every short sequence of operations on three objects, against a plain value model.
#include "mc.h"
#include "anysimple_model.h"
#include <memory>
using namespace anym;
namespace {
struct M { K k = K::PTK_None; V v; };
struct Val { K k; int t; V v; };
V vi(I i) { V v; v.c = C::Int; v.i = i; return v; }
V vf(double f) { V v; v.c = C::Float; v.f = f; return v; }
V vs(const char *s) { V v; v.c = C::Str; if (s) v.s = s; return v; }
V vb(C c, int i) { V v; v.c = c; v.i = i; return v; }
const std::vector<Val> &vals() {
  static const std::vector<Val> r{
      {K::PTK_Int32, 9, vi(1)}, {K::PTK_String8, 2, vs("a")}, {K::PTK_Float64, 12, vf(NAN)}, {K::PTK_String8, 2, vs(nullptr)}, {K::PTK_UInt64, 6, vi((static_cast<I>(1) << 64) - 1)},
      {K::PTK_Float32, 11, vf(INFINITY)}, {K::PTK_Bool, 0, vb(C::Bool, 1)}, {K::PTK_Char8, 1, vb(C::Char, 'a')}, {K::PTK_Int8, 7, vi(-1)}, {K::PTK_String8, 2, vs("")}, {K::PTK_Float32, 11, vf(1)}, {K::PTK_Float64, 12, vf(1)},
      {K::PTK_Duration, 10, vi(1)}, {K::PTK_DateTime, 10, vi(1)}, {K::PTK_Int64, 10, vi(-1)}, {K::PTK_UInt8, 3, vi(1)}, {K::PTK_Bool, 0, vb(C::Bool, 0)}, {K::PTK_Int16, 8, vi(-1)}, {K::PTK_UInt16, 4, vi(65535)}, {K::PTK_UInt32, 5, vi(0)}, {K::PTK_String8, 2, vs("ab")}, {K::PTK_Float64, 12, vf(-INFINITY)}, {K::PTK_Float64, 12, vf(1.5)}, {K::PTK_Int64, 10, vi(INT64_MIN)}, {K::PTK_Int32, 9, vi(-1)}, {K::PTK_Float32, 11, vf(0.25)}, {K::PTK_Char8, 1, vb(C::Char, 0)}, {K::PTK_Int32, 9, vi(2)}};
  return r;
}
// expected equality: 1 true, 0 false, -1 not specified
int expectEq(const M &a, const M &b) {
  if (a.k == b.k) {
    if (a.v.c == C::Float) {
      if (std::isnan(a.v.f) || std::isnan(b.v.f)) return 0;
      if (a.v.f == b.v.f) return 1;
      if (std::isinf(a.v.f) || std::isinf(b.v.f)) return 0;
      double d = std::fabs(a.v.f - b.v.f), e = a.k == K::PTK_Float32 ? static_cast<double>(FLT_EPSILON) : DBL_EPSILON;
      return d <= e;
    }
    return same(a.v, b.v);
  }
  if (a.k == K::PTK_None || b.k == K::PTK_None) return 0;
  if (a.v.c == C::Int && b.v.c == C::Int) return a.v.i == b.v.i; // same mathematical value
  if ((a.v.c == C::Str) != (b.v.c == C::Str) && a.v.c != C::Bool && b.v.c != C::Bool) return 0;
  return -1;
}
void checkAll(Smp::AnySimple *const *s, const M *m, int n, const char *after) {
  for (int i = 0; i < n; ++i) {
    MC_CHECK(s[i]->GetType() == m[i].k, std::string("type:") + after, "object " << i << " has type " << name(s[i]->GetType()) << " expected " << name(m[i].k));
    V r = raw(*s[i]);
    MC_CHECK(same(r, m[i].v), std::string("value:") + after, "object " << i << " holds " << show(r) << " expected " << show(m[i].v));
  }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    if (i != j && s[i]->type == K::PTK_String8 && s[j]->type == K::PTK_String8 && s[i]->value.string8Value && s[i]->value.string8Value == s[j]->value.string8Value) mc::fail("shared", "two objects share one string buffer");
    mc::context("compare");
    bool e = *s[i] == *s[j], ne = *s[i] != *s[j]; int x = expectEq(m[i], m[j]);
    MC_CHECK(e != ne, "negation", "== and != agree for " << show(m[i].v) << " and " << show(m[j].v));
    if (x >= 0) MC_CHECK(e == (x == 1), std::string("equality:") + name(m[i].k) + "/" + name(m[j].k), name(m[i].k) << " " << show(m[i].v) << " == " << name(m[j].k) << " " << show(m[j].v) << " is " << e);
  }
}
}
MC_SCENARIO(sequences) {
  vals(); kinds();
  const int depth = mc::param("depth", 3), N = 3;
  const int nv = mc::param("values", 8);
  long before = mc::liveBlocks();
  {
    std::unique_ptr<Smp::AnySimple> own[N]; Smp::AnySimple *s[N]; M m[N];
    for (int i = 0; i < N; ++i) { own[i] = std::make_unique<Smp::AnySimple>(); s[i] = own[i].get(); }
    for (int k = 0; k < depth; ++k) {
      std::uint64_t h = mc::mix(3, static_cast<std::uint64_t>(depth - k));
      for (int i = 0; i < N; ++i) h = mc::hashStr(std::string(name(m[i].k)) + show(m[i].v), h);
      if (mc::visit(h)) break;
      int i = mc::choose(N), op = mc::choose(8); const char *nm = "";
      std::string ns;
      switch (op) {
      case 0: { const Val &x = vals()[static_cast<size_t>(mc::choose(nv))]; nm = "set"; mc::context(nm); MC_OP("s" << i << ".SetValue(" << name(x.k) << ", " << show(x.v) << ")"); set(*s[i], x.k, x.t, x.v); m[i] = {x.k, x.v}; break; }
      case 1: { int j = mc::choose(N); nm = i == j ? "self-copy" : "copy"; mc::context(nm); MC_OP("s" << i << " = s" << j); auto &r = (*s[i] = *s[j]); MC_CHECK(&r == s[i], "ret", "= returns another object"); m[i] = m[j]; break; }
      case 2: { int j = mc::choose(N); nm = i == j ? "self-move" : "move"; mc::context(nm); MC_OP("s" << i << " = move(s" << j << ")"); auto &r = (*s[i] = std::move(*s[j])); MC_CHECK(&r == s[i], "ret", "= returns another object"); if (i != j) { m[i] = m[j]; m[j] = M{}; // a moved-from object only has to be usable: take what it reports
            if (s[j]->type != K::PTK_None) { m[j].k = s[j]->type; m[j].v = raw(*s[j]); } } break; }
      case 3: { int j = mc::choose(N); nm = "copy-construct"; mc::context(nm); if (i == j) { auto p = std::make_unique<Smp::AnySimple>(*s[i]); own[i] = std::move(p); } else own[i] = std::make_unique<Smp::AnySimple>(*s[j]); s[i] = own[i].get(); MC_OP("s" << i << " = new copy of s" << j); m[i] = m[j]; break; }
      case 4: { int j = mc::choose(N); nm = "move-construct"; mc::context(nm); auto p = std::make_unique<Smp::AnySimple>(std::move(*s[j])); MC_OP("s" << i << " = new AnySimple(move(s" << j << "))"); M x = m[j]; if (i != j) { m[j].k = s[j]->type; m[j].v = raw(*s[j]); } own[i] = std::move(p); s[i] = own[i].get(); m[i] = x; break; }
      case 5: { nm = "refused-set"; mc::context(nm); MC_OP("s" << i << ".SetValue(Int8, UInt64 300) (refused)"); bool t = false; try { s[i]->SetValue(K::PTK_Int8, static_cast<Smp::UInt64>(300)); } catch (const Smp::InvalidAnyType &) { t = true; } MC_CHECK(t, "accepted", "out of range value accepted"); break; }
      case 6: { nm = "MoveString"; mc::context(nm); MC_OP("s" << i << ".MoveString()"); bool t = false; Smp::String8 p = nullptr; try { p = s[i]->MoveString(); } catch (const Smp::InvalidAnyType &) { t = true; }
          MC_CHECK(t == (m[i].k != K::PTK_String8), "MoveString", "MoveString on " << name(m[i].k) << (t ? " refused" : " accepted"));
          if (!t) { MC_CHECK((p != nullptr) == m[i].v.s.has_value(), "MoveString-null", "wrong nullness"); if (p) MC_CHECK(*m[i].v.s == p, "MoveString-value", "got " << p); delete[] p; m[i].v = vs(nullptr); } break; }
      default: { nm = "set-own-string"; if (m[i].k != K::PTK_String8 || !m[i].v.s) return; mc::context(nm); MC_OP("s" << i << ".SetValue(String8, its own buffer)"); s[i]->SetValue(K::PTK_String8, s[i]->value.string8Value); break; }
      }
      checkAll(s, m, N, nm);
    }
  }
  mc::context("destroy");
  MC_CHECK(mc::liveBlocks() == before, "leak", mc::liveBlocks() - before << " blocks still allocated");
}
MC_SCENARIO(equality) { // every pair of values, and transitively a copy
  kinds();
  const Val &a = vals()[static_cast<size_t>(mc::choose(static_cast<int>(vals().size())))], &b = vals()[static_cast<size_t>(mc::choose(static_cast<int>(vals().size())))];
  long before = mc::liveBlocks();
  { Smp::AnySimple x, y, z; set(x, a.k, a.t, a.v); set(y, b.k, b.t, b.v); M m[3] = {{a.k, a.v}, {b.k, b.v}, {}}; Smp::AnySimple *s[3] = {&x, &y, &z}; MC_OP(name(a.k) << " " << show(a.v) << " vs " << name(b.k) << " " << show(b.v)); checkAll(s, m, 3, "set"); }
  MC_CHECK(mc::liveBlocks() == before, "leak", "blocks still allocated");
}
