// C16: fallible models against a plain set of failed failures.
#include "mc.h"
#include "memstore.h"
#include <Smp/IFailure.h>
#include <Smp/ISimpleField.h>
#include <Smp/Publication/IStructureType.h>
#include <Xsmp/FallibleModel.h>
#include <Xsmp/Field.h>
#include <Xsmp/Model.h>
#include <Xsmp/Publication/TypeRegistry.h>
#include <memory>
#include <string>
#include <vector>
namespace {
struct Pair {
  Smp::Int32 a;
  template <typename B> struct _Field : public B {
    _Field(Smp::Publication::ITypeRegistry *r, Smp::Uuid t, Smp::String8 n, Smp::String8 d = "", Smp::IObject *p = nullptr, Smp::ViewKind v = Smp::ViewKind::VK_None, const Pair &x = {}) : B(r, t, n, d, p, v), a{r, Smp::Uuids::Uuid_Int32, "a", "", this, v, x.a} {}
    typename B::template Field<Smp::Int32> a;
  };
};
using Arr = Xsmp::Array<Smp::Int32, 2>; using SArr = Xsmp::Array<Smp::Int32, 2, Xsmp::Annotation::simpleArray>;
const Smp::Uuid ARR{1, 1, 1, 1, 1}, SARR{1, 1, 1, 1, 2}, PAIR{1, 1, 1, 1, 3};
struct M : Xsmp::Model, virtual Xsmp::FallibleModel {
  Xsmp::Field<Smp::Int32>::failure f0; Xsmp::Field<Smp::Int32>::transient::failure f1; Xsmp::Field<SArr>::failure f2; Xsmp::Field<Pair>::failure f3; Xsmp::Field<Arr>::failure f4; Xsmp::Field<Smp::Int32>::failure::forcible f5; Xsmp::Field<Smp::Bool>::failure::output f6; Xsmp::Field<Smp::Int32> plain;
  explicit M(Xsmp::Publication::TypeRegistry *t) : Xsmp::Model("m"), f0(t, Smp::Uuids::Uuid_Int32, "f0", "", this), f1(t, Smp::Uuids::Uuid_Int32, "f1", "", this), f2(t, SARR, "f2", "", this), f3(t, PAIR, "f3", "", this), f4(t, ARR, "f4", "", this), f5(t, Smp::Uuids::Uuid_Int32, "f5", "", this), f6(t, Smp::Uuids::Uuid_Bool, "f6", "", this), plain(t, Smp::Uuids::Uuid_Int32, "plain", "", this) {}
  Smp::IFailure *fail(int i) { Smp::IFailure *a[] = {&f0, &f1, &f2, &f3, &f4, &f5, &f6}; return a[i]; }
  Smp::IField *field(int i) { Smp::IField *a[] = {&f0, &f1, &f2, &f3, &f4, &f5, &f6, &plain}; return a[i]; }
};
constexpr int NF = 7;
void observe(M &m, unsigned want, int value, const char *k) {
  mc::context("observe");
  MC_CHECK(m.IsFailed() == (want != 0), std::string("model:") + k, "model is " << (m.IsFailed() ? "" : "not ") << "failed while failures are " << want);
  for (int i = 0; i < NF; ++i) MC_CHECK(m.fail(i)->IsFailed() == ((want >> i & 1) != 0), std::string("failure:") + k, "failure f" << i << " is " << (m.fail(i)->IsFailed() ? "" : "not ") << "failed, failures should be " << want);
  int i = 0; for (auto *f : *m.GetFailures()) { MC_CHECK(i < NF && f == m.fail(i), std::string("collection:") + k, "failure " << i << " of the collection is wrong"); ++i; }
  MC_CHECK(i == NF, std::string("collection:") + k, i << " failures in the collection");
  for (i = 0; i < NF; ++i) MC_CHECK(m.GetFailure(("f" + std::to_string(i)).c_str()) == m.fail(i), std::string("name:") + k, "GetFailure(f" << i << ") is wrong");
  MC_CHECK(!m.GetFailure("plain") && !m.GetFailure("f7") && !m.GetFailure(""), std::string("name:") + k, "GetFailure finds an unknown failure");
  MC_CHECK(*m.f0 == value, std::string("value:") + k, "value of f0 is " << *m.f0 << " instead of " << value);
}
MC_SCENARIO(failures) {
  static Xsmp::Publication::TypeRegistry reg(nullptr); static bool init = (reg.AddArrayType("Arr", "", ARR, Smp::Uuids::Uuid_Int32, 4, 2, false), reg.AddArrayType("SArr", "", SARR, Smp::Uuids::Uuid_Int32, 4, 2, true), reg.AddStructureType("Pair", "", PAIR)->AddField("a", "", Smp::Uuids::Uuid_Int32, 0), true); (void)init;
  std::unique_ptr<M> m[2] = {std::make_unique<M>(&reg), std::make_unique<M>(&reg)}; unsigned st[2] = {0, 0}; int val[2] = {0, 0}; std::string saved; unsigned savedState = 0; int savedVal = 0;
  const int nf = mc::param("failures", NF);
  for (int d = mc::param("depth", 4); d > 0; --d) {
    if (mc::visit(mc::mix(mc::mix(st[0] * 4096 + st[1], savedState * 64 + d), val[0] * 16 + val[1] * 8 + savedVal * 4 + (saved.empty() ? 0 : 1)))) return;
    const int op = mc::choose(2 * nf * 2 + 2 + 2 + 1);
    int k; const char *key;
    if (op < 4 * nf) { k = op / (2 * nf); const int i = op / 2 % nf; if (op & 1) { key = "unfail"; MC_OP("model " << k << ": unfail f" << i); mc::context(key); m[k]->fail(i)->Unfail(); st[k] &= ~(1u << i); } else { key = "fail"; MC_OP("model " << k << ": fail f" << i); mc::context(key); m[k]->fail(i)->Fail(); st[k] |= 1u << i; } }
    else if (op < 4 * nf + 2) { k = op - 4 * nf; key = "store"; MC_OP("store model " << k); mc::context(key); MemWriter w; for (int i = 0; i < NF + 1; ++i) m[k]->field(i)->Store(&w); saved = w.data; savedState = st[k]; savedVal = val[k]; }
    else if (op < 4 * nf + 4) { k = op - 4 * nf - 2; if (saved.empty()) return; key = "restore"; MC_OP("restore model " << k); mc::context(key); MemReader r(saved); for (int i = 0; i < NF + 1; ++i) m[k]->field(i)->Restore(&r); MC_CHECK(r.pos == saved.size(), "size", "restored " << r.pos << " bytes of " << saved.size()); st[k] = (savedState & ~2u) | (st[k] & 2u); val[k] = savedVal; }
    else { k = 0; key = "write"; MC_OP("write the value of f0"); mc::context(key); val[0] = 1 - val[0]; m[0]->f0 = val[0]; }
    for (int j = 0; j < 2; ++j) observe(*m[j], st[j], val[j], key);
    mc::outcome(mc::mix(st[k], op));
  }
}
} // namespace
