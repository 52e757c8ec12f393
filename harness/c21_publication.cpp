// C21: publication. Every way of publishing with every combination of flags, and sequences of publications against a model.
#include "mc.h"
#include "simenv.h"
#include <Smp/AccessKind.h>
#include <Smp/DuplicateName.h>
#include <Smp/IArrayField.h>
#include <Smp/IDataflowField.h>
#include <Smp/IOperation.h>
#include <Smp/IParameter.h>
#include <Smp/IProperty.h>
#include <Smp/ISimpleArrayField.h>
#include <Smp/ISimpleField.h>
#include <Smp/IStructureField.h>
#include <Smp/InvalidFieldName.h>
#include <Smp/InvalidFieldType.h>
#include <Smp/InvalidObjectName.h>
#include <Smp/Publication/IArrayType.h>
#include <Smp/Publication/IClassType.h>
#include <Smp/Publication/IEnumerationType.h>
#include <Smp/Publication/IPublishOperation.h>
#include <Smp/Publication/IStructureType.h>
#include <Smp/Publication/TypeNotRegistered.h>
#include <Xsmp/Field.h>
#include <Xsmp/Publication/Publication.h>
#include <Xsmp/Publication/TypeRegistry.h>
#include <cstring>
#include <deque>
#include <list>
#include <memory>
#include <set>
#include <string>
#include <vector>
namespace {
using PK = Smp::PrimitiveTypeKind; using VK = Smp::ViewKind; using PD = Smp::Publication::ParameterDirectionKind; using AK = Smp::AccessKind; using A = Smp::AnySimple; namespace SU = Smp::Uuids;
const char *str(Smp::String8 s) { return s ? s : ""; }
Smp::Uuid id(unsigned n) { return {0xABC0u + n, 1, 2, 3, 4}; }
enum { I32 = 100, STR3 = 1, ARR, SARR, ST, ARRST, CLS, BADST, ENM, INT8T, SARRST, NOTYPE, VOIDT, STRING8 };
struct Types { Xsmp::Publication::TypeRegistry reg{nullptr}; Types() {
  reg.AddStringType("Str3", "", id(STR3), 3); reg.AddArrayType("Arr", "", id(ARR), SU::Uuid_Int32, 4, 2, false); reg.AddArrayType("SArr", "", id(SARR), SU::Uuid_Int16, 2, 3, true); auto *e = reg.AddEnumerationType("Enm", "", id(ENM), 2); e->AddLiteral("x", "", 0x0303); e->AddLiteral("y", "", 0x0505); reg.AddIntegerType("Int", "", id(INT8T), -128, 127, "", PK::PTK_Int8);
  auto *s = reg.AddStructureType("St", "", id(ST)); s->AddField("p", "first", id(INT8T), 0, VK::VK_Debug, true, false, false); s->AddField("q", "second", SU::Uuid_Float64, 8, VK::VK_None, false, true, false); s->AddField("r", "third", id(ARR), 16, VK::VK_Expert, true, false, true);
  reg.AddArrayType("ArrSt", "", id(ARRST), id(ST), 24, 2, false); reg.AddArrayType("SArrSt", "", id(SARRST), id(ST), 24, 2, true); auto *c = reg.AddClassType("Cls", "", id(CLS), SU::Uuid_Void); c->AddField("m", "member", SU::Uuid_UInt16, 2, VK::VK_All, true, true, true);
  auto *b = reg.AddStructureType("Bad", "", id(BADST)); b->AddField("ok", "", SU::Uuid_Int32, 0, VK::VK_All, true, false, false); b->AddField("no", "", id(NOTYPE), 4, VK::VK_All, true, false, false); } };
Smp::Uuid uuidOf(int t) { switch (t) { case I32: return SU::Uuid_Int32; case VOIDT: return SU::Uuid_Void; case STRING8: return SU::Uuid_String8; default: return id(static_cast<unsigned>(t)); } }
// what a published field must look like
struct Exp { std::string name, desc; Smp::IObject *parent = nullptr, *parent2 = nullptr; char shape = 's'; /* s simple, v simple array, a array, t structure */ PK kind = PK::PTK_None; Smp::Uuid type{}; bool typed = true; VK view = VK::VK_All; bool state = true, input = false, output = false; unsigned char *addr = nullptr; size_t size = 0, count = 0; std::list<Exp> kids; Smp::IField *field = nullptr; bool object = false; };
size_t sizeOf(PK k) { switch (k) { case PK::PTK_Bool: case PK::PTK_Char8: case PK::PTK_Int8: case PK::PTK_UInt8: return 1; case PK::PTK_Int16: case PK::PTK_UInt16: return 2; case PK::PTK_Int32: case PK::PTK_UInt32: case PK::PTK_Float32: return 4; default: return 8; } }
Exp expect(int t, const std::string &name, const std::string &desc, Smp::IObject *parent, unsigned char *addr, VK v, bool st, bool in, bool out) {
  Exp e; e.name = name; e.desc = desc; e.parent = parent; e.type = uuidOf(t); e.view = v; e.state = st; e.input = in; e.output = out; e.addr = addr; auto simple = [&](PK k, size_t n) { e.kind = k; e.size = n; };
  switch (t) { case I32: simple(PK::PTK_Int32, 4); break; case STR3: simple(PK::PTK_String8, 3); break; case ENM: simple(PK::PTK_Int16, 2); break; case INT8T: simple(PK::PTK_Int8, 1); break; case SARR: e.shape = 'v'; e.kind = PK::PTK_Int16; e.size = 2; e.count = 3; break;
  case ARR: case ARRST: case SARRST: e.shape = 'a'; for (int i = 0; i < 2; ++i) { e.kids.push_back(expect(t == ARR ? I32 : ST, "[" + std::to_string(i) + "]", "", parent, addr + i * (t == ARR ? 4 : 24), v, st, in, out)); e.kids.back().desc = "*"; } break;
  case ST: e.shape = 't'; e.kids.push_back(expect(INT8T, "p", "first", nullptr, addr, VK::VK_Debug, true, in, out)); { Exp q; q.name = "q"; q.desc = "second"; q.kind = PK::PTK_Float64; q.size = 8; q.type = SU::Uuid_Float64; q.view = VK::VK_None; q.state = false; q.input = true; q.output = out; q.addr = addr + 8; e.kids.push_back(q); } e.kids.push_back(expect(ARR, "r", "third", nullptr, addr + 16, VK::VK_Expert, true, in, true)); break;
  case CLS: { e.shape = 't'; Exp q; q.name = "m"; q.desc = "member"; q.kind = PK::PTK_UInt16; q.size = 2; q.type = SU::Uuid_UInt16; q.input = q.output = true; q.addr = addr + 2; e.kids.push_back(q); break; } default: break; }
  return e; }
struct Block { alignas(16) unsigned char b[64]; Block() { std::memset(b, 5, sizeof b); } };
A raw(PK k, const unsigned char *p) { switch (k) { case PK::PTK_Bool: return {k, *p != 0}; case PK::PTK_Char8: return {k, static_cast<char>(*p)};
#define N(X, T) case PK::PTK_##X: { T v; std::memcpy(&v, p, sizeof v); return {k, v}; }
  N(Int8, Smp::Int8) N(Int16, Smp::Int16) N(Int32, Smp::Int32) N(Int64, Smp::Int64) N(Duration, Smp::Int64) N(DateTime, Smp::Int64) N(UInt8, Smp::UInt8) N(UInt16, Smp::UInt16) N(UInt32, Smp::UInt32) N(UInt64, Smp::UInt64) N(Float32, Smp::Float32) N(Float64, Smp::Float64)
#undef N
  default: return {k, reinterpret_cast<const char *>(p)}; } }
struct World { Types tr; struct M : Xsmp::Model { using Xsmp::Model::Model; } m{"m", "", nullptr, nullptr}; std::list<Block> mem; Xsmp::Publication::Publication pub{&m, &tr.reg};
  // one leaf: values go to the published memory, and come from it
  template <class G, class S> void leaf(const Exp &e, unsigned char *p, Block &blk, G &&get, S &&set) {
    unsigned char keep[sizeof blk.b]; std::memcpy(keep, blk.b, sizeof keep); for (int round = 0; round < 2; ++round) { unsigned char want[sizeof blk.b]; std::memcpy(want, blk.b, sizeof want); const auto fill = static_cast<unsigned char>(e.kind == PK::PTK_Bool ? round : round ? 3 : 5); unsigned char img[8]; std::memset(img, fill, 8); A v = e.kind == PK::PTK_String8 ? A(PK::PTK_String8, round ? "\3\3" : "\5\5") : raw(e.kind, img); const size_t off = static_cast<size_t>(p - blk.b); if (e.kind == PK::PTK_String8) { set(v); MC_CHECK(std::string(reinterpret_cast<char *>(p)) == (round ? "\3\3" : "\5\5"), "alias", "a value of field " << e.name << " does not arrive in its memory"); std::memcpy(want + off, blk.b + off, 4); } else { set(v); std::memset(want + off, fill, e.size); } MC_CHECK(std::memcmp(want, blk.b, sizeof want) == 0, "alias", "writing field " << e.name << " does not change exactly its memory"); if (e.kind == PK::PTK_String8) { p[0] = 'z'; p[1] = 0; } else std::memset(p, fill ^ (e.kind == PK::PTK_Bool ? 1 : 6), e.size); A g = get(); A w = raw(e.kind, p); MC_CHECK(g.type == w.type && (e.kind == PK::PTK_String8 ? std::string(str(g)) == "z" : g == w), "alias", "field " << e.name << " does not read its memory"); if (e.kind == PK::PTK_Int16 || e.kind == PK::PTK_Bool) std::memset(p, e.kind == PK::PTK_Bool ? 1 : 5, e.size); } std::memcpy(blk.b, keep, sizeof keep); }
  Block *blockOf(unsigned char *p) { for (auto &b : mem) if (p >= b.b && p < b.b + sizeof b.b) return &b; return nullptr; }
  void check(Smp::IField *f, Exp &e, bool alias, Smp::IObject *parent = nullptr) {
    const std::string n = e.name; MC_CHECK(f, "missing", "field " << n << " is missing"); MC_CHECK(str(f->GetName()) == n, "name", "a field is called " << f->GetName() << " instead of " << n); MC_CHECK(e.desc == "*" || str(f->GetDescription()) == e.desc, "description", "description of field " << n); MC_CHECK(f->GetParent() == e.parent || (parent && f->GetParent() == parent) || (e.parent2 && f->GetParent() == e.parent2), "parent", "parent of field " << n); MC_CHECK(f->GetView() == e.view, "view", "view kind of field " << n << " is " << static_cast<int>(f->GetView())); MC_CHECK(f->IsState() == e.state, "state", "state flag of field " << n); MC_CHECK(f->IsInput() == e.input, "input", "input flag of field " << n); MC_CHECK(f->IsOutput() == e.output, "output", "output flag of field " << n); if (e.typed) MC_CHECK(f->GetType() && f->GetType()->GetUuid() == e.type, "type", "type of field " << n);
    MC_CHECK((dynamic_cast<Smp::IDataflowField *>(f) != nullptr) == e.output || e.object, "dataflow", "field " << n << (e.output ? " is an output but no dataflow field" : " is no output but a dataflow field"));
    auto *s = dynamic_cast<Smp::ISimpleField *>(f); auto *v = dynamic_cast<Smp::ISimpleArrayField *>(f); auto *a = dynamic_cast<Smp::IArrayField *>(f); auto *t = dynamic_cast<Smp::IStructureField *>(f); MC_CHECK((s != nullptr) == (e.shape == 's') && (v != nullptr) == (e.shape == 'v') && (a != nullptr && !v) == (e.shape == 'a') && (t != nullptr) == (e.shape == 't'), "shape", "field " << n << " is of another shape");
    if (s) { MC_CHECK(s->GetPrimitiveTypeKind() == e.kind, "kind", "primitive kind of field " << n); if (alias && e.addr) leaf(e, e.addr, *blockOf(e.addr), [&] { return s->GetValue(); }, [&](A x) { s->SetValue(x); }); }
    if (v) { MC_CHECK(v->GetSize() == e.count, "count", "array " << n << " has " << v->GetSize() << " items instead of " << e.count); if (alias) for (size_t i = 0; i < e.count; ++i) leaf(e, e.addr + i * e.size, *blockOf(e.addr), [&] { return v->GetValue(i); }, [&](A x) { v->SetValue(i, x); }); }
    if (e.shape == 'a') { MC_CHECK(a->GetSize() == e.kids.size(), "count", "array " << n << " has " << a->GetSize() << " items instead of " << e.kids.size()); size_t i = 0; for (auto &k : e.kids) check(a->GetItem(i++), k, alias, f); }
    if (t) { auto *c = t->GetFields(); MC_CHECK(c->size() == e.kids.size(), "count", "structure " << n << " has " << c->size() << " fields instead of " << e.kids.size()); size_t i = 0; for (auto &k : e.kids) { k.parent = k.parent ? k.parent : f; if (k.shape == 'a' && e.typed) for (auto &q : k.kids) q.parent = f; check(c->at(i++), k, alias); MC_CHECK(t->GetField(k.name.c_str()) == c->at(i - 1), "missing", "field " << k.name << " of a structure by name"); } MC_CHECK(!t->GetField("zz"), "unknown", "an unknown field of a structure"); } }
  std::list<Exp> fields; struct Par { std::string name, desc; int type; PD dir; }; struct Op { std::string name, desc; VK view; std::vector<Par> par; Smp::Publication::IPublishOperation *h; }; std::vector<Op> ops; struct Prop { std::string name, desc; int type; AK access; VK view; }; std::vector<Prop> props;
  template <class F, class E> void collection(const Smp::ICollection<F> *c, const std::vector<E *> &want, const char *what) { MC_CHECK(c, "collection", "no collection of " << what); MC_CHECK(c->size() == want.size(), "count", c->size() << " " << what << " are published instead of " << want.size()); size_t i = 0; for (auto *x : *c) { MC_CHECK(x == c->at(i), "collection", "iteration and index of " << what << " differ"); MC_CHECK(c->at(x->GetName()) == x, "collection", what << " by name and by index differ"); ++i; } MC_CHECK(i == want.size() && !c->at(i) && !c->at("zz") && !c->at(static_cast<Smp::String8>(nullptr)), "collection", "end of the collection of " << what); for (auto *w : want) MC_CHECK(c->at(w->name.c_str()), "missing", what << " " << w->name << " is missing"); }
  template <class F, class E> void order(const Smp::ICollection<F> *c, const std::vector<E *> &want, const char *what) { size_t at = 0; for (auto *w : want) { size_t i = 0; for (auto *x : *c) { if (str(x->GetName()) == w->name) break; ++i; } MC_CHECK(i >= at, "order", what << " " << w->name << " is not in the order of publication"); at = i; } }
  void check(bool alias) {
    std::vector<Exp *> typed, objects, all; for (auto &e : fields) { (e.object ? objects : typed).push_back(&e); all.push_back(&e); } auto *c = pub.GetFields(); collection(c, all, "fields"); order(c, typed, "field"); order(c, objects, "field object"); for (auto *e : all) { auto *f = c->at(e->name.c_str()); if (e->object) MC_CHECK(f == e->field, "object", "a published field object is replaced"); else { if (e->field) MC_CHECK(f == e->field, "object", "field " << e->name << " is another object now"); e->field = f; } check(f, *e, alias); MC_CHECK(pub.GetField(e->name.c_str()) == f, "GetField", "GetField(" << e->name << ") is another field"); for (auto &k : e->kids) if (!e->object && (e->typed || e->shape == 't')) MC_CHECK(pub.GetField((e->name + (e->shape == 'a' ? "" : ".") + k.name).c_str()) == (e->shape == 'a' ? dynamic_cast<Smp::IArrayField *>(f)->GetItem(static_cast<size_t>(std::stoi(k.name.substr(1)))) : dynamic_cast<Smp::IStructureField *>(f)->GetField(k.name.c_str())), "GetField", "GetField of " << e->name << " and " << k.name); }
    for (const char *n : {static_cast<const char *>(nullptr), "zz", "", "a.zz", "a[9]", "o"}) { bool known = false; for (auto *e : all) known = known || (n && e->name == n); if (!known) try { auto *f = pub.GetField(n); MC_CHECK(false, "InvalidFieldName", "GetField of an unknown name gives " << (f ? f->GetName() : "null")); } catch (const Smp::InvalidFieldName &e) { MC_CHECK((!n || str(e.GetFieldName()) == std::string(n)) && e.GetSender() == &m, "InvalidFieldName", "name or sender of InvalidFieldName"); } }
    std::vector<Op *> wo; for (auto &o : ops) wo.push_back(&o); collection(pub.GetOperations(), wo, "operations"); order(pub.GetOperations(), wo, "operation"); for (auto &o : ops) { auto *x = pub.GetOperations()->at(o.name.c_str()); MC_CHECK(dynamic_cast<Smp::Publication::IPublishOperation *>(x) == o.h, "operation", "operation " << o.name << " is another object"); MC_CHECK(x->GetParent() == &m && str(x->GetDescription()) == o.desc && x->GetView() == o.view, "operation", "parent, description or view kind of operation " << o.name); std::vector<Par *> wp; Par *ret = nullptr; for (auto &p : o.par) if (p.dir == PD::PDK_Return) ret = &p; else wp.push_back(&p); collection(x->GetParameters(), wp, "parameters"); order(x->GetParameters(), wp, "parameter"); auto *r = x->GetReturnParameter(); MC_CHECK((r != nullptr) == (ret != nullptr), "parameter", "operation " << o.name << (ret ? " has no" : " has a") << " return parameter"); for (auto &p : o.par) { auto *y = x->GetParameter(p.name.c_str()); MC_CHECK(y && y == (&p == ret ? r : x->GetParameters()->at(p.name.c_str())), "parameter", "GetParameter(" << p.name << ")"); MC_CHECK(str(y->GetName()) == p.name && str(y->GetDescription()) == p.desc && y->GetDirection() == p.dir && y->GetType() == tr.reg.GetType(uuidOf(p.type)) && y->GetParent() == x, "parameter", "name, description, direction, type or parent of parameter " << p.name); } MC_CHECK(!x->GetParameter("zz"), "parameter", "an unknown parameter");
      bool can = true; for (auto &p : o.par) can = can && p.type != ARR; auto *q = pub.CreateRequest(o.name.c_str()); MC_CHECK((q != nullptr) == can, "request", "operation " << o.name << (can ? " has no request" : " with a composed parameter has a request")); if (q) { MC_CHECK(q->GetParameterCount() == static_cast<int>(wp.size()), "request", "a request has " << q->GetParameterCount() << " parameters"); for (size_t i = 0; i < wp.size(); ++i) MC_CHECK(q->GetParameterIndex(wp[i]->name.c_str()) == static_cast<int>(i), "request", "order of the parameters in a request"); pub.DeleteRequest(q); } }
    std::vector<Prop *> wp; for (auto &p : props) wp.push_back(&p); collection(pub.GetProperties(), wp, "properties"); order(pub.GetProperties(), wp, "property"); for (auto &p : props) { auto *x = pub.GetProperties()->at(p.name.c_str()); MC_CHECK(x->GetParent() == &m && str(x->GetDescription()) == p.desc && x->GetView() == p.view && x->GetAccess() == p.access && x->GetType() == tr.reg.GetType(uuidOf(p.type)), "property", "parent, description, view kind, access kind or type of property " << p.name); } }
  std::string thrown(const std::string &name, const std::function<void()> &f) { try { f(); return ""; } catch (const Smp::Exception &e) { auto *s = e.GetSender(); MC_CHECK(!s || s->GetName(), "sender", "the sender of " << e.GetName() << " has no name"); if (auto *d = dynamic_cast<const Smp::DuplicateName *>(&e)) MC_CHECK(str(d->GetDuplicateName()) == name, "DuplicateName", "DuplicateName names " << d->GetDuplicateName()); if (auto *d = dynamic_cast<const Smp::InvalidObjectName *>(&e)) MC_CHECK(str(d->GetInvalidName()) == name, "InvalidObjectName", "InvalidObjectName names " << d->GetInvalidName()); return e.GetName(); } }
  static void judge(const std::string &got, const std::set<std::string> &want, const std::string &what) { if (want.empty()) MC_CHECK(got.empty(), "refused", what << " gives " << got); else { std::string w; for (auto &x : want) w += " " + x; MC_CHECK(want.count(got), "exception", what << " gives '" << got << "' instead of" << w); } } };
bool badName(const std::string &n) { return n == "1x" || n == "" || n == "[x]" || n == "a b"; }
const PK KINDS[] = {PK::PTK_Int32, PK::PTK_Bool, PK::PTK_Char8, PK::PTK_Int8, PK::PTK_Int16, PK::PTK_Int64, PK::PTK_UInt8, PK::PTK_UInt16, PK::PTK_UInt32, PK::PTK_UInt64, PK::PTK_Float32, PK::PTK_Float64, PK::PTK_Duration, PK::PTK_DateTime, PK::PTK_String8, PK::PTK_None};
Smp::Uuid kindUuid(PK k) { static const Smp::Uuid U[] = {SU::Uuid_Int32, SU::Uuid_Bool, SU::Uuid_Char8, SU::Uuid_Int8, SU::Uuid_Int16, SU::Uuid_Int64, SU::Uuid_UInt8, SU::Uuid_UInt16, SU::Uuid_UInt32, SU::Uuid_UInt64, SU::Uuid_Float32, SU::Uuid_Float64, SU::Uuid_Duration, SU::Uuid_DateTime, SU::Uuid_String8, SU::Uuid_Void}; for (size_t i = 0; i < 16; ++i) if (KINDS[i] == k) return U[i]; return {}; }
bool overload(Smp::IPublication &p, PK k, const char *n, const char *d, void *a, VK v, bool st, bool in, bool out) { switch (k) {
#define O(X, T) case PK::PTK_##X: p.PublishField(n, d, static_cast<T *>(a), v, st, in, out); return true;
  O(Bool, Smp::Bool) O(Char8, Smp::Char8) O(Int8, Smp::Int8) O(Int16, Smp::Int16) O(Int32, Smp::Int32) O(Int64, Smp::Int64) O(UInt8, Smp::UInt8) O(UInt16, Smp::UInt16) O(UInt32, Smp::UInt32) O(UInt64, Smp::UInt64) O(Float32, Smp::Float32) O(Float64, Smp::Float64)
#undef O
  default: return false; } }
Exp ofKind(PK k, const std::string &n, const std::string &d, Smp::IObject *p, unsigned char *a, VK v, bool st, bool in, bool out) { Exp e; e.name = n; e.desc = d; e.parent = p; e.addr = a; e.kind = k; e.size = sizeOf(k); e.type = kindUuid(k); e.view = v; e.state = st; e.input = in; e.output = out; return e; }
}
// every way of publishing a field, with every view kind and combination of flags
MC_SCENARIO(flags) {
  static const int warm = [] { Types t; return 1; }(); (void)warm; const long base = mc::liveBlocks();
  { World w; mc::context("flags"); const VK v = static_cast<VK>(mc::choose(4)); const bool st = mc::flip(), in = mc::flip(), out = mc::flip(); const int way = mc::choose(4); auto &b = w.mem.emplace_back(); auto *a = b.b + 8; std::string x; std::set<std::string> want; Exp e; const int T[] = {I32, STR3, ARR, SARR, ST, ARRST, CLS, BADST, ENM, INT8T, SARRST, NOTYPE, VOIDT, STRING8};
    switch (way) {
    case 0: { const PK k = KINDS[mc::choose(12)]; MC_OP("PublishField of kind " << static_cast<int>(k)); x = w.thrown("a", [&] { overload(w.pub, k, "a", "desc", a, v, st, in, out); }); e = ofKind(k, "a", "desc", &w.m, a, v, st, in, out); break; }
    case 1: { const PK k = KINDS[mc::choose(16)]; MC_OP("PublishField by uuid of kind " << static_cast<int>(k)); x = w.thrown("a", [&] { w.pub.PublishField("a", "desc", a, kindUuid(k), v, st, in, out); }); if (k == PK::PTK_String8 || k == PK::PTK_None) want = {"InvalidFieldType"}; e = ofKind(k, "a", "desc", &w.m, a, v, st, in, out); break; }
    case 2: { const int t = T[mc::choose(14)]; const bool byType = mc::flip(); auto *ty = w.tr.reg.GetType(uuidOf(t)); if (byType && !ty) return; MC_OP((byType ? "IType::Publish" : "PublishField") << " of type " << t); x = w.thrown("a", [&] { if (byType) ty->Publish(&w.pub, "a", "desc", a, v, st, in, out); else w.pub.PublishField("a", "desc", a, uuidOf(t), v, st, in, out); }); if (t == NOTYPE || t == BADST) want = {"TypeNotRegistered"}; if (t == VOIDT || t == STRING8) want = {"InvalidFieldType"}; if (want.empty()) e = expect(t, "a", "desc", &w.m, a, v, st, in, out); break; }
    default: { const PK k = KINDS[mc::choose(16)]; const int n = mc::choose(4); MC_OP("PublishArray of " << n << " of kind " << static_cast<int>(k)); x = w.thrown("a", [&] { w.pub.PublishArray("a", "desc", n, a, k, v, st, in, out); }); if (k == PK::PTK_String8 || k == PK::PTK_None) want = {"InvalidFieldType"}; e = ofKind(k, "a", "desc", &w.m, a, v, st, in, out); e.shape = 'v'; e.count = static_cast<size_t>(n); e.typed = false; break; } }
    World::judge(x, want, "publishing"); if (want.empty()) { w.fields.push_back(e); } w.check(true); w.check(true); w.pub.Unpublish(); w.fields.clear(); w.check(false); mc::outcome(static_cast<std::uint64_t>(way)); }
  MC_CHECK(mc::liveBlocks() == base, "leak", "memory of a publication remains");
}
// sequences of publications
MC_SCENARIO(sequences) {
  static const int warm = [] { Types t; return 1; }(); (void)warm; const long base = mc::liveBlocks();
  { World w; using FI = Xsmp::Field<Smp::Int32>; std::list<FI> objs; mc::context("sequences"); const int depth = mc::param("depth", 3); const bool lean = mc::param("lean", 0) != 0; static const char *const NAMES[] = {"a", "b", "1x", "", "[x]"}; const int nn = lean ? 2 : 3; const int from = mc::param("names", 0); (void)from;
    Smp::IPublication *sub = nullptr; Exp *subExp = nullptr; size_t curOp = static_cast<size_t>(-1); std::string h;
    for (int s = 0; s < depth; ++s) {
      const std::string d = "d" + std::to_string(s); auto &blk = w.mem.emplace_back(); auto *a = blk.b; const VK v = static_cast<VK>(s % 4); const bool st = s % 2 == 0, in = s % 3 == 0, out = s % 2 == 1; const int kinds = lean ? 9 : 17; const int c = mc::choose(kinds * nn); const int k = c / nn; const std::string n = NAMES[c % nn]; std::set<std::string> want; std::string x;
      auto fieldName = [&](const std::list<Exp> &l) { if (badName(n)) want.insert("InvalidObjectName"); for (auto &e : l) if (e.name == n) want.insert("DuplicateName"); };
      auto sub0 = [&](bool arr) { const std::string what = arr ? "PublishArray " : "PublishStructure "; MC_OP(what << n); fieldName(w.fields); Smp::IPublication *p = nullptr; x = w.thrown(n, [&] { p = arr ? w.pub.PublishArray(n.c_str(), d.c_str(), v, st) : w.pub.PublishStructure(n.c_str(), d.c_str(), v, st); }); World::judge(x, want, what + n); if (want.empty()) { Exp e; e.name = n; e.desc = d; e.parent = &w.m; e.shape = arr ? 'a' : 't'; e.typed = false; e.view = v; e.state = st; w.fields.push_back(e); sub = p; subExp = &w.fields.back(); MC_CHECK(p, "sub", "no publication for " << n); } };
      auto plain = [&](int t) { MC_OP("PublishField " << n << " of type " << t); fieldName(w.fields); if (t == NOTYPE || t == BADST) want.insert("TypeNotRegistered"); if (t == VOIDT || t == STRING8) want.insert("InvalidFieldType"); x = w.thrown(n, [&] { w.pub.PublishField(n.c_str(), d.c_str(), a, uuidOf(t), v, st, in, out); }); World::judge(x, want, "PublishField " + n); if (want.empty()) w.fields.push_back(expect(t, n, d, &w.m, a, v, st, in, out)); };
      auto op = [&] { MC_OP("PublishOperation " << n); if (badName(n)) want.insert("InvalidObjectName"); Smp::Publication::IPublishOperation *p = nullptr; x = w.thrown(n, [&] { p = w.pub.PublishOperation(n.c_str(), d.c_str(), v); }); World::judge(x, want, "PublishOperation " + n); if (want.empty()) { size_t i = 0; while (i < w.ops.size() && w.ops[i].name != n) ++i; if (i == w.ops.size()) w.ops.push_back({n, d, v, {}, p}); else { MC_CHECK(w.ops[i].h == p, "operation", "publishing operation " << n << " again gives another object"); w.ops[i].desc = d; w.ops[i].view = v; w.ops[i].par.clear(); } curOp = i; } };
      auto param = [&](int t, PD dir) { MC_OP("PublishParameter " << n << " of type " << t << " direction " << static_cast<int>(dir)); if (curOp >= w.ops.size()) return; auto &o = w.ops[curOp]; if (badName(n)) want.insert("InvalidObjectName"); if (t == NOTYPE) want.insert("TypeNotRegistered"); for (auto &p : o.par) { if (p.name == n) want.insert("DuplicateName"); if (dir == PD::PDK_Return && p.dir == dir) want.insert("InvalidParameterDirection"); } x = w.thrown(n, [&] { o.h->PublishParameter(n.c_str(), d.c_str(), uuidOf(t), dir); }); World::judge(x, want, "PublishParameter " + n); if (want.empty()) o.par.push_back({n, d, t, dir}); };
      auto prop = [&](int t, AK ac) { MC_OP("PublishProperty " << n << " of type " << t << " access " << static_cast<int>(ac)); if (badName(n)) want.insert("InvalidObjectName"); if (t == NOTYPE) want.insert("TypeNotRegistered"); x = w.thrown(n, [&] { w.pub.PublishProperty(n.c_str(), d.c_str(), uuidOf(t), ac, v); }); World::judge(x, want, "PublishProperty " + n); if (want.empty()) { bool found = false; for (auto &p : w.props) if (p.name == n) { p = {n, d, t, ac, v}; found = true; } if (!found) w.props.push_back({n, d, t, ac, v}); } };
      switch (k) {
      case 0: plain(I32); break;
      case 1: { MC_OP("PublishField object " << n); if (badName(n)) break; for (auto &e : w.fields) if (e.name == n) want.insert("DuplicateName"); auto &f = objs.emplace_back(&w.tr.reg, SU::Uuid_Int32, n.c_str(), d.c_str(), &w.m, v, 7); x = w.thrown(n, [&] { w.pub.PublishField(&f); }); World::judge(x, want, "PublishField of object " + n); if (want.empty()) { Exp e = ofKind(PK::PTK_Int32, n, d, &w.m, nullptr, v, true, false, false); e.object = true; e.field = &f; w.fields.push_back(e); } break; }
      case 2: op(); break;
      case 3: param(I32, PD::PDK_In); break;
      case 4: param(STR3, PD::PDK_Return); break;
      case 5: prop(I32, AK::AK_ReadWrite); break;
      case 6: sub0(false); break;
      case 7: { MC_OP("publish " << n << " in the last structure or array"); if (!sub) break; const bool arr = subExp->shape == 'a'; fieldName(subExp->kids); x = w.thrown(n, [&] { sub->PublishField(n.c_str(), d.c_str(), a, SU::Uuid_Int32, v, st, in, out); }); World::judge(x, want, "PublishField of item " + n); if (want.empty()) { Exp e = expect(I32, n, d, arr ? &w.m : nullptr, a, v, st, in, out); subExp->kids.push_back(e); } break; }
      case 8: MC_OP("Unpublish"); if (c % nn) break; w.pub.Unpublish(); w.fields.clear(); w.ops.clear(); w.props.clear(); sub = nullptr; subExp = nullptr; curOp = static_cast<size_t>(-1); break;
      case 9: sub0(true); break;
      case 10: plain(BADST); break;
      case 11: plain(ST); break;
      case 12: { MC_OP("PublishArray " << n << " of three"); fieldName(w.fields); x = w.thrown(n, [&] { w.pub.PublishArray(n.c_str(), d.c_str(), 3, a, PK::PTK_Int16, v, st, in, out); }); World::judge(x, want, "PublishArray " + n); if (want.empty()) { Exp e = ofKind(PK::PTK_Int16, n, d, &w.m, a, v, st, in, out); e.shape = 'v'; e.count = 3; e.typed = false; w.fields.push_back(e); } break; }
      case 13: param(NOTYPE, PD::PDK_InOut); break;
      case 14: param(ARR, PD::PDK_Out); break;
      case 15: prop(NOTYPE, AK::AK_ReadOnly); break;
      default: prop(ENM, AK::AK_WriteOnly); break; }
      // items of anonymous arrays are called [i] by users; here any name may be used, so paths by name only apply to structures
      w.check(s == depth - 1);
      h.clear(); for (auto &e : w.fields) { h += e.name + e.desc + e.shape + (e.object ? "o" : "") + std::to_string(e.kids.size()); for (auto &q : e.kids) h += q.name + q.desc; } h += "|"; for (auto &o : w.ops) { h += o.name + o.desc + "("; for (auto &p : o.par) h += p.name + p.desc + std::to_string(p.type); } h += "|"; for (auto &p : w.props) h += p.name + p.desc + std::to_string(p.type); h += "|" + std::to_string(curOp) + (subExp ? subExp->name : "-"); if (mc::visit(mc::mix(mc::hashStr(h), static_cast<std::uint64_t>(s)))) break; }
    w.check(false); mc::outcome(w.fields.size() * 16 + w.ops.size() * 4 + w.props.size()); }
  MC_CHECK(mc::liveBlocks() == base, "leak", "memory of a publication remains");
}
