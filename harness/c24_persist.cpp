// C24: Persist::Store / Persist::Restore of every supported kind of value and their nestings.
#include "mc.h"
#include "memstore.h"
#include <Smp/CannotRestore.h>
#include <Smp/Exception.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/EntryPoint.h>
#include <Xsmp/EntryPointPublisher.h>
#include <Xsmp/Model.h>
#include <Xsmp/Persist.h>
#include <Xsmp/Persist/SmpIObject.h>
#include <Xsmp/Persist/StdArray.h>
#include <Xsmp/Persist/StdAtomic.h>
#include <Xsmp/Persist/StdMap.h>
#include <Xsmp/Persist/StdPair.h>
#include <Xsmp/Persist/StdSet.h>
#include <Xsmp/Persist/StdString.h>
#include <Xsmp/Persist/StdUnorderedMap.h>
#include <Xsmp/Persist/StdUnorderedSet.h>
#include <Xsmp/Persist/StdVector.h>
#include <Xsmp/Services/XsmpResolver.h>
#include <Xsmp/Simulator.h>
#include <cstdint>
#include <functional>
#include <limits>
#include <memory>
namespace P = Xsmp::Persist;
namespace {
enum class Color : std::uint8_t { Red = 1, Blue = 250 }; enum Old : int { OA = -5, OB = 7 };
struct User { int a = 0; std::string b; bool operator==(const User &o) const { return a == o.a && b == o.b; } bool operator<(const User &o) const { return a != o.a ? a < o.a : b < o.b; } };
}
namespace Xsmp::Persist {
template <> struct Helper<User> {
  static void Store(const ::Smp::ISimulator *s, ::Smp::IStorageWriter *w, const User &u) { ::Xsmp::Persist::Store(s, w, u.a, u.b); }
  static void Restore(const ::Smp::ISimulator *s, ::Smp::IStorageReader *r, User &u) { ::Xsmp::Persist::Restore(s, r, u.a, u.b); }
};
}
namespace {
struct Comp : public virtual Xsmp::Model, public virtual Xsmp::Composite, public virtual Xsmp::EntryPointPublisher { Xsmp::Container<Smp::IModel> subs; Xsmp::EntryPoint ep; Comp(Smp::String8 n, Smp::IComposite *p, Smp::ISimulator *s) : Xsmp::Model(n, "", p, s), subs("subs", "", static_cast<Xsmp::Composite *>(this), 0, -1), ep("ep", "", this, [] {}) {} };
struct World { Xsmp::Simulator sim{"sim", ""}; Comp *m1, *m2, *child; World() { auto *res = new Xsmp::Services::XsmpResolver("XsmpResolver", "", &sim, &sim); sim.AddService(res); m1 = new Comp("m1", &sim, &sim); sim.AddModel(m1); m2 = new Comp("m2", &sim, &sim); sim.AddModel(m2); child = new Comp("child", m1, &sim); m1->subs.AddComponent(child); } };
World *W;
// containers with other comparators, hashes and allocators
struct Hash { size_t operator()(int i) const { return static_cast<size_t>(i) % 2; } }; // collisions
template <class T> struct Alloc : std::allocator<T> { using value_type = T; Alloc() = default; template <class U> Alloc(const Alloc<U> &) {} template <class U> struct rebind { using other = Alloc<U>; }; };
template <class T, size_t N> struct Raw { T v[N]; bool operator==(const Raw &o) const { for (size_t i = 0; i < N; ++i) if (!(v[i] == o.v[i])) return false; return true; } };
template <class T> struct Atomic { std::atomic<T> v{}; Atomic() = default; Atomic(T x) : v(x) {} Atomic(const Atomic &o) : v(o.v.load()) {} Atomic &operator=(const Atomic &o) { v = o.v.load(); return *this; } bool operator==(const Atomic &o) const { return v.load() == o.v.load(); } };
// what is handed to Persist
template <class T> T &inner(T &t) { return t; } template <class T> const T &inner(const T &t) { return t; }
template <class T, size_t N> auto inner(Raw<T, N> &r) -> T (&)[N] { return r.v; } template <class T, size_t N> auto inner(const Raw<T, N> &r) -> const T (&)[N] { return r.v; }
template <class T> std::atomic<T> &inner(Atomic<T> &a) { return a.v; } template <class T> const std::atomic<T> &inner(const Atomic<T> &a) { return a.v; }
// samples
template <class T, class = void> struct S;
template <class T> std::vector<T> smp() { return S<T>::get(); }
template <class T> T at(size_t i) { auto s = smp<T>(); return s[i % s.size()]; }
template <> struct S<bool> { static std::vector<bool> get() { return {true, false}; } };
template <class T> struct S<T, std::enable_if_t<std::is_arithmetic_v<T> && !std::is_same_v<T, bool>>> { static std::vector<T> get() { return {T(5), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::max()}; } };
template <> struct S<Color> { static std::vector<Color> get() { return {Color::Red, Color::Blue}; } };
template <> struct S<Old> { static std::vector<Old> get() { return {OA, OB}; } };
template <> struct S<User> { static std::vector<User> get() { return {{1, "u"}, {-1, ""}, {9, std::string(40, 'z')}}; } };
template <class C, class Tr, class A> struct S<std::basic_string<C, Tr, A>> { using T = std::basic_string<C, Tr, A>; static std::vector<T> get() { T l; for (int i = 0; i < 100; ++i) l.push_back(static_cast<C>(0x40 + i * (sizeof(C) > 1 ? 257 : 1))); T z; z.push_back(C(1)); z.push_back(C(0)); z.push_back(static_cast<C>(~C(0))); return {T(), T(1, C('a')), z, l}; } };
template <class T, size_t N> struct S<std::array<T, N>> { static std::vector<std::array<T, N>> get() { std::vector<std::array<T, N>> r(2); for (size_t k = 0; k < 2; ++k) for (size_t i = 0; i < N; ++i) r[k][i] = at<T>(i + k); return r; } };
template <class T, size_t N> struct S<Raw<T, N>> { static std::vector<Raw<T, N>> get() { std::vector<Raw<T, N>> r(2); for (size_t k = 0; k < 2; ++k) for (size_t i = 0; i < N; ++i) r[k].v[i] = at<T>(i + k); return r; } };
template <class T> struct S<Atomic<T>> { static std::vector<Atomic<T>> get() { std::vector<Atomic<T>> r; for (auto x : smp<T>()) r.push_back(Atomic<T>(x)); return r; } };
template <class K, class V> struct S<std::pair<K, V>> { static std::vector<std::pair<K, V>> get() { std::vector<std::pair<K, V>> r; for (size_t i = 0; i < 3; ++i) r.emplace_back(at<K>(i), at<V>(i + 1)); return r; } };
template <class T, class A> struct S<std::vector<T, A>> { static std::vector<std::vector<T, A>> get() { std::vector<std::vector<T, A>> r(4); r[1] = {at<T>(1)}; r[2] = {at<T>(0), at<T>(1), at<T>(2)}; for (size_t i = 0; i < 9; ++i) r[3].push_back(at<T>(i)); return r; } };
template <class C> std::vector<C> sets() { using K = typename C::value_type; std::vector<C> r(4); r[1].insert(at<K>(1)); r[2].insert(at<K>(0)); r[2].insert(at<K>(1)); for (size_t i = 0; i < 5; ++i) r[3].insert(at<K>(i)); return r; }
template <class C> std::vector<C> maps() { using K = typename C::key_type; using V = typename C::mapped_type; std::vector<C> r(4); r[1][at<K>(1)] = at<V>(0); r[2][at<K>(0)] = at<V>(0); r[2][at<K>(1)] = at<V>(1); for (size_t i = 0; i < 5; ++i) r[3][at<K>(i)] = at<V>(i + 1); return r; }
template <class K, class C> struct S<std::set<K, C>> { static auto get() { return sets<std::set<K, C>>(); } };
template <class K, class C> struct S<std::unordered_set<K, C>> { static auto get() { return sets<std::unordered_set<K, C>>(); } };
template <class K, class V, class C> struct S<std::map<K, V, C>> { static auto get() { return maps<std::map<K, V, C>>(); } };
template <class K, class V, class C> struct S<std::unordered_map<K, V, C>> { static auto get() { return maps<std::unordered_map<K, V, C>>(); } };
template <> struct S<Smp::IObject *> { static std::vector<Smp::IObject *> get() { return {W->m1, W->m2, W->child, &W->child->ep, nullptr, &W->sim}; } };
template <> struct S<Smp::IModel *> { static std::vector<Smp::IModel *> get() { return {W->child, W->m1, nullptr}; } };
template <> struct S<Comp *> { static std::vector<Comp *> get() { return {W->m2, W->child, nullptr}; } };
template <> struct S<Xsmp::EntryPoint *> { static std::vector<Xsmp::EntryPoint *> get() { return {&W->m1->ep, nullptr, &W->child->ep}; } };

struct Type { std::string name; size_t hash; int samples; std::function<void(const std::string &, int, int)> roundtrip; std::function<void(MemWriter &, int, bool)> store; std::function<bool(MemReader &, int before, int want, bool typed, std::string &why)> restore; };
template <class T> bool equal(const T &a, const T &b) { return a == b; }
template <class T> void roundtrip(const std::string &n, int i, int j) {
  const T v = at<T>(static_cast<size_t>(i)); T t = at<T>(static_cast<size_t>(j)); MemWriter w; P::Store(&W->sim, &w, inner(v)); MC_CHECK(equal(v, at<T>(static_cast<size_t>(i))), "store:" + n, n << ": Store changed the value");
  std::string d = w.data + "next"; { MemReader r(d); P::Restore(&W->sim, &r, inner(t)); MC_CHECK(r.pos == w.data.size(), "bytes:" + n, n << ": " << w.data.size() << " bytes written, " << r.pos << " read"); } MC_CHECK(equal(t, v), "value:" + n, n << ": sample " << i << " restored over sample " << j << " differs");
  { MemReader r(d); P::Restore(&W->sim, &r, inner(t)); MC_CHECK(equal(t, v), "again:" + n, n << ": restored again differs"); }
  for (size_t lim = 0; lim < w.data.size(); ++lim) {
    T u = at<T>(static_cast<size_t>(j)); std::string dd = w.data.substr(0, lim); MemReader r(dd); bool th = false; try { P::Restore(&W->sim, &r, inner(u)); } catch (const Smp::Exception &) { th = true; } MC_CHECK(th, "truncated:" + n, n << ": truncated to " << lim << " bytes of " << w.data.size() << " is not reported");
    { T c = u; (void)c; } MemReader r2(d); P::Restore(&W->sim, &r2, inner(u)); MC_CHECK(equal(u, v), "recover:" + n, n << ": restored after a truncated Restore differs");
  }
  for (size_t lim = 0; lim < w.data.size(); ++lim) { MemWriter q; q.limit = lim; bool th = false; try { P::Store(&W->sim, &q, inner(v)); } catch (const Smp::Exception &) { th = true; } MC_CHECK(th, "full:" + n, n << ": full storage not reported"); }
}
template <class T> void add(std::vector<Type> &r, const char *n) {
  std::string name = n;
  r.push_back({name, typeid(std::remove_reference_t<decltype(inner(std::declval<T &>()))>).hash_code(), static_cast<int>(smp<T>().size()), [](const std::string &m, int i, int j) { roundtrip<T>(m, i, j); },
               [](MemWriter &w, int i, bool typed) { const T v = at<T>(static_cast<size_t>(i)); if (typed) P::Store(&W->sim, W->m1, &w, inner(v)); else P::Store(&W->sim, &w, inner(v)); },
               [](MemReader &rd, int before, int want, bool typed, std::string &why) { T t = at<T>(static_cast<size_t>(before)); try { if (typed) P::Restore(&W->sim, W->m1, &rd, inner(t)); else P::Restore(&W->sim, &rd, inner(t)); } catch (const Smp::Exception &e) { why = e.GetName(); return equal(t, at<T>(static_cast<size_t>(before))); } return equal(t, at<T>(static_cast<size_t>(want))); }});
}
#define A(...) add<__VA_ARGS__>(r, #__VA_ARGS__)
template <class T> using V = std::vector<T>; using Str = std::string;
const std::vector<Type> &types() {
  static const std::vector<Type> t = [] {
    std::vector<Type> r;
    A(bool); A(char); A(signed char); A(std::uint8_t); A(std::int16_t); A(std::uint16_t); A(std::int32_t); A(std::uint32_t); A(std::int64_t); A(std::uint64_t); A(float); A(double); A(long double); A(wchar_t); A(char16_t); A(Color); A(Old); A(User);
    A(Str); A(std::wstring); A(std::u16string); A(std::u32string); A(std::basic_string<char, std::char_traits<char>, Alloc<char>>);
    A(Raw<int, 3>); A(Raw<Str, 2>); A(Raw<bool, 2>); A(std::array<int, 3>); A(std::array<Str, 2>); A(std::array<std::array<std::u16string, 2>, 2>); A(std::array<Color, 1>); A(std::array<int, 0>);
    A(Atomic<int>); A(Atomic<bool>); A(Atomic<double>); A(Atomic<Color>); A(Atomic<std::int64_t>);
    A(std::pair<int, Str>); A(std::pair<Str, std::pair<double, bool>>); A(std::pair<Color, std::vector<Str>>);
    A(V<int>); A(V<Str>); A(V<std::wstring>); A(V<Color>); A(V<V<int>>); A(V<V<Str>>); A(V<std::pair<int, Str>>); A(V<User>); A(V<double>); A(V<std::array<Str, 2>>); A(std::vector<int, Alloc<int>>);
    A(std::set<int>); A(std::set<Str>); A(std::set<int, std::greater<int>>); A(std::set<std::pair<int, Str>>); A(std::set<std::u32string>); A(std::set<User>); A(std::set<V<int>>);
    A(std::map<int, Str>); A(std::map<Str, int>); A(std::map<Str, V<Str>>); A(std::map<int, int, std::greater<int>>); A(std::map<Str, std::map<int, std::wstring>>); A(std::map<Color, User>); A(std::map<std::pair<int, int>, std::set<Str>>);
    A(std::unordered_map<int, Str>); A(std::unordered_map<Str, V<int>>); A(std::unordered_map<int, int, Hash>); A(std::unordered_map<std::wstring, std::wstring>); A(std::unordered_map<Str, std::unordered_map<int, Str>>);
    A(std::unordered_set<int>); A(std::unordered_set<Str>); A(std::unordered_set<int, Hash>); A(std::unordered_set<std::u16string>); A(V<std::unordered_set<Str>>);
    A(Smp::IObject *); A(Smp::IModel *); A(Comp *); A(Xsmp::EntryPoint *); A(V<Smp::IObject *>); A(std::map<Str, Smp::IModel *>); A(std::pair<Smp::IObject *, int>); A(Raw<Comp *, 2>); A(std::set<Smp::IObject *>); A(std::array<Xsmp::EntryPoint *, 3>);
    return r;
  }();
  return t;
}
struct Setup { std::unique_ptr<World> w; Setup() { w = std::make_unique<World>(); W = w.get(); } };
}
MC_SCENARIO(values) {
  Setup s; const Type &t = types()[static_cast<size_t>(mc::choose(static_cast<int>(types().size())))]; mc::context(t.name.c_str()); int i = mc::choose(t.samples), j = mc::choose(t.samples); MC_OP(t.name << ": sample " << i << " over sample " << j); t.roundtrip(t.name, i, j);
}
/// several values of different types one after the other, with and without type checks
MC_SCENARIO(streams) {
  Setup s; const int n = static_cast<int>(mc::param("values", 2)); bool typed = mc::choose(2); MemWriter w; std::vector<std::pair<const Type *, int>> vals;
  const int nt = static_cast<int>(types().size());
  for (int k = 0; k < n; ++k) { const Type &t = types()[static_cast<size_t>(mc::choose(nt))]; int i = t.samples - 1 - mc::choose(std::min(2, t.samples)); vals.emplace_back(&t, i); MC_OP("store " << t.name << " sample " << i << (typed ? " with its type" : "")); t.store(w, i, typed); }
  MemReader r(w.data); std::string why; for (auto &[t, i] : vals) { mc::context(t->name.c_str()); MC_CHECK(t->restore(r, i + 1, i, typed, why) && why.empty(), "stream:" + t->name, t->name << ": differs" << (why.empty() ? "" : " and raises ") << why); } MC_CHECK(r.pos == w.data.size(), "stream bytes", "not all bytes read");
  if (typed && n > 1) { // restored as another type
    const Type &a = *vals[0].first, &b = *vals[1].first; MemReader r2(w.data); std::string y; bool same = b.restore(r2, 0, vals[0].second, true, y); if (a.hash != b.hash) MC_CHECK(same && y == "CannotRestore", "mismatch:" + a.name, a.name << " restored as " << b.name << ": " << (y.empty() ? "accepted" : y) << (same ? "" : ", and the value changed")); (void)same;
  }
}
/// several values in one call
MC_SCENARIO(variadic) {
  Setup s; bool typed = mc::choose(2); int i = mc::choose(4), j = mc::choose(4), before = mc::choose(4), lim = mc::choose(40); mc::context("variadic");
  const Str a = at<Str>(static_cast<size_t>(i)); const V<int> b = at<V<int>>(static_cast<size_t>(j)); const int c = i; int raw[3] = {i, j, 9}; const std::map<int, Str> m = at<std::map<int, Str>>(static_cast<size_t>(i + j));
  MemWriter w; MC_OP("store " << i << " " << j << (typed ? " typed" : "")); if (typed) P::Store(&W->sim, W->m1, &w, a, b, c, raw, m); else P::Store(&W->sim, &w, a, b, c, raw, m);
  Str a2 = at<Str>(static_cast<size_t>(before)); V<int> b2 = at<V<int>>(static_cast<size_t>(before)); int c2 = -1, raw2[3] = {}; std::map<int, Str> m2 = at<std::map<int, Str>>(static_cast<size_t>(before));
  std::string d = w.data; bool cut = lim < 39; if (cut) d.resize(w.data.size() * static_cast<size_t>(lim) / 39); if (d.size() == w.data.size()) cut = false;
  MemReader r(d); bool th = false; try { if (typed) P::Restore(&W->sim, W->m1, &r, a2, b2, c2, raw2, m2); else P::Restore(&W->sim, &r, a2, b2, c2, raw2, m2); } catch (const Smp::Exception &) { th = true; }
  MC_CHECK(th == cut, "variadic truncated", "truncated: " << th << ", expected " << cut); if (!th) MC_CHECK(a2 == a && b2 == b && c2 == c && raw2[0] == raw[0] && raw2[2] == 9 && m2 == m && r.pos == d.size(), "variadic", "values differ after Restore");
}
/// references are restored to what is found under the path, or to nothing
MC_SCENARIO(references) {
  Setup s; Smp::IObject *o[] = {W->child, &W->child->ep, W->m2, nullptr}; Smp::IObject *p = o[mc::choose(4)]; int kind = mc::choose(4); MC_OP("store a reference"); MemWriter w; P::Store(&W->sim, &w, p); bool gone = mc::choose(2); if (gone) W->m1->subs.DeleteComponent(W->child);
  std::string d = w.data; MemReader r(d); Smp::IObject *want = gone && (p == o[0] || p == o[1]) ? nullptr : p; mc::context("reference");
  auto as = [&](auto *q) { using T = std::remove_pointer_t<decltype(q)>; q = nullptr; T *x = reinterpret_cast<T *>(W); P::Restore(&W->sim, &r, x); MC_CHECK(x == dynamic_cast<T *>(want), "reference", "restored to something else"); };
  switch (kind) { case 0: as(static_cast<Smp::IObject *>(nullptr)); break; case 1: as(static_cast<Smp::IModel *>(nullptr)); break; case 2: as(static_cast<Smp::IEntryPoint *>(nullptr)); break; default: as(static_cast<Comp *>(nullptr)); }
  MC_CHECK(r.pos == d.size(), "reference bytes", "not all bytes read");
}
