// C03: Xsmp::Array<T,N> against a plain sequence.
#include "mc.h"
#include <algorithm>
#include <Xsmp/Array.h>
#include <stdexcept>
#include <string>
#include <vector>
#include <utility>
#include <memory>
namespace {
template <class F> bool oor(F f) { try { f(); return false; } catch (const std::out_of_range &) { return true; } }
template <class A, class T> void observe(const A &c, const std::vector<T> &m, const char *after) {
  auto &a = const_cast<A &>(c);
  const size_t N = m.size(); const std::string k = std::string(":") + after;
  MC_CHECK(c.size() == N && c.max_size() == N && c.empty() == (N == 0), "size" + k, "size/max_size/empty");
  MC_CHECK(static_cast<size_t>(c.end() - c.begin()) == N && a.end() - a.begin() == c.end() - c.begin(), "range" + k, "end-begin");
  MC_CHECK(std::equal(m.begin(), m.end(), c.begin(), c.end()) && std::equal(m.begin(), m.end(), a.begin(), a.end()) && std::equal(m.begin(), m.end(), c.cbegin(), c.cend()), "forward" + k, "forward iteration after " << after);
  MC_CHECK(std::equal(m.rbegin(), m.rend(), c.rbegin(), c.rend()) && std::equal(m.rbegin(), m.rend(), a.rbegin(), a.rend()) && std::equal(m.rbegin(), m.rend(), c.crbegin(), c.crend()), "reverse" + k, "reverse iteration after " << after);
  MC_CHECK(c.data() == c.begin() && a.data() == c.data(), "data" + k, "data()");
  for (size_t i : {size_t(0), size_t(1), size_t(2), N - 1, N, N + 1, ~size_t(0), ~size_t(0) / 2}) {
    if (i < N) { MC_CHECK(c.at(i) == m[i] && a.at(i) == m[i] && c[i] == m[i] && a[i] == m[i] && &a.at(i) == a.data() + i && &c.at(i) == c.data() + i && &a[i] == a.data() + i, "at" + k, "element " << i); }
    else MC_CHECK(oor([&] { (void)c.at(i); }) && oor([&] { (void)a.at(i); }), "at-range" + k, "at(" << i << ") of " << N << " elements did not throw out_of_range");
  }
  if constexpr (true) if (N) MC_CHECK(c.front() == m.front() && a.front() == m.front() && c.back() == m.back() && a.back() == m.back() && &a.front() == a.data() && &a.back() == a.data() + N - 1, "front-back" + k, "front/back");
}
template <class A, class T> void relations(const A &x, const std::vector<T> &mx, const A &y, const std::vector<T> &my) {
  MC_CHECK((x == y) == (mx == my) && (x != y) == (mx != my), "equality", "== / !=");
  MC_CHECK((x < y) == (mx < my) && (x > y) == (mx > my) && (x <= y) == (mx <= my) && (x >= y) == (mx >= my), "ordering", "lexicographic order");
}
std::string show(const std::vector<int> &v) { std::string s = "{"; for (int i : v) s += std::to_string(i) + " "; return s + "}"; }
template <size_t N, class... O> void run() {
  using A = Xsmp::Array<int, N, O...>;
  auto x = std::make_unique<A>(), y = std::make_unique<A>();
  std::vector<int> a(N), b(N);
  const int depth = mc::param("depth", 3);
  int v = mc::choose(2);
  for (size_t i = 0; i < N; ++i) { x->data()[i] = a[i] = v ? static_cast<int>(i) : 0; y->data()[i] = b[i] = 0; }
  MC_OP("Array<int," << N << "> x=" << show(a) << " y=" << show(b));
  for (int k = 0; k < depth; ++k) {
    std::uint64_t h = mc::mix(N + 10 * sizeof...(O), static_cast<std::uint64_t>(depth - k)); for (int q : a) h = mc::mix(h, static_cast<std::uint64_t>(q)); for (int q : b) h = mc::mix(h, static_cast<std::uint64_t>(q));
    if (mc::visit(h)) return;
    const char *name = "";
    int val = mc::pick({1, 0, -1});
    switch (mc::choose(8)) {
    case 0: name = "fill"; x->fill(val); std::fill(a.begin(), a.end(), val); break;
    case 1: name = "swap"; x->swap(*y); a.swap(b); break;
    case 2: name = "copy"; *x = *y; a = b; break;
    case 3: if (N) { name = "write[]"; size_t i = static_cast<size_t>(mc::choose(N ? N : 1)); (*x)[i] = val; a[i] = val; } break;
    case 4: if (N) { name = "write at"; size_t i = static_cast<size_t>(mc::choose(N ? N : 1)); x->at(i) = val; a[i] = val; } break;
    case 5: if (N) { name = "write front/back"; x->front() = val; a.front() = val; x->back() = 5; a.back() = 5; } break;
    case 6: if (N) { name = "write iterator"; size_t i = static_cast<size_t>(mc::choose(N ? N : 1)); *(x->begin() + i) = val; a[i] = val; *(x->rbegin() + (N - 1 - i)) += 1; a[i] += 1; } break;
    case 7: name = "fill-own"; if (N) { x->fill((*x)[N - 1]); std::fill(a.begin(), a.end(), a[N - 1] + 0); } break;
    }
    MC_OP(name << " value " << val << " -> x=" << show(a) << " y=" << show(b));
    observe(*x, a, name); observe(*y, b, name);
    relations(*x, a, *y, b); relations(*y, b, *x, a); relations(*x, a, *x, a);
  }
  for (int q : a) mc::outcome(static_cast<std::uint64_t>(q));
}
}
MC_SCENARIO(n0) { run<0>(); }
MC_SCENARIO(n1) { run<1>(); }
MC_SCENARIO(n2) { run<2>(); }
MC_SCENARIO(n3) { run<3>(); }
MC_SCENARIO(n4simple) { run<4, Xsmp::Annotation::simpleArray>(); }
MC_SCENARIO(pairs) {
  // all pairs of contents over {-1,0,1}^3
  using A = Xsmp::Array<int, 3>; A x, y; std::vector<int> a(3), b(3);
  for (size_t i = 0; i < 3; ++i) { x[i] = a[i] = mc::choose(3) - 1; y[i] = b[i] = mc::choose(3) - 1; }
  MC_OP("compare " << show(a) << " " << show(b));
  relations(x, a, y, b);
  A c(x); observe(c, a, "copy-construct"); c = std::move(y); observe(c, b, "move-assign");
}
MC_SCENARIO(nested) {
  using I = Xsmp::Array<int, 2>; using A = Xsmp::Array<I, 2>;
  auto x = std::make_unique<A>(), y = std::make_unique<A>(); std::vector<std::vector<int>> a(2, std::vector<int>(2)), b = a;
  for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 2; ++j) { (*x)[i][j] = a[i][j] = mc::choose(2); y->at(i).at(j) = b[i][j] = mc::choose(3); }
  MC_CHECK((*x == *y) == (a == b) && (*x < *y) == (a < b) && (*x >= *y) == (a >= b) && (*x > *y) == (a > b), "nested-order", "nested comparison");
  if (mc::flip()) { x->swap(*y); std::swap(a, b); } else { I row{{7, 8}}; x->fill(row); a = {{7, 8}, {7, 8}}; }
  for (size_t i = 0; i < 2; ++i) { observe(x->at(i), a[i], "nested x"); observe((*y)[i], b[i], "nested y"); }
  MC_CHECK(oor([&] { (void)x->at(2); }) && oor([&] { (void)x->at(1).at(2); }) && oor([&] { (void)std::as_const(*x).at(2); }), "nested-range", "at(2)");
  MC_CHECK(x->size() == 2 && x->data() == x->begin(), "nested-size", "size");
}
MC_SCENARIO(strings) {
  using A = Xsmp::Array<std::string, 2>; auto x = std::make_unique<A>(), y = std::make_unique<A>(); std::vector<std::string> a(2), b(2);
  for (size_t i = 0; i < 2; ++i) { (*x)[i] = a[i] = mc::pick({"", "p", "a text longer than the small buffer"}); (*y)[i] = b[i] = mc::pick({"", "q", "another text longer than the small buffer"}); }
  switch (mc::choose(4)) { case 0: x->swap(*y); a.swap(b); break; case 1: *x = *y; a = b; break; case 2: x->fill((*y)[1]); a = {b[1], b[1]}; break; case 3: *x = std::move(*y); a = b; *y = *x; break; }
  observe(*x, a, "strings"); observe(*y, b, "strings"); relations(*x, a, *y, b);
}
MC_SCENARIO(deduction) {
  Xsmp::Array d{4, 5, 6}; std::vector<int> m{4, 5, 6}; observe(d, m, "deduction");
  const Xsmp::Array<int, 3>::simple s{{1, 2, 3}}; std::vector<int> n{1, 2, 3}; observe(s, n, "simple");
  constexpr Xsmp::Array<int, 2> ce{{1, 2}}; static_assert(ce.size() == 2 && ce[1] == 2 && ce.at(0) == 1 && ce.front() == 1 && ce.back() == 2 && !ce.empty(), "constexpr");
}
