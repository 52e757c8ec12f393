// C01: Xsmp::String<N> against std::string cut at N (and at the first terminator).
#include "mc.h"
#include <Xsmp/String.h>
#include <algorithm>
#include <cstring>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
using namespace std::literals;

namespace {
std::string show(const std::string &s) { std::string o = "\""; for (char c : s) { if (c) o += c; else o += "\\0"; } return o + "\""; }
// reference: N-bounded content, a C string ends at its first terminator
std::string cut(std::string_view s, size_t n) { std::string r(s.substr(0, n)); return r.substr(0, r.find('\0')); }
int sign(int v) { return (v > 0) - (v < 0); }

template <size_t N> struct Box { // exactly sized heap block, pre-filled so that a missing terminator shows
  Xsmp::String<N> *p;
  void *mem;
  Box() { mem = ::operator new(sizeof(Xsmp::String<N>)); std::memset(mem, 'Z', sizeof(Xsmp::String<N>)); p = nullptr; }
  template <class... A> Xsmp::String<N> &make(A &&...a) { p = new (mem) Xsmp::String<N>(std::forward<A>(a)...); return *p; }
  ~Box() { ::operator delete(mem); }
};
// every content of length <= N over {a,b}, every tail garbage pattern in {all Z, all NUL}
template <size_t N> std::string chooseContent() {
  int len = mc::choose(static_cast<int>(std::min<size_t>(N, 4)) + 1);
  if (N > 4 && len == 4) len = static_cast<int>(N) - mc::choose(2);
  std::string s;
  for (int i = 0; i < len; ++i) s += (i < 3) ? mc::pick({'a', 'b'}) : static_cast<char>('c' + (i % 5));
  return s;
}
template <size_t N> void setRaw(Box<N> &b, const std::string &s, bool nulTail) {
  b.make();
  std::memset(b.p->internalString, nulTail ? 0 : 'Z', N + 1);
  std::memcpy(b.p->internalString, s.data(), s.size());
  b.p->internalString[s.size()] = 0;
}
const std::string_view TEXTS[] = {""sv, "a"sv, "b"sv, "ab"sv, "ba"sv, "abc"sv, "aab"sv, "abcd"sv, "abcde"sv, "\xff"sv, "a\0b"sv, "\0"sv, "ab\0"sv, "abcdefghi"sv};

template <class F> bool throwsOutOfRange(F f) { try { f(); return false; } catch (const std::out_of_range &) { return true; } }

template <size_t N> void observe(const Xsmp::String<N> &c, const std::string &m, const char *what) {
  auto &s = const_cast<Xsmp::String<N> &>(c);
  MC_CHECK(m.size() <= N, "model", "model overflow");
  MC_CHECK(memchr(c.internalString, 0, N + 1) != nullptr, std::string("terminator:") + what, what << ": no terminator within capacity " << N << ", expected " << show(m));
  std::string got(c.c_str());
  MC_CHECK(got == m, std::string("content:") + what, what << " on String<" << N << ">: holds " << show(got) << " expected " << show(m));
  MC_CHECK(c.size() == m.size() && c.length() == m.size() && c.empty() == m.empty() && c.max_size() == N, std::string("size:") + what, "size/length/empty/max_size disagree with " << show(m));
  MC_CHECK(c.data() == c.c_str() && s.data() == c.c_str() && c.data() == c.internalString, "data", "data()/c_str() disagree");
}
template <size_t N> void observeAll(const Xsmp::String<N> &c, const std::string &m, const char *what) {
  auto &s = const_cast<Xsmp::String<N> &>(c);
  observe(c, m, what);
  const std::string rm(m.rbegin(), m.rend());
  MC_CHECK(std::string(c.begin(), c.end()) == m && std::string(s.begin(), s.end()) == m && std::string(c.cbegin(), c.cend()) == m && std::string(s.cbegin(), s.cend()) == m, "iterate", "forward iteration differs from " << show(m));
  MC_CHECK(std::string(c.rbegin(), c.rend()) == rm && std::string(s.rbegin(), s.rend()) == rm && std::string(c.crbegin(), c.crend()) == rm && std::string(s.crbegin(), s.crend()) == rm, "riterate", "reverse iteration differs from " << show(rm));
  for (size_t i : {size_t(0), size_t(1), m.size() - 1, m.size(), m.size() + 1, N, N + 1, ~size_t(0), ~size_t(0) / 2}) {
    if (i < m.size()) {
      MC_CHECK(c.at(i) == m[i] && s.at(i) == m[i] && c[i] == m[i] && s[i] == m[i] && &s.at(i) == s.data() + i, "at", "at(" << i << ") of " << show(m));
    } else {
      MC_CHECK(throwsOutOfRange([&] { (void)c.at(i); }) && throwsOutOfRange([&] { (void)s.at(i); }), "at-range", "at(" << i << ") did not throw out_of_range on " << show(m));
    }
  }
  if (!m.empty()) MC_CHECK(c.front() == m.front() && s.front() == m.front() && c.back() == m.back() && s.back() == m.back(), "front-back", "front/back of " << show(m));
  std::ostringstream os; os << c; MC_CHECK(os.str() == m, "ostream", "streamed " << show(os.str()) << " expected " << show(m));
  MC_CHECK(std::hash<Xsmp::String<N>>{}(c) == std::hash<std::string_view>{}(m), "hash", "hash differs from that of the same text " << show(m));
}
template <size_t N, size_t M> void compareAll(const Xsmp::String<N> &x, const std::string &mx, const Xsmp::String<M> &y, const std::string &my) {
  const bool eq = mx == my, lt = mx < my;
  MC_CHECK(sign(x.compare(y)) == sign(mx.compare(my)), "compare", "compare(" << show(mx) << "," << show(my) << ") = " << x.compare(y));
  MC_CHECK((x == y) == eq && (x != y) == !eq, "equal", "== / != of " << show(mx) << " and " << show(my));
  MC_CHECK((x < y) == lt && (x > y) == (mx > my) && (x <= y) == (lt || eq) && (x >= y) == !lt, "order", "ordering of " << show(mx) << " and " << show(my));
  if (eq && N == M) MC_CHECK(std::hash<Xsmp::String<N>>{}(x) == std::hash<Xsmp::String<M>>{}(y), "hash-eq", "equal strings hash differently");
  MC_CHECK((x + y) == mx + my, "plus", "x + y of " << show(mx) << " and " << show(my));
}
template <size_t N> void compareText(const Xsmp::String<N> &x, const std::string &mx, std::string_view t) {
  const bool eq = mx == t, lt = mx < t;
  MC_CHECK(sign(x.compare(t)) == sign(std::string_view(mx).compare(t)), "compare-sv", "compare(" << show(mx) << "," << show(std::string(t)) << ")");
  MC_CHECK((x == t) == eq && (t == x) == eq && (x != t) == !eq && (t != x) == !eq, "equal-sv", "== of " << show(mx) << " and text " << show(std::string(t)));
  MC_CHECK((x < t) == lt && (x > t) == (!lt && !eq) && (x <= t) == (lt || eq) && (x >= t) == !lt, "order-sv", "ordering of " << show(mx) << " and text " << show(std::string(t)));
  MC_CHECK((t < x) == (t < std::string_view(mx)) && (t > x) == lt && (t <= x) == !lt && (t >= x) == (lt || eq), "order-sv-l", "ordering of text " << show(std::string(t)) << " and " << show(mx));
  MC_CHECK((x + t) == mx + std::string(t) && (t + x) == std::string(t) + mx, "plus-sv", "concatenation with text");
  MC_CHECK((x + 'q') == mx + 'q' && ('q' + x) == 'q' + mx, "plus-char", "concatenation with a character");
  if (t.find('\0') == t.npos) {
    std::string copy(t); const char *z = copy.c_str();
    MC_CHECK((x == z) == eq && (z == x) == eq && (x != z) == !eq && (x < z) == lt && (x <= z) == (lt || eq) && (z <= x) == !lt, "cmp-cstr", "comparison with C string");
    std::string_view v(mx);
    for (size_t pos : {size_t(0), size_t(1), size_t(2), mx.size(), mx.size() + 1, std::string_view::npos}) {
      MC_CHECK(x.find(t, pos) == v.find(t, pos) && x.find(z, pos) == v.find(t, pos), "find", "find " << show(copy) << " from " << pos << " in " << show(mx));
      MC_CHECK(x.rfind(t, pos) == v.rfind(t, pos) && x.rfind(z, pos) == v.rfind(t, pos), "rfind", "rfind " << show(copy) << " from " << pos << " in " << show(mx));
      MC_CHECK(x.find_first_of(t, pos) == v.find_first_of(t, pos) && x.find_first_of(z, pos) == v.find_first_of(t, pos), "find_first_of", "in " << show(mx));
      MC_CHECK(x.find_last_of(t, pos) == v.find_last_of(t, pos) && x.find_last_of(z, pos) == v.find_last_of(t, pos), "find_last_of", "in " << show(mx));
      MC_CHECK(x.find_first_not_of(t, pos) == v.find_first_not_of(t, pos) && x.find_first_not_of(z, pos) == v.find_first_not_of(t, pos), "find_first_not_of", "in " << show(mx));
      MC_CHECK(x.find_last_not_of(t, pos) == v.find_last_not_of(t, pos) && x.find_last_not_of(z, pos) == v.find_last_not_of(t, pos), "find_last_not_of", "in " << show(mx));
      for (size_t n : {size_t(0), size_t(1), t.size()}) {
        if (n > t.size()) continue;
        MC_CHECK(x.find(z, pos, n) == v.find(z, pos, n) && x.rfind(z, pos, n) == v.rfind(z, pos, n), "find-n", "n=" << n);
        MC_CHECK(x.find_first_of(z, pos, n) == v.find_first_of(z, pos, n) && x.find_last_of(z, pos, n) == v.find_last_of(z, pos, n), "find-of-n", "n=" << n);
        MC_CHECK(x.find_first_not_of(z, pos, n) == v.find_first_not_of(z, pos, n) && x.find_last_not_of(z, pos, n) == v.find_last_not_of(z, pos, n), "find-not-of-n", "n=" << n);
      }
      for (char c : {'a', 'b', 'z'}) {
        MC_CHECK(x.find(c, pos) == v.find(c, pos) && x.rfind(c, pos) == v.rfind(c, pos), "find-char", "char");
        MC_CHECK(x.find_first_of(c, pos) == v.find_first_of(c, pos) && x.find_last_of(c, pos) == v.find_last_of(c, pos) && x.find_first_not_of(c, pos) == v.find_first_not_of(c, pos) && x.find_last_not_of(c, pos) == v.find_last_not_of(c, pos), "find-of-char", "char");
      }
      for (size_t n : {size_t(0), size_t(1), size_t(2), std::string_view::npos}) {
        if (pos > mx.size()) MC_CHECK(throwsOutOfRange([&] { (void)x.substr(pos, n); }), "substr-range", "substr(" << pos << ") did not throw");
        else MC_CHECK(x.substr(pos, n) == v.substr(pos, n), "substr", "substr(" << pos << "," << n << ") of " << show(mx));
      }
    }
    MC_CHECK(x.find(t) == v.find(t) && x.rfind(t) == v.rfind(t) && x.substr() == v && x.find('a') == v.find('a') && x.rfind('a') == v.rfind('a'), "find-default", "default positions");
    MC_CHECK(x.find(z) == v.find(z) && x.rfind(z) == v.rfind(z), "find-default", "default positions");
    MC_CHECK(x.find_first_of(t) == v.find_first_of(t) && x.find_last_of(t) == v.find_last_of(t) && x.find_first_not_of(t) == v.find_first_not_of(t) && x.find_last_not_of(t) == v.find_last_not_of(t), "find-default", "default positions");
    for (char c : {'a', 'b', 'c'}) MC_CHECK(x.find(c) == v.find(c) && x.rfind(c) == v.rfind(c) && x.find_first_of(c) == v.find_first_of(c) && x.find_last_of(c) == v.find_last_of(c) && x.find_first_not_of(c) == v.find_first_not_of(c) && x.find_last_not_of(c) == v.find_last_not_of(c), "find-default", "default positions for '" << c << "'");
    MC_CHECK(x.find_first_of(z) == v.find_first_of(z) && x.find_last_of(z) == v.find_last_of(z) && x.find_first_not_of(z) == v.find_first_not_of(z) && x.find_last_not_of(z) == v.find_last_not_of(z), "find-default", "default positions");
  }
}
template <size_t N, size_t M> void operate(Box<N> &A, std::string &a, Box<N> &B, std::string &b, Box<M> &C, std::string &c) {
  auto &s = *A.p; auto &o = *B.p; auto &d = *C.p;
  auto text = [&] { return TEXTS[mc::choose(std::size(TEXTS))]; };
  auto ctext = [&] { std::string t; do { t = std::string(TEXTS[mc::choose(10)]); } while (false); return t; };
  switch (mc::choose(30)) {
  case 0: { auto t = text(); MC_OP("a.assign(" << show(std::string(t)) << ")"); std::string own(t); s.assign(std::string_view(own)); a = cut(t, N); break; }
  case 1: { auto t = text(); MC_OP("a = String(sv " << show(std::string(t)) << ")"); s = Xsmp::String<N>(t); a = cut(t, N); break; }
  case 2: { auto t = text(); std::string own(t); MC_OP("a = String(std::string)"); s = own; a = cut(t, N); break; }
  case 3: { auto t = ctext(); std::unique_ptr<char[]> z(new char[t.size() + 1]); std::memcpy(z.get(), t.c_str(), t.size() + 1); MC_OP("a = cstr " << show(t)); s = z.get(); a = cut(t, N); break; }
  case 4: { auto t = ctext(); size_t n = static_cast<size_t>(mc::choose(static_cast<int>(t.size()) + 1)); std::unique_ptr<char[]> z(new char[n]); std::memcpy(z.get(), t.data(), n); MC_OP("a.assign(p," << n << ") of " << show(t)); s.assign(z.get(), n); a = cut(std::string_view(t).substr(0, n), N); break; }
  case 5: MC_OP("a = b"); s = o; a = b; break;
  case 6: MC_OP("a = c (other capacity)"); s = d; a = cut(c, N); break;
  case 7: MC_OP("a.assign(b)"); s.assign(o); a = b; break;
  case 8: MC_OP("a.assign(c)"); s.assign(d); a = cut(c, N); break;
  case 9: MC_OP("c.assign(a)"); d.assign(s); c = cut(a, M); break;
  case 10: MC_OP("a = a"); { auto &r = s; s = r; } break;
  case 11: MC_OP("a.assign(a)"); s.assign(s); break;
  case 12: { size_t k = static_cast<size_t>(mc::choose(static_cast<int>(a.size()) + 1)), n = static_cast<size_t>(mc::choose(static_cast<int>(a.size() - k) + 1)); MC_OP("a.assign(own buffer + " << k << ", " << n << ")"); mc::context("assign-own"); s.assign(s.c_str() + k, n); a = cut(a.substr(k, n), N); break; }
  case 13: { size_t k = static_cast<size_t>(mc::choose(static_cast<int>(a.size()) + 1)); MC_OP("a = a.c_str()+" << k); mc::context("assign-own"); s.assign(std::string_view(s.c_str() + k)); a = a.substr(k); break; }
  case 14: { auto t = text(); MC_OP("a.append(sv " << show(std::string(t)) << ")"); std::unique_ptr<char[]> z(new char[t.size() ? t.size() : 1]); std::memcpy(z.get(), t.data(), t.size()); s.append(std::string_view(z.get(), t.size())); a = cut(a + std::string(t), N); break; }
  case 15: { auto t = text(); MC_OP("a += sv " << show(std::string(t))); auto &r = (s += t); MC_CHECK(&r == &s, "ret", "+= does not return itself"); a = cut(a + std::string(t), N); break; }
  case 16: { auto t = ctext(); size_t n = static_cast<size_t>(mc::choose(static_cast<int>(t.size()) + 1)); std::unique_ptr<char[]> z(new char[n]); std::memcpy(z.get(), t.data(), n); MC_OP("a.append(p," << n << ") of " << show(t)); s.append(z.get(), n); a = cut(a + t.substr(0, n), N); break; }
  case 17: MC_OP("a += b"); s += o; a = cut(a + b, N); break;
  case 18: MC_OP("a.append(c)"); s.append(d); a = cut(a + c, N); break;
  case 19: MC_OP("a += a"); s += s; a = cut(a + a, N); break;
  case 20: { size_t k = static_cast<size_t>(mc::choose(static_cast<int>(a.size()) + 1)); MC_OP("a.append(own buffer + " << k << ")"); mc::context("append-own"); s.append(std::string_view(s.c_str() + k)); a = cut(a + a.substr(k), N); break; }
  case 21: { char ch = mc::pick({'a', 'x', '\xff', '\0'}); MC_OP("a.push_back(" << int(ch) << ")"); s.push_back(ch); a = cut(a + ch, N); break; }
  case 22: { char ch = mc::pick({'a', 'x'}); MC_OP("a += char"); s += ch; a = cut(a + ch, N); break; }
  case 23: MC_OP("a.pop_back()"); s.pop_back(); if (!a.empty()) a.pop_back(); break;
  case 24: { size_t k = mc::pick({size_t(0), size_t(1), size_t(2), N, N + 1, ~size_t(0)}); MC_OP("a.remove_suffix(" << k << ")"); s.remove_suffix(k); a = a.substr(0, a.size() - std::min(k, a.size())); break; }
  case 25: { size_t k = mc::pick({size_t(0), size_t(1), size_t(2), N, N + 1, ~size_t(0)}); MC_OP("a.remove_prefix(" << k << ")"); mc::context("remove_prefix"); s.remove_prefix(k); a = a.substr(std::min(k, a.size())); break; }
  case 26: MC_OP("a.clear()"); s.clear(); a.clear(); break;
  case 27: MC_OP("a.swap(b)"); s.swap(o); std::swap(a, b); break;
  case 28: { MC_OP("swap(a, b)"); using std::swap; swap(s, o); std::swap(a, b); break; }
  case 29: { auto t = text(); MC_OP("stream >> a " << show(std::string(t))); std::string own(t); std::istringstream is(own), is2(own); std::string ref; is2 >> ref; is >> s; if (is2 || !ref.empty()) a = cut(ref, N); else a = cut(ref, N); MC_CHECK(bool(is) == bool(is2) && is.eof() == is2.eof(), "istream", "stream state after >>"); break; }
  }
}
template <size_t N, size_t M> void ops() {
  Box<N> A, B; Box<M> C;
  std::string a = chooseContent<N>(), b, c;
  bool nul = mc::flip();
  static const char *const BS[] = {"", "a", "ba", "bab"};
  b = cut(BS[mc::choose(4)], N);
  c = cut(mc::pick({"", "ab", "abcdefg"}), M);
  setRaw(A, a, nul); setRaw(B, b, !nul); setRaw(C, c, nul);
  MC_OP("String<" << N << "> a=" << show(a) << " b=" << show(b) << " String<" << M << "> c=" << show(c) << (nul ? " (zero tail)" : " (garbage tail)"));
  const int depth = mc::param("depth", 1) + (N <= 2 ? 1 : 0);
  for (int i = 0; i < depth; ++i) {
    std::uint64_t h = mc::mix(N * 100 + M, static_cast<std::uint64_t>(depth - i));
    h = mc::hashBytes(A.p, sizeof *A.p, h); h = mc::hashBytes(B.p, sizeof *B.p, h); h = mc::hashBytes(C.p, sizeof *C.p, h);
    if (mc::visit(h)) return;
    mc::context("op");
    operate<N, M>(A, a, B, b, C, c);
    mc::context("observe");
    observe(*A.p, a, "a"); observe(*B.p, b, "b"); observe(*C.p, c, "c");
  }
  observeAll(*A.p, a, "a");
  mc::outcome(mc::hashStr(a));
}
template <size_t N, size_t M> void readers() {
  Box<N> A; Box<M> B;
  std::string a = chooseContent<N>(), b = chooseContent<M>();
  bool nul = mc::flip();
  setRaw(A, a, nul); setRaw(B, b, !nul);
  MC_OP("compare String<" << N << ">" << show(a) << " with String<" << M << ">" << show(b));
  mc::context("compare");
  observeAll(*A.p, a, "a");
  compareAll(*A.p, a, *B.p, b);
  mc::outcome(mc::hashStr(a + "|" + b));
}
template <size_t N> void readersText() {
  Box<N> A;
  std::string a = chooseContent<N>();
  setRaw(A, a, mc::flip());
  auto t = TEXTS[mc::choose(std::size(TEXTS))];
  MC_OP("compare String<" << N << ">" << show(a) << " with text " << show(std::string(t)));
  std::unique_ptr<char[]> z(new char[t.size() + 1]); std::memcpy(z.get(), t.data(), t.size()); z[t.size()] = 0;
  mc::context("compareText");
  compareText(*A.p, a, std::string_view(z.get(), t.size()));
}
template <size_t N> void ctors() {
  Box<N> A; auto t = TEXTS[mc::choose(std::size(TEXTS))]; std::string own(t); std::string a;
  mc::context("construct");
  switch (mc::choose(8)) {
  case 0: A.make(); break;
  case 1: A.make(t); a = cut(t, N); break;
  case 2: A.make(own); a = cut(t, N); break;
  case 3: A.make(own.c_str()); a = cut(own.c_str(), N); break;
  case 4: { size_t n = static_cast<size_t>(mc::choose(static_cast<int>(t.size()) + 1)); std::unique_ptr<char[]> z(new char[n]); std::memcpy(z.get(), t.data(), n); A.make(static_cast<const char *>(z.get()), n); a = cut(t.substr(0, n), N); break; }
  case 5: { Xsmp::String<5> o(t); A.make(o); a = cut(cut(t, 5), N); break; }
  case 6: { Xsmp::String<N> o(t); A.make(o); a = cut(t, N); break; }
  case 7: { Xsmp::String<N> o(t); A.make(std::move(o)); a = cut(t, N); break; }
  }
  MC_OP("construct String<" << N << "> from " << show(own));
  observeAll(*A.p, a, "constructed");
}
} // namespace
MC_SCENARIO(ctor0) { ctors<0>(); }
MC_SCENARIO(ctor1) { ctors<1>(); }
MC_SCENARIO(ctor2) { ctors<2>(); }
MC_SCENARIO(ctor3) { ctors<3>(); }
MC_SCENARIO(ctor9) { ctors<9>(); }
MC_SCENARIO(text0) { readersText<0>(); }
MC_SCENARIO(text1) { readersText<1>(); }
MC_SCENARIO(text3) { readersText<3>(); }
MC_SCENARIO(text9) { readersText<9>(); }
MC_SCENARIO(cmp33) { readers<3, 3>(); }
MC_SCENARIO(cmp31) { readers<3, 1>(); }
MC_SCENARIO(cmp29) { readers<2, 9>(); }
MC_SCENARIO(cmp02) { readers<0, 2>(); }
MC_SCENARIO(ops0) { ops<0, 2>(); }
MC_SCENARIO(ops1) { ops<1, 3>(); }
MC_SCENARIO(ops2) { ops<2, 1>(); }
MC_SCENARIO(ops3) { ops<3, 5>(); }
MC_SCENARIO(ops9) { ops<9, 3>(); }
