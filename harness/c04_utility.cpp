// C04: Smp::utility::cmp_* / in_range against exact 128-bit arithmetic.
#include "mc.h"
#include <Smp/utility.h>
#include <limits>
#include <set>
#include <vector>
#include <cstdint>
namespace {
using W = __int128;
template <class T> const std::vector<T> &values() {
  static std::vector<T> v = [] {
    std::set<T> s;
    if (sizeof(T) == 1) { for (int i = 0; i < 256; ++i) s.insert(static_cast<T>(i)); }
    std::vector<W> lim;
    for (int b : {7, 8, 15, 16, 31, 32, 63, 64}) { lim.push_back(W(1) << b); lim.push_back(-(W(1) << b)); }
    lim.push_back(0);
    for (W l : lim) for (int d = -3; d <= 3; ++d) { W x = l + d; if (x >= W(std::numeric_limits<T>::min()) && x <= W(std::numeric_limits<T>::max())) s.insert(static_cast<T>(x)); }
    return std::vector<T>(s.begin(), s.end());
  }();
  return v;
}
std::string show(W v) { if (v == 0) return "0"; bool n = v < 0; std::string s; unsigned __int128 u = n ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v); while (u) { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10))); u /= 10; } return n ? "-" + s : s; }
template <class A, class B> void one(A a, B b) {
  using namespace Smp::utility;
  W x = a, y = b;
  MC_CHECK(cmp_equal(a, b) == (x == y) && cmp_not_equal(a, b) == (x != y), "cmp_equal", "cmp_equal(" << show(x) << " [" << sizeof(A) << (std::is_signed_v<A> ? "s" : "u") << "], " << show(y) << " [" << sizeof(B) << (std::is_signed_v<B> ? "s" : "u") << "])");
  MC_CHECK(cmp_less(a, b) == (x < y), "cmp_less", "cmp_less(" << show(x) << ", " << show(y) << ") " << sizeof(A) << sizeof(B));
  MC_CHECK(cmp_greater(a, b) == (x > y), "cmp_greater", "cmp_greater(" << show(x) << ", " << show(y) << ")");
  MC_CHECK(cmp_less_equal(a, b) == (x <= y), "cmp_less_equal", "cmp_less_equal(" << show(x) << ", " << show(y) << ")");
  MC_CHECK(cmp_greater_equal(a, b) == (x >= y), "cmp_greater_equal", "cmp_greater_equal(" << show(x) << ", " << show(y) << ")");
}
template <class A, class B> void pairs() {
  // the explorer enumerates the first value, the loop the second (same space, cheaper)
  const auto &va = values<A>(); A a = va[static_cast<size_t>(mc::choose(static_cast<int>(va.size())))];
  MC_OP("a=" << show(a) << " (" << sizeof(A) << " bytes) against every " << sizeof(B) << "-byte " << (std::is_signed_v<B> ? "signed" : "unsigned") << " boundary value");
  for (B b : values<B>()) one(a, b);
  W x = a;
  bool fits = x >= W(std::numeric_limits<B>::min()) && x <= W(std::numeric_limits<B>::max());
  MC_CHECK(Smp::utility::in_range<B>(a) == fits, "in_range", "in_range of " << show(x) << " into " << sizeof(B) << " bytes " << (std::is_signed_v<B> ? "signed" : "unsigned"));
  mc::outcome(mc::mix(static_cast<std::uint64_t>(a), fits));
}
template <class A> void against() {
  switch (mc::choose(11)) {
  case 0: pairs<A, signed char>(); break; case 1: pairs<A, unsigned char>(); break; case 2: pairs<A, short>(); break; case 3: pairs<A, unsigned short>(); break;
  case 4: pairs<A, int>(); break; case 5: pairs<A, unsigned>(); break; case 6: pairs<A, long>(); break; case 7: pairs<A, unsigned long>(); break;
  case 8: pairs<A, long long>(); break; case 9: pairs<A, unsigned long long>(); break; case 10: pairs<A, std::int64_t>(); break;
  }
}
}
MC_SCENARIO(s8) { against<signed char>(); }
MC_SCENARIO(u8) { against<unsigned char>(); }
MC_SCENARIO(s16) { against<short>(); }
MC_SCENARIO(u16) { against<unsigned short>(); }
MC_SCENARIO(s32) { against<int>(); }
MC_SCENARIO(u32) { against<unsigned>(); }
MC_SCENARIO(s64) { against<long>(); }
MC_SCENARIO(u64) { against<unsigned long>(); }
MC_SCENARIO(sll) { against<long long>(); }
MC_SCENARIO(ull) { against<unsigned long long>(); }
