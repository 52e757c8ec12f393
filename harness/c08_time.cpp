// C08: Duration / DateTime arithmetic, comparison, chrono conversion and text against 64-bit nanosecond counts.
#include "mc.h"
#include <Xsmp/DateTime.h>
#include <Xsmp/Duration.h>
#include <chrono>
#include <cstdio>
#include <sstream>
#include <string>
#include <vector>
using Xsmp::DateTime; using Xsmp::Duration; namespace ch = std::chrono;
namespace {
using I = __int128; constexpr long long MAX = INT64_MAX, MIN = INT64_MIN; constexpr long long S = 1000000000LL, H = 3600 * S, D = 24 * H;
bool fits(I x) { return x >= MIN && x <= MAX; }
const std::vector<long long> &vals() {
  static std::vector<long long> v; if (!v.empty()) return v;
  for (long long b : {0LL, 1000LL, 1000000LL, S, 60 * S, H, D, 7 * D, 100 * H, MAX / 2}) for (long long d : {-1LL, 0LL, 1LL}) { v.push_back(b + d); v.push_back(-(b + d)); }
  for (long long x : {MAX, MIN, MAX - 1, MIN + 1, 999999999LL, 123456789012345LL, -86399999999999LL, 1234567LL}) v.push_back(x);
  return v;
}
long long any() { return vals()[static_cast<size_t>(mc::choose(static_cast<int>(vals().size())))]; }
std::string hms(I ns, bool sign) { char b[64]; if (sign && ns < 0) { return "-" + hms(-ns, false); } auto n = static_cast<unsigned long long>(ns); std::snprintf(b, sizeof b, "%02llu:%02llu:%02llu.%09llu", n / static_cast<unsigned long long>(H), n / (60ULL * 1000000000ULL) % 60, n / 1000000000ULL % 60, n % 1000000000ULL); return b; }
// proleptic Gregorian date of a day number since 1970-01-01, by counting
std::string civil(long long day) { long long y = 1970; auto leap = [](long long Y) { return (Y % 4 == 0 && Y % 100 != 0) || Y % 400 == 0; };
  while (day < 0) { --y; day += leap(y) ? 366 : 365; } while (day >= (leap(y) ? 366 : 365)) { day -= leap(y) ? 366 : 365; ++y; }
  const int ml[] = {31, leap(y) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; int m = 0; while (day >= ml[m]) day -= ml[m++]; char b[64]; std::snprintf(b, sizeof b, "%04lld-%02d-%02lld", y, m + 1, day + 1); return b; }
constexpr long long EPOCH = 946728000LL * S; // 2000-01-01 12:00
template <class A> void cmp(const A &a, long long x, long long y, const char *what) {
  auto b = [&](bool got, bool want, const char *op) { MC_CHECK(got == want, std::string("compare:") + op, x << " " << op << " " << y << " (" << what << ") is " << got); };
  b(a == y, x == y, "=="); b(a != y, x != y, "!="); b(a < y, x < y, "<"); b(a > y, x > y, ">"); b(a <= y, x <= y, "<="); b(a >= y, x >= y, ">=");
}
}
MC_SCENARIO(duration_pairs) {
  long long x = any(), y = any(); MC_OP("x=" << x << " y=" << y); mc::context("duration arithmetic"); Duration a(x), b(y);
  auto is = [&](Duration d, I want, const char *op) { MC_CHECK(static_cast<Smp::Duration>(d) == want, std::string("arith:") + op, x << " " << op << " " << y << " = " << static_cast<Smp::Duration>(d)); };
  is(a, x, "value"); is(Duration(), 0, "default"); is(+a, x, "unary+"); if (fits(-static_cast<I>(x))) is(-a, -static_cast<I>(x), "unary-");
  I X = x, Y = y;
  if (fits(X + Y)) { Duration d = a; auto &r = (d += Smp::Duration(y)); is(d, X + Y, "+="); MC_CHECK(&r == &d, "ret", "+="); d = a; d += ch::nanoseconds(y); is(d, X + Y, "+= chrono"); is(Duration(a + b), X + Y, "+"); d = a; d += b; is(d, X + Y, "+= Duration"); }
  if (fits(X - Y)) { Duration d = a; d -= Smp::Duration(y); is(d, X - Y, "-="); d = a; d -= ch::nanoseconds(y); is(d, X - Y, "-= chrono"); is(Duration(a - b), X - Y, "-"); d = a; d -= b; is(d, X - Y, "-= Duration"); }
  if (fits(X * Y)) { Duration d = a; d *= y; is(d, X * Y, "*="); }
  if (y != 0 && fits(X / Y)) { Duration d = a; d /= y; is(d, X / Y, "/="); d = a; d %= y; is(d, X % Y, "%="); }
  { Duration d = a; d &= y; is(d, x & y, "&="); d = a; d |= y; is(d, x | y, "|="); d = a; d ^= y; is(d, x ^ y, "^="); }
  if (x >= 0) { Duration d = a; d >>= 3; is(d, x >> 3, ">>="); if (x < (1LL << 50)) { d = a; d <<= 3; is(d, x << 3, "<<="); } }
  { Duration d; d = Smp::Duration(x); is(d, x, "="); d = ch::nanoseconds(y); is(d, y, "= chrono"); d = b; is(d, y, "= Duration"); }
  if (x < MAX) { Duration d = a, o = d++; is(o, x, "post++"); is(d, X + 1, "post++"); d = a; is(++d, X + 1, "++pre"); }
  if (x > MIN) { Duration d = a, o = d--; is(o, x, "post--"); is(d, X - 1, "post--"); d = a; is(--d, X - 1, "--pre"); }
  cmp(a, x, y, "count"); 
  auto b2 = [&](bool got, bool want, const char *op) { MC_CHECK(got == want, std::string("compare:") + op, x << " " << op << " " << y << " is " << got); };
  b2(a == b, x == y, "D==D"); b2(a != b, x != y, "D!=D"); b2(a < b, x < y, "D<D"); b2(a > b, x > y, "D>D"); b2(a <= b, x <= y, "D<=D"); b2(a >= b, x >= y, "D>=D");
  ch::nanoseconds c(y); b2(a == c, x == y, "D==c"); b2(a < c, x < y, "D<c"); b2(a > c, x > y, "D>c"); b2(a <= c, x <= y, "D<=c");
  ch::nanoseconds cx(x); b2(cx == b, x == y, "c==D"); b2(cx < b, x < y, "c<D"); b2(cx > b, x > y, "c>D");
}
template <class R, class P> void conv(long long n, const char *unit, long long per) { // n units <-> Duration
  ch::duration<R, P> c(static_cast<R>(n)); if (!fits(static_cast<I>(n) * per)) return; Duration d(c), e; e = c;
  MC_CHECK(static_cast<Smp::Duration>(d) == n * per && static_cast<Smp::Duration>(e) == n * per, std::string("from-chrono:") + unit, n << " " << unit << " gives " << static_cast<Smp::Duration>(d));
  MC_CHECK((static_cast<ch::duration<R, P>>(d).count()) == static_cast<R>(n), std::string("to-chrono:") + unit, n << " " << unit << " reads back " << static_cast<ch::duration<R, P>>(d).count());
  DateTime t; t = Smp::DateTime(5); t += c; MC_CHECK(!fits(static_cast<I>(n) * per + 5) || static_cast<Smp::DateTime>(t) == n * per + 5, std::string("datetime+=chrono:") + unit, n);
}
MC_SCENARIO(duration_chrono) {
  static const long long ns[] = {0, 1, -1, 2, 59, 60, 61, -60, 3599, 24, 1000, -1000, 999, 100000, -12345};
  long long n = ns[mc::choose(15)]; MC_OP("n=" << n); mc::context("chrono");
  conv<long long, std::nano>(n, "ns", 1); conv<long long, std::micro>(n, "us", 1000); conv<long long, std::milli>(n, "ms", 1000000); conv<long long, std::ratio<1>>(n, "s", S); conv<int, std::ratio<60>>(static_cast<int>(n), "min", 60 * S); conv<int, std::ratio<3600>>(static_cast<int>(n), "h", H); conv<double, std::ratio<1>>(n, "double s", S);
  auto is = [&](Duration d, I want, const char *u) { MC_CHECK(static_cast<Smp::Duration>(d) == want, std::string("unit:") + u, n << " " << u << " = " << static_cast<Smp::Duration>(d)); };
  is(Duration::nanoseconds(n), n, "nanoseconds"); is(Duration::microseconds(n), static_cast<I>(n) * 1000, "microseconds"); is(Duration::milliseconds(n), static_cast<I>(n) * 1000000, "milliseconds"); is(Duration::seconds(n), static_cast<I>(n) * S, "seconds"); is(Duration::minutes(n), static_cast<I>(n) * 60 * S, "minutes");
  if (fits(static_cast<I>(n) * H)) is(Duration::hours(n), static_cast<I>(n) * H, "hours"); if (fits(static_cast<I>(n) * D)) is(Duration::days(n), static_cast<I>(n) * D, "days"); if (fits(static_cast<I>(n) * 7 * D)) is(Duration::weeks(n), static_cast<I>(n) * 7 * D, "weeks");
  using namespace Xsmp::literals;
  is(3_ns, 3, "_ns"); is(3_us, 3000, "_us"); is(3_ms, 3000000, "_ms"); is(3_s, 3 * S, "_s"); is(3_mn, 180 * S, "_mn"); is(3_h, 3 * H, "_h"); is(3_d, 3 * D, "_d"); is(3_w, 21 * D, "_w");
}
// values that are no multiple of the unit they are compared and combined with
template <class R, class P> void coarse(long long x, long long n, const char *unit, long long per) {
  ch::duration<R, P> c(static_cast<R>(n)); if (!fits(static_cast<I>(n) * per)) return; const I y = static_cast<I>(n) * per, X = x; Duration a(x); DateTime t(x);
  auto b = [&](bool got, bool want, const char *op) { MC_CHECK(got == want, std::string("coarse-compare:") + op + unit, x << " ns " << op << " " << n << " " << unit << " is " << got); };
  b(a == c, X == y, "D==c"); b(a != c, X != y, "D!=c"); b(a < c, X < y, "D<c"); b(a > c, X > y, "D>c"); b(a <= c, X <= y, "D<=c"); b(a >= c, X >= y, "D>=c");
  b(c == a, X == y, "c==D"); b(c != a, X != y, "c!=D"); b(c < a, y < X, "c<D"); b(c > a, y > X, "c>D"); b(c <= a, y <= X, "c<=D"); b(c >= a, y >= X, "c>=D");
  auto is = [&](long long d, I want, const char *op) { MC_CHECK(d == want, std::string("coarse-arith:") + op + unit, x << " " << op << " " << n << " " << unit << " = " << d); };
  if (fits(X + y)) { Duration d = a; d += c; is(d, X + y, "+="); DateTime u = t; u += c; is(u, X + y, "t+="); is(t + c, X + y, "t+c"); is(c + t, X + y, "c+t"); }
  if (fits(X - y)) { Duration d = a; d -= c; is(d, X - y, "-="); DateTime u = t; u -= c; is(u, X - y, "t-="); is(t - c, X - y, "t-c"); }
  { DateTime u(c), w; w = c; is(u, y, "DateTime(c)"); is(w, y, "t=c"); }
  MC_CHECK((static_cast<ch::duration<R, P>>(a).count()) == static_cast<R>(x / per), std::string("coarse-to-chrono:") + unit, x << " ns in " << unit << " is " << static_cast<ch::duration<R, P>>(a).count());
  if (fits(X + EPOCH)) { using tp = ch::time_point<ch::system_clock, ch::duration<R, P>>; MC_CHECK((static_cast<tp>(t).time_since_epoch().count()) == static_cast<R>(static_cast<long long>(X + EPOCH) / per), std::string("coarse-to-time_point:") + unit, x); }
  if (fits(y - EPOCH)) { ch::time_point<ch::system_clock, ch::duration<R, P>> tp(c); DateTime u(tp), w; w = tp; is(u, y - EPOCH, "DateTime(tp)"); is(w, y - EPOCH, "t=tp"); }
}
MC_SCENARIO(duration_coarse) {
  static const long long around[] = {0, 1, -1, 2, -2, 7, -7, 60, 9999}; static const long long off[] = {0, 1, -1, 499999, -500000, 999999, -999999}; const int unit = mc::choose(5); static const long long per[] = {1, 1000, 1000000, S, 60 * S};
  long long n = around[mc::choose(9)], m = around[mc::choose(9)], x = m * per[unit] + off[mc::choose(7)]; if (mc::flip()) x = any(); MC_OP("x=" << x << " n=" << n << " unit " << unit); mc::context("chrono of another unit");
  switch (unit) { case 0: coarse<long long, std::nano>(x, n, "ns", 1); break; case 1: coarse<long long, std::micro>(x, n, "us", 1000); break; case 2: coarse<long long, std::milli>(x, n, "ms", 1000000); break; case 3: coarse<long long, std::ratio<1>>(x, n, "s", S); break; default: coarse<long long, std::ratio<60>>(x, n, "min", 60 * S); }
}
MC_SCENARIO(duration_text) {
  static std::vector<long long> v; if (v.empty()) { for (long long h : {0, 1, 9, 10, 23, 24, 59, 60, 99}) for (long long m : {0, 1, 9, 59}) for (long long s : {0, 1, 10, 59}) for (long long n : {0LL, 1LL, 999999999LL, 500000000LL, 123456789LL, 10LL}) v.push_back(h * H + m * 60 * S + s * S + n); for (long long x : vals()) v.push_back(x); }
  long long x = v[static_cast<size_t>(mc::choose(static_cast<int>(v.size())))]; if (mc::flip() && x != MIN) x = -x; Duration d(x); MC_OP("duration " << x); mc::context("duration text");
  if (x == MIN) return; // no magnitude
  std::string want = hms(x, true); std::ostringstream o, p; o << d; d.to_stream(p); std::ostringstream q; d.to_stream(q, std::string("%T"));
  MC_CHECK(o.str() == want && d.format() == want && d.format(std::string("%T")) == want && p.str() == want && q.str() == want, "duration-print", x << " prints " << o.str() << ", expected " << want);
  if (x >= 0 && x < 100 * H) { Duration r(o.str()); MC_CHECK(r == x, "duration-roundtrip", want << " parses to " << static_cast<Smp::Duration>(r)); std::istringstream is(want); Duration r2(is); MC_CHECK(r2 == x, "duration-roundtrip-stream", want << " parses to " << static_cast<Smp::Duration>(r2)); mc::outcome(1); }
}
MC_SCENARIO(bad_text) { // unparsable text is deterministic: zero
  static const char *const t[] = {"", "abc", "1", "::", "--", "12:", "12:60:00", "\xff"};
  const char *s = t[mc::choose(8)]; MC_OP("text \"" << s << "\""); mc::context("bad text"); alignas(Duration) unsigned char mem[sizeof(Duration)];
  for (unsigned char fill : {0x00, 0xa5}) { for (auto &c : mem) c = fill; auto *d = new (mem) Duration(std::string_view(s)); if (std::string(s) != "12:60:00") MC_CHECK(*d == 0, "bad-duration", "\"" << s << "\" gives " << static_cast<Smp::Duration>(*d)); DateTime x{std::string_view(s)}, y{std::string_view(s)}; MC_CHECK(static_cast<Smp::DateTime>(x) == static_cast<Smp::DateTime>(y), "bad-datetime", "not deterministic"); }
}
MC_SCENARIO(datetime_pairs) {
  long long x = any(), y = any(); MC_OP("x=" << x << " y=" << y); mc::context("datetime arithmetic"); DateTime a(x); I X = x, Y = y;
  auto is = [&](const DateTime &d, I want, const char *op) { MC_CHECK(static_cast<Smp::DateTime>(d) == want, std::string("dt-arith:") + op, x << " " << op << " " << y << " = " << static_cast<Smp::DateTime>(d)); };
  is(a, x, "value"); is(DateTime(), 0, "default"); { DateTime c(a); is(c, x, "copy"); c = DateTime(y); is(c, y, "="); c = Smp::DateTime(x); is(c, x, "= count"); c = ch::nanoseconds(y); is(c, y, "= chrono"); is(DateTime(ch::nanoseconds(y)), y, "chrono"); }
  if (fits(X + Y)) { DateTime d = a; auto &r = (d += Smp::Duration(y)); is(d, X + Y, "+="); MC_CHECK(&r == &d, "ret", "+="); d = a; d += ch::nanoseconds(y); is(d, X + Y, "+= chrono"); is(a + Smp::Duration(y), X + Y, "+"); is(Smp::Duration(y) + a, X + Y, "d+t"); is(a + ch::nanoseconds(y), X + Y, "t+c"); is(ch::nanoseconds(y) + a, X + Y, "c+t"); d = a; d += Duration(y); is(d, X + Y, "+= Duration"); }
  if (fits(X - Y)) { DateTime d = a; d -= Smp::Duration(y); is(d, X - Y, "-="); d = a; d -= ch::nanoseconds(y); is(d, X - Y, "-= chrono"); is(a - Smp::Duration(y), X - Y, "-"); is(a - ch::nanoseconds(y), X - Y, "t-c"); }
  if (x < MAX) { DateTime d = a, o = d++; is(o, x, "post++"); is(d, X + 1, "post++"); d = a; is(++d, X + 1, "++pre"); } if (x > MIN) { DateTime d = a, o = d--; is(o, x, "post--"); is(d, X - 1, "post--"); d = a; is(--d, X - 1, "--pre"); }
  cmp(static_cast<Smp::DateTime>(a), x, y, "datetime");
  if (fits(X + EPOCH)) { auto tp = static_cast<DateTime::time_point>(a); MC_CHECK(tp.time_since_epoch().count() == X + EPOCH, "to-time_point", x << " -> " << tp.time_since_epoch().count()); is(DateTime(tp), x, "from time_point"); DateTime z; z = tp; is(z, x, "= time_point"); }
  { auto s = ch::time_point<ch::system_clock, ch::seconds>(ch::seconds(y / S)); if (fits(static_cast<I>(y / S) * S - EPOCH)) is(DateTime(s), static_cast<I>(y / S) * S - EPOCH, "from seconds time_point"); }
}
MC_SCENARIO(datetime_text) {
  static std::vector<long long> v; if (v.empty()) { for (long long day : {0, 1, -1, 31, 58, 59, 60, 365, 366, 730, -365, -366, -10956, -10957, -10958, 10957, 20000, -25567, 36524, 36525, 84006, -100000, 60000}) for (long long t : {0LL, 1LL, D - 1, D / 2, D / 2 - 1, 3661 * S + 5}) v.push_back(static_cast<long long>(day) * D + t); for (long long x : vals()) v.push_back(x); }
  long long x = v[static_cast<size_t>(mc::choose(static_cast<int>(v.size())))]; I u = static_cast<I>(x) + EPOCH; if (!fits(u)) return;
  MC_OP("datetime " << x); mc::context("datetime text"); auto U = static_cast<long long>(u); long long day = U / D - (U % D < 0 ? 1 : 0); I rest = u - static_cast<I>(day) * D;
  std::string want = civil(day) + " " + hms(rest, false); DateTime d(x); std::ostringstream o, p, q; o << d; d.to_stream(p); d.to_stream(q, std::string("%F %T"));
  MC_CHECK(o.str() == want && d.format() == want && d.format(std::string("%F %T")) == want && p.str() == want && q.str() == want, "datetime-print", x << " prints " << o.str() << ", expected " << want);
  // whole days of the first and last year may lie outside what 64 bits can hold
  if (fits(static_cast<I>(day) * D)) { DateTime r{std::string_view(want)}; MC_CHECK(static_cast<Smp::DateTime>(r) == x, "datetime-roundtrip", want << " parses to " << static_cast<Smp::DateTime>(r)); std::istringstream is(want); DateTime r2(is); MC_CHECK(static_cast<Smp::DateTime>(r2) == x, "datetime-roundtrip-stream", want); mc::outcome(2); }
}
