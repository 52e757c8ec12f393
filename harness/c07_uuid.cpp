// C07: Uuid parsing, printing, ordering, hashing.
#include "mc.h"
#include <Smp/Uuid.h>
#include <Smp/Exception.h>
#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
namespace {
struct M { std::uint32_t a; std::uint16_t b[3]; std::uint8_t c[6]; };
bool hex(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int hv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
bool wellFormed(const std::string &s) {
  if (s.size() != 36) return false;
  for (size_t i = 0; i < 36; ++i) { bool dash = i == 8 || i == 13 || i == 18 || i == 23; if (dash ? s[i] != '-' : !hex(s[i])) return false; }
  return true;
}
std::string nibbles(const std::string &s) { std::string r; for (char c : s) if (c != '-') r += c; return r; }
M parse(const std::string &s) {
  std::string n = nibbles(s); M m{}; auto num = [&](size_t at, size_t len) { unsigned long v = 0; for (size_t i = 0; i < len; ++i) v = v * 16 + static_cast<unsigned long>(hv(n[at + i])); return v; };
  m.a = static_cast<std::uint32_t>(num(0, 8)); for (size_t i = 0; i < 3; ++i) m.b[i] = static_cast<std::uint16_t>(num(8 + 4 * i, 4)); for (size_t i = 0; i < 6; ++i) m.c[i] = static_cast<std::uint8_t>(num(20 + 2 * i, 2)); return m;
}
bool eq(const Smp::Uuid &u, const M &m) { bool r = u.Data1 == m.a; for (size_t i = 0; i < 3; ++i) r = r && u.Data2[i] == m.b[i]; for (size_t i = 0; i < 6; ++i) r = r && u.Data3[i] == m.c[i]; return r; }
Smp::Uuid numeric(const M &m) { std::uint64_t d5 = 0; for (unsigned char x : m.c) d5 = d5 << 8 | x; return Smp::Uuid(m.a, m.b[0], m.b[1], m.b[2], d5); }
std::string lower(std::string s) { for (char &c : s) if (c >= 'A' && c <= 'F') c = static_cast<char>(c + 32); return s; }
// hands the text over in a block of exactly its size, so that reading past the end is detected
void tryText(const std::string &t) {
  auto buf = std::make_unique<char[]>(t.size() + 1); std::memcpy(buf.get(), t.c_str(), t.size() + 1);
  std::string s(buf.get()); // up to the first terminator
  bool ok = wellFormed(s), threw = false; std::string exn; Smp::Uuid u;
  mc::context("parse"); MC_OP("Uuid(\"" << s << "\")");
  try { u = Smp::Uuid(buf.get()); } catch (const Smp::Exception &e) { threw = true; exn = e.GetName() ? e.GetName() : ""; }
  MC_CHECK(threw == !ok, ok ? "refused" : "accepted", "\"" << s << "\" was " << (threw ? "refused" : "accepted"));
  mc::outcome(ok ? 1 : 2);
  if (!ok) { MC_CHECK(exn == "InvalidUUID", "exception", "refused with " << exn); return; }
  M m = parse(s);
  MC_CHECK(eq(u, m), "value", "wrong value for \"" << s << "\"");
  MC_CHECK(u == numeric(m) && !(u != numeric(m)), "numeric", "textual and numeric construction differ for " << s);
  std::ostringstream os; os << u; MC_CHECK(os.str() == lower(s), "print", "\"" << s << "\" prints as " << os.str());
  std::ostringstream o2; o2 << u << " " << 255 << " "; o2.width(4); o2 << 7; MC_CHECK(o2.str() == lower(s) + " 255    7", "format-state", "after printing: " << o2.str());
  Smp::Uuid again(os.str().c_str()); MC_CHECK(again == u && std::hash<Smp::Uuid>()(again) == std::hash<Smp::Uuid>()(u), "roundtrip", "reparsed text is another identifier");
}
const char *const BASE[] = {"01234567-89ab-cdef-0123-456789abcdef", "FEDCBA98-7654-3210-FEDC-BA9876543210", "00000000-0000-0000-0000-000000000000", "ffffffff-ffff-ffff-ffff-ffffffffffff"};
const char MUT[] = {'\0', '-', '0', '9', 'a', 'f', 'A', 'F', 'g', 'G', ' ', '+', 'x', '/', ':', '@', '`', '\x80', '\xff', '{'};
}
MC_SCENARIO(one_change) { std::string s = BASE[mc::choose(4)]; auto p = static_cast<size_t>(mc::choose(36)); s[p] = MUT[mc::choose(20)]; tryText(s); }
MC_SCENARIO(two_changes) {
  std::string s = BASE[mc::choose(2)]; auto p = static_cast<size_t>(mc::choose(36)), q = static_cast<size_t>(mc::choose(36)); const char c2[] = {'\0', '-', '0', 'f', 'g'};
  s[p] = c2[mc::choose(5)]; s[q] = c2[mc::choose(5)]; tryText(s);
}
MC_SCENARIO(lengths) { // every truncation, insertion, deletion, extension
  std::string s = BASE[mc::choose(4)]; int k = mc::choose(4); auto p = static_cast<size_t>(mc::choose(37));
  if (k == 0) s.resize(std::min(p, s.size())); else if (k == 1) s.insert(p, 1, MUT[mc::choose(20)]); else if (k == 2) { if (p < 36) s.erase(p, 1); else s.clear(); } else { s += std::string(p + 1, "0-f "[mc::choose(4)]); }
  tryText(s);
}
MC_SCENARIO(every_byte) { // every character at every position
  std::string s = BASE[0]; auto p = static_cast<size_t>(mc::choose(36)); s[p] = static_cast<char>(mc::choose(256)); tryText(s);
}
MC_SCENARIO(null_text) { bool t = false; mc::context("null"); try { Smp::Uuid u(static_cast<const char *>(nullptr)); (void)u; } catch (const Smp::Exception &) { t = true; } MC_CHECK(t, "null", "null text accepted"); }
MC_SCENARIO(order) { // ==, <, hash on every triple of identifiers that differ in few places
  static std::vector<M> all;
  if (all.empty()) {
    M z{}; all.push_back(z); M f; std::memset(&f, 0xff, sizeof f); all.push_back(f); M mid; std::memset(&mid, 0x80, sizeof mid); all.push_back(mid);
    auto add = [&](auto fn) { for (auto base : {z, mid}) { M x = base; fn(x); all.push_back(x); } };
    add([](M &x) { x.a = 1; }); add([](M &x) { x.a = 0x80000000u; });
    for (int i = 0; i < 3; ++i) { add([i](M &x) { x.b[i] = 1; }); add([i](M &x) { x.b[i] = 0xffff; }); }
    for (int i = 0; i < 6; ++i) { add([i](M &x) { x.c[i] = 1; }); add([i](M &x) { x.c[i] = 0xff; }); }
  }
  int n = static_cast<int>(all.size()); auto I = [&](int i) { return numeric(all[static_cast<size_t>(i)]); };
  int a = mc::choose(n), b = mc::choose(n); Smp::Uuid ua = I(a), ub = I(b);
  auto key = [&](int i) { const M &m = all[static_cast<size_t>(i)]; return std::vector<int>{static_cast<int>(m.a >> 16), static_cast<int>(m.a & 0xffff), m.b[0], m.b[1], m.b[2], m.c[0], m.c[1], m.c[2], m.c[3], m.c[4], m.c[5]}; };
  bool same = key(a) == key(b); MC_OP("identifiers #" << a << " and #" << b); mc::context("order");
  MC_CHECK((ua == ub) == same, "equal", ua << " == " << ub << " is " << (ua == ub)); MC_CHECK((ua != ub) == !same, "unequal", ua << " != " << ub << " is " << (ua != ub));
  MC_CHECK((ua < ub) + (ub < ua) == (same ? 0 : 1), "total", "order of " << ua << " and " << ub << " is not total");
  if (same) MC_CHECK(std::hash<Smp::Uuid>()(ua) == std::hash<Smp::Uuid>()(ub), "hash", "equal identifiers hash differently");
  for (int c = 0; c < n; ++c) { Smp::Uuid uc = I(c); if (ua < ub && ub < uc) MC_CHECK(ua < uc, "transitive", ua << " < " << ub << " < " << uc << " but not " << ua << " < " << uc); }
}
