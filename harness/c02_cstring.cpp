// C02: Xsmp::cstring against an owning optional<string>; every allocation may also fail.
#include "mc.h"
#include <Xsmp/cstring.h>
#include <cstdlib>
#include <cstring>
#include <new>
#include <optional>
#include <string>
#include <memory>
using Model = std::optional<std::string>; // empty: moved-from (null)
static int g_fail = 0;   // 0: never; k: the k-th allocation from now fails
static bool oom() { if (g_fail > 0 && --g_fail == 0) return true; return false; }
void *operator new[](std::size_t n) { if (oom()) throw std::bad_alloc(); void *p = std::malloc(n); if (!p) throw std::bad_alloc(); std::memset(p, 'Z', n); return p; }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
namespace {
std::string show(const Model &m) { return m ? "\"" + *m + "\"" : "null"; }
void observe(const Xsmp::cstring &s, const Model &m, const char *what, const char *after) {
  mc::context("read");
  const char *p = s.c_str();
  if (!m) MC_CHECK(p == nullptr, std::string("moved-from:") + after, what << " should be null, holds " << p);
  else { MC_CHECK(p != nullptr, std::string("lost:") + after, what << " is null after " << after << ", expected " << show(m)); MC_CHECK(*m == p, std::string("content:") + after, what << " holds \"" << p << "\" expected " << show(m)); }
}
const char *const TXT[] = {"", "a", "bc", "hello world"};
}
MC_SCENARIO(sequences) {
  const int N = 3; const int depth = mc::param("depth", 3);
  long before = mc::liveBlocks();
  {
    Model m[N];
    Xsmp::cstring *s[N];
    alignas(Xsmp::cstring) static unsigned char mem[N][sizeof(Xsmp::cstring)];
    int f = mc::choose(3);
    for (int i = 0; i < N; ++i) {
      if (i == 2) { s[i] = nullptr; continue; }
      const char *t = i == 0 ? TXT[f] : "bc";
      s[i] = new (mem[i]) Xsmp::cstring(t); m[i] = t;
    }
    MC_OP("s0=" << show(m[0]) << " s1=" << show(m[1]));
    // a moved-from cstring may hold null or any text of its own
    auto adopt = [&](int q) { const char *p = s[q]->c_str(); if (p) m[q] = std::string(p); else m[q].reset(); };
    int last = 0;
    for (int k = 0; k < depth; ++k) {
      std::uint64_t h = mc::mix(7, static_cast<std::uint64_t>(depth - k));
      for (int i = 0; i < N; ++i) h = mc::hashStr(s[i] ? show(m[i]) : "-", h);
      h = mc::mix(h, static_cast<std::uint64_t>(last)); // storage history the texts do not show
      if (mc::visit(h)) break;
      // arm one allocation failure or none
      g_fail = 0;
      int op = mc::choose(12);
      int i = mc::choose(2), j = mc::choose(2); last = op * 4 + i * 2 + j + 1;
      std::string src, name; bool threw = false; Model save = m[i];
      std::string owned;
      auto arm = [&] { g_fail = mc::choose(2); };
      try {
        switch (op) {
        case 0: { const char *t = TXT[mc::choose(4)]; std::unique_ptr<char> z; owned = t; arm(); name = "assign-text"; mc::context("assign-text"); MC_OP("s" << i << " = \"" << t << "\"" << (g_fail ? " (allocation fails)" : "")); { auto &r = (*s[i] = owned.c_str()); MC_CHECK(&r == s[i], "ret", "= does not return itself"); } m[i] = t; break; }
        case 1: arm(); name = "copy-assign"; mc::context("copy-assign"); MC_OP("s" << i << " = s" << j << (g_fail ? " (allocation fails)" : "")); { auto &r = (*s[i] = *s[j]); MC_CHECK(&r == s[i], "ret", "= does not return itself"); } m[i] = m[j]; break;
        case 2: name = i == j ? "self-move" : "move-assign"; mc::context("move-assign"); MC_OP("s" << i << " = move(s" << j << ")"); { auto &r = (*s[i] = std::move(*s[j])); MC_CHECK(&r == s[i], "ret", "= does not return itself"); } if (i != j) { m[i] = m[j]; adopt(j); } break;
        case 3: if (!m[i]) break; { size_t off = static_cast<size_t>(mc::choose(static_cast<int>(std::min<size_t>(m[i]->size(), 2)) + 1)); arm(); name = "assign-own"; mc::context("assign-own"); MC_OP("s" << i << " = s" << i << ".c_str()+" << off << (g_fail ? " (allocation fails)" : "")); *s[i] = s[i]->c_str() + off; m[i] = m[i]->substr(off); } break;
        case 4: if (!m[j] || i == j) break; arm(); name = "assign-other-buffer"; mc::context("assign-other"); MC_OP("s" << i << " = s" << j << ".c_str()"); *s[i] = s[j]->c_str(); m[i] = m[j]; break;
        case 5: if (s[2]) { MC_OP("destroy s2"); mc::context("destroy"); s[2]->~cstring(); s[2] = nullptr; m[2].reset(); } break;
        case 6: if (!s[2]) { arm(); name = "copy-construct"; mc::context("copy-construct"); MC_OP("s2(s" << i << ")" << (g_fail ? " (allocation fails)" : "")); Xsmp::cstring *n = new (mem[2]) Xsmp::cstring(*s[i]); s[2] = n; m[2] = m[i]; } break;
        case 7: if (!s[2]) { name = "move-construct"; mc::context("move-construct"); MC_OP("s2(move s" << i << ")"); s[2] = new (mem[2]) Xsmp::cstring(std::move(*s[i])); m[2] = m[i]; adopt(i); } break;
        case 8: if (!s[2]) { const char *t = TXT[mc::choose(4)]; size_t n = static_cast<size_t>(mc::choose(static_cast<int>(strlen(t)) + 1)); std::unique_ptr<char[]> z(new char[n ? n : 1]); memcpy(z.get(), t, n); arm(); name = "construct-size"; mc::context("construct-size"); MC_OP("s2(\"" << t << "\", " << n << ")"); s[2] = new (mem[2]) Xsmp::cstring(z.get(), n); m[2] = std::string(t, n); } break;
        case 9: if (!s[2]) { const char *t = TXT[mc::choose(4)]; std::string o(t); arm(); name = "construct-view"; mc::context("construct-view"); MC_OP("s2(view \"" << t << "\")"); s[2] = new (mem[2]) Xsmp::cstring(std::string_view(o)); m[2] = t; } break;
        case 10: if (!s[2]) { const char *t = TXT[mc::choose(4)]; std::string o(t); arm(); name = "construct-text"; mc::context("construct-text"); MC_OP("s2(\"" << t << "\")"); s[2] = new (mem[2]) Xsmp::cstring(o.c_str()); m[2] = t; } break;
        case 11: { name = "swap"; mc::context("swap"); MC_OP("swap(s" << i << ", s" << j << ")"); std::swap(*s[i], *s[j]); std::swap(m[i], m[j]); } break;
        }
      } catch (const std::bad_alloc &) { threw = true; }
      bool consumed = g_fail == 0; (void)consumed; g_fail = 0;
      if (threw) { MC_OP("  -> bad_alloc"); m[i] = save; name += "-oom"; }
      for (int q = 0; q < N; ++q) if (s[q]) observe(*s[q], m[q], q == 0 ? "s0" : q == 1 ? "s1" : "s2", name.c_str());
    }
    mc::context("destroy");
    for (int i = 0; i < N; ++i) if (s[i]) s[i]->~cstring();
    for (int i = 0; i < N; ++i) mc::outcome(mc::hashStr(show(m[i])));
  }
  long after = mc::liveBlocks();
  MC_CHECK(after == before, "leak", (after - before) << " heap blocks not released after destroying every cstring");
}
