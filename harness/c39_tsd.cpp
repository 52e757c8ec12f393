// C39: ThreadSafeData under every interleaving of small programs.
#include "mc.h"
#include "rt.h"
#include <Xsmp/ThreadSafeData.h>
#include <memory>
#include <optional>
#include <string>
#include <system_error>
#include <thread>
#include <vector>
namespace {
struct Data { int a = 0, b = 0; std::vector<int> log; };
using TSD = Xsmp::ThreadSafeData<Data>;
enum Hold { None, Reading, Writing, Leaving }; // Leaving: a release is under way
struct Ghost { Hold h[8] = {}; int reads[8] = {}; int increments = 0; } *G; // only touched quietly
int T() { return rt::tid(); }
bool anyWriting(bool surely) { for (int i = 0; i < 8; ++i) if (G->h[i] == Writing || (!surely && G->h[i] == Leaving)) return true; return false; }
bool anyHolding(bool surely) { for (int i = 0; i < 8; ++i) if (G->h[i] == Writing || G->h[i] == Reading || (!surely && G->h[i] == Leaving)) return true; return false; }
void got(Hold h) {
  rt::Quiet q;
  for (int i = 0; i < 8; ++i) if (i != T()) {
    if (h == Writing) MC_CHECK(G->h[i] != Writing && G->h[i] != Reading, "exclusion", "a writer was admitted while thread " << i << (G->h[i] == Writing ? " writes" : " reads"));
    if (h == Reading) MC_CHECK(G->h[i] != Writing, "exclusion", "a reader was admitted while thread " << i << " writes");
  }
  G->h[T()] = h;
}
void leaving() { rt::Quiet q; G->h[T()] = Leaving; }
void left() { rt::Quiet q; G->h[T()] = None; }
void readData(const Data &d) { int a = d.a; rt::point("between two reads"); int b = d.b; std::size_t n = d.log.size(); rt::Quiet q; MC_CHECK(a == b && static_cast<int>(n) == a, "torn", "a reader saw a=" << a << " b=" << b << " log=" << n); }
void inc(Data &d) { int a = d.a + 1; d.a = a; rt::point("between two writes"); d.b = a; d.log.push_back(a); rt::Quiet q; ++G->increments; }
const char *const NAME[] = {"read", "read unlock lock", "read unlock", "move read lock", "write", "write unlock lock", "write unlock", "move write lock", "try_read", "try_write", "read then try_read", "read then try_write", "write then try_*", "unlock twice", "move try_write", "write via const ref read"};
constexpr int NOPS = 16;
void run(TSD &d, int op) {
  MC_OP("thread " << T() << ": " << NAME[op]); mc::context(NAME[op]);
  switch (op) {
  case 0: { auto r = d.read(); got(Reading); readData(r.get()); leaving(); } left(); break;
  case 1: { auto r = d.read(); got(Reading); readData(r.get()); leaving(); r.unlock(); left(); r.lock(); got(Reading); readData(r.get()); leaving(); } left(); break;
  case 2: { auto r = d.read(); got(Reading); readData(r.get()); leaving(); r.unlock(); left(); rt::point("after unlock"); } break;
  case 3: { auto r0 = std::make_unique<TSD::ReadLock>(d.read()); got(Reading); { TSD::ReadLock r(std::move(*r0)); r0.reset(); readData(r.get()); leaving(); } left(); } break;
  case 4: { auto w = d.write(); got(Writing); inc(w.get()); leaving(); } left(); break;
  case 5: { auto w = d.write(); got(Writing); inc(w.get()); leaving(); w.unlock(); left(); w.lock(); got(Writing); inc(w.get()); leaving(); } left(); break;
  case 6: { auto w = d.write(); got(Writing); inc(w.get()); leaving(); w.unlock(); left(); rt::point("after unlock"); } break;
  case 7: { auto w0 = std::make_unique<TSD::WriteLock>(d.write()); got(Writing); { TSD::WriteLock w(std::move(*w0)); w0.reset(); inc(w.get()); leaving(); } left(); } break;
  case 8: { auto r = d.try_read(); bool sure, maybe; { rt::Quiet q; sure = anyWriting(true); maybe = anyWriting(false); }
      if (r) { got(Reading); readData(r->get()); leaving(); } else { rt::Quiet q; MC_CHECK(maybe, "try_read", "try_read failed although nobody writes"); } (void)sure; } left(); break;
  case 9: { auto w = d.try_write(); bool maybe; { rt::Quiet q; maybe = anyHolding(false); }
      if (w) { got(Writing); inc(w->get()); leaving(); } else { rt::Quiet q; MC_CHECK(maybe, "try_write", "try_write failed although nobody holds the lock"); } } left(); break;
  case 10: { auto r = d.read(); got(Reading); { auto r2 = d.try_read(); rt::Quiet q; MC_CHECK(r2.has_value(), "shared", "a second reader was refused while only readers hold the lock"); } readData(r.get()); leaving(); } left(); break;
  case 11: { auto r = d.read(); got(Reading); { auto w = d.try_write(); rt::Quiet q; MC_CHECK(!w, "try_write", "try_write succeeded beside a reader"); } readData(r.get()); leaving(); } left(); break;
  case 12: { auto w = d.write(); got(Writing); { auto w2 = d.try_write(); auto r2 = d.try_read(); rt::Quiet q; MC_CHECK(!w2 && !r2, "exclusion", "try_* succeeded beside a writer"); } inc(w.get()); leaving(); } left(); break;
  case 13: { auto w = d.write(); got(Writing); inc(w.get()); leaving(); w.unlock(); left(); bool threw = false; try { w.unlock(); } catch (const std::system_error &) { threw = true; } rt::Quiet q; MC_CHECK(threw, "double-unlock", "a second unlock of a released lock was accepted"); } break;
  case 14: { std::optional<TSD::WriteLock> w = d.try_write(); if (w) { got(Writing); TSD::WriteLock x(std::move(*w)); w.reset(); inc(x.get()); rt::point("moved"); inc(x.get()); leaving(); } } left(); break;
  default: { const TSD &c = d; auto r = c.read(); got(Reading); readData(r.get()); leaving(); r.unlock(); left(); auto t = c.try_read(); if (t) { got(Reading); readData(t->get()); leaving(); } } left(); break;
  }
}
void program(int threads, int len, int nops) {
  auto *g = new Ghost; G = g;
  { TSD d; std::vector<std::vector<int>> prog; { rt::Quiet q; for (int t = 0; t < threads; ++t) { prog.emplace_back(); for (int i = 0; i < len; ++i) { int lo = 0; if (i == 0 && t > 0) lo = prog[static_cast<std::size_t>(t - 1)][0]; prog.back().push_back(lo + mc::choose(nops - lo)); } } }
    std::vector<std::thread> th; for (int t = 0; t < threads; ++t) th.emplace_back([&d, p = prog[static_cast<std::size_t>(t)]] { for (int op : p) run(d, op); });
    for (auto &t : th) t.join();
    auto r = d.try_write(); MC_CHECK(r.has_value(), "not-released", "a lock is still held after every user is gone");
    const Data &x = r->get(); MC_CHECK(x.a == g->increments && x.b == g->increments && static_cast<int>(x.log.size()) == g->increments, "lost-update", "after " << g->increments << " increments the data is a=" << x.a << " b=" << x.b << " log=" << x.log.size());
    mc::outcome(static_cast<std::uint64_t>(x.a)); }
  delete g;
  MC_CHECK(rt::liveBlocks() == 0, "leak", "blocks still allocated: " << rt::liveBlocks());
}
}
MC_SCENARIO(two_threads) { program(2, mc::param("len2", 1), mc::param("ops2", NOPS)); }
MC_SCENARIO(three_threads) { if (mc::param("threads", 3) >= 3) program(3, 1, mc::param("ops3", NOPS)); }
MC_SCENARIO(readers_overlap) { // both readers inside at once, whichever comes first
  auto d = std::make_unique<TSD>(); int *in = new int(0); bool tr = mc::flip(); MC_OP("two readers wait for each other inside"); mc::context("readers overlap");
  auto body = [&, tr] { auto r = tr ? std::move(*d->try_read()) : d->read(); { rt::Quiet q; ++*in; } rt::waitFor("both readers inside", [in] { return *in == 2; }); (void)r.get(); };
  std::thread a(body), b(body); a.join(); b.join(); delete in;
}
MC_SCENARIO(early_release) { // an early release lets others in while the released lock object still exists
  TSD d; int *done = new int(0); int first = mc::choose(2), second = mc::choose(4); MC_OP("early release"); mc::context("early release");
  std::thread a([&] { if (first == 0) { auto w = d.write(); inc(w.get()); w.unlock(); rt::waitFor("the other thread", [done] { return *done == 1; }); w.lock(); inc(w.get()); } else { auto r = d.read(); r.unlock(); rt::waitFor("the other thread", [done] { return *done == 1; }); r.lock(); readData(r.get()); } });
  std::thread b([&] { rt::point("start"); if (second == 0) { auto w = d.write(); inc(w.get()); } else if (second == 1) { auto r = d.read(); readData(r.get()); } else if (second == 2) { auto w = d.write(); TSD::WriteLock x(std::move(w)); inc(x.get()); x.unlock(); } else { auto w = d.write(); w.unlock(); w.lock(); inc(w.get()); } rt::Quiet q; *done = 1; });
  static Ghost g; G = &g; a.join(); b.join(); auto r = d.try_write(); MC_CHECK(r.has_value(), "not-released", "still held at the end"); MC_CHECK(r->get().a == r->get().b, "torn", "a=" << r->get().a << " b=" << r->get().b); delete done;
}
MC_SCENARIO(construction) { // arguments reach the data
  Xsmp::ThreadSafeData<std::string> s("abc"); Xsmp::ThreadSafeData<std::vector<int>> v(3U, 7); Xsmp::ThreadSafeData<int> z; Xsmp::ThreadSafeData<int> n(5); mc::context("construction");
  MC_CHECK(s.read().get() == "abc" && v.read().get() == std::vector<int>(3, 7) && n.read().get() == 5 && z.read().get() == 0, "construction", "constructor arguments lost");
  s.write().get() = "x"; MC_CHECK(s.read().get() == "x", "write", "written value lost");
}
