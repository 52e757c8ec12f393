// Runtime behind code compiled with -fsanitize=thread: serialises the real threads, makes every synchronisation operation a
// scheduling choice of the explorer, keeps vector clocks for data races, owns the clock and the heap.
#include "rt.h"
#include "mc.h"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace rt {
std::int64_t startTime = 1700000000LL * 1000000000LL;
int stepLimit = 20000;
namespace {
constexpr int MAXT = 10;
using Clk = std::uint32_t;
struct VC { Clk c[MAXT]; VC() { std::memset(c, 0, sizeof c); } void join(const VC &o) { for (int i = 0; i < MAXT; ++i) c[i] = std::max(c[i], o.c[i]); } };

enum class St { Unused, Run, Lock, RdLock, WrLock, Cond, Join, Pred, Sleep, Guard, Done };
struct Thread {
  St st = St::Unused;
  int id = 0;
  const void *obj = nullptr;      // what it is blocked on
  bool timed = false; std::int64_t deadline = 0; bool timedOut = false, signalled = false, canSpurious = false;
  std::function<bool()> pred; const char *what = "";
  sem_t sem; pthread_t real; bool detached = false, joined = false;
  void *(*fn)(void *) = nullptr; void *arg = nullptr; void *ret = nullptr;
  VC vc; int quiet = 0, calm = 0;
  void *stack[256]; int depth = 0;
  std::string name;
};
struct Sync { // mutex, rwlock, condition, guard or atomic variable
  VC vc, rvc; int owner = -1; int readers[MAXT] = {}; int nreaders = 0; int id = 0; std::vector<int> waiters; int rec = 0;
};
Thread th[MAXT];
int nth = 0;
bool active = false;
thread_local Thread *self = nullptr;
int inRt = 0; // inside the runtime: only the baton holder touches it
std::unordered_map<const void *, Sync> *syncs = nullptr;
std::unordered_map<const void *, VC> *avcs = nullptr;
int nsync, steps, preempts, maxPreempt, useTimeouts, useSpurious, useUnlockPoints, useRdPoints;
std::int64_t vclock;
struct In { bool on; In() : on(true) { ++inRt; } ~In() { --inRt; } };

template <class F> F real(const char *n) { void *p = dlsym(RTLD_NEXT, n); if (!p) { std::fprintf(stderr, "rt: no %s\n", n); _exit(12); } return reinterpret_cast<F>(p); }
#define REAL(f) ([] { static decltype(&f) p = nullptr; if (!p) p = real<decltype(&f)>(#f); return p; }()) // no guarded static: its acquisition would be a scheduling point

bool on() { return active && self != nullptr; }
std::string tname(const Thread &t) { return t.name.empty() ? "T" + std::to_string(t.id) : t.name; }
#define TR(...) do { if (mc::tracing()) { std::ostringstream o_; o_ << "  [" << tname(*self) << "] " << __VA_ARGS__; mc::traceLine(o_.str()); } } while (0)

Sync &sync(const void *p) { auto it = syncs->find(p); if (it == syncs->end()) { it = syncs->emplace(p, Sync()).first; it->second.id = ++nsync; } return it->second; }

// ---- reports
std::string symbol(void *pc, bool full) {
  // innermost frame in the repository, else innermost frame, by addr2line
  static std::map<std::pair<void *, bool>, std::string> cache; auto k = std::make_pair(pc, full); auto f = cache.find(k); if (f != cache.end()) return f->second;
  Dl_info di; if (!pc || !dladdr(pc, &di) || !di.dli_fname) return "?";
  char exe[600]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n > 0 ? n : 0] = 0;
  const char *obj = strchr(di.dli_fname, '/') && std::strstr(di.dli_fname, ".so") ? di.dli_fname : exe;
  char cmd[1500]; std::snprintf(cmd, sizeof cmd, "addr2line -Cfie %s 0x%lx 2>/dev/null", obj, static_cast<unsigned long>(reinterpret_cast<char *>(pc) - static_cast<char *>(di.dli_fbase)) - 1);
  FILE *p = popen(cmd, "r"); std::string first, repo, all; if (p) {
    char fn[3000], ln[1500];
    while (fgets(fn, sizeof fn, p) && fgets(ln, sizeof ln, p)) {
      std::string a = fn, b = ln; while (!a.empty() && a.back() == '\n') a.pop_back(); while (!b.empty() && b.back() == '\n') b.pop_back();
      // strip template arguments and parameters
      std::string s; int d = 0; for (char c : a) { if (c == '<') ++d; if (c == '(' && d == 0 && s.find("operator") == std::string::npos) break; if (!d) s += c; if (c == '>' && d) --d; }
      auto sl = b.rfind('/'); std::string file = sl == std::string::npos ? b : b.substr(sl + 1); auto sp = file.find(' '); if (sp != std::string::npos) file = file.substr(0, sp);
      bool isRepo = b.find("/src/") != std::string::npos || b.find("/include/Xsmp") != std::string::npos || b.find("/include/Smp") != std::string::npos || b.find("/src-gen/") != std::string::npos;
      if (b.find("/usr/") == 0) isRepo = false;
      if (first.empty()) first = s; if (repo.empty() && isRepo) repo = s;
      all += "      " + s + " (" + file + ")\n";
    }
    pclose(p);
  }
  std::string r = full ? all : (repo.empty() ? "" : repo); cache[k] = r; if (!full && r.empty()) cache[k] = r = "~" + first; return r;
}
struct Acc { void *pc, *caller; };
std::string where(const Acc &a) { auto s = symbol(a.pc, false); if (s.empty() || s[0] == '~') { auto c = symbol(a.caller, false); if (!c.empty() && c[0] != '~' && c != "?") return c; } return s; }
std::string stackOf(Thread &t) { std::string r; for (int i = t.depth - 1, n = 0; i >= 0 && n < 14; --i, ++n) r += symbol(t.stack[i], true); return r; }

// ---- scheduling
bool enabled(Thread &t);
std::string describe(Thread &t) {
  static const char *n[] = {"unused", "runnable", "waiting for a mutex", "waiting for a shared lock", "waiting for an exclusive lock", "waiting on a condition", "joining", "waiting", "sleeping", "waiting for a static initialiser", "finished"};
  std::string s = tname(t) + " " + n[static_cast<int>(t.st)]; if (t.st == St::Pred) s += std::string(" for ") + t.what;
  if (t.obj && t.st != St::Done && t.st != St::Run) { if (t.st == St::Join) s += " " + tname(*static_cast<const Thread *>(t.obj)); else { auto it = syncs->find(t.obj); if (it != syncs->end()) { s += " #" + std::to_string(it->second.id); if (it->second.owner >= 0) s += " held by " + tname(th[it->second.owner]); } } }
  return s;
}
void switchTo(Thread &n) {
  if (&n == self) return;
  Thread *me = self; int saved = inRt; inRt = 0;
  sem_post(&n.sem);
  while (sem_wait(&me->sem) != 0) {}
  inRt = saved;
}
bool isTimed(Thread &t) { return t.timed && (t.st == St::Cond || t.st == St::Sleep || t.st == St::Lock || t.st == St::RdLock || t.st == St::WrLock) && !t.timedOut && !t.signalled; }
void fireTimeout(Thread &t) { vclock = std::max(vclock, t.deadline); t.timedOut = true; if (mc::tracing()) mc::traceLine("  (time is " + std::to_string(vclock - startTime) + " ns; timeout of " + tname(t) + ")"); }
bool enabled(Thread &t) {
  switch (t.st) {
  case St::Unused: case St::Done: return false;
  case St::Run: return true;
  case St::Lock: return t.timedOut || sync(t.obj).owner < 0;
  case St::RdLock: return t.timedOut || sync(t.obj).owner < 0;
  case St::WrLock: { if (t.timedOut) return true; Sync &s = sync(t.obj); return s.owner < 0 && s.nreaders == 0; }
  case St::Cond: return t.signalled || t.timedOut;
  case St::Join: return static_cast<const Thread *>(t.obj)->st == St::Done;
  case St::Pred: { Thread *me = self; (void)me; return t.pred(); }
  case St::Sleep: return t.timedOut;
  case St::Guard: return sync(t.obj).owner < 0;
  }
  return false;
}
// fire everything that is due at the current time
void fireDue() { for (int i = 0; i < nth; ++i) if (isTimed(th[i]) && th[i].deadline <= vclock) th[i].timedOut = true; }
void checkSteps() {
  if (++steps > stepLimit) { std::string s; for (int i = 0; i < nth; ++i) if (th[i].st != St::Done) s += describe(th[i]) + "\n" + stackOf(th[i]); mc::fail("livelock", "no end after " + std::to_string(stepLimit) + " scheduling steps\n" + s); }
}
/// The caller is about to do something visible; others may run first.
void pointRt(const char *what) {
  if (!on() || self->quiet || self->calm) return;
  In in; checkSteps(); (void)what;
  if (preempts >= maxPreempt) return;
  fireDue();
  struct C { int t; int kind; }; C cand[3 * MAXT]; int n = 0; // kind 0 run, 1 timeout, 2 spurious
  for (int i = 0; i < nth; ++i) if (&th[i] != self && enabled(th[i])) cand[n++] = {i, 0};
  if (useTimeouts) { int best = -1; for (int i = 0; i < nth; ++i) if (&th[i] != self && isTimed(th[i]) && (best < 0 || th[i].deadline < th[best].deadline)) best = i; if (best >= 0 && !enabled(th[best])) cand[n++] = {best, 1}; }
  if (useSpurious) for (int i = 0; i < nth; ++i) if (&th[i] != self && th[i].st == St::Cond && th[i].canSpurious && !th[i].signalled && !th[i].timedOut) cand[n++] = {i, 2};
  if (!n) return;
  int c = mc::choose(n + 1);
  if (c == 0) return;
  ++preempts; C k = cand[c - 1]; Thread &t = th[k.t];
  if (k.kind == 1) fireTimeout(t); else if (k.kind == 2) { t.signalled = true; if (mc::tracing()) mc::traceLine("  (spurious wake-up of " + tname(t) + ")"); auto &w = sync(t.obj).waiters; w.erase(std::remove(w.begin(), w.end(), t.id), w.end()); }
  if (mc::tracing()) mc::traceLine("  -- preempt " + tname(*self) + " before " + what + ", run " + tname(t));
  switchTo(t);
}
/// Run someone else; the caller is blocked or finished.
Thread &next() {
  for (;;) {
    fireDue();
    int cand[MAXT], n = 0;
    for (int i = 0; i < nth; ++i) if (enabled(th[i])) cand[n++] = i;
    if (n) return th[cand[mc::choose(n)]];
    int best = -1; for (int i = 0; i < nth; ++i) if (isTimed(th[i]) && (best < 0 || th[i].deadline < th[best].deadline)) best = i;
    if (best >= 0) { fireTimeout(th[best]); continue; }
    std::string s, k; for (int i = 0; i < nth; ++i) if (th[i].st != St::Done) { s += describe(th[i]) + "\n" + stackOf(th[i]);
      std::string f; for (int d = th[i].depth - 1; d >= 0 && f.empty(); --d) { auto x = symbol(th[i].stack[d], false); if (!x.empty() && x[0] != '~' && x != "?" && x.find("ThreadSafeData") == std::string::npos) f = x; } k += (k.empty() ? "" : "/") + (f.empty() ? std::string("?") : f); }
    mc::fail("deadlock:" + k, "every thread is blocked for ever\n" + s);
  }
}
/// Block the caller in the state it has set until it is enabled and chosen.
void block() {
  checkSteps();
  if (self->quiet) mc::error("a quiet thread blocks");
  Thread &n = next(); if (&n != self) switchTo(n);
}
void tick() { ++self->vc.c[self->id]; }
void acquire(const VC &v) { if (self->calm) return; self->vc.join(v); }
void release(VC &v) { if (self->calm) return; v.join(self->vc); tick(); }

// ---- heap
constexpr std::size_t ARENA = 256UL << 20;
char *arena = nullptr; std::size_t brk = 0; long live = 0; std::size_t arenaBase = 0, startBrk = 0;
unsigned char *gran = nullptr; // per 8 bytes: 0 never, 1 live, 2 released
bool inArena(const void *p) { return p >= arena && p < arena + ARENA; }
struct Hdr { std::size_t size; std::size_t magic; };
void *arenaAlloc(std::size_t n, std::size_t al) {
  std::size_t at = (brk + sizeof(Hdr) + 16 + al - 1) & ~(al - 1);
  if (at + n + 16 > ARENA) return nullptr;
  auto *h = reinterpret_cast<Hdr *>(arena + at) - 1; h->size = n; h->magic = 0xA110CA7ED;
  std::memset(gran + at / 8, 1, (std::max<std::size_t>(n, 1) + 7) / 8);
  std::memset(arena + at, 0xbe, n); // uninitialised
  brk = at + std::max<std::size_t>(n, 1); ++live; return arena + at;
}
void forget(const void *p, std::size_t n);
void *allocate(std::size_t n, std::size_t al) {
  if (on() && !inRt && !self->quiet && n < (8UL << 20)) { if (void *p = arenaAlloc(n, std::max<std::size_t>(al, 16))) return p; mc::error("arena exhausted"); }
  void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void releaseBlock(void *p) {
  if (!p) return;
  if (!inArena(p)) { std::free(p); return; }
  std::size_t at = static_cast<std::size_t>(static_cast<char *>(p) - arena); auto *h = reinterpret_cast<Hdr *>(p) - 1;
  if (gran[at / 8] != 1 || h->magic != 0xA110CA7ED) { In in; mc::fail(gran[at / 8] == 2 ? "double-release" : "bad-release", "operator delete of " + std::string(gran[at / 8] == 2 ? "a released block" : "a bad pointer") + (self ? "\n" + stackOf(*self) : "")); }
  std::size_t n = std::max<std::size_t>(h->size, 1);
  if (on() && !self->quiet) forget(p, n);
  std::memset(gran + at / 8, 2, (n + 7) / 8); std::memset(p, 0xdd, h->size); --live;
}

// ---- data races
struct Slot { Clk clk; std::uint8_t mask; Acc at; };
struct Cell { std::uintptr_t key; std::uint32_t gen; Slot s[4][MAXT]; }; // 0 read, 1 write, 2 atomic read, 3 atomic write
constexpr std::size_t NCELL = 1 << 16;
Cell *cells = nullptr; std::uint32_t gen = 0; std::size_t used = 0;
Cell &cell(std::uintptr_t k) {
  std::size_t i = (k * 0x9e3779b97f4a7c15ULL >> 40) & (NCELL - 1);
  for (;; i = (i + 1) & (NCELL - 1)) {
    Cell &c = cells[i]; if (c.gen == gen && c.key == k) return c;
    if (c.gen != gen) { if (++used > NCELL * 3 / 4) mc::error("shadow table full"); std::memset(&c, 0, sizeof c); c.gen = gen; c.key = k; return c; }
  }
}
const char *const KIND[] = {"read", "write", "atomic read", "atomic write"};
void raceReport(const Cell &c, int k, int kind, int t, const Slot &o, const Acc &a) {
  In in; std::string x = where(o.at), y = where(a); if (y < x) std::swap(x, y);
  mc::fail("race:" + x + "/" + y, "data race at " + std::to_string(c.key * 8) + ": " + KIND[kind] + " by " + tname(*self) + "\n" + stackOf(*self) + symbol(a.pc, true) + "    without ordering after " + KIND[k] + " by " + tname(th[t]) + "\n" + symbol(o.at.pc, true) + symbol(o.at.caller, true));
}
void access1(std::uintptr_t k, std::uint8_t mask, int kind, const Acc &a) {
  Cell &c = cell(k); int me = self->id;
  static const int conflicts[4][4] = {{0, 1, 0, 1}, {1, 1, 1, 1}, {0, 1, 0, 0}, {1, 1, 0, 0}};
  for (int q = 0; q < 4; ++q) if (conflicts[kind][q]) for (int t = 0; t < nth; ++t) { if (t == me) continue; const Slot &o = c.s[q][t]; if (o.clk && (o.mask & mask) && o.clk > self->vc.c[t]) raceReport(c, q, kind, t, o, a); }
  Slot &s = c.s[kind][me]; if (s.clk != self->vc.c[me]) { s.clk = self->vc.c[me]; s.mask = 0; } s.mask |= mask; s.at = a;
}
void access(const void *p, std::size_t n, int kind, void *pc) {
  if (!on() || inRt || self->quiet || self->calm) return;
  if (n == 0) return;
  Acc a{pc, self->depth ? self->stack[self->depth - 1] : nullptr};
  if (inArena(p)) {
    std::size_t at = static_cast<std::size_t>(static_cast<const char *>(p) - arena);
    for (std::size_t g = at / 8; g <= (at + n - 1) / 8; ++g) if (gran[g] != 1) { In in; mc::fail(std::string(gran[g] == 2 ? "use-after-free:" : "out-of-bounds:") + where(a), std::string(KIND[kind]) + " of " + (gran[g] == 2 ? "released" : "unallocated") + " memory by " + tname(*self) + "\n" + symbol(pc, true) + stackOf(*self)); }
  } else if (reinterpret_cast<std::uintptr_t>(p) < 4096) { In in; mc::fail("null-access:" + where(a), std::string(KIND[kind]) + " through a null pointer by " + tname(*self) + "\n" + symbol(pc, true) + stackOf(*self)); }
  if (nth < 2 && th[0].vc.c[0] < 2) { /* single thread so far: still recorded, a later thread is ordered after it */ return; }
  auto b = reinterpret_cast<std::uintptr_t>(p), e = b + n;
  for (std::uintptr_t k = b / 8; k * 8 < e; ++k) {
    std::uintptr_t lo = std::max(b, k * 8), hi = std::min(e, k * 8 + 8); auto mask = static_cast<std::uint8_t>(((1u << (hi - lo)) - 1) << (lo - k * 8));
    access1(k, mask, kind, a);
  }
}
// memory handed out anew by a library that is not instrumented: what happened there before is of no concern
void forgetCells(const void *p, std::size_t n) {
  auto b = reinterpret_cast<std::uintptr_t>(p);
  for (std::uintptr_t k = b / 8; k * 8 < b + n; ++k) { Cell &c = cell(k); std::memset(c.s, 0, sizeof c.s); }
}
// releasing memory counts as a write to all of it
void forget(const void *p, std::size_t n) {
  access(p, n, 1, __builtin_return_address(0));
  auto b = static_cast<const char *>(p);
  for (auto it = syncs->begin(); it != syncs->end();) {
    auto a = static_cast<const char *>(it->first);
    if (a >= b && a < b + n) { if (it->second.owner >= 0 || it->second.nreaders) { In in; mc::fail("destroyed-locked", "a lock is released to the heap while held, by " + tname(*self) + "\n" + stackOf(*self)); } if (!it->second.waiters.empty()) { In in; mc::fail("destroyed-waited", "a condition is destroyed while threads wait on it\n" + stackOf(*self)); } In in; it = syncs->erase(it); } else ++it;
  }
}
void touch(const void *p, void *pc) { // a synchronisation object must be live memory
  if (inArena(p)) { std::size_t at = static_cast<std::size_t>(static_cast<const char *>(p) - arena); if (gran[at / 8] != 1) { In in; mc::fail("use-after-free:" + where({pc, self->depth ? self->stack[self->depth - 1] : nullptr}), "synchronisation object in released memory used by " + tname(*self) + "\n" + symbol(pc, true) + stackOf(*self)); } }
}

void begin() {
  if (!syncs) { syncs = new std::unordered_map<const void *, Sync>; avcs = new std::unordered_map<const void *, VC>; }
  syncs->clear(); avcs->clear(); nsync = 0; steps = 0; preempts = 0; inRt = 0;
  maxPreempt = mc::param("preempt", 2); useTimeouts = mc::param("timeouts", 1); useSpurious = mc::param("spurious", 0); useUnlockPoints = mc::param("unlockpoints", 0); useRdPoints = mc::param("rdpoints", 1);
  vclock = startTime; ++gen; used = 0;
  arenaBase = static_cast<std::size_t>(live); startBrk = brk = (brk + 63) & ~63UL;
  for (auto &t : th) { t.st = St::Unused; t.vc = VC(); t.depth = 0; t.quiet = t.calm = 0; t.name.clear(); t.pred = nullptr; t.joined = t.detached = false; t.timedOut = t.signalled = t.timed = false; }
  nth = 1; th[0].id = 0; th[0].st = St::Run; th[0].vc.c[0] = 1; th[0].name = "main"; self = &th[0];
  active = true;
}
void end() {
  In in;
  for (int i = 1; i < nth; ++i) if (th[i].st != St::Done) mc::fail("thread-leak", "the scenario ended with " + describe(th[i]) + "\n" + stackOf(th[i]));
  for (auto &s : *syncs) if (s.second.owner >= 0 || s.second.nreaders) mc::fail("lock-leak", "the scenario ended with lock #" + std::to_string(s.second.id) + " held");
  active = false; self = nullptr;
  if (live == static_cast<long>(arenaBase)) { std::memset(gran + startBrk / 8, 0, (brk - startBrk) / 8 + 16); brk = startBrk; }
}
struct Init {
  Init() {
    arena = static_cast<char *>(mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    gran = static_cast<unsigned char *>(mmap(nullptr, ARENA / 8 + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    cells = static_cast<Cell *>(mmap(nullptr, NCELL * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    for (auto &t : th) sem_init(&t.sem, 0, 0);
    mc::beforeExec = begin; mc::afterExec = end;
    // from the first thread on, libstdc++ uses atomic reference counts: make that so from the start
    pthread_t p; REAL(pthread_create)(&p, nullptr, [](void *) -> void * { return nullptr; }, nullptr); REAL(pthread_join)(p, nullptr);
  }
} init;

void *trampoline(void *a) {
  auto *t = static_cast<Thread *>(a); self = t;
  while (sem_wait(&t->sem) != 0) {}
  t->ret = t->fn(t->arg);
  ++inRt; TR("ends");
  t->st = St::Done; ++t->vc.c[t->id];
  void *r = t->ret; Thread &n = next(); inRt = 0; self = nullptr; sem_post(&n.sem);
  return r;
}

// ---- locks
int lockRt(const void *m, bool timed, std::int64_t deadline, void *pc) {
  touch(m, pc); pointRt("lock"); In in; Sync *s = &sync(m);
  if (s->owner >= 0) { TR("blocks on mutex #" << s->id); self->st = St::Lock; self->obj = m; self->timed = timed; self->deadline = deadline; self->timedOut = false; self->signalled = false;
    block(); self->st = St::Run; s = &sync(m); if (self->timedOut && s->owner >= 0) { self->timedOut = false; return ETIMEDOUT; } self->timedOut = false; }
  s->owner = self->id; acquire(s->vc); TR("locks mutex #" << s->id); return 0;
}
int unlockRt(const void *m, void *pc) {
  touch(m, pc); if (useUnlockPoints) pointRt("unlock"); In in; Sync &s = sync(m);
  if (s.owner != self->id) mc::fail("unlock-not-owner:" + where({pc, self->depth ? self->stack[self->depth - 1] : nullptr}), "mutex #" + std::to_string(s.id) + " unlocked by " + tname(*self) + " which does not hold it\n" + symbol(pc, true) + stackOf(*self));
  s.owner = -1; release(s.vc); TR("unlocks mutex #" << s.id); return 0;
}
int condWait(const void *c, const void *m, bool timed, std::int64_t deadline, void *pc) {
  touch(c, pc); touch(m, pc); pointRt("condition wait"); In in; Sync &sm = sync(m);
  if (sm.owner != self->id) mc::fail("wait-not-owner", "condition wait without holding the mutex\n" + stackOf(*self));
  sm.owner = -1; release(sm.vc); Sync &sc = sync(c); sc.waiters.push_back(self->id); TR("waits on condition #" << sc.id << (timed ? " until " + std::to_string(deadline - startTime) : std::string()));
  self->st = St::Cond; self->obj = c; self->timed = timed; self->deadline = deadline; self->timedOut = self->signalled = false; self->canSpurious = true;
  block();
  bool to = self->timedOut && !self->signalled; self->canSpurious = false;
  { auto &w = sync(c).waiters; w.erase(std::remove(w.begin(), w.end(), self->id), w.end()); }
  self->st = St::Run; self->timedOut = self->signalled = false; self->timed = false;
  TR((to ? "timed out on condition #" : "woken from condition #") << sync(c).id);
  Sync *s = &sync(m); if (s->owner >= 0) { self->st = St::Lock; self->obj = m; block(); self->st = St::Run; s = &sync(m); }
  s->owner = self->id; acquire(s->vc); return to ? ETIMEDOUT : 0;
}
int condSignal(const void *c, bool all, void *pc) {
  touch(c, pc); pointRt("notify"); In in; Sync &s = sync(c); TR((all ? "notifies all on condition #" : "notifies condition #") << s.id);
  while (!s.waiters.empty()) { std::size_t i = all ? 0 : static_cast<std::size_t>(mc::choose(static_cast<int>(s.waiters.size()))); th[s.waiters[i]].signalled = true; s.waiters.erase(s.waiters.begin() + static_cast<long>(i)); if (!all) break; }
  return 0;
}
int rdLock(const void *m, bool tr, void *pc) {
  touch(m, pc); if (useRdPoints) pointRt(tr ? "try shared lock" : "shared lock"); In in; Sync *s = &sync(m);
  if (s->owner >= 0) { if (tr) { TR("cannot share lock #" << s->id); return EBUSY; } TR("blocks on shared lock #" << s->id); self->st = St::RdLock; self->obj = m; self->timed = false; self->timedOut = false; block(); self->st = St::Run; s = &sync(m); }
  ++s->readers[self->id]; ++s->nreaders; acquire(s->vc); TR("shares lock #" << s->id); return 0;
}
int wrLock(const void *m, bool tr, void *pc) {
  touch(m, pc); pointRt(tr ? "try exclusive lock" : "exclusive lock"); In in; Sync *s = &sync(m);
  if (s->owner >= 0 || s->nreaders) { if (tr) { TR("cannot lock #" << s->id); return EBUSY; } TR("blocks on exclusive lock #" << s->id); self->st = St::WrLock; self->obj = m; self->timed = false; self->timedOut = false; block(); self->st = St::Run; s = &sync(m); }
  s->owner = self->id; acquire(s->vc); acquire(s->rvc); TR("locks #" << s->id << " exclusively"); return 0;
}
int rwUnlock(const void *m, void *pc) {
  touch(m, pc); if (useUnlockPoints) pointRt("unlock"); In in; Sync &s = sync(m);
  if (s.owner == self->id) { s.owner = -1; release(s.vc); TR("unlocks #" << s.id); return 0; }
  if (s.readers[self->id] > 0) { --s.readers[self->id]; --s.nreaders; release(s.rvc); TR("unlocks shared #" << s.id); return 0; }
  mc::fail("unlock-not-owner:" + where({pc, self->depth ? self->stack[self->depth - 1] : nullptr}), "lock #" + std::to_string(s.id) + " unlocked by " + tname(*self) + " which does not hold it\n" + stackOf(*self));
}
std::int64_t ns(const timespec *t) { return static_cast<std::int64_t>(t->tv_sec) * 1000000000LL + t->tv_nsec; }
std::int64_t satns(const timespec *t) { if (t->tv_sec > 9000000000LL) return INT64_MAX; return ns(t); }
} // namespace

Calm::Calm() { if (on()) ++self->calm; }
Calm::~Calm() { if (on()) --self->calm; }
void settle() { if (on()) preempts = maxPreempt; }
Quiet::Quiet() { if (on()) ++self->quiet; }
Quiet::~Quiet() { if (on()) --self->quiet; }
void point(const char *what) { pointRt(what); }
void waitFor(const char *what, const std::function<bool()> &pred) {
  if (!on()) return;
  pointRt(what); In in; { ++self->quiet; bool ok = pred(); --self->quiet; if (ok) return; }
  self->st = St::Pred; self->pred = pred; self->what = what; TR("waits for " << what); self->timed = false; block(); self->st = St::Run; self->pred = nullptr;
}
int tid() { return self ? self->id : -1; }
void name(const std::string &n) { if (self) { In in; self->name = n; } }
std::int64_t now() { return vclock; }
void sleep(std::int64_t d) { if (!on()) return; pointRt("sleep"); In in; self->st = St::Sleep; self->timed = true; self->deadline = vclock + d; self->timedOut = self->signalled = false; TR("sleeps " << d); block(); self->st = St::Run; self->timed = self->timedOut = false; }
long liveBlocks() { return live - static_cast<long>(arenaBase); }
} // namespace rt

using namespace rt;
#define PC __builtin_return_address(0)
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) { if (!on() || inRt) return REAL(pthread_mutex_lock)(m); return lockRt(m, false, 0, PC); }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!on() || inRt) return REAL(pthread_mutex_unlock)(m); return unlockRt(m, PC); }
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!on() || inRt) return REAL(pthread_mutex_trylock)(m);
  touch(m, PC); pointRt("try lock"); In in; Sync &s = sync(m); if (s.owner >= 0) { TR("cannot lock mutex #" << s.id); return EBUSY; } s.owner = self->id; acquire(s.vc); TR("locks mutex #" << s.id); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *t) { if (!on() || inRt) return REAL(pthread_mutex_timedlock)(m, t); return lockRt(m, true, satns(t), PC); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const timespec *t) { if (!on() || inRt) return REAL(pthread_mutex_clocklock)(m, c, t); return lockRt(m, true, satns(t), PC); }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { if (!on() || inRt) return REAL(pthread_rwlock_rdlock)(m); return rdLock(m, false, PC); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (!on() || inRt) return REAL(pthread_rwlock_wrlock)(m); return wrLock(m, false, PC); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { if (!on() || inRt) return REAL(pthread_rwlock_tryrdlock)(m); return rdLock(m, true, PC); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { if (!on() || inRt) return REAL(pthread_rwlock_trywrlock)(m); return wrLock(m, true, PC); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { if (!on() || inRt) return REAL(pthread_rwlock_unlock)(m); return rwUnlock(m, PC); }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!on() || inRt) return REAL(pthread_cond_wait)(c, m); return condWait(c, m, false, 0, PC); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t) { if (!on() || inRt) return REAL(pthread_cond_timedwait)(c, m, t); return condWait(c, m, true, satns(t), PC); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *t) { if (!on() || inRt) return REAL(pthread_cond_clockwait)(c, m, k, t); return condWait(c, m, true, satns(t), PC); }
int pthread_cond_signal(pthread_cond_t *c) { if (!on() || inRt) return REAL(pthread_cond_signal)(c); return condSignal(c, false, PC); }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!on() || inRt) return REAL(pthread_cond_broadcast)(c); return condSignal(c, true, PC); }
int pthread_cond_destroy(pthread_cond_t *c) {
  if (!on() || inRt) return REAL(pthread_cond_destroy)(c);
  In in; auto it = syncs->find(c); if (it != syncs->end()) { if (!it->second.waiters.empty()) mc::fail("destroyed-waited", "a condition is destroyed while threads wait on it\n" + stackOf(*self)); syncs->erase(it); } return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) { if (!on() || inRt) return REAL(pthread_mutex_destroy)(m); In in; auto it = syncs->find(m); if (it != syncs->end()) { if (it->second.owner >= 0) mc::fail("destroyed-locked", "a mutex is destroyed while held\n" + stackOf(*self)); syncs->erase(it); } return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *m) { if (!on() || inRt) return REAL(pthread_rwlock_destroy)(m); In in; auto it = syncs->find(m); if (it != syncs->end()) { if (it->second.owner >= 0 || it->second.nreaders) mc::fail("destroyed-locked", "a lock is destroyed while held\n" + stackOf(*self)); syncs->erase(it); } return 0; }

int pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  if (!on() || inRt) return REAL(pthread_create)(p, a, fn, arg);
  { In in; if (nth >= MAXT) mc::error("too many threads");
    Thread &t = th[nth]; t.id = nth; t.fn = fn; t.arg = arg; t.st = St::Run; t.vc = self->vc; t.vc.c[nth] = 1; tick(); t.timed = t.timedOut = t.signalled = false; t.quiet = t.calm = 0; t.depth = 0;
    while (sem_trywait(&t.sem) == 0) {}
    ++nth; int r = REAL(pthread_create)(&t.real, a, trampoline, &t); if (r) mc::error("pthread_create failed"); *p = t.real; TR("starts " << tname(t)); }
  pointRt("go on after starting a thread"); return 0;
}
int pthread_join(pthread_t p, void **ret) {
  if (!on() || inRt) return REAL(pthread_join)(p, ret);
  pointRt("join"); In in; Thread *t = nullptr; for (int i = 0; i < nth; ++i) if (i && pthread_equal(th[i].real, p) && !th[i].joined) t = &th[i];
  if (!t) return ESRCH; if (t == self) return EDEADLK;
  if (t->st != St::Done) { self->st = St::Join; self->obj = t; self->timed = false; TR("waits for the end of " << tname(*t)); block(); self->st = St::Run; }
  acquire(t->vc); t->joined = true; TR("joined " << tname(*t)); return REAL(pthread_join)(p, ret);
}
int pthread_detach(pthread_t p) { if (on() && !inRt) for (int i = 1; i < nth; ++i) if (pthread_equal(th[i].real, p)) th[i].detached = true; return REAL(pthread_detach)(p); }
int sched_yield() { if (!on() || inRt) return REAL(sched_yield)(); pointRt("yield"); return 0; }
int nanosleep(const timespec *t, timespec *r) { if (!on() || inRt) return REAL(nanosleep)(t, r); rt::sleep(satns(t)); return 0; }
int clock_nanosleep(clockid_t c, int f, const timespec *t, timespec *r) { if (!on() || inRt) return REAL(clock_nanosleep)(c, f, t, r); rt::sleep(f == TIMER_ABSTIME ? satns(t) - vclock : satns(t)); return 0; }
int usleep(useconds_t u) { if (!on() || inRt) return REAL(usleep)(u); rt::sleep(static_cast<std::int64_t>(u) * 1000); return 0; }
int clock_gettime(clockid_t c, timespec *t) noexcept { if (!on() || inRt) return REAL(clock_gettime)(c, t); t->tv_sec = vclock / 1000000000LL; t->tv_nsec = vclock % 1000000000LL; return 0; }
int gettimeofday(timeval *t, void *z) noexcept { if (!on() || inRt) return REAL(gettimeofday)(t, z); t->tv_sec = vclock / 1000000000LL; t->tv_usec = vclock % 1000000000LL / 1000; return 0; }
time_t time(time_t *t) noexcept { time_t r = on() && !inRt ? vclock / 1000000000LL : [] { timespec x; REAL(clock_gettime)(CLOCK_REALTIME, &x); return x.tv_sec; }(); if (t) *t = r; return r; }

void *__cxa_allocate_exception(std::size_t n) noexcept {
  if (!on() || inRt) return REAL(__cxa_allocate_exception)(n);
  In in; void *p = REAL(__cxa_allocate_exception)(n); if (!self->quiet) forgetCells(p, n); return p;
}
int __cxa_guard_acquire(std::int64_t *g) {
  auto *b = reinterpret_cast<char *>(g);
  if (!on() || inRt) { if (*b) return 0; return 1; }
  pointRt("static initialiser"); In in; Sync *s = &sync(g);
  while (!*b && s->owner >= 0) { self->st = St::Guard; self->obj = g; self->timed = false; block(); self->st = St::Run; s = &sync(g); }
  acquire(s->vc); if (*b) return 0; s->owner = self->id; return 1;
}
void __cxa_guard_release(std::int64_t *g) { *reinterpret_cast<char *>(g) = 1; if (!on() || inRt) return; In in; Sync &s = sync(g); s.owner = -1; release(s.vc); (*avcs)[g].join(s.vc); }
void __cxa_guard_abort(std::int64_t *g) { if (!on() || inRt) return; In in; Sync &s = sync(g); s.owner = -1; }

// ---- instrumentation
void __tsan_init() {}
void __tsan_func_entry(void *pc) { if (self && !inRt) { if (self->depth < 256) self->stack[self->depth] = pc; ++self->depth; if (self->depth > 250) { if (on()) { In in; self->depth = 250; mc::fail("recursion", "call depth above 250\n" + stackOf(*self)); } } } }
void __tsan_func_exit() { if (self && !inRt && self->depth > 0) --self->depth; }
#define RW(N) void __tsan_read##N(void *p) { access(p, N, 0, PC); } void __tsan_write##N(void *p) { access(p, N, 1, PC); } \
  void __tsan_unaligned_read##N(void *p) { access(p, N, 0, PC); } void __tsan_unaligned_write##N(void *p) { access(p, N, 1, PC); } \
  void __tsan_read##N##_pc(void *p, void *c) { access(p, N, 0, c); } void __tsan_write##N##_pc(void *p, void *c) { access(p, N, 1, c); } \
  void __tsan_read_write##N(void *p) { access(p, N, 1, PC); } void __tsan_unaligned_read_write##N(void *p) { access(p, N, 1, PC); } \
  void __tsan_volatile_read##N(void *p) { access(p, N, 0, PC); } void __tsan_volatile_write##N(void *p) { access(p, N, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, 0, PC); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, 1, PC); }
void __tsan_vptr_update(void **p, void *v) { if (inArena(p) || *p != v) { if (*p != v) access(p, 8, 1, PC); } }
void __tsan_vptr_read(void **p) { access(p, 8, 0, PC); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { access(s, n, 0, PC); access(d, n, 1, PC); return __builtin_memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { access(s, n, 0, PC); access(d, n, 1, PC); return __builtin_memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { access(d, n, 1, PC); return __builtin_memset(d, c, n); }
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
}
namespace {
bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void before(const volatile void *p, std::size_t n, int kind, void *pc) { if (!on() || inRt || self->quiet) return; pointRt("atomic operation"); access(const_cast<const void *>(p), n, kind, pc); }
void after(const volatile void *p, int mo, bool reads, bool writes) {
  if (!on() || inRt || self->quiet) return; In in; VC &v = (*avcs)[const_cast<const void *>(p)];
  if (reads && acq(mo)) self->vc.join(v);
  if (writes) { if (rel(mo)) { if (!reads) v = VC(); v.join(self->vc); tick(); } else if (!reads) v = VC(); }
}
}
#define ATOMICS(B, T) \
extern "C" T __tsan_atomic##B##_load(const volatile T *p, int mo) { before(p, sizeof(T), 2, PC); T r = __atomic_load_n(p, __ATOMIC_SEQ_CST); after(p, mo, true, false); return r; } \
extern "C" void __tsan_atomic##B##_store(volatile T *p, T v, int mo) { before(p, sizeof(T), 3, PC); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); after(p, mo, false, true); } \
extern "C" T __tsan_atomic##B##_exchange(volatile T *p, T v, int mo) { before(p, sizeof(T), 3, PC); T r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); after(p, mo, true, true); return r; } \
extern "C" int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) { before(p, sizeof(T), 3, PC); bool r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); after(p, r ? mo : fmo, true, r); return r; } \
extern "C" int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { before(p, sizeof(T), 3, PC); bool r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); after(p, r ? mo : fmo, true, r); return r; } \
extern "C" T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { before(p, sizeof(T), 3, PC); bool r = __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); after(p, r ? mo : fmo, true, r); return e; }
#define RMW(B, T, OP) extern "C" T __tsan_atomic##B##_fetch_##OP(volatile T *p, T v, int mo) { before(p, sizeof(T), 3, PC); T r = __atomic_fetch_##OP(p, v, __ATOMIC_SEQ_CST); after(p, mo, true, true); return r; }
#define ALL(B, T) ATOMICS(B, T) RMW(B, T, add) RMW(B, T, sub) RMW(B, T, and) RMW(B, T, or) RMW(B, T, xor) RMW(B, T, nand)
ALL(8, std::uint8_t) ALL(16, std::uint16_t) ALL(32, std::uint32_t) ALL(64, std::uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) { pointRt("fence"); }
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---- heap
void *operator new(std::size_t n) { return allocate(n, 16); }
void *operator new[](std::size_t n) { return allocate(n, 16); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { try { return allocate(n, 16); } catch (...) { return nullptr; } }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { try { return allocate(n, 16); } catch (...) { return nullptr; } }
void *operator new(std::size_t n, std::align_val_t a) { return allocate(n, static_cast<std::size_t>(a)); }
void *operator new[](std::size_t n, std::align_val_t a) { return allocate(n, static_cast<std::size_t>(a)); }
void operator delete(void *p) noexcept { releaseBlock(p); }
void operator delete[](void *p) noexcept { releaseBlock(p); }
void operator delete(void *p, std::size_t) noexcept { releaseBlock(p); }
void operator delete[](void *p, std::size_t) noexcept { releaseBlock(p); }
void operator delete(void *p, std::align_val_t) noexcept { releaseBlock(p); }
void operator delete[](void *p, std::align_val_t) noexcept { releaseBlock(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { releaseBlock(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { releaseBlock(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { releaseBlock(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { releaseBlock(p); }

// ---- out-of-line container code of libstdc++ is not instrumented: say what it touches
namespace std {
struct _Rb_tree_node_base; 
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &header) noexcept;
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &header) noexcept;
}
extern "C" {
void rt_ins(bool left, void *x, void *p, void *h) __asm__("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
void *rt_era(void *z, void *h) __asm__("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
void *rt_inc(void *x) __asm__("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
const void *rt_incc(const void *x) __asm__("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
void *rt_dec(void *x) __asm__("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base");
void rt_hook(void *self_, void *pos) __asm__("_ZNSt8__detail15_List_node_base7_M_hookEPS0_");
void rt_unhook(void *self_) __asm__("_ZNSt8__detail15_List_node_base9_M_unhookEv");
void rt_ins(bool left, void *x, void *p, void *h) { access(h, 32, 1, PC); access(p, 32, 1, PC); using F = void (*)(bool, void *, void *, void *); static F f = nullptr; if (!f) f = real<F>("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_"); f(left, x, p, h); }
void *rt_era(void *z, void *h) { access(h, 32, 1, PC); access(z, 32, 1, PC); using F = void *(*)(void *, void *); static F f = nullptr; if (!f) f = real<F>("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_"); return f(z, h); }
void *rt_inc(void *x) { access(x, 32, 0, PC); using F = void *(*)(void *); static F f = nullptr; if (!f) f = real<F>("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base"); return f(x); }
const void *rt_incc(const void *x) { access(x, 32, 0, PC); using F = const void *(*)(const void *); static F f = nullptr; if (!f) f = real<F>("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base"); return f(x); }
void *rt_dec(void *x) { access(x, 32, 0, PC); using F = void *(*)(void *); static F f = nullptr; if (!f) f = real<F>("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base"); return f(x); }
void rt_hook(void *s, void *pos) { access(s, 16, 1, PC); access(pos, 16, 1, PC); auto **n = static_cast<void **>(s), **q = static_cast<void **>(pos); access(q[1], 16, 1, PC); n[0] = pos; n[1] = q[1]; static_cast<void **>(q[1])[0] = s; q[1] = s; }
void rt_unhook(void *s) { access(s, 16, 0, PC); auto **n = static_cast<void **>(s); access(n[0], 16, 1, PC); access(n[1], 16, 1, PC); static_cast<void **>(n[1])[0] = n[0]; static_cast<void **>(n[0])[1] = n[1]; }
}
