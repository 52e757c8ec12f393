#include "mc.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <vector>
#include <sanitizer/common_interface_defs.h>

namespace mc {
void (*beforeExec)() = nullptr;
void (*afterExec)() = nullptr;
namespace {
constexpr int MAXD = 6000;      // choices per execution
constexpr int MAXJOBS = 2048;
constexpr int MAXW = 64;
constexpr int KEYLEN = 400, MSGLEN = 4000;

struct Entry { std::uint16_t c, n; };
struct Path { int len; Entry e[MAXD]; };

enum WState { W_IDLE, W_BUSY, W_DONE };
struct Worker {
  std::atomic<int> state;
  std::atomic<std::uint64_t> execs;
  int base;          // positions below base are fixed for this worker
  int replayLen;     // choices replayed in the current execution
  Path path;         // current execution (grows while executing)
  std::atomic<int> failed; // 1: fail(), 2: error()
  char key[KEYLEN];
  char msg[MSGLEN];
  char ctx[KEYLEN];
  Path samples[3];
  int nsamples;
  bool resume;       // start by continuing after `path`
};
struct Shared {
  std::atomic<int> lock;
  int njobs;
  std::atomic<int> busy, hungry, stop;
  std::atomic<std::uint64_t> execs, choices, newEdges, checks, states, hits, outcomes, maxDepth;
  std::atomic<std::uint64_t> perScenario[256];
  Worker w[MAXW];
  Path jobs[MAXJOBS];
};
Shared *S;
std::atomic<std::uint64_t> *table;      // visited states
std::atomic<std::uint64_t> *otable;     // outcomes
std::uint64_t tableMask, otableMask;

std::vector<Scenario> &scenarios() { static std::vector<Scenario> s; return s; }
std::map<std::string, int> params;
bool optThorough = false;
int W = 8;
int me = -1;
Worker *w = nullptr;
int pos = 0;
bool traceOn = false;

std::string traceFile;
FILE *traceOut = nullptr;
bool isolate = false;
std::string onlyScenario;

void slock() { int z = 0; while (!S->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(20); } }
void sunlock() { S->lock = 0; }

bool insert(std::atomic<std::uint64_t> *t, std::uint64_t mask, std::uint64_t h) {
  if (h == 0) h = 1;
  for (std::uint64_t i = mix(h, 77) & mask, k = 0; k < 4096; ++k, i = (i + 1) & mask) {
    std::uint64_t cur = t[i].load(std::memory_order_relaxed);
    if (cur == h) return false;
    if (cur == 0) {
      if (t[i].compare_exchange_strong(cur, h)) return true;
      if (cur == h) return false;
    }
  }
  return true; // table crowded: treat as new (never prunes wrongly)
}
} // namespace

Register::Register(const char *name, void (*fn)()) { scenarios().push_back({name, fn}); }
int param(const char *name, int dflt) { auto it = params.find(name); return it == params.end() ? dflt : it->second; }
bool thorough() { return optThorough; }
bool tracing() { return traceOn; }
void traceLine(const std::string &s) { if (traceOut) { fprintf(traceOut, "%s\n", s.c_str()); fflush(traceOut); } }
void countCheck() { S->checks.fetch_add(1, std::memory_order_relaxed); }
bool replaying() { return pos < w->replayLen; }
void context(const char *c) { std::strncpy(w->ctx, c, KEYLEN - 1); }

int choose(int n) {
  if (n <= 0) error("choose(" + std::to_string(n) + ")");
  if (pos >= MAXD) error("execution too long: more than " + std::to_string(MAXD) + " choices");
  if (n == 1) return 0;
  Entry &e = w->path.e[pos];
  if (pos < w->path.len) {
    if (e.n != n) error("divergence while replaying: choice " + std::to_string(pos) + " had " + std::to_string(e.n) + " alternatives, now " + std::to_string(n));
  } else { e.c = 0; e.n = static_cast<std::uint16_t>(n); w->path.len = pos + 1; S->newEdges.fetch_add(1, std::memory_order_relaxed); }
  ++pos;
  return e.c;
}
bool visit(std::uint64_t h) {
  if (pos < w->replayLen) return false;   // still inside the replayed prefix
  if (traceOn) return false;
  if (insert(table, tableMask, h)) { S->states.fetch_add(1, std::memory_order_relaxed); return false; }
  S->hits.fetch_add(1, std::memory_order_relaxed);
  return true;
}
void outcome(std::uint64_t h) { if (insert(otable, otableMask, h)) S->outcomes.fetch_add(1, std::memory_order_relaxed); }

void fail(const std::string &key, const std::string &msg) {
  std::strncpy(w->key, key.c_str(), KEYLEN - 1);
  std::strncpy(w->msg, msg.c_str(), MSGLEN - 1);
  if (traceOn) traceLine("!! " + key + ": " + msg);
  w->failed = 1;
  _exit(10);
}
void error(const std::string &msg) {
  if (w) { std::strncpy(w->msg, msg.c_str(), MSGLEN - 1); w->failed = 2; }
  fprintf(stderr, "harness error: %s\n", msg.c_str());
  _exit(12);
}

#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
} // namespace mc
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
namespace mc {
static long g_live = 0;
static void onMalloc(const volatile void *, size_t) { ++g_live; }
static void onFree(const volatile void *p) { if (p) --g_live; }
long liveBlocks() { static int once = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); (void)once; return g_live; }
#else
long liveBlocks() { return 0; }
#endif
namespace {
void body() {
  pos = 0;
  auto &sc = scenarios();
  int k = choose(static_cast<int>(sc.size()));
  if (!onlyScenario.empty() && onlyScenario != sc[k].name) return;
  std::strncpy(w->ctx, sc[k].name, KEYLEN - 1);
  if (traceOn) traceLine(std::string("scenario ") + sc[k].name);
  if (beforeExec) beforeExec();
  sc[k].fn();
  if (afterExec) afterExec();
  S->perScenario[k].fetch_add(1, std::memory_order_relaxed);
}
void execute() {
  w->replayLen = w->path.len;
  if (isolate) {
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); body();
      if (pos < w->replayLen) error("divergence while replaying: execution ended early");
      w->path.len = pos; w->execs.fetch_add(1); fflush(nullptr); _exit(0); }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      if (WIFEXITED(st)) _exit(WEXITSTATUS(st));
      signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(99);
    }
  } else {
    body();
    if (pos < w->replayLen) error("divergence while replaying: execution ended after " + std::to_string(pos) + " of " + std::to_string(w->replayLen) + " choices");
    w->path.len = pos;
    w->execs.fetch_add(1);
  }
  S->execs.fetch_add(1, std::memory_order_relaxed);
  S->choices.fetch_add(static_cast<std::uint64_t>(w->path.len), std::memory_order_relaxed);
  std::uint64_t d = static_cast<std::uint64_t>(w->path.len), m = S->maxDepth;
  while (d > m && !S->maxDepth.compare_exchange_weak(m, d)) {}
  auto x = w->execs.load();
  if (w->nsamples < 3 && (x == 3 || x == 41 || x == 977)) std::memcpy(&w->samples[w->nsamples++], &w->path, sizeof(int) + sizeof(Entry) * static_cast<size_t>(w->path.len));
}
// advance to the next path of this worker; false when its job is finished
bool advance() {
  Path &p = w->path;
  while (p.len > w->base) {
    Entry &e = p.e[p.len - 1];
    if (e.c + 1 < e.n) { ++e.c; S->newEdges.fetch_add(1, std::memory_order_relaxed); return true; }
    --p.len;
  }
  return false;
}
void donate() {
  // offer the alternatives of the shallowest open choice to idle workers
  Path &p = w->path;
  for (int i = w->base; i < p.len; ++i) {
    if (p.e[i].c + 1 < p.e[i].n) {
      slock();
      int room = MAXJOBS - S->njobs, want = p.e[i].n - 1 - p.e[i].c;
      if (room >= want) {
        for (int c = p.e[i].n - 1; c > p.e[i].c; --c) {
          Path &j = S->jobs[S->njobs++];
          std::memcpy(j.e, p.e, sizeof(Entry) * static_cast<size_t>(i + 1));
          j.e[i].c = static_cast<std::uint16_t>(c); j.len = i + 1;
        }
        w->base = i + 1;
      }
      sunlock();
      return;
    }
    if (i == w->base) w->base = i + 1;
  }
}
void workerMain(int id) {
  me = id; w = &S->w[id];
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  bool have = w->resume;
  if (have) { w->resume = false; if (!advance()) have = false; if (!have) { S->busy.fetch_sub(1); } }
  for (;;) {
    if (S->stop) break;
    if (!have) {
      bool wasHungry = false;
      for (;;) {
        if (S->stop) break;
        slock();
        if (S->njobs > 0) {
          Path &j = S->jobs[--S->njobs];
          w->path.len = j.len; std::memcpy(w->path.e, j.e, sizeof(Entry) * static_cast<size_t>(j.len));
          w->base = j.len; w->state = W_BUSY; S->busy.fetch_add(1); have = true;
        }
        bool over = !have && S->busy == 0;
        sunlock();
        if (have || over) break;
        if (!wasHungry) { wasHungry = true; S->hungry.fetch_add(1); w->state = W_IDLE; }
        usleep(200);
      }
      if (wasHungry) S->hungry.fetch_sub(1);
      if (!have) break;
    }
    execute();
    if (S->hungry > 0 && S->njobs < W) donate();
    if (!advance()) { have = false; w->state = W_IDLE; S->busy.fetch_sub(1); }
  }
  w->state = W_DONE;
  _exit(0);
}
std::string slurp(const std::string &f, size_t max) {
  std::ifstream i(f, std::ios::binary); std::string s((std::istreambuf_iterator<char>(i)), {});
  if (s.size() > max) s = s.substr(0, max);
  return s;
}
std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += static_cast<char>(c); }
  return o;
}
std::string outDir = ".";
std::string errFile(int id) { return outDir + "/stderr." + std::to_string(id); }
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec); }

pid_t spawn(int id) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    int fd = open(errFile(id).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 2);
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
    workerMain(id);
  }
  return p;
}
std::string crashKind(const std::string &err, int st) {
  // short stable description of the crash
  auto grab = [&](const char *tag, size_t skip, const char *stops) -> std::string {
    auto p = err.find(tag); if (p == std::string::npos) return {};
    p += skip; auto q = err.find_first_of(stops, p); return err.substr(p, q - p);
  };
  std::string k = grab("ERROR: AddressSanitizer: ", 25, " \n");
  if (!k.empty()) return "asan-" + k;
  auto p = err.find("runtime error: ");
  if (p != std::string::npos) { auto q = err.find('\n', p); return "ubsan-" + err.substr(p + 15, std::min<size_t>(q - p - 15, 80)); }
  k = grab("terminate called", 0, "\n");
  if (!k.empty()) { auto wq = err.find("what():"); return "terminate" + (wq == std::string::npos ? std::string() : "-" + err.substr(wq + 8, std::min<size_t>(60, err.find('\n', wq) - wq - 8))); }
  if (WIFSIGNALED(st)) return "signal-" + std::to_string(WTERMSIG(st));
  return "exit-" + std::to_string(WEXITSTATUS(st));
}
// run one path alone, traced; returns status: 0 ok, 1 violation (key/msg filled), 2 error, 3 hang
int replayPath(const Path &p, double limit, std::string &key, std::string &msg, std::string &trace, bool show = false) {
  w = &S->w[MAXW - 1];
  w->path.len = p.len; std::memcpy(w->path.e, p.e, sizeof(Entry) * static_cast<size_t>(p.len));
  w->failed = 0; w->key[0] = w->msg[0] = w->ctx[0] = 0;
  std::string tf = outDir + "/trace.txt";
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(errFile(MAXW - 1).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (!show) { dup2(fd, 2); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); }
    traceOut = fopen(tf.c_str(), "w"); traceOn = true;
    isolate = false;
    execute();
    _exit(0);
  }
  double t0 = now(); int st = 0; bool hang = false;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > limit) { hang = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    usleep(2000);
  }
  trace = slurp(tf, 20000);
  if (hang) { key = std::string("hang:") + w->ctx; msg = "execution did not finish within " + std::to_string(static_cast<int>(limit)) + " s when run alone"; return 3; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  if (w->failed == 2) { msg = w->msg; return 2; }
  if (w->failed == 1) { key = w->key; msg = w->msg; return 1; }
  std::string err = slurp(errFile(MAXW - 1), 8000);
  key = std::string("crash:") + w->ctx + ":" + crashKind(err, st); msg = err.substr(0, 3000);
  return 1;
}
bool match(const std::string &pat, const std::string &s) { // exact, or prefix with trailing '*'
  if (!pat.empty() && pat.back() == '*') return s.compare(0, pat.size() - 1, pat, 0, pat.size() - 1) == 0;
  return pat == s;
}
} // namespace
} // namespace mc

extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=86:handle_abort=0:allocator_may_return_null=1:max_allocation_size_mb=2000:quarantine_size_mb=16:detect_stack_use_after_return=0:malloc_context_size=8:allow_user_segv_handler=1"; }
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1:exitcode=87"; }

int main(int argc, char **argv) {
  using namespace mc;
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("MC_NOASLR")) {
    setenv("MC_NOASLR", "1", 1);
    if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::string replay, resultFile; std::vector<std::string> known; double budget = 1e9, hangLimit = 20; int bits = 24;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--replay") replay = next();
    else if (a == "--out") outDir = next();
    else if (a == "--result") resultFile = next();
    else if (a == "--known") known.push_back(next());
    else if (a == "--budget") budget = atof(next().c_str());
    else if (a == "--hang") hangLimit = atof(next().c_str());
    else if (a == "--workers") W = atoi(next().c_str());
    else if (a == "--bits") bits = atoi(next().c_str());
    else if (a == "--isolate") isolate = true;
    else if (a == "--thorough") optThorough = true;
    else if (a == "--only") onlyScenario = next();
    else if (a == "--set") { auto s = next(); auto e = s.find('='); params[s.substr(0, e)] = atoi(s.c_str() + e + 1); }
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  if (W > MAXW - 1) W = MAXW - 1;
  mkdir(outDir.c_str(), 0755);
  auto map = [](size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return p; };
  S = static_cast<Shared *>(map(sizeof(Shared)));
  tableMask = (1ULL << bits) - 1; otableMask = (1ULL << 20) - 1;
  table = static_cast<std::atomic<std::uint64_t> *>(map(8 * (tableMask + 1)));
  otable = static_cast<std::atomic<std::uint64_t> *>(map(8 * (otableMask + 1)));
  struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);

  auto isKnown = [&](const std::string &k) { for (auto &p : known) if (match(p, k)) return true; return false; };

  if (!replay.empty()) {
    std::ifstream in(replay); std::string line; static Path p; p.len = 0;
    while (std::getline(in, line)) if (line.rfind("param ", 0) == 0) { auto e = line.find('='); params[line.substr(6, e - 6)] = atoi(line.c_str() + e + 1); }
      else if (line.rfind("thorough", 0) == 0) optThorough = true;
      else if (line.rfind("choices ", 0) == 0) {
      std::istringstream is(line.substr(8)); int c, n; char s;
      while (is >> c >> s >> n) { p.e[p.len].c = static_cast<std::uint16_t>(c); p.e[p.len].n = static_cast<std::uint16_t>(n); ++p.len; }
    }
    std::string key, msg, tr; int r = replayPath(p, 120, key, msg, tr, true);
    printf("%s", tr.c_str());
    if (r == 0) { printf("replay: no violation\n"); return 0; }
    printf("replay: %s\n%s\n", key.c_str(), msg.c_str());
    return r == 2 ? 2 : 1;
  }

  double t0 = now();
  // root job
  S->jobs[0].len = 0; S->njobs = 1;
  std::vector<pid_t> pid(static_cast<size_t>(W));
  std::vector<std::uint64_t> last(static_cast<size_t>(W), 0); std::vector<double> lastT(static_cast<size_t>(W), t0);
  std::vector<bool> dead(static_cast<size_t>(W), false), killedHang(static_cast<size_t>(W), false);
  for (int i = 0; i < W; ++i) pid[static_cast<size_t>(i)] = spawn(i);
  std::map<std::string, std::uint64_t> knownHits; std::map<std::string, std::string> knownMsg;
  std::string vkey, vmsg, vtrace; static Path vpath; bool violation = false; std::string err;
  bool capped = false;
  int alive = W;
  auto restart = [&](int i) { // continue this worker's job after its current path
    Worker &k = S->w[i]; k.failed = 0; k.key[0] = k.msg[0] = 0; k.resume = true; lastT[static_cast<size_t>(i)] = now();
    pid[static_cast<size_t>(i)] = spawn(i);
  };
  while (alive > 0) {
    bool any = false;
    for (int i = 0; i < W; ++i) {
      auto u = static_cast<size_t>(i);
      if (dead[u]) continue;
      int st; pid_t r = waitpid(pid[u], &st, WNOHANG);
      Worker &k = S->w[i];
      if (r == pid[u]) {
        any = true;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { dead[u] = true; --alive; continue; }
        if (S->stop) { dead[u] = true; --alive; continue; }
        if (S->lock == 1) { /* died inside the lock: only SIGKILL can do that */ S->lock = 0; }
        if (k.failed == 2) { err = k.msg; S->stop = 1; dead[u] = true; --alive; continue; }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !killedHang[u]) { err = "a worker was killed (out of memory?)"; S->stop = 1; dead[u] = true; --alive; continue; }
        std::string key, msg;
        if (killedHang[u]) {
          killedHang[u] = false; std::string tr;
          // run it alone with a longer limit
          static Path hp; hp.len = k.path.len; std::memcpy(hp.e, k.path.e, sizeof(Entry) * static_cast<size_t>(k.path.len));
          int rr = replayPath(hp, hangLimit * 3, key, msg, tr);
          if (rr == 0) { restart(i); continue; }
          if (rr == 2) { err = msg; S->stop = 1; dead[u] = true; --alive; continue; }
        } else if (k.failed == 1) { key = k.key; msg = k.msg; }
        else { std::string e = slurp(errFile(i), 8000); key = std::string("crash:") + k.ctx + ":" + crashKind(e, st); msg = e.substr(0, 3000); }
        if (isKnown(key)) { S->execs.fetch_add(1); knownHits[key]++; knownMsg[key] = msg; restart(i); continue; }
        if (!violation) {
          violation = true; vkey = key; vmsg = msg;
          vpath.len = k.path.len; std::memcpy(vpath.e, k.path.e, sizeof(Entry) * static_cast<size_t>(k.path.len));
        }
        S->stop = 1; dead[u] = true; --alive; continue;
      }
      if (k.execs != last[u] || k.state != W_BUSY) { last[u] = k.execs; lastT[u] = now(); }
      else if (now() - lastT[u] > hangLimit && !S->stop) { killedHang[u] = true; kill(pid[u], SIGKILL); lastT[u] = now(); }
      else if (S->stop && now() - lastT[u] > 2) { kill(pid[u], SIGKILL); }
    }
    if (!S->stop && now() - t0 > budget) { capped = true; S->stop = 1; }
    if (!any) usleep(1000);
  }
  int rc = 0;
  if (!err.empty()) { fprintf(stderr, "ERROR: %s\n", err.c_str()); rc = 2; }
  if (violation) {
    std::string key2, msg2; int r = 0; for (int i = 0; i < 3 && r != 1; ++i) { vtrace.clear(); r = replayPath(vpath, hangLimit * 4, key2, msg2, vtrace); }
    // seen on a real execution, but the same choices do not always lead to it: what the code does also depends on something else (uninitialised memory...)
    if (r != 1) { rc = 1; vmsg += " [not reproduced by replaying the same choices: the outcome depends on more than them" + (r == 2 ? "; replay: " + msg2 : std::string()) + "]"; }
    else { rc = 1; if (key2 != vkey) { vkey = key2; } vmsg = msg2;
      if (isKnown(vkey)) { fprintf(stderr, "ERROR: replay gave a known finding instead: %s\n", vkey.c_str()); rc = 2; violation = false; } }
  }
  // samples
  std::vector<std::string> samples;
  if (rc != 2)
    for (int i = 0; i < W && samples.size() < 4; ++i) for (int s = 0; s < S->w[i].nsamples && samples.size() < 4; ++s) {
      std::string k, m, tr; static Path sp; sp.len = S->w[i].samples[s].len; std::memcpy(sp.e, S->w[i].samples[s].e, sizeof(Entry) * static_cast<size_t>(sp.len));
      int r = replayPath(sp, 60, k, m, tr);
      if (r == 2) { fprintf(stderr, "ERROR: sample replay: %s\n", m.c_str()); rc = 2; }
      if (!tr.empty()) samples.push_back(tr.substr(0, 1500));
    }
  double wall = now() - t0;
  if (!resultFile.empty()) {
    std::ofstream o(resultFile);
    o << "{\"rc\":" << rc << ",\"executions\":" << S->execs << ",\"choices\":" << S->choices << ",\"edges\":" << S->newEdges << ",\"states\":" << S->states
      << ",\"hits\":" << S->hits << ",\"outcomes\":" << S->outcomes << ",\"checks\":" << S->checks << ",\"max_choices\":" << S->maxDepth
      << ",\"capped\":" << (capped ? "true" : "false") << ",\"wall\":" << wall << ",\"scenarios\":{";
    for (size_t i = 0; i < scenarios().size(); ++i) o << (i ? "," : "") << "\"" << scenarios()[i].name << "\":" << S->perScenario[i];
    o << "},\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << "\"" << jesc(samples[i]) << "\"";
    o << "],\"known\":{"; bool f = true;
    for (auto &kv : knownHits) { o << (f ? "" : ",") << "\"" << jesc(kv.first) << "\":{\"count\":" << kv.second << ",\"msg\":\"" << jesc(knownMsg[kv.first].substr(0, 600)) << "\"}"; f = false; }
    o << "}";
    if (violation) {
      o << ",\"violation\":{\"key\":\"" << jesc(vkey) << "\",\"msg\":\"" << jesc(vmsg) << "\",\"trace\":\"" << jesc(vtrace) << "\",\"choices\":\"";
      for (int i = 0; i < vpath.len; ++i) o << vpath.e[i].c << "/" << vpath.e[i].n << " ";
      o << "\"}";
    }
    if (!err.empty()) o << ",\"error\":\"" << jesc(err) << "\"";
    o << "}\n";
  }
  if (resultFile.empty()) {
    printf("rc=%d execs=%llu choices=%llu edges=%llu states=%llu hits=%llu outcomes=%llu checks=%llu depth=%llu %.2fs%s\n", rc, (unsigned long long)S->execs, (unsigned long long)S->choices, (unsigned long long)S->newEdges, (unsigned long long)S->states, (unsigned long long)S->hits, (unsigned long long)S->outcomes, (unsigned long long)S->checks, (unsigned long long)S->maxDepth, wall, capped ? " CAPPED" : "");
    for (size_t i = 0; i < scenarios().size(); ++i) printf("  %s: %llu\n", scenarios()[i].name, (unsigned long long)S->perScenario[i]);
    for (auto &kv : knownHits) printf("known %s x%llu\n", kv.first.c_str(), (unsigned long long)kv.second);
    if (violation) { printf("VIOLATION %s\n%s\ntrace:\n%s\n", vkey.c_str(), vmsg.c_str(), vtrace.c_str()); }
  }
  return rc;
}
