// Controlled scheduler for concurrent code: harness side.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
namespace rt {
/// Start / end control; called by the explorer around each execution (bounds from mc::param preempt, timeouts, spurious).
/// While a Quiet exists the current thread's accesses are not checked for races and it is never preempted.
struct Quiet { Quiet(); ~Quiet(); Quiet(const Quiet &) = delete; Quiet &operator=(const Quiet &) = delete; };
/// While a Calm exists the current thread is not preempted, but it may block; what it does is neither checked for races nor does it order anything.
struct Calm { Calm(); ~Calm(); Calm(const Calm &) = delete; Calm &operator=(const Calm &) = delete; };
/// Explicit scheduling point.
void point(const char *what);
/// Block the calling thread until the predicate (evaluated quietly by the scheduler) holds.
void waitFor(const char *what, const std::function<bool()> &pred);
/// No more preemptions from here on (the closing phase of a scenario); blocked threads still give way.
void settle();
/// Id of the calling thread (0: the one running the scenario).
int tid();
void name(const std::string &n);
/// Virtual clock, ns since the Unix epoch.
std::int64_t now();
/// Sleep in virtual time.
void sleep(std::int64_t ns);
/// All clocks start here at each execution (ns since the Unix epoch).
extern std::int64_t startTime;
/// Number of blocks allocated by operator new during this execution and not yet released.
long liveBlocks();
/// Limit of scheduling steps per execution; beyond it the execution is a livelock.
extern int stepLimit;
/// When set, a deadlock is handed to this function instead of being reported (it must not return).
/// Called when an execution starts: scenario specific reset
}
