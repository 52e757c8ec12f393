// Stateless explorer: enumerates every sequence of mc::choose() answers of a body, on the real code.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <functional>
#include <sstream>
#include <initializer_list>

namespace mc {

/// Nondeterministic decision: returns each of 0..n-1 on some execution (0 first).
int choose(int n);
/// Choice among literal values.
template <class T> T pick(std::initializer_list<T> l) { return l.begin()[choose(static_cast<int>(l.size()))]; }
inline bool flip() { return choose(2) != 0; }

/// Bound given on the command line for this run (depth, preemptions, ...).
int param(const char *name, int dflt);
bool thorough();

/// Append to the human-readable trace (recorded only while replaying / sampling).
bool tracing();
void traceLine(const std::string &);
#define MC_OP(...) do { if (::mc::tracing()) { std::ostringstream mc_o_; mc_o_ << __VA_ARGS__; ::mc::traceLine(mc_o_.str()); } } while (0)

/// Property broken: never returns (the worker process ends). `key` identifies the violation (for known findings).
[[noreturn]] void fail(const std::string &key, const std::string &msg);
/// The harness itself is wrong (environment, divergence...): error exit, not a violation.
[[noreturn]] void error(const std::string &msg);
void countCheck();
#define MC_CHECK(cond, key, ...) do { ::mc::countCheck(); if (!(cond)) { std::ostringstream mc_o_; mc_o_ << __VA_ARGS__; ::mc::fail(key, mc_o_.str()); } } while (0)

/// Explicit-state pruning: true if this state was already explored (on any worker): the body should then return.
bool visit(std::uint64_t h);
/// Record a distinct observed outcome (statistics, vacuity guard).
void outcome(std::uint64_t h);

/// What the code is doing now; becomes part of the key of a crash ("crash:<context>").
void context(const char *c);
/// Nesting count of live heap blocks made with operator new / malloc by this process (leak checks).
long liveBlocks();

/// Are we still replaying a fixed prefix? (for expensive checks that only need to be made once)
bool replaying();

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h;
}
inline std::uint64_t hashBytes(const void *p, std::size_t n, std::uint64_t h = 0x1234567) {
  auto c = static_cast<const unsigned char *>(p);
  for (std::size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ULL;
  return mix(h, n);
}
inline std::uint64_t hashStr(const std::string &s, std::uint64_t h = 0x1234567) { return hashBytes(s.data(), s.size(), h); }

struct Scenario { const char *name; void (*fn)(); };
struct Register { Register(const char *name, void (*fn)()); };
#define MC_SCENARIO(NAME) static void NAME(); static ::mc::Register reg_##NAME(#NAME, &NAME); static void NAME()

/// Called before / after each execution (rt runtime hooks).
extern void (*beforeExec)();
extern void (*afterExec)();
} // namespace mc
