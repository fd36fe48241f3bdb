// Stateless exhaustive explorer: a scenario is a function of a Ctx whose only source of
// nondeterminism is ctx.choose(n).  The explorer runs it once per choice sequence, depth first,
// until no sequence is left.  Work is split over forked workers by the first choices.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc {

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
  return h;
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  auto c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

struct Violation { std::string key, msg; };
struct PruneExec {};    // this execution continues in a state already explored: stop here
struct SkipExec {};     // this execution belongs to another worker
struct Divergence { std::string what; };

struct Stats {
  uint64_t executions = 0, transitions = 0, checks = 0, pruned = 0;
  uint64_t max_depth = 0;
  std::unordered_set<uint64_t> states, outcomes;
};

struct Point { int n, c; };

class Ctx {
 public:
  // A choice among n alternatives, 0..n-1.  0 is the default (simplest) one.
  int choose(int n, const char* label = nullptr);
  bool flag(const char* label = nullptr) { return choose(2, label) != 0; }
  // A choice from a list
  template <class C> auto pick(const C& c, const char* label = nullptr) -> decltype(c[0]) {
    return c[choose(static_cast<int>(c.size()), label)];
  }
  bool tracing() const { return m_trace; }
  void log(const std::string& s) { if (m_trace) { printf("  %s\n", s.c_str()); fflush(stdout); } }
  void check_count(uint64_t n = 1) { m_stats->checks += n; }
  void transition(uint64_t n = 1) { m_stats->transitions += n; }
  void state(uint64_t h) { m_stats->states.insert(h); }
  void outcome(uint64_t h) { m_stats->outcomes.insert(h); }
  void outcome(const std::string& s) { m_stats->outcomes.insert(hash_str(s)); }
  // Prune if this state was already explored with at least as much remaining depth
  void visit(uint64_t h, int remaining);
  [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Violation{key, msg}; }
  // Record a violation and go on with this execution (for loops inside one execution)
  void report(const std::string& key, const std::string& msg);
  int tier() const;   // 0 quick, 1 thorough
  // the number of choices made so far
  size_t depth() const { return m_pos; }
  const std::string& scenario() const { return m_scenario; }

  // -- used by the explorer
  std::vector<Point> m_points; size_t m_pos = 0; bool m_trace = false;
  std::vector<int> m_prefix;
  Stats* m_stats = nullptr; std::string m_scenario;
  int m_worker = 0, m_nworkers = 1, m_shard_depth = 1;
  std::unordered_map<uint64_t, int> m_visited;
  std::vector<Violation> m_reported;
  bool m_poisoned = false;     // this process cannot run further executions (abandoned fibers)
  bool m_defer_skip = false, m_skip = false;   // inside fibers a SkipExec waits for the end of the execution
};

#define MC_LOG(ctx, expr) do { if ((ctx).tracing()) { std::ostringstream mc_os_; mc_os_ << expr; (ctx).log(mc_os_.str()); } } while (0)
// key and message are only built on failure
#define MC_CHECK(ctx, cond, key, expr) do { (ctx).check_count(); if (!(cond)) { std::ostringstream mc_os_, mc_ks_; mc_ks_ << (key); mc_os_ << expr; (ctx).fail(mc_ks_.str(), mc_os_.str()); } } while (0)
#define MC_EXPECT(ctx, cond, key, expr) do { (ctx).check_count(); if (!(cond)) { std::ostringstream mc_os_, mc_ks_; mc_ks_ << (key); mc_os_ << expr; (ctx).report(mc_ks_.str(), mc_os_.str()); } } while (0)

struct Scenario {
  std::string name;
  std::function<void(Ctx&)> body;
  int shard_depth = 1;     // number of leading choices used to split work over workers
  bool thorough_only = false;
  std::string bounds;      // human-readable: alphabet and bound
};

std::vector<Scenario>& scenarios();
struct Register {
  Register(const char* name, const char* bounds, std::function<void(Ctx&)> f, int shard_depth = 1, bool thorough_only = false) {
    scenarios().push_back({name, std::move(f), shard_depth, thorough_only, bounds});
  }
};
#define MC_CAT2(a,b) a##b
#define MC_CAT(a,b) MC_CAT2(a,b)
#define MC_SCENARIO(fn, bounds, ...) \
  static void fn(mc::Ctx&); static mc::Register MC_CAT(mc_reg_,fn)(#fn, bounds, fn, ##__VA_ARGS__); static void fn(mc::Ctx& ctx)

int main_impl(int argc, char** argv);
// hooks a harness may set: called in each worker after fork / before exit
extern void (*worker_init)(); extern void (*worker_fini)();   // plain pointers: safe to set from static initializers

template <class T> std::string show(const T& t) {
  std::ostringstream os;
  if constexpr (std::is_same_v<T, std::string>) {
    os << '"';
    for (unsigned char c : t) { if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); os << b; } else if (c=='"'||c=='\\') os << '\\' << c; else os << c; }
    os << '"';
  } else if constexpr (std::is_same_v<T, double> || std::is_same_v<T, float>) {
    char b[64]; snprintf(b, 64, "%.17g", double(t)); os << b;
  } else if constexpr (std::is_same_v<T, bool>) { os << (t ? "true" : "false"); }
  else if constexpr (std::is_same_v<T, char>) { os << int(t); }
  else os << t;
  return os.str();
}
template <class T> std::string show(const std::vector<T>& v) {
  std::string s = "["; bool first = true;
  for (const auto& x : v) { if (!first) s += ", "; first = false; s += show<T>(x); }
  return s + "]";
}
// a size: each of lo..hi, and beyond them sizes around powers of two and of ten
inline int size(Ctx& c, int lo, int hi, const char* label, int top = 1 << 30) {
  std::vector<int> v; for (int i = lo; i <= hi; ++i) v.push_back(i);
  for (int i : {63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513}) if (i > hi && i <= top) v.push_back(i);
  return c.pick(v, label);
}
// a place in a sequence of n: each if they are few, else those around powers of two and of ten, both ends and the middle
inline int place(Ctx& c, int n, const char* label, int few = 50) {
  if (n <= few) return c.choose(n, label);
  std::vector<int> v; auto add = [&](int i) { if (i >= 0 && i < n) { for (int x : v) if (x == i) return; v.push_back(i); } };
  for (int i : {0, 1, 2, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 99, 100, 126, 127, 128, 129, 254, 255, 256, 257, n / 2, n - 3, n - 2, n - 1}) add(i);
  return c.pick(v, label);
}
} // namespace mc
