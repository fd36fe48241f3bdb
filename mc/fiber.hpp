// Controlled scheduler: the threads (or MPI ranks) of a scenario are fibers on one OS thread, and every
// scheduling decision is a ctx.choose().
#pragma once
#include "mc.hpp"
#include <exception>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace mc {
struct Deadlock { std::string what; };

class Sched {
 public:
  static Sched& get();
  // Bound on deviations from the default order (the running fiber goes on; at a wait the lowest runnable
  // fiber after it goes next).  A deviation is any other choice.  -1: no bound (every order explored).
  int bound = 0;
  uint64_t max_steps = 2000000;

  // Run the bodies as fibers 0..n-1 to completion.  Throws the first exception that leaves a body, or
  // Violation "deadlock"/"livelock"; unfinished fibers are then abandoned and the worker is marked poisoned.
  void run(Ctx& ctx, const std::vector<std::function<void()>>& bodies);
  // Nested parallel region started by a fiber (or by the main context): same as run()
  bool active() const { return m_active; }
  int current() const { return m_cur; }            // fiber id, -1 in the main context
  int num_fibers() const { return m_n; }
  void point(const char* what);                    // a place where another fiber may be scheduled
  void block(const char* what, const std::function<bool()>& ready);   // wait until ready()
  void yield(const char* what, bool choice = true);                    // spin-wait step: runs again only after some other fiber did something
  int deviations() const { return m_dev; }
  [[noreturn]] void fail(std::exception_ptr e);    // end the run with this error, from a place an exception cannot leave
  bool reverse = false;                            // default order: highest fiber first
  uint64_t switches = 0, points = 0;
  std::function<void(int from, int to)> on_switch;

 private:
  struct Fiber;
  std::vector<std::unique_ptr<Fiber>> m_f;
  Ctx* m_ctx = nullptr;
  bool m_active = false;
  int m_cur = -1, m_n = 0, m_dev = 0; uint64_t m_steps = 0; int m_spins = 0;
  void* m_main_sp = nullptr; unsigned char m_main_eh[16] = {};
  const void* m_main_stack = nullptr; size_t m_main_stack_size = 0; void* m_main_fake = nullptr;
  std::exception_ptr m_error;
  bool runnable(int i);
  int pick(bool cur_ok, const char* what);
  void switch_to(int i);
  void back_to_main();
  static void entry();
  friend struct FiberEntry;
};
} // namespace mc
