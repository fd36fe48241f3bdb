// Real Kokkos OpenMP kernels under a controlled scheduler. The threads of the Kokkos pool are fibers; the harness is compiled with
// -fsanitize=thread, whose calls land here: every memory access feeds a happens-before race detector, and the accesses found to race
// become scheduling points.
#pragma once
#include "mc.hpp"
#include "fiber.hpp"
#include <functional>
namespace mc { namespace mt {
extern int pool;                      // threads in the Kokkos pool (environment MC_POOL, default 4)
[[noreturn]] void fail(const std::string& key, const std::string& msg);   // a violation inside a kernel
struct Stats { size_t racy = 0, late = 0, regions = 0; uint64_t accesses = 0; };
extern Stats stats;                   // of the last explore()
// Runs body() (allocate, launch kernels, check) under the default schedule in both directions, collecting the accesses that race; then
// explores the schedules with a scheduling point before each access made at a place that raced and at each wait, with at most `bound`
// deviations per kernel from the default order. Without races one schedule decides (all others are equivalent to it).
void explore(Ctx& ctx, int bound, const std::function<void()>& body);
extern bool cas_points;               // compare-and-swap operations are scheduling points too
extern bool points_active;
int thread();                         // fiber id, -1 outside kernels
void point(const char* what);         // explicit scheduling point in a harness
void spin(const char* what);          // a failed attempt in a retry loop: let others run
struct Quiet { Quiet(); ~Quiet(); };  // accesses inside are the harness's own: not tracked
}}
#define MT_CHECK(ctx, cond, key, expr) do { (ctx).check_count(); if (!(cond)) { mc::mt::Quiet mt_q_; std::ostringstream mc_os_, mc_ks_; mc_ks_ << (key); mc_os_ << expr; mc::mt::fail(mc_ks_.str(), mc_os_.str()); } } while (0)
