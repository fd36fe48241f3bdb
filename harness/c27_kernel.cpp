// Checks inside kernels: EKAT_KERNEL_*.
#include "kokkos_seq.hpp"
#include <Kokkos_Core.hpp>
#include "ekat_kernel_assert.hpp"
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <string>
using mc::Ctx;
namespace {
template <class F> std::string capture(F f) {
  static int mem = memfd_create("out", 0); fflush(stdout); if (ftruncate(mem, 0)) {} lseek(mem, 0, SEEK_SET); int old = dup(1); dup2(mem, 1); f(); fflush(stdout); dup2(old, 1); close(old);
  std::string s; char buf[4096]; lseek(mem, 0, SEEK_SET); ssize_t k; while ((k = read(mem, buf, sizeof buf)) > 0) s.append(buf, size_t(k)); return s;
}
#ifdef NDEBUG
const bool DEBUG_ = false;
#else
const bool DEBUG_ = true;
#endif
}
MC_SCENARIO(kernel_checks, "the 5 forms of kernel checks with every sequence of 3 conditions (bool, int, pointer, comma-free expression; true and false), alone, as branch of if/else, in a kernel: stops exactly at the first false one, conditions evaluated once and in order, text printed") {
  int form = ctx.choose(5, "form"), where = ctx.choose(3, "where"), kind = ctx.choose(4, "condition"); bool c[3]; for (bool& x : c) x = ctx.flag("condition holds");
  int evals = 0, reached = -1; static int obj; const char* msg = "something is 100% wrong";
  auto val = [&](int i) -> long { ++evals; reached = i; return kind == 0 ? long(c[i]) : kind == 1 ? (c[i] ? 42L << 0 : 0) : kind == 2 ? (c[i] ? 1 : 0) : (c[i] ? -3 : 0); };
  auto one = [&](int i) {
    auto cond_b = [&] { return val(i) != 0; }; auto cond_i = [&] { return int(val(i)); }; auto cond_p = [&]() -> int* { return val(i) ? &obj : nullptr; };
#define FORMS(C) switch (form) { \
      case 0: if (where == 1) EKAT_KERNEL_REQUIRE(C); else EKAT_KERNEL_REQUIRE(C); break; \
      case 1: if (where == 1) EKAT_KERNEL_REQUIRE_MSG(C, msg); else EKAT_KERNEL_REQUIRE_MSG(C, msg); break; \
      case 2: if (where == 1) EKAT_KERNEL_ASSERT(C); else EKAT_KERNEL_ASSERT(C); break; \
      case 3: if (where == 1) EKAT_KERNEL_ASSERT_MSG(C, msg); else EKAT_KERNEL_ASSERT_MSG(C, msg); break; }
    if (form == 4) { if (!cond_b()) EKAT_KERNEL_ERROR_MSG(msg); else evals += 0; return; }
    switch (kind) { case 0: FORMS(cond_b()); break; case 1: FORMS(cond_i()); break; case 2: FORMS(cond_p()); break; case 3: FORMS(cond_i() < 0 || kind != 3); break; }
  };
  bool in_kernel_stop = false; // nothing may leave a parallel region
  auto all = [&] { if (where == 2) Kokkos::parallel_for(Kokkos::RangePolicy<Kokkos::DefaultHostExecutionSpace>(0, 3), [&](int i) { if (!in_kernel_stop) in_kernel_stop = mc::rejects([&] { one(i); }); }); else for (int i = 0; i < 3; ++i) one(i); };
  bool stopped = false; std::string out = capture([&] { stopped = mc::rejects(all); }); stopped |= in_kernel_stop;
  bool active = form < 2 || form == 4 || DEBUG_; int first = -1; for (int i = 0; i < 3 && first < 0; ++i) if (!c[i]) first = i; bool e = active && first >= 0; int ne = !active ? 0 : first < 0 ? 3 : first + 1;
  MC_CHECK(ctx, stopped == e, "stop", "form " << form << ": " << (stopped ? "stopped" : "went on") << ", first false condition " << first); MC_CHECK(ctx, evals == ne, "evaluations", "form " << form << ": " << evals << " evaluations, expected " << ne);
  if (e) { MC_CHECK(ctx, reached == first, "where", "stopped at check " << reached << ", expected " << first); MC_CHECK(ctx, form == 0 || form == 2 || out.find(msg) != std::string::npos, "message", "form " << form << " printed '" << out << "'");
    MC_CHECK(ctx, form == 4 || out.find("cond_") != std::string::npos, "condition-text", "form " << form << " printed '" << out << "'"); }
  else MC_CHECK(ctx, out.empty(), "silent", "printed '" << out << "'");
  ctx.outcome(uint64_t(ne) * 2 + e);
}
