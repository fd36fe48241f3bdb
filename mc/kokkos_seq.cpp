// Sequential Kokkos harnesses: Kokkos lives in each worker, assertion failures and Kokkos::abort are exceptions.
#include "kokkos_seq.hpp"
#include <Kokkos_Core.hpp>
extern "C" { void (*mc_barrier_hook)(int*, int) = nullptr; }
namespace mc { bool catch_aborts = false; jmp_buf assert_jump; }
extern "C" [[noreturn]] void __assert_fail(const char* e, const char* f, unsigned l, const char*) {
  if (!mc::catch_aborts) { fprintf(stderr, "Assertion failed: %s at %s:%u\n", e, f, l); fflush(stderr); ::abort(); }
  _longjmp(mc::assert_jump, 1);
}
namespace Kokkos { namespace Impl { [[noreturn]] void host_abort(const char* const m) {
  if (!mc::catch_aborts) { fprintf(stderr, "Assertion: Kokkos::abort: %s\n", m); fflush(stderr); ::abort(); }
  throw mc::Aborted{std::string("Kokkos::abort ") + m};
} } }
static struct Reg { Reg() {
  mc::worker_init = [] { setenv("OMP_PROC_BIND", "false", 1); Kokkos::initialize(Kokkos::InitializationSettings().set_num_threads(1).set_disable_warnings(true)); };
  mc::worker_fini = [] { Kokkos::finalize(); };
} } reg_;
