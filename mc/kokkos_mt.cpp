#include "kokkos_mt.hpp"
#include <Kokkos_Core.hpp>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>
using mc::Sched;
extern "C" { void (*mc_barrier_hook)(int*, int) = nullptr; }
namespace mc { namespace mt {
int pool = 4; Stats stats; bool cas_points = false, points_active = false;
static constexpr int MAXF = 16;
static bool busy = true;             // inside the runtime or outside kernels: accesses are not tracked
static Ctx* g_ctx = nullptr;
struct FC { int level = 0, tid = 0, nthr = 1, track = 1, quiet = 0; };
static FC fc[MAXF + 1];              // slot 0: the main context
static inline int cur() { return Sched::get().current(); }
static inline FC& me() { return fc[cur() + 1]; }
int thread() { return cur(); }
Quiet::Quiet() { ++me().quiet; }
Quiet::~Quiet() { --me().quiet; }
struct Busy { bool o; Busy() : o(busy) { busy = true; } ~Busy() { busy = o; } };

// ---- happens-before
using VC = uint32_t[MAXF];
static VC clk[MAXF]; static int nf = 0;
struct SyncVar { VC vc; };
static std::unordered_map<uintptr_t, SyncVar> syncv;
struct Cell { uintptr_t addr; uint32_t epoch; uint32_t wclk; int wf; uint32_t wpc; uint32_t rclk[MAXF], rpc[MAXF]; };
static std::vector<Cell> table; static size_t tmask = 0, tused = 0; static uint32_t epoch = 0;
static std::unordered_set<uint32_t> R, Rnew; static uint64_t Rbits[1024];
static inline uint32_t h16(uint32_t pc) { return (pc ^ (pc >> 13)) & 0xffff; }
static inline bool inR(uint32_t pc) { auto h = h16(pc); return (Rbits[h >> 6] >> (h & 63) & 1) && R.count(pc); }
static void addR(uint32_t pc) { if (R.insert(pc).second) { auto h = h16(pc); Rbits[h >> 6] |= 1ull << (h & 63); } }
static void clearR() { R.clear(); memset(Rbits, 0, sizeof Rbits); Rnew.clear(); }
static void grow(size_t n) {
  std::vector<Cell> old; old.swap(table); table.resize(n); for (auto& c : table) c.epoch = 0; tmask = n - 1;
  for (auto& c : old) if (c.epoch == epoch) { size_t i = (c.addr * 0x9e3779b97f4a7c15ull >> 20) & tmask; while (table[i].epoch == epoch) i = (i + 1) & tmask; table[i] = c; }
}
static Cell& cell(uintptr_t a) {
  if (tused * 2 > tmask) grow(std::max<size_t>(1 << 14, (tmask + 1) * 2));
  size_t i = (a * 0x9e3779b97f4a7c15ull >> 20) & tmask;
  while (table[i].epoch == epoch) { if (table[i].addr == a) return table[i]; i = (i + 1) & tmask; }
  Cell& c = table[i]; ++tused; c.addr = a; c.epoch = epoch; c.wclk = 0; c.wf = -1; c.wpc = 0; memset(c.rclk, 0, sizeof c.rclk); return c;
}
static void race(uint32_t a, uint32_t b) { for (uint32_t p : {a, b}) if (!inR(p)) Rnew.insert(p); }
static void acquire(SyncVar& s, int f) { for (int k = 0; k < nf; ++k) clk[f][k] = std::max(clk[f][k], s.vc[k]); }
static void release(SyncVar& s, int f) { for (int k = 0; k < nf; ++k) s.vc[k] = std::max(s.vc[k], clk[f][k]); ++clk[f][f]; }
static void sync_rmw(const void* p) { int f = cur(); if (f < 0) return; auto it = syncv.find(reinterpret_cast<uintptr_t>(p)); if (it == syncv.end()) { it = syncv.emplace(reinterpret_cast<uintptr_t>(p), SyncVar{}).first; memset(it->second.vc, 0, sizeof(VC)); } acquire(it->second, f); release(it->second, f); }
static void sync_acq(const void* p) { int f = cur(); if (f < 0) return; auto it = syncv.find(reinterpret_cast<uintptr_t>(p)); if (it != syncv.end()) acquire(it->second, f); }
static void hb_region_start(int n) { nf = n; syncv.clear(); ++epoch; tused = 0; if (table.empty()) grow(1 << 14); for (int i = 0; i < n; ++i) { memset(clk[i], 0, sizeof(VC)); clk[i][i] = 1; } }

[[noreturn]] void fail(const std::string& key, const std::string& msg) {
  busy = true; Sched::get().fail(std::make_exception_ptr(Violation{key, msg})); __builtin_trap();
}
static void sched_point(const char* what) { try { Sched::get().point(what); } catch (...) { Sched::get().fail(std::current_exception()); } }
static void sched_block(const char* what, const std::function<bool()>& r) { try { Sched::get().block(what, r); } catch (...) { Sched::get().fail(std::current_exception()); } }
void point(const char* what) { if (cur() < 0 || !points_active) return; Busy b; sched_point(what); }
void spin(const char* what) { if (cur() < 0) return; Busy b; try { Sched::get().yield(what); } catch (...) { Sched::get().fail(std::current_exception()); } }

static void access(uintptr_t p, size_t n, bool write, uint32_t pc) {
  if (busy) return;
  int f = cur(); if (f < 0 || fc[f + 1].quiet) return;
  Busy b; ++stats.accesses;
  if (points_active && inR(pc)) sched_point("racing access");
  if (!syncv.empty() && n <= 8) { auto it = syncv.find(p); if (it != syncv.end()) { acquire(it->second, f); if (write) release(it->second, f); } }
  for (uintptr_t a = p & ~uintptr_t(3); a < p + n; a += 4) {
    Cell& c = cell(a);
    if (c.wf >= 0 && c.wf != f && c.wclk > clk[f][c.wf]) race(c.wpc, pc);
    if (write) {
      for (int k = 0; k < nf; ++k) if (k != f && c.rclk[k] > clk[f][k]) race(c.rpc[k], pc);
      c.wf = f; c.wclk = clk[f][f]; c.wpc = pc;
    } else { c.rclk[f] = clk[f][f]; c.rpc[f] = pc; }
  }
}
static void wait_equal(int* ptr, int v) {
  if (cur() < 0) { if (*ptr != v) throw Violation{"deadlock", "barrier wait outside a kernel"}; return; }
  Busy b; sched_block("barrier", [ptr, v] { return *static_cast<volatile int*>(ptr) == v; });
  sync_rmw(ptr);
}
static bool init_done = false;
static void parallel(void (*fn)(void*), void* data, int n) {
  int c = cur();
  if (c >= 0 || n == 1) {      // nested or single: run by this thread alone
    FC& m = me(); FC o = m; m.level++; m.tid = 0; m.nthr = 1; bool ob = busy; if (c >= 0) busy = false; fn(data); busy = ob; FC& m2 = me(); m2.level = o.level; m2.tid = o.tid; m2.nthr = o.nthr; return;
  }
  static Ctx boot; Ctx& ctx = g_ctx ? *g_ctx : boot; auto& S = Sched::get();
  int ob = S.bound; if (!g_ctx) S.bound = 0;
  std::vector<std::function<void()>> b; FC base = fc[0]; base.level++;
  for (int i = 0; i < n; ++i) { fc[i + 1] = base; fc[i + 1].tid = i; fc[i + 1].nthr = n; fc[i + 1].quiet = 0; b.push_back([fn, data] { busy = false; fn(data); busy = true; }); }
  hb_region_start(n); ++stats.regions;
  try { S.run(ctx, b); } catch (...) { busy = true; S.bound = ob; throw; }
  busy = true; S.bound = ob;
}
void explore(Ctx& ctx, int bound, const std::function<void()>& body) {
  struct G { ~G() { g_ctx = nullptr; points_active = false; Sched::get().bound = 0; Sched::get().reverse = false; } } g; auto& S = Sched::get();
  g_ctx = &ctx; stats = Stats(); clearR(); points_active = false; S.bound = 0;
  for (int dir = 0; dir < 2; ++dir) { S.reverse = dir; body(); }
  for (int k = 0; k < 3 && !Rnew.empty(); ++k) {   // races seen only at other points of the racing schedules: two more passes that switch at every racing access
    for (auto p : Rnew) addR(p); Rnew.clear();
    S.reverse = k & 1; S.bound = 0; body();
  }
  for (auto p : Rnew) addR(p); Rnew.clear(); stats.racy = R.size(); S.reverse = false;
  if (R.empty() && !cas_points) return;
  points_active = true; S.bound = bound; body(); stats.late = Rnew.size(); static bool dbg = getenv("MC_LATE"); if (dbg && stats.late) fprintf(stderr, "LATE %zu\n", stats.late);
}
static struct Reg { Reg() {
  mc::worker_init = [] {
    if (const char* e = getenv("MC_POOL")) pool = atoi(e);
    setenv("OMP_PROC_BIND", "false", 1);
    mc_barrier_hook = wait_equal;
    Sched::get().on_switch = [](int from, int to) {
      using SR = Kokkos::Impl::SharedAllocationRecord<void, void>;
      fc[from + 1].track = SR::tracking_enabled();
      if (fc[to + 1].track) SR::tracking_enable(); else SR::tracking_disable();
    };
    Kokkos::initialize(Kokkos::InitializationSettings().set_num_threads(pool).set_disable_warnings(true)); init_done = true;
  };
  mc::worker_fini = [] {};
} } reg_;
}}
using namespace mc::mt;
#define PC() uint32_t(reinterpret_cast<uintptr_t>(__builtin_return_address(0)))
#define U(p) reinterpret_cast<uintptr_t>(p)
extern "C" {
// ---- OpenMP runtime
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { if (n == 0) n = unsigned(pool); mc::mt::parallel(fn, data, int(n)); }
void GOMP_barrier() { fprintf(stderr, "GOMP_barrier not modelled\n"); abort(); }
int omp_get_thread_num() { return me().tid; }
int omp_get_num_threads() { return me().nthr; }
int omp_get_level() { return me().level; }
int omp_in_parallel() { return me().level > 0; }
int omp_get_max_threads() { return pool; }
void omp_set_num_threads(int) {}
// waits compiled into the Kokkos library (start of a kernel) end up here
static int lib_wait() { if (cur() >= 0) { Busy b; try { Sched::get().yield("library wait", false); } catch (...) { Sched::get().fail(std::current_exception()); } } return 0; }
int sched_yield() { return lib_wait(); }
int nanosleep(const struct timespec*, struct timespec*) { return lib_wait(); }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return lib_wait(); }
// ---- compiler instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {} 
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define RW(n) void __tsan_read##n(void* p) { access(U(p), n, false, PC()); } void __tsan_write##n(void* p) { access(U(p), n, true, PC()); } \
  void __tsan_unaligned_read##n(void* p) { access(U(p), n, false, PC()); } void __tsan_unaligned_write##n(void* p) { access(U(p), n, true, PC()); } \
  void __tsan_volatile_read##n(void* p) { access(U(p), n, false, PC()); } void __tsan_volatile_write##n(void* p) { access(U(p), n, true, PC()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(U(p), n, false, PC()); }
void __tsan_write_range(void* p, size_t n) { access(U(p), n, true, PC()); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define TRK (!busy && cur() >= 0)
static void atomic_pre(bool cas) { if (cas && cas_points && points_active && TRK) { Busy b; sched_point("atomic"); } }
static void atomic_post(const volatile void* p) { if (TRK) { Busy b; sync_rmw(const_cast<const void*>(p)); } }
// a failed attempt is usually repeated: let others run
static void cas_failed(bool f) { if (f && cas_points && TRK) mc::mt::spin("failed compare-and-swap"); }
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* p, int) { atomic_pre(false); T r = __atomic_load_n(p, 5); if (TRK) { Busy b; sync_acq(const_cast<T*>(p)); } return r; } \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int) { atomic_pre(true); __atomic_store_n(p, v, 5); atomic_post(p); } \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { atomic_pre(true); T r = __atomic_exchange_n(p, v, 5); atomic_post(p); return r; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { atomic_pre(false); T r = __atomic_fetch_add(p, v, 5); atomic_post(p); return r; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { atomic_pre(false); T r = __atomic_fetch_sub(p, v, 5); atomic_post(p); return r; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { atomic_pre(false); T r = __atomic_fetch_and(p, v, 5); atomic_post(p); return r; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { atomic_pre(false); T r = __atomic_fetch_or(p, v, 5); atomic_post(p); return r; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { atomic_pre(false); T r = __atomic_fetch_xor(p, v, 5); atomic_post(p); return r; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) { atomic_pre(false); T r = __atomic_fetch_nand(p, v, 5); atomic_post(p); return r; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { atomic_pre(true); int r = __atomic_compare_exchange_n(p, c, v, 0, 5, 5); atomic_post(p); cas_failed(!r); return r; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { atomic_pre(true); int r = __atomic_compare_exchange_n(p, c, v, 0, 5, 5); atomic_post(p); cas_failed(!r); return r; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int, int) { atomic_pre(true); int r = __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); atomic_post(p); cas_failed(!r); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
[[noreturn]] void __assert_fail(const char* e, const char* f, unsigned l, const char*) {
  fprintf(stderr, "Assertion failed: %s at %s:%u\n", e, f, l); fflush(stderr);
  if (cur() >= 0) mc::mt::fail("assert", std::string(e) + " failed at line " + std::to_string(l));
  ::abort();
}
}
namespace Kokkos { namespace Impl {
[[noreturn]] void host_abort(const char* const m) {
  if (cur() >= 0) mc::mt::fail("abort", std::string("Kokkos::abort in a kernel (failed kernel assertion) ") + m);
  throw mc::Violation{"abort", std::string("Kokkos::abort ") + m};
}
} }
