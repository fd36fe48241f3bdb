#include "fiber.hpp"
#include <sys/mman.h>
#include <cxxabi.h>
#ifdef MC_ASAN
extern "C" { void __sanitizer_start_switch_fiber(void**, const void*, size_t); void __sanitizer_finish_switch_fiber(void*, const void**, size_t*); }
#endif
extern "C" void mc_switch(void** save, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");
namespace mc {
constexpr size_t STACK = 1 << 20;
struct Sched::Fiber {
  char* stack = nullptr; void* sp = nullptr; unsigned char eh[16] = {};
  std::function<void()> body; bool done = false;
  std::function<bool()> ready; const char* what = ""; void* fake = nullptr;
  Fiber() { stack = static_cast<char*>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); mprotect(stack, 4096, PROT_NONE); }
};
Sched& Sched::get() { static Sched* s = new Sched; return *s; }

void Sched::entry() {
  Sched& s = get();
#ifdef MC_ASAN
  if (!s.m_main_stack) __sanitizer_finish_switch_fiber(nullptr, &s.m_main_stack, &s.m_main_stack_size);  // the first fiber ever is entered from main
  else __sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
#endif
  Fiber& f = *s.m_f[s.m_cur];
  try { f.body(); }
  catch (...) { if (!s.m_error) s.m_error = std::current_exception(); }
  f.done = true; ++s.m_steps;
  if (s.m_error) { s.back_to_main(); }
  int nx;
  try { nx = s.pick(false, "end"); } catch (...) { if (!s.m_error) s.m_error = std::current_exception(); nx = -1; }
  if (nx < 0) s.back_to_main();
  s.switch_to(nx);
  __builtin_trap();
}
static void eh_save(unsigned char* p) { memcpy(p, abi::__cxa_get_globals(), 12); }
static void eh_load(const unsigned char* p) { memcpy(static_cast<void*>(abi::__cxa_get_globals()), p, 12); }

void Sched::back_to_main() {
  int c = m_cur; Fiber& f = *m_f[c];
  eh_save(f.eh); if (on_switch) on_switch(c, -1); m_cur = -1; eh_load(m_main_eh);
#ifdef MC_ASAN
  __sanitizer_start_switch_fiber(f.done ? nullptr : &f.fake, m_main_stack, m_main_stack_size);
#endif
  mc_switch(&f.sp, m_main_sp);
#ifdef MC_ASAN
  __sanitizer_finish_switch_fiber(f.fake, nullptr, nullptr);
#endif
}
void Sched::switch_to(int i) {
  int c = m_cur; if (i == c) return;
  ++switches;
  Fiber& t = *m_f[i];
  if (on_switch) on_switch(c, i);
  if (c < 0) eh_save(m_main_eh); else eh_save(m_f[c]->eh);
  m_cur = i; eh_load(t.eh);
#ifdef MC_ASAN
  void** fk = c < 0 ? &m_main_fake : &m_f[c]->fake;
  __sanitizer_start_switch_fiber((c >= 0 && m_f[c]->done) ? nullptr : fk, t.stack, STACK);
#endif
  mc_switch(c < 0 ? &m_main_sp : &m_f[c]->sp, t.sp);
#ifdef MC_ASAN
  __sanitizer_finish_switch_fiber(c < 0 ? m_main_fake : m_f[c]->fake, nullptr, nullptr);
#endif
}
bool Sched::runnable(int i) {
  Fiber& f = *m_f[i];
  if (f.done) return false;
  if (f.ready) return f.ready();
  return true;
}
// next fiber; cur_ok: the running fiber may go on
int Sched::pick(bool cur_ok, const char* what) {
  if (++m_steps > max_steps) throw Violation{"livelock", std::string("no end after ") + std::to_string(max_steps) + " scheduling steps, at " + what};
  std::vector<int> en;
  if (cur_ok) en.push_back(m_cur);
  for (int k = 1; k <= m_n; ++k) {
    int i = reverse ? ((m_cur < 0 ? 0 : m_cur) + m_n - k) % m_n : ((m_cur < 0 ? m_n - 1 : m_cur) + k) % m_n;
    if (i == m_cur) continue;
    if (runnable(i)) en.push_back(i);
  }
  if (en.empty()) {
    bool all = true; std::string w;
    for (int i = 0; i < m_n; ++i) if (!m_f[i]->done) { all = false; w += " #" + std::to_string(i) + ":" + m_f[i]->what; }
    if (all) return -1;
    throw Violation{"deadlock", "no fiber can go on; waiting:" + w};
  }
  int c = 0;
  if (en.size() > 1 && (bound < 0 || m_dev < bound)) { c = m_ctx->choose(int(en.size()), m_ctx->tracing() ? what : nullptr); if (c) ++m_dev; }
  return en[c];
}
void Sched::fail(std::exception_ptr e) {
  if (m_cur < 0) std::rethrow_exception(e);
  if (!m_error) m_error = e;
  back_to_main();
  __builtin_trap();
}
void Sched::point(const char* what) {
  if (m_cur < 0) return;
  ++points; m_spins = 0;
  m_f[m_cur]->what = what;
  int nx = pick(true, what);
  if (nx != m_cur) switch_to(nx);
}
void Sched::block(const char* what, const std::function<bool()>& ready) {
  if (m_cur < 0) { if (!ready()) throw Violation{"deadlock", std::string("waiting outside a parallel region: ") + what}; return; }
  Fiber& f = *m_f[m_cur];
  m_spins = 0; f.what = what; f.ready = ready;
  int nx = pick(ready(), what);
  if (nx != m_cur) switch_to(nx);
  f.ready = nullptr;
}
void Sched::yield(const char* what, bool choice) {
  if (m_cur < 0) return;
  // let another fiber go first; if none can, this is a livelock once it repeats
  std::vector<int> en;
  for (int k = 1; k < m_n; ++k) { int i = (reverse ? m_cur + m_n - k : m_cur + k) % m_n; if (runnable(i)) en.push_back(i); }
  if (++m_steps > max_steps) throw Violation{"livelock", std::string("spinning for ever at ") + what};
  m_f[m_cur]->what = what;
  if (en.empty()) { if (++m_spins > 10000) throw Violation{"livelock", std::string("only this fiber can run and it spins: ") + what}; return; }
  int c = 0;
  if (choice && en.size() > 1 && (bound < 0 || m_dev < bound)) { c = m_ctx->choose(int(en.size()), m_ctx->tracing() ? what : nullptr); if (c) ++m_dev; }
  switch_to(en[c]);
}
void Sched::run(Ctx& ctx, const std::vector<std::function<void()>>& bodies) {
  if (m_active) throw Violation{"harness", "nested Sched::run"};
  struct Defer { Ctx& c; bool o; ~Defer() { c.m_defer_skip = o; } } defer{ctx, ctx.m_defer_skip}; ctx.m_defer_skip = true;
  m_ctx = &ctx; m_n = int(bodies.size()); m_dev = 0; m_steps = 0; m_spins = 0; m_error = nullptr; m_active = true; m_cur = -1;
  while (int(m_f.size()) < m_n) m_f.push_back(std::make_unique<Fiber>());
  for (int i = 0; i < m_n; ++i) {
    Fiber& f = *m_f[i]; f.body = bodies[i]; f.done = false; f.ready = nullptr; f.what = "start"; f.fake = nullptr; memset(f.eh, 0, 16);
    auto top = reinterpret_cast<uintptr_t>(f.stack + STACK) & ~uintptr_t(15);
    auto p = reinterpret_cast<void**>(top);
    *--p = nullptr;                                     // alignment: entry() sees rsp%16==8
    *--p = reinterpret_cast<void*>(&Sched::entry);
    for (int k = 0; k < 6; ++k) *--p = nullptr;
    --p; unsigned cs = 0; unsigned short cw = 0; asm volatile("stmxcsr %0" : "=m"(cs)); asm volatile("fnstcw %0" : "=m"(cw));
    reinterpret_cast<unsigned*>(p)[0] = cs; reinterpret_cast<unsigned*>(p)[1] = cw;
    f.sp = p;
  }
  int nx;
  try { nx = pick(false, "first"); } catch (...) { m_active = false; throw; }
  if (nx >= 0) switch_to(nx);
  m_active = false; m_cur = -1;
  bool left = false; for (int i = 0; i < m_n; ++i) left |= !m_f[i]->done;
  if (left) { // abandoned stacks: give the fibers new ones
    ctx.m_poisoned = true;
    for (int i = 0; i < m_n; ++i) m_f[i].release();
    m_f.clear();
  }
  if (m_error) { auto e = m_error; m_error = nullptr; std::rethrow_exception(e); }
}
} // namespace mc
