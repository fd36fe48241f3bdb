// EKAT's test driver (main of the test executables) and its Kokkos session, against stand-ins for Catch2, Kokkos' start and end, and MPI.
#include "strgen.hpp"
#include "fake_mpi.hpp"
#include "ekat_test_utils.hpp"
#include "ekat_kokkos_session.hpp"
#include "ekat_arch.hpp"
#include <Kokkos_Core.hpp>
#include <cfenv>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
using VS = std::vector<std::string>;
int ekat_main(int argc, char** argv);
void ekat_initialize_test_session(int argc, char** argv, const bool print_config);
void ekat_finalize_test_session();
namespace {
struct Rank { VS log, catch_args; std::vector<VS> kokkos_args; int nfail = 0, applied = 0; std::map<std::string, bool> flags; std::map<std::string, VS> vec; int mask = 0; };
std::vector<Rank> R; mc::Ctx* g = nullptr; int shared_kokkos = 0, apply_result = 0; bool per_rank = false; std::vector<int> kokkos_up;
Rank& r() { return R[size_t(std::max(0, fmpi::me()))]; }
int& up() { return kokkos_up[size_t(std::max(0, fmpi::me()))]; }
}
namespace fake_catch {
int apply(int argc, const char* const* argv) { r().log.push_back("catch-args"); ++r().applied; for (int i = 0; i < argc; ++i) r().catch_args.push_back(argv[i] ? argv[i] : "(null)");
  r().flags = ekat::TestSession::get().flags; r().vec = ekat::TestSession::get().vec_params; return apply_result; }
int run() { r().log.push_back("run"); r().mask = fegetexcept(); r().flags = ekat::TestSession::get().flags; r().vec = ekat::TestSession::get().vec_params; return r().nfail; }
}
extern "C" {
int MPI_Init(int*, char***) { r().log.push_back("mpi-init"); return 0; }
int MPI_Finalize() { r().log.push_back("mpi-finalize"); return 0; }
}
namespace Kokkos {
bool is_initialized() noexcept { return up() > 0; }
void initialize(const InitializationSettings& s) { r().log.push_back("kokkos-init"); ++up(); VS a{"settings"}; if (s.has_map_device_id_by()) a.push_back(s.get_map_device_id_by()); if (s.has_num_threads()) a.push_back("num_threads"); if (s.has_device_id()) a.push_back("device_id"); r().kokkos_args.push_back(a); }
void initialize(int& argc, char* argv[]) { r().log.push_back("kokkos-init"); ++up(); VS a{"args"}; for (int i = 0; i < argc; ++i) a.push_back(argv[i]); r().kokkos_args.push_back(a); }
void finalize() { r().log.push_back("kokkos-finalize"); --up(); }
}
namespace {
struct Argv { std::vector<std::vector<char>> store; std::vector<char*> v; Argv(const VS& a) { for (auto& s : a) { store.emplace_back(s.begin(), s.end()); store.back().push_back(0); } for (auto& b : store) v.push_back(b.data()); v.push_back(nullptr); } int n() { return int(v.size()) - 1; } };
void reset(int n) { R.assign(size_t(n), Rank{}); kokkos_up.assign(size_t(n), 0); apply_result = 0; auto& t = ekat::TestSession::get(); t.flags.clear(); t.params.clear(); t.vec_params.clear(); fesetenv(FE_DFL_ENV); }
// what f prints
template <class F> std::string capture(F f) {
  static int mem = memfd_create("out", 0); std::cout.flush(); fflush(stdout); if (ftruncate(mem, 0)) {} lseek(mem, 0, SEEK_SET);
  int old = dup(1); dup2(mem, 1);
  struct Back { int old; ~Back() { std::cout.flush(); fflush(stdout); dup2(old, 1); close(old); } };
  { Back b{old}; f(); }
  std::string s; char buf[4096]; lseek(mem, 0, SEEK_SET); ssize_t k; while ((k = read(mem, buf, sizeof buf)) > 0) s.append(buf, size_t(k)); return s;
}
VS order(bool kokkos) { if (kokkos) return {"mpi-init", "catch-args", "kokkos-init", "run", "kokkos-finalize", "mpi-finalize"}; return {"mpi-init", "catch-args", "run", "mpi-finalize"}; }
#ifdef EKAT_ENABLE_FPE_DEFAULT_MASK
const int MASK = FE_DIVBYZERO | FE_INVALID | FE_OVERFLOW;
#else
const int MASK = 0;
#endif
const int FAILS[] = {0, 1, 2, 255, 256};
}
namespace { void command_line(mc::Ctx& ctx, const VS& a, int nf) {
  reset(1); fmpi::W().start(ctx, 1); fmpi::W().fixed_rank = 0; R[0].nfail = nf;
  std::string w = mc::show(a); MC_LOG(ctx, w);
  size_t cut = a.size(); for (size_t i = 1; i < a.size(); ++i) if (a[i] == "--args") { cut = i; break; }
  VS mine(a.begin(), a.begin() + cut), rest; if (cut < a.size()) rest.assign(a.begin() + cut + 1, a.end());
  // what the session makes of the arguments after --args (its own rules are C30's)
  std::map<std::string, bool> fl; std::map<std::string, VS> ve; bool bad = false; { ekat::TestSession s = ekat::TestSession::get(); Argv x(rest); x.v.pop_back(); try { s.parse_test_args(x.v); } catch (const std::exception&) { bad = true; } fl = s.flags; ve = s.vec_params; }
  Argv av(a); int rc = -1; bool thr = false; std::string out = capture([&] { try { rc = ekat_main(av.n(), av.v.data()); } catch (const std::exception&) { thr = true; } });
  int mask = R[0].mask; fesetenv(FE_DFL_ENV);
  MC_CHECK(ctx, thr == bad, "error", w << (thr ? ": error" : ": no error"));
  if (thr) { for (auto& s : R[0].log) MC_CHECK(ctx, s != "run", "ran", w << ": tests ran though the arguments are malformed"); ctx.outcome("bad"); return; }
  MC_CHECK(ctx, R[0].log == order(true), "order", w << ": steps " << mc::show(R[0].log));
  MC_CHECK(ctx, R[0].catch_args == mine, "catch-args", w << ": Catch2 got " << mc::show(R[0].catch_args));
  MC_CHECK(ctx, R[0].flags == fl && R[0].vec == ve, "session-args", w << ": the session has other arguments than those after --args");
  bool kk = false; for (auto& s : a) kk = kk || s.find("--kokkos") != std::string::npos;
  VS ka{"settings", "mpi_rank"}; if (kk) { ka = a; ka.insert(ka.begin(), "args"); }
  MC_CHECK(ctx, R[0].kokkos_args.size() == 1 && R[0].kokkos_args[0] == ka, "kokkos-args", w << ": Kokkos got " << mc::show(R[0].kokkos_args.empty() ? VS{} : R[0].kokkos_args[0]));
  MC_CHECK(ctx, rc == (nf ? 1 : 0), "exit-status", w << ": " << nf << " failures, exit status " << rc);
  MC_CHECK(ctx, mask == MASK, "fpe-mask", w << ": tests ran with trapping exceptions " << mask);
  MC_CHECK(ctx, up() == 0, "kokkos-left", "Kokkos is still up at the end");
  MC_CHECK(ctx, out.find(" active avx set: " + ekat::active_avx_string() + "\n") != std::string::npos && out.find(" compiler id: " + ekat::compiler_id_string() + "\n") != std::string::npos && out.find(" current FPE: mask=" + std::to_string(MASK)) != std::string::npos && out.find("#host threads:") != std::string::npos, "config", "configuration not printed: " << out);
  std::string o = std::to_string(rc) + mc::show(R[0].catch_args) + mc::show(ka); for (auto& k : fl) o += k.first; ctx.outcome(o);
} }
MC_SCENARIO(command_lines, "one rank: every command line of up to 4 (thorough 5) of 12 arguments (--args, Catch2 options, flags, values, Kokkos options, empty); failures 0, 1, 2, 255, 256", 2) {
  static const VS T = {"--args", "-s", "name", "--flag", "-p", "v", "--kokkos-num-threads=2", "k=--kokkos", "", "--arg", "--args=x", "-k=1,2"};
  int n = ctx.choose(ctx.tier() ? 6 : 5, "n"); VS a{"prog"}; for (int i = 0; i < n; ++i) a.push_back(ctx.pick(T)); int nf = FAILS[ctx.choose(5, "failures")];
  command_line(ctx, a, nf);
}
MC_SCENARIO(long_command_lines, "one rank: command lines of 8-300 arguments of up to 5000 characters, --args and a Kokkos option absent, first, last or in the middle; failures 0, 1, 300", 2) {
  int n = ctx.pick(std::vector<int>{8, 9, 16, 17, 33, 64, 65, 100, 300}, "n"), wa = ctx.choose(5, "--args"), wk = ctx.choose(5, "Kokkos option"), len = ctx.pick(std::vector<int>{1, 15, 16, 100, 255, 256, 1000, 5000}, "length"), kind = ctx.choose(3, "kind"); static const int NF[] = {0, 1, 300}; int nf = NF[ctx.choose(3, "failures")];
  VS a{"prog"}; for (int i = 1; i < n; ++i) { std::string s = kind == 0 ? "" : kind == 1 ? "--o" : (i % 2 ? "-q" : ""); s += std::to_string(i); if (int(s.size()) < len) s += std::string(size_t(len) - s.size(), char('a' + i % 26)); a.push_back(s); }
  const int at[] = {0, 1, n - 1, n / 2, n / 3}; if (wk) a[size_t(at[wk])] = "--kokkos-num-threads=2"; if (wa) a[size_t(at[wa])] = "--args"; command_line(ctx, a, nf);
}
MC_SCENARIO(rejected_by_catch, "Catch2 refuses its arguments: an error, and no test runs") {
  reset(1); fmpi::W().start(ctx, 1); fmpi::W().fixed_rank = 0; static const int rs[] = {1, -1, 255}; apply_result = rs[ctx.choose(3, "result")]; Argv av({"prog", "-x"}); bool thr = false; int rc = 0;
  capture([&] { try { rc = ekat_main(av.n(), av.v.data()); } catch (const std::exception&) { thr = true; } });
  bool ran = false; for (auto& s : R[0].log) ran = ran || s == "run"; fesetenv(FE_DFL_ENV); apply_result = 0;
  MC_CHECK(ctx, (thr || rc != 0) && !ran, "refused", "tests ran, or success was reported, though the arguments were refused"); ctx.outcome(thr);
}
static void run_ranks(mc::Ctx& ctx, int n, const std::vector<int>& nf, int bound) {
  reset(n); fmpi::W().start(ctx, n); std::vector<int> rc(size_t(n), -1); for (int i = 0; i < n; ++i) R[size_t(i)].nfail = nf[size_t(i)];
  auto& S = mc::Sched::get(); S.bound = bound; std::vector<std::function<void()>> b; std::vector<Argv> av; av.reserve(size_t(n)); for (int i = 0; i < n; ++i) av.emplace_back(VS{"prog"});
  for (int i = 0; i < n; ++i) b.push_back([&, i] { rc[size_t(i)] = ekat_main(av[size_t(i)].n(), av[size_t(i)].v.data()); });
  std::string out = capture([&] { S.run(ctx, b); }); fesetenv(FE_DFL_ENV); uint64_t o = 0;
  for (int i = 0; i < n; ++i) { auto& x = R[size_t(i)];
    MC_CHECK(ctx, x.log == order(true), "order", "rank " << i << ": steps " << mc::show(x.log)); MC_CHECK(ctx, x.catch_args == VS{"prog"}, "catch-args", "rank " << i << ": " << mc::show(x.catch_args));
    MC_CHECK(ctx, rc[size_t(i)] == (x.nfail ? 1 : 0), "exit-status", "rank " << i << ": " << x.nfail << " failures, exit status " << rc[size_t(i)]); o = o * 2 + uint64_t(rc[size_t(i)]); }
  size_t k = 0, p = 0; while ((p = out.find(" current FPE:", p)) != std::string::npos) { ++k; ++p; }
  MC_CHECK(ctx, k == 1, "config", "the configuration was printed " << k << " times by " << n << " ranks"); ctx.outcome(o); ctx.state(mc::mix(o, uint64_t(n)));
}
MC_SCENARIO(many_ranks, "4-17, 33 ranks, none, each one, all but one, every other and all with 1 or 256 failing tests, one order: as above", 1) {
  int n = ctx.pick(std::vector<int>{4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 33}, "ranks"), kind = ctx.choose(5, "who fails"), who = kind == 1 || kind == 2 ? ctx.choose(n, "rank") : 0; int k = ctx.pick(std::vector<int>{1, 256}, "failures");
  std::vector<int> nf(size_t(n), 0); for (int i = 0; i < n; ++i) if (kind == 4 || (kind == 1 && i == who) || (kind == 2 && i != who) || (kind == 3 && i % 2)) nf[size_t(i)] = k; run_ranks(ctx, n, nf, 0);
}
MC_SCENARIO(ranks, "1-3 ranks, every set of ranks with failing tests, all orders of arrival at the barriers (3 ranks: at most 2 (thorough 4) deviations): steps, exit status, only the first rank prints the configuration", 3) {
  int n = 1 + ctx.choose(3, "ranks"); std::vector<int> nf(size_t(n), 0); for (auto& f : nf) f = ctx.flag("fails") ? 3 : 0;
  run_ranks(ctx, n, nf, n < 3 ? -1 : ctx.tier() ? 4 : 2);
}
MC_SCENARIO(sessions, "every history of 4 (thorough 6) of: start a session (two forms, with and without printing, with and without Kokkos options), end it, Kokkos started or ended by the user: Kokkos is started only when down, and ended only when up; the text", 2) {
  reset(1); fmpi::W().start(ctx, 1); fmpi::W().fixed_rank = 0; int n = ctx.tier() ? 6 : 4; bool isup = false; size_t inits = 0, fins = 0; std::string w;
  for (int s = 0; s < n; ++s) {
    int op = ctx.choose(9, "op"); std::string out; bool pr = false; VS a, exp; bool start = true;
    switch (op) {
      case 0: case 1: pr = op; out = capture([&] { ekat::initialize_kokkos_session(pr); }); exp = {"settings", "mpi_rank"}; break;
      case 2: case 3: pr = op - 2; a = {"prog", "x", "-y"}; { Argv v(a); out = capture([&] { ekat::initialize_kokkos_session(v.n(), v.v.data(), pr); }); } exp = {"settings", "mpi_rank"}; break;
      case 4: a = {"--kokkos-x"}; { Argv v(a); out = capture([&] { ekat::initialize_kokkos_session(v.n(), v.v.data(), false); }); } exp = {"args", "--kokkos-x"}; break;
      case 5: a = {"prog", "x", "p--kokkos"}; pr = true; { Argv v(a); out = capture([&] { ekat::initialize_kokkos_session(v.n(), v.v.data()); }); } exp = {"args", "prog", "x", "p--kokkos"}; break;
      case 6: start = false; ekat::finalize_kokkos_session(); break;
      case 7: start = false; if (isup) { Kokkos::finalize(); } else Kokkos::initialize(); break;
      case 8: a = {"prog"}; pr = true; { Argv v(a); out = capture([&] { ekat_initialize_test_session(v.n(), v.v.data(), true); }); fesetenv(FE_DFL_ENV); } exp = {"settings", "mpi_rank"}; break;
    }
    w += std::to_string(op) + " "; MC_LOG(ctx, w);
    if (start) { if (!isup) { ++inits; MC_CHECK(ctx, R[0].kokkos_args.size() == inits && R[0].kokkos_args.back() == exp, "start", w << ": Kokkos was started " << R[0].kokkos_args.size() << " times, last with " << mc::show(R[0].kokkos_args.empty() ? VS{} : R[0].kokkos_args.back())); } isup = true;
      MC_CHECK(ctx, (out.find("#host threads: ") != std::string::npos) == pr && (pr || out.empty()), "print", w << ": printed '" << out << "'"); }
    else if (op == 6) { if (isup) ++fins; isup = false; }
    else { if (isup) ++fins; else ++inits; isup = !isup; }
    size_t ni = 0, nf = 0; for (auto& l : R[0].log) { ni += l == "kokkos-init"; nf += l == "kokkos-finalize"; }
    MC_CHECK(ctx, ni == inits && nf == fins && up() == int(isup), "count", w << ": Kokkos was started " << ni << " times (expected " << inits << ") and ended " << nf << " times (expected " << fins << ")");
    auto c = ekat::kokkos_config_string(); MC_CHECK(ctx, c.find(" Default Execution Space name: OpenMP") != std::string::npos && c.find(" #host threads: " + std::to_string(Kokkos::OpenMP().concurrency())) != std::string::npos, "config", c); ctx.state(mc::mix(uint64_t(isup), inits * 16 + fins));
  }
  ctx.outcome(mc::mix(inits, fins));
}
