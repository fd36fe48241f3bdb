// Loggers: which message reaches which sink, for every level triple, history and rank.
#include "mc.hpp"
#include "fake_mpi.hpp"
#include "ekat_logger.hpp"
#include "ekat_comm.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace ekat::logger;
using L = LogLevel;
namespace {
const std::vector<L> ALL = {L::trace, L::debug, L::info, L::warn, L::err, L::critical, L::off};
// alphabets of the histories: smaller in the quick tier
struct Alpha { std::vector<L> levels, init, init2, msgs; };
const Alpha& alpha(mc::Ctx& c) {
  static const Alpha q{{L::trace, L::err, L::off}, {L::info}, {L::debug, L::err}, {L::info, L::critical}};
  static const Alpha t{{L::trace, L::info, L::err, L::off}, {L::trace, L::info, L::err, L::off}, {L::trace, L::info, L::err, L::off}, {L::trace, L::info, L::warn, L::critical}};
  return c.tier() ? t : q;
}
const char* ln(L l) { static const char* n[] = {"trace", "debug", "info", "warn", "err", "critical", "off"}; return n[int(l)]; }
std::string g_dir;
// captures what is written to stdout between begin() and end()
struct Capture {
  int fd = -1, saved = -1;
  void begin() { if (fd < 0) { std::string f = g_dir + "/stdout"; fd = ::open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); } fflush(stdout); if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); saved = dup(1); dup2(fd, 1); }
  std::string end() { fflush(stdout); dup2(saved, 1); close(saved); off_t n = lseek(fd, 0, SEEK_END); std::string s(size_t(n), 0); if (n && pread(fd, &s[0], size_t(n), 0) != n) s = "?"; return s; }
} cap;
std::vector<std::string> files() {
  std::vector<std::string> v; DIR* d = opendir("."); if (!d) return v;
  while (auto e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != ".." && n != "stdout") v.push_back(n); }
  closedir(d); std::sort(v.begin(), v.end()); return v;
}
void clean() { for (auto& f : files()) ::unlink(f.c_str()); }
std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
struct Dir { // work inside a scratch directory of this process
  Dir() { mc::worker_init = [] { char t[] = "log.XXXXXX"; if (!mkdtemp(t)) abort(); if (chdir(t)) abort(); char b[4096]; if (!getcwd(b, sizeof b)) abort(); g_dir = b; };
          mc::worker_fini = [] { clean(); ::unlink("stdout"); if (chdir("..")) {} ::rmdir(g_dir.c_str()); }; }
} dir_;
void emit(spdlog::logger& l, L m, const std::string& s) {
  switch (m) {
    case L::trace: l.trace(s); break; case L::debug: l.debug(s); break; case L::info: l.info(s); break;
    case L::warn: l.warn(s); break; case L::err: l.error(s); break; case L::critical: l.critical(s); break; default: break;
  }
}
struct Expect { std::string console, file; };
// expected levels of a logger and its sinks
struct Model { bool on; bool file; L log, con, fil; };
void msg(Model& m, L lev, const std::string& s, Expect& e) {
  if (!m.on || lev < m.log) return;
  if (lev >= m.con) e.console += s + "\n";
  if (m.file && lev >= m.fil) e.file += s + "\n";
}
struct Setup { int size, rank, suffix; };
Setup setup(mc::Ctx& ctx, bool few = false) {
  static const std::vector<std::pair<int,int>> R = {{1,0},{2,1},{3,0},{3,2},{2,0}}, R2(R.begin(), R.begin() + 3);
  auto r = ctx.pick(few ? R2 : R, "size/rank"); fmpi::W().start(ctx, r.first); fmpi::W().fixed_rank = r.second;
  return {r.first, r.second, 0};
}
template <class MP> constexpr bool all_ranks() { return std::is_same<MP, LogAllRanks>::value; }
template <class FP> constexpr bool has_file() { return !std::is_same<FP, LogNoFile>::value; }
template <class FP, class MP> std::string fname(const std::string& n, const Setup& s, const std::string& suf) {
  return n + (all_ranks<MP>() ? "." + std::to_string(s.size) + "." + std::to_string(s.rank) : "") + suf;
}
#define WHERE(s) "rank " << (s).rank << " of " << (s).size

// every level triple, all six message levels
template <class FP, class MP> void levels(mc::Ctx& ctx) {
  auto s = setup(ctx); std::string suf = ctx.choose(3, "suffix") == 0 ? ".log" : ctx.choose(2) ? "" : ".txt";
  L ll = ctx.pick(ALL, "log level"), cl = ctx.pick(ALL, "console level"), fl = ctx.pick(ALL, "file level"); bool set_sinks = ctx.flag("set sink levels"); 
  bool on = all_ranks<MP>() || s.rank == 0; Expect e; std::string con; std::string lf;
  clean(); cap.begin();
  {
    ekat::Comm comm(MPI_COMM_WORLD);
    Logger<FP, MP> lg("nm", ll, comm, suf);
    lg.set_no_format();
    Model m{on, has_file<FP>(), ll, ll, ll};
    lf = lg.get_logfile_name();
    bool lv = !on || (lg.log_level() == ll && lg.console_level() == ll && lg.file_level() == ll);
    bool offr = on || (lg.log_level() == L::off && lg.file_level() == L::off);
    if (set_sinks) { lg.set_console_level(cl); lg.set_file_level(fl); m.con = cl; m.fil = fl; }
    bool lv2 = !on || !set_sinks || (lg.log_level() == ll && lg.console_level() == cl && lg.file_level() == fl);
    for (int i = 0; i < 6; ++i) { std::string t = std::string("m-") + ln(ALL[i]); msg(m, ALL[i], t, e); emit(lg, ALL[i], t); }
    con = cap.end();
    MC_CHECK(ctx, lv, "initial-levels", "a new logger with level " << ln(ll) << " has levels log=" << ln(lg.log_level()) << " console=" << ln(lg.console_level()) << " file=" << ln(lg.file_level()));
    MC_CHECK(ctx, offr, "off-rank-levels", "logger on " << WHERE(s) << ", which should not log, is not off (log=" << ln(lg.log_level()) << " file=" << ln(lg.file_level()) << ")");
    MC_CHECK(ctx, lv2, "set-levels", "levels after setting console=" << ln(cl) << " file=" << ln(fl) << " are console=" << ln(lg.console_level()) << " file=" << ln(lg.file_level()));
  }
  MC_CHECK(ctx, con == e.console, "console", WHERE(s) << ", levels log=" << ln(ll) << " console=" << ln(cl) << (set_sinks ? "" : "(unset)") << ": console shows " << mc::show(con) << ", expected " << mc::show(e.console));
  std::string want = fname<FP, MP>("nm", s, suf);
  MC_CHECK(ctx, lf == (has_file<FP>() ? want : ""), "file-name", WHERE(s) << ": log file name is " << mc::show(lf) << ", expected " << mc::show(has_file<FP>() ? want : std::string()));
  std::vector<std::string> wf; if (on && has_file<FP>()) wf.push_back(want);
  auto fs = files();
  MC_CHECK(ctx, fs == wf, "files", WHERE(s) << ": files created: " << mc::show(fs) << ", expected " << mc::show(wf));
  if (!wf.empty()) { auto c = slurp(want); MC_CHECK(ctx, c == e.file, "file", WHERE(s) << ", levels log=" << ln(ll) << " file=" << ln(fl) << (set_sinks ? "" : "(unset)") << ": file has " << mc::show(c) << ", expected " << mc::show(e.file)); }
  uint64_t h = mc::hash_str(e.console + "|" + e.file + "|" + want); ctx.outcome(h); ctx.state(mc::mix(h, int(ll) * 49 + int(cl) * 7 + int(fl)));
}
// histories of level changes and messages, one or two loggers (the second shares the sinks of the first)
template <class FP, class MP, class MP2> void history(mc::Ctx& ctx, int len) {
  auto s = setup(ctx, !ctx.tier()); const Alpha& A = alpha(ctx); L l0 = ctx.pick(A.init, "level"); int when = ctx.choose(3, "second logger"); // 0 none, 1 at once, 2 after two steps
  L l1 = when ? ctx.pick(A.init2, "level of second") : L::off;
  bool on = all_ranks<MP>() || s.rank == 0, on2 = all_ranks<MP2>() || s.rank == 0;
  Expect e; std::string con, lf2; bool bad_levels = false; std::string desc; std::string what;
  clean(); cap.begin();
  try {
    ekat::Comm comm(MPI_COMM_WORLD);
    auto a = std::make_unique<Logger<FP, MP>>("a", l0, comm); a->set_no_format();
    std::unique_ptr<Logger<FP, MP2>> b;
    L con_l = l0, fil_l = l0, la = l0, lb = l1;      // sink levels are shared
    if (when == 1) { b = std::make_unique<Logger<FP, MP2>>("b", l1, comm, *a); b->set_no_format(); }
    int n = 0; bool sa = on && true; (void) sa;
    // level of the sinks as seen by someone who logs
    for (int i = 0; i < len; ++i) {
      if (when == 2 && i == 2) {
        b = std::make_unique<Logger<FP, MP2>>("b", l1, comm, *a); b->set_no_format();
      }
      if (on && (a->console_level() != con_l || a->file_level() != fil_l || a->log_level() != la)) bad_levels = true;
      bool second = b ? ctx.flag("who") : false; int op = ctx.choose(4, "op"); L v = op < 3 ? ctx.pick(A.levels, "level") : ctx.pick(A.msgs, "message");
      spdlog::logger& lg = second ? static_cast<spdlog::logger&>(*b) : *a; LoggerBase& lbse = second ? static_cast<LoggerBase&>(*b) : *a;
      // a logger on a rank that does not log has sinks of its own that lead nowhere
      bool lon = second ? on2 : on;
      bool shared = second ? on2 : true;   // the second logger holds the first one's sinks only if it logs
      if (ctx.tracing()) desc += std::string(second ? " b." : " a.") + (op == 0 ? "log_level=" : op == 1 ? "console_level=" : op == 2 ? "file_level=" : "message ") + ln(v);
      switch (op) {
        case 0: lbse.set_log_level(v); (second ? lb : la) = v; break;
        case 1: lbse.set_console_level(v); if (shared) con_l = v; break;
        case 2: lbse.set_file_level(v); if (shared) fil_l = v; break;
        case 3: {
          std::string t = std::string(second ? "b" : "a") + std::to_string(n++) + ln(v); emit(lg, v, t);
          if (lon && (second ? on : true)) { Model m{true, has_file<FP>(), second ? lb : la, con_l, fil_l}; msg(m, v, t, e); }
        }
      }
    }
    if (b) { lf2 = b->get_logfile_name(); }
    what = a->get_logfile_name();
    if (ctx.flag("destroy first logger first")) { a.reset(); if (b) { emit(*b, L::critical, "last"); if (on && on2) { Model m{true, has_file<FP>(), lb, con_l, fil_l}; msg(m, L::critical, "last", e); } } }
  } catch (...) { cap.end(); throw; }
  con = cap.end(); MC_LOG(ctx, "history:" << desc);
  MC_CHECK(ctx, !bad_levels, "levels-changed", WHERE(s) << ": the levels of the first logger changed without a call (second logger created at " << when << ")");
  MC_CHECK(ctx, con == e.console, "console", WHERE(s) << ": console shows " << mc::show(con) << ", expected " << mc::show(e.console) << " after" << desc);
  std::string want = fname<FP, MP>("a", s, ".log");
  if (when) MC_CHECK(ctx, lf2 == what, "file-name-shared", "a logger that shares sinks reports the file name " << mc::show(lf2) << " instead of " << mc::show(what));
  std::vector<std::string> wf; if (on && has_file<FP>()) wf.push_back(want);
  auto fs = files(); MC_CHECK(ctx, fs == wf, "files", WHERE(s) << ": files created: " << mc::show(fs) << ", expected " << mc::show(wf));
  if (!wf.empty()) { auto c = slurp(want); MC_CHECK(ctx, c == e.file, "file", WHERE(s) << ": file has " << mc::show(c) << ", expected " << mc::show(e.file) << " after" << desc); }
  uint64_t h = mc::hash_str(e.console + "|" + e.file + "|" + want); ctx.outcome(h); ctx.state(h);
}
// large communicators, long names, many messages of many lengths, levels changed along the way
template <class FP, class MP, class MP2> void sizes(mc::Ctx& ctx) {
  static const std::vector<int> N = {1, 4, 9, 10, 11, 12, 16, 17, 99, 100, 101, 256, 1000, 1024, 10000}; int n = ctx.pick(N, "ranks"); std::vector<int> rs; for (int r : {0, 1, 2, 5, 9, 10, 11, 15, 16, 99, 100, 255, 999, n / 2, n - 1}) if (r < n && std::find(rs.begin(), rs.end(), r) == rs.end()) rs.push_back(r);
  int rank = ctx.pick(rs, "rank"); fmpi::W().start(ctx, 1); fmpi::W().n = n; auto& w = fmpi::W().world; w.world.resize(size_t(n)); for (int i = 0; i < n; ++i) w.world[size_t(i)] = i; w.seq.assign(size_t(n), 0); fmpi::W().fixed_rank = rank; Setup s{n, rank, 0};
  static const int NL[] = {1, 2, 15, 16, 33, 128, 200}; static const std::vector<std::string> SU = {".log", "", "x", ".a.b.c", ".0123456789012345"}; std::string nm; int nl = NL[ctx.choose(7, "name")]; for (int i = 0; i < nl; ++i) nm += char("ab.c-d_3"[i * 5 % 8 ? i * 5 % 8 : 0]); std::string suf = ctx.pick(SU, "suffix");
  static const int ML[] = {1, 2, 3, 7, 20, 64}; int nmsg = ML[ctx.choose(6, "messages")]; int seed = ctx.choose(ctx.tier() ? 6 : 2, "family"); bool two = ctx.flag("second logger");
  bool on = all_ranks<MP>() || rank == 0, on2 = all_ranks<MP2>() || rank == 0; Expect e; std::string con, lf, lf2; L l0 = ALL[seed % 3]; static const int LEN[] = {1, 0, 7, 16, 63, 64, 249, 250, 251, 500, 1000, 4096, 5000};
  clean(); cap.begin();
  try {
    ekat::Comm comm(MPI_COMM_WORLD); auto a = std::make_unique<Logger<FP, MP>>(nm, l0, comm, suf); a->set_no_format(); std::unique_ptr<Logger<FP, MP2>> b; if (two) { b = std::make_unique<Logger<FP, MP2>>("second", L::trace, comm, *a); b->set_no_format(); }
    Model m{on, has_file<FP>(), l0, l0, l0}; L lb = L::trace;
    for (int i = 0; i < nmsg; ++i) {
      if (i % 5 == 4) { L v = ALL[(i / 5 + seed) % 7]; switch (i / 5 % 3) { case 0: a->set_console_level(v); m.con = v; break; case 1: a->set_file_level(v); m.fil = v; break; default: a->set_log_level(v); m.log = v; } }
      L v = ALL[(i * 5 + seed) % 6]; std::string t = std::to_string(i) + ln(v); int len = LEN[(i + seed) % 13]; while (int(t.size()) < len) t += char('a' + t.size() % 26);
      bool second = two && i % 3 == 2; Model mm = m; if (second) { mm.log = lb; mm.on = on && on2; } emit(second ? static_cast<spdlog::logger&>(*b) : *a, v, t); msg(mm, v, t, e);
    }
    lf = a->get_logfile_name(); if (b) lf2 = b->get_logfile_name();
  } catch (...) { cap.end(); throw; }
  con = cap.end(); std::string want = fname<FP, MP>(nm, s, suf);
  MC_CHECK(ctx, con == e.console, "console", WHERE(s) << ", " << nmsg << " messages: console shows " << con.size() << " characters: " << mc::show(con) << ", expected " << e.console.size() << ": " << mc::show(e.console));
  MC_CHECK(ctx, lf == (has_file<FP>() ? want : ""), "file-name", WHERE(s) << ": log file name is " << mc::show(lf) << ", expected " << mc::show(want)); if (two) MC_CHECK(ctx, lf2 == lf, "file-name-shared", "a logger that shares sinks reports the file name " << mc::show(lf2));
  std::vector<std::string> wf; if (on && has_file<FP>()) wf.push_back(want); auto fs = files(); MC_CHECK(ctx, fs == wf, "files", WHERE(s) << ": files created: " << mc::show(fs) << ", expected " << mc::show(wf));
  if (!wf.empty()) { auto c = slurp(want); MC_CHECK(ctx, c == e.file, "file", WHERE(s) << ", " << nmsg << " messages: file has " << mc::show(c) << ", expected " << mc::show(e.file)); }
  uint64_t h = mc::hash_str(e.console + "|" + e.file + "|" + want); ctx.outcome(h); ctx.state(h);
}
} // namespace
#define SZ(f, m, n) MC_SCENARIO(sizes_##f##_##m##_##n, "Logger<" #f "," #m "> alone or with a Logger<" #f "," #n "> on its sinks: 1-10000 ranks around 10, 16, 100, 1000, up to 13 ranks of each, names of 1-200 characters, 5 suffixes, 1-64 messages of 1-5000 characters, a level changed after every five", 3) { sizes<f, m, n>(ctx); }
SZ(LogNoFile, LogAllRanks, LogRootRank) SZ(LogBasicFile, LogRootRank, LogAllRanks) SZ(LogBasicFile, LogAllRanks, LogRootRank) SZ(LogBigFiles, LogAllRanks, LogAllRanks)
#define LV(f, m) MC_SCENARIO(levels_##f##_##m, "Logger<" #f "," #m ">: rank 0 of 1-3, last rank of 2-3; 7x7x7 level triples (sink levels set or left), 3 file suffixes, all 6 message levels", 3) { levels<f, m>(ctx); }
LV(LogNoFile, LogRootRank) LV(LogNoFile, LogAllRanks) LV(LogBasicFile, LogRootRank) LV(LogBasicFile, LogAllRanks) LV(LogBigFiles, LogRootRank) LV(LogBigFiles, LogAllRanks)
#define HI(f, m, n) MC_SCENARIO(hist_##f##_##m##_##n, "histories of 3 operations {set log/console/file level to 3 (thorough: 4) levels, message at 2 (thorough: 4) levels} over Logger<" #f "," #m "> and an optional Logger<" #f "," #n "> sharing its sinks, created at once or later; ranks as above", 4) { history<f, m, n>(ctx, 3); }
HI(LogNoFile, LogRootRank, LogRootRank) HI(LogNoFile, LogAllRanks, LogRootRank) HI(LogBasicFile, LogRootRank, LogRootRank) HI(LogBasicFile, LogRootRank, LogAllRanks) HI(LogBasicFile, LogAllRanks, LogRootRank) HI(LogBigFiles, LogAllRanks, LogAllRanks)
