#include "mc.hpp"
#include <cerrno>
#include <csignal>
#include <exception>
#include <typeinfo>
#include <chrono>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <cxxabi.h>

extern "C" void __asan_init() __attribute__((weak));
namespace mc {
void (*worker_init)() = nullptr; void (*worker_fini)() = nullptr;
std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }

// Shared with the parent, so that a crash or hang leaves the current case behind
struct Crumb {
  volatile uint64_t beat;            // bumped at every execution and choice
  volatile int scenario;
  volatile int n;
  volatile int viol, stop;           // MC_STOP=1 (mutation runs): end everything after the first violation
  volatile int choices[4000];
};
static Crumb* g_crumb = nullptr;
static int g_tier = 0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

int Ctx::tier() const { return g_tier; }

int Ctx::choose(int n, const char* label) {
  if (n <= 0) throw Divergence{"choose() with no alternative"};
  if (m_skip) return 0;
  int c = 0;
  if (m_pos < m_prefix.size()) {
    c = m_prefix[m_pos];
    if (c >= n) throw Divergence{std::string("replayed choice out of range at ") + (label ? label : "?")};
    if (m_pos < m_points.size() && m_points[m_pos].n != n && m_points[m_pos].n >= 0)
      throw Divergence{std::string("number of alternatives changed while replaying at ") + (label ? label : "?")};
  }
  if (m_pos < m_points.size()) { m_points[m_pos].n = n; m_points[m_pos].c = c; }
  else m_points.push_back({n, c});
  ++m_pos;
  if (g_crumb) {
    if (m_pos <= 4000) { g_crumb->choices[m_pos-1] = c; g_crumb->n = int(m_pos); }
    g_crumb->beat = g_crumb->beat + 1;
  }
  ++m_stats->transitions;
  if (m_trace && label) { log(std::string("choose ") + label + " = " + std::to_string(c) + " of " + std::to_string(n)); }
  if (m_nworkers > 1 && int(m_pos) == m_shard_depth) {
    std::vector<int> key; for (size_t i = 0; i < m_pos; ++i) key.push_back(m_points[i].c);
    uint64_t h = 7; for (int k : key) h = mix(h, uint64_t(k));
    if (int(h % uint64_t(m_nworkers)) != m_worker) { if (!m_defer_skip) throw SkipExec{}; m_skip = true; }
  }
  return c;
}
void Ctx::visit(uint64_t h, int remaining) {
  m_stats->states.insert(h);
  // states on the replayed prefix (before the last backtracking point) were visited by ourselves
  if (m_pos < m_prefix.size() || (m_nworkers > 1 && int(m_pos) < m_shard_depth)) return;
  auto it = m_visited.find(h);
  if (it != m_visited.end() && it->second >= remaining) { ++m_stats->pruned; throw PruneExec{}; }
  m_visited[h] = remaining;
}
void Ctx::report(const std::string& key, const std::string& msg) { m_reported.push_back({key, msg}); }

struct Found { std::string scenario, key, msg; std::vector<int> choices; };

static std::string jesc(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}
template <class T> static std::string jlist(const std::vector<T>& v) { std::string s="["; for (size_t i=0;i<v.size();++i){ if(i) s+=","; s+=std::to_string(v[i]); } return s+"]"; }

// Runs one execution; returns violations found in it.
static std::vector<Violation> run_one1(const Scenario& sc, Ctx& ctx) {
  ctx.m_pos = 0; ctx.m_reported.clear();
  std::vector<Violation> v;
  if (g_crumb) { g_crumb->n = 0; g_crumb->beat = g_crumb->beat + 1; }
  try { sc.body(ctx); }
  catch (const Violation& x) { v = ctx.m_reported; v.push_back(x); return v; }
  catch (const PruneExec&) { }
  catch (const SkipExec&) { throw; }
  catch (const Divergence&) { throw; }
  catch (const std::exception& e) {
    int st; char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    v = ctx.m_reported;
    v.push_back({"unexpected-exception", std::string("unexpected exception ") + (n ? n : "?") + ": " + e.what()});
    free(n);
    return v;
  }
  catch (...) { v = ctx.m_reported; v.push_back({"unexpected-exception", "unexpected exception of unknown type"}); return v; }
  return ctx.m_reported;
}

static std::vector<Violation> run_one(const Scenario& sc, Ctx& ctx) {
  ctx.m_skip = false; ctx.m_defer_skip = false;
  auto v = run_one1(sc, ctx);
  if (ctx.m_skip) throw SkipExec{};
  return v;
}

static void write_all(int fd, const std::string& s) {
  size_t o = 0; while (o < s.size()) { ssize_t k = ::write(fd, s.data()+o, s.size()-o); if (k <= 0) { if (errno==EINTR) continue; _exit(97);} o += size_t(k); }
}

struct Opts { int workers = 8; double time_limit = 1e9; double hang = 120; std::string replay, only, out; int max_keys = 300; };

// body of one worker: explores its share, then writes a result record
static void worker_main(const std::vector<int>& todo, const Opts& o, int w, int nw, const std::string& path, double t_end) {
  std::ofstream f(path);
  if (worker_init) worker_init();
  bool poisoned = false;
  for (int si : todo) {
    if (poisoned) break;
    const auto& sc = scenarios()[si];
    Stats st; Ctx ctx; ctx.m_stats = &st; ctx.m_scenario = sc.name; ctx.m_worker = w; ctx.m_nworkers = nw; ctx.m_shard_depth = sc.shard_depth;
    if (g_crumb) g_crumb->scenario = si;
    std::map<std::string, Found> found; bool complete = true; uint64_t nviol = 0;
    std::vector<std::vector<int>> samples;
    while (true) {
      bool skipped = false;
      std::vector<Violation> v;
      try { v = run_one(sc, ctx); }
      catch (const SkipExec&) { skipped = true; }
      catch (const Divergence& d) { f << "D\t" << sc.name << "\t" << d.what << "\n"; complete = false; break; }
      if (!skipped) {
        bool mine = int(ctx.m_pos) >= sc.shard_depth || nw == 1 || w == 0;
        if (mine) {
          ++st.executions; st.max_depth = std::max<uint64_t>(st.max_depth, ctx.m_pos);
          if (samples.size() < 2 || (st.executions & (st.executions-1)) == 0) {
            std::vector<int> c; for (size_t i=0;i<ctx.m_pos;++i) c.push_back(ctx.m_points[i].c);
            if (samples.size() < 4) samples.push_back(c); else samples[2 + st.executions % 2] = c;
          }
          if (!v.empty() && g_crumb) g_crumb->viol = 1;
          for (auto& x : v) {
            ++nviol;
            if (!found.count(x.key) && int(found.size()) < o.max_keys) {
              std::vector<int> c; for (size_t i=0;i<ctx.m_pos;++i) c.push_back(ctx.m_points[i].c);
              found[x.key] = {sc.name, x.key, x.msg, c};
            }
          }
        }
      }
      if (ctx.m_poisoned) { complete = false; poisoned = true; break; }
      if (g_crumb && g_crumb->stop) { complete = false; poisoned = true; break; }
      if (nviol >= 5000) { complete = false; break; }
      // next choice sequence
      ctx.m_points.resize(ctx.m_pos);
      while (!ctx.m_points.empty() && ctx.m_points.back().c + 1 >= ctx.m_points.back().n) ctx.m_points.pop_back();
      if (ctx.m_points.empty()) break;
      ctx.m_prefix.clear();
      for (auto& p : ctx.m_points) ctx.m_prefix.push_back(p.c);
      ctx.m_prefix.back()++;
      ctx.m_points.back().c++;
      if (now() > t_end) { complete = false; break; }
    }
    f << "S\t" << sc.name << "\t" << st.executions << "\t" << st.transitions << "\t" << st.checks << "\t" << st.pruned << "\t" << st.max_depth << "\t" << (complete?1:0) << "\t" << nviol << "\n";
    auto dump = [&](char tag, const std::unordered_set<uint64_t>& s) {
      f << tag << "\t" << sc.name << "\t" << s.size();
      if (s.size() <= 400000) for (auto h : s) f << " " << std::hex << h << std::dec;
      f << "\n";
    };
    dump('H', st.states); dump('O', st.outcomes);
    for (auto& c : samples) { f << "E\t" << sc.name << "\t" << jlist(c) << "\n"; }
    for (auto& kv : found) f << "V\t" << sc.name << "\t" << jlist(kv.second.choices) << "\t" << jesc(kv.second.key) << "\t" << jesc(kv.second.msg) << "\n";
    f.flush();
  }
  if (worker_fini && !poisoned) worker_fini();
  f << "DONE\n"; f.close();
}

static std::vector<int> parse_choices(const std::string& s) {
  std::vector<int> v; int cur = -1;
  for (char c : s) { if (c>='0'&&c<='9') cur = (cur<0?0:cur)*10 + (c-'0'); else { if (cur>=0) v.push_back(cur); cur=-1; } }
  if (cur>=0) v.push_back(cur);
  return v;
}

static int replay(const std::string& spec) {
  auto p = spec.find(':');
  std::string name = spec.substr(0,p); auto ch = p==std::string::npos ? std::vector<int>{} : parse_choices(spec.substr(p+1));
  for (auto& sc : scenarios()) if (sc.name == name) {
    if (worker_init) worker_init();
    Stats st; Ctx ctx; ctx.m_stats=&st; ctx.m_trace=true; ctx.m_prefix = ch; ctx.m_scenario = name;
    std::vector<Violation> v;
    try { v = run_one(sc, ctx); } catch (const Divergence& d) { printf("DIVERGED %s\n", d.what.c_str()); return 3; } catch (const SkipExec&) {}
    for (auto& x : v) printf("REPLAY-VIOLATION\t%s\t%s\n", jesc(x.key).c_str(), jesc(x.msg).c_str());
    fflush(stdout);
    if (ctx.m_poisoned) { fflush(stdout); _exit(1); }
    if (worker_fini) worker_fini();
    return v.empty() ? 0 : 1;
  }
  printf("no scenario %s\n", name.c_str()); return 3;
}

int main_impl(int argc, char** argv) {
  Opts o;
  for (int i=1;i<argc;++i) {
    std::string a = argv[i]; auto next=[&]{ return std::string(argv[++i]); };
    if (a=="--workers") o.workers = std::stoi(next());
    else if (a=="--time") o.time_limit = std::stod(next());
    else if (a=="--hang") o.hang = std::stod(next());
    else if (a=="--tier") g_tier = next()=="thorough";
    else if (a=="--replay") o.replay = next();
    else if (a=="--only") o.only = next();
    else if (a=="--out") o.out = next();
    else if (a=="--list") { for (auto&s: scenarios()) printf("%s\t%s\n", s.name.c_str(), s.bounds.c_str()); return 0; }
  }
  if (!o.replay.empty()) { setvbuf(stdout, nullptr, _IOLBF, 0); return replay(o.replay); }
  std::vector<int> todo;
  for (size_t i=0;i<scenarios().size();++i) {
    auto& s = scenarios()[i];
    if (s.thorough_only && !g_tier) continue;
    if (!o.only.empty() && s.name != o.only) continue;
    todo.push_back(int(i));
  }
  double t0 = now();
  struct W { pid_t pid; std::string path; Crumb* crumb; uint64_t beat; double last; bool done=false; std::string death; };
  std::vector<W> ws;
  std::string base = (o.out.empty() ? "/tmp/mc" : o.out) + "." + std::to_string(getpid());
  fflush(stdout);
  for (int w=0; w<o.workers; ++w) {
    W x; x.path = base + "." + std::to_string(w);
    x.crumb = static_cast<Crumb*>(mmap(nullptr, sizeof(Crumb), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0));
    x.beat = 0; x.last = now();
    x.pid = fork();
    if (x.pid == 0) {
      g_crumb = x.crumb;
      std::string log = x.path + ".log";
      int fd = ::open(log.c_str(), O_CREAT|O_TRUNC|O_WRONLY|O_APPEND, 0644); dup2(fd, 1); dup2(fd, 2);
      struct rlimit rl{RLIM_INFINITY, RLIM_INFINITY}; rl.rlim_cur = 0; setrlimit(RLIMIT_CORE, &rl);
      if (!__asan_init) { struct rlimit as{8ull << 30, 8ull << 30}; setrlimit(RLIMIT_AS, &as); }   // runaway allocation ends the worker, not the machine
      worker_main(todo, o, w, o.workers, x.path, t0 + o.time_limit);
      fflush(stdout);
      _exit(0);
    }
    ws.push_back(x);
  }
  // wait, watching for hangs
  int alive = o.workers; const bool stop_early = getenv("MC_STOP") != nullptr;
  while (alive > 0) {
    usleep(20000);
    if (stop_early) { bool any = false; for (auto& x : ws) any = any || x.crumb->viol || !x.death.empty(); if (any) for (auto& x : ws) x.crumb->stop = 1; }
    for (auto& x : ws) if (!x.done) {
      int st; pid_t r = waitpid(x.pid, &st, WNOHANG);
      if (r == x.pid) {
        x.done = true; --alive;
        if (WIFSIGNALED(st)) x.death = std::string("signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
        else if (WEXITSTATUS(st) != 0) x.death = "exit status " + std::to_string(WEXITSTATUS(st));
        continue;
      }
      if (x.crumb->beat != x.beat) { x.beat = x.crumb->beat; x.last = now(); }
      else if (now() - x.last > o.hang) { kill(x.pid, SIGKILL); waitpid(x.pid,&st,0); x.done = true; --alive; x.death = "hang"; }
      // cap the worker logs
    }
  }
  // merge
  struct Agg { uint64_t ex=0,tr=0,ck=0,pr=0,md=0,nv=0; bool complete=true; std::unordered_set<uint64_t> st, oc; uint64_t st_extra=0, oc_extra=0; std::vector<std::string> samples; };
  std::map<std::string, Agg> agg; std::vector<std::string> viol; std::vector<std::string> diverged; std::map<std::string,bool> seen;
  for (auto& x : ws) {
    std::ifstream f(x.path); std::string line; bool fin=false;
    while (std::getline(f,line)) {
      if (line=="DONE") { fin=true; break; }
      std::istringstream is(line); std::string tag,name; std::getline(is,tag,'\t'); std::getline(is,name,'\t');
      auto& a = agg[name];
      if (tag=="S") { uint64_t e,t,c,p,d,nv; int comp; is>>e>>t>>c>>p>>d>>comp>>nv; a.ex+=e;a.tr+=t;a.ck+=c;a.pr+=p;a.md=std::max(a.md,d);a.complete&=comp;a.nv+=nv; }
      else if (tag=="H"||tag=="O") { uint64_t n; is>>n; auto& s = tag=="H"?a.st:a.oc; uint64_t h; is>>std::hex; uint64_t k=0; while(is>>h){s.insert(h);++k;} if(k<n) (tag=="H"?a.st_extra:a.oc_extra)=std::max((tag=="H"?a.st_extra:a.oc_extra),n); }
      else if (tag=="E") { std::string c; std::getline(is,c); if (a.samples.size()<6) a.samples.push_back(c); }
      else if (tag=="D") { std::string wh; std::getline(is,wh); diverged.push_back(name+": "+wh); }
      else if (tag=="V") { std::string c,k,m; std::getline(is,c,'\t'); std::getline(is,k,'\t'); std::getline(is,m); if (!seen[name+k]) { seen[name+k]=true; viol.push_back("{\"scenario\":"+jesc(name)+",\"choices\":"+c+",\"key\":"+k+",\"msg\":"+m+"}"); } }
    }
    std::string tail;
    { // keep the telling lines of a sanitizer report, or the last lines
      std::ifstream lf(x.path+".log"); std::string l, key, last; size_t nk=0; std::vector<std::string> ls; bool in=false; size_t fr=0;
      while (std::getline(lf,l)) { if (l.size()>300) l.resize(300);
        bool k = l.find("ERROR:")!=std::string::npos || l.find("runtime error")!=std::string::npos || l.find("SUMMARY")!=std::string::npos || l.find("terminate")!=std::string::npos || l.find("what():")!=std::string::npos || l.find("Assertion")!=std::string::npos;
        if (k) { in=true; fr=0; } bool f = in && l.find("    #")!=std::string::npos && fr++<8;
        if ((k||f) && nk++<20) key += l+"\n"; ls.push_back(l); if (ls.size()>30) ls.erase(ls.begin(), ls.begin()+15); }
      for (auto& q: ls) last += q+"\n"; tail = key.empty() ? last : key; }
    if (!fin || !x.death.empty()) {
      int si = x.crumb->scenario; std::vector<int> c; int cn = x.crumb->n; if (cn > 4000) cn = 4000; for (int i=0;i<cn;++i) { int cv = x.crumb->choices[i]; c.push_back(cv); }
      std::string name = scenarios()[si].name; agg[name].complete=false; agg[name].nv++;
      std::string kind = x.death=="hang" ? "hang" : "crash";
      if (!seen[name+kind]) { seen[name+kind]=true;
        viol.push_back("{\"scenario\":"+jesc(name)+",\"choices\":"+jlist(c)+",\"key\":"+jesc(kind)+",\"msg\":"+jesc("worker ended by "+x.death+"; log tail:\n"+tail)+"}"); }
    }
    ::unlink(x.path.c_str()); ::unlink((x.path+".log").c_str());
  }
  std::ostringstream js; js << "{\"wall_s\":" << (now()-t0) << ",\"scenarios\":[";
  bool first=true;
  for (int si : todo) {
    auto& s = scenarios()[si]; auto& a = agg[s.name];
    js << (first?"":",") << "{\"name\":" << jesc(s.name) << ",\"bounds\":" << jesc(s.bounds) << ",\"executions\":" << a.ex << ",\"transitions\":" << a.tr << ",\"checks\":" << a.ck
       << ",\"pruned\":" << a.pr << ",\"max_depth\":" << a.md << ",\"complete\":" << (a.complete?"true":"false") << ",\"states\":" << std::max<uint64_t>(a.st.size(),a.st_extra)
       << ",\"outcomes\":" << std::max<uint64_t>(a.oc.size(),a.oc_extra) << ",\"violating_executions\":" << a.nv << ",\"samples\":[";
    for (size_t i=0;i<a.samples.size();++i) js << (i?",":"") << a.samples[i];
    js << "]}"; first=false;
  }
  js << "],\"diverged\":["; for (size_t i=0;i<diverged.size();++i) js << (i?",":"") << jesc(diverged[i]);
  js << "],\"violations\":["; for (size_t i=0;i<viol.size();++i) js << (i?",":"") << viol[i];
  js << "]}";
  if (!o.out.empty()) { std::ofstream f(o.out); f << js.str() << "\n"; } else std::cout << js.str() << "\n";
  return viol.empty() && diverged.empty() ? 0 : 1;
}
} // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::main_impl(argc, argv); }
#endif
