// An MPI implementation whose ranks are fibers of the controlled scheduler.  Collectives of one communicator
// are matched by their order of arrival; operation, count, type and root must agree and buffers must not alias.
// A rank leaves a collective as soon as the standard lets it (not only when everybody arrived).
#pragma once
#include "../mc/fiber.hpp"
#include <mpi.h>
#include <complex>
#include <deque>
namespace fmpi {
struct Call { int kind, count, root; MPI_Datatype type; MPI_Op op; int count2; MPI_Datatype type2; bool inplace;
  std::vector<char> data; int color = 0, key = 0; bool here = false; };
struct CommImpl {
  std::vector<int> world;                  // world rank of each member
  std::vector<int> seq;                    // collectives begun by each member
  std::vector<int> done;
  std::deque<std::vector<Call>> calls;     // per collective, per member
  std::map<int, CommImpl*> split_res;      // (call*1000+member) -> new comm
  bool freed = false; bool self = false;
};
struct World {
  mc::Ctx* ctx = nullptr; int n = 0; bool inited = true;
  CommImpl world; std::vector<CommImpl> self; std::vector<std::unique_ptr<CommImpl>> made;
  std::vector<std::string> log;
  bool real_size_rank_only = false; int fixed_rank = -1;
  void start(mc::Ctx& c, int nranks) {
    ctx = &c; n = nranks; made.clear(); self.assign(n, CommImpl{}); world = CommImpl{};
    for (int i = 0; i < n; ++i) { world.world.push_back(i); self[i].world = {i}; self[i].seq = {0}; self[i].self = true; }
    world.seq.assign(n, 0); inited = true; fixed_rank = -1;
  }
};
inline World& W() { static World w; return w; }
inline int me() { return W().fixed_rank >= 0 ? W().fixed_rank : mc::Sched::get().current(); }
[[noreturn]] inline void bad(const std::string& k, const std::string& m) { throw mc::Violation{k, m}; }
inline CommImpl& impl(MPI_Comm c) {
  if (!W().inited) bad("mpi-not-initialized", "MPI function called before MPI_Init");
  if (c == MPI_COMM_WORLD) return W().world;
  if (c == MPI_COMM_SELF) return W().self[me()];
  for (auto& p : W().made) if (reinterpret_cast<MPI_Comm>(p.get()) == c) { if (p->freed) bad("mpi-use-after-free", "freed communicator used"); return *p; }
  bad("mpi-bad-comm", "MPI function called with an invalid communicator");
}
inline int member(const CommImpl& c) { int r = me(); for (size_t i = 0; i < c.world.size(); ++i) if (c.world[i] == r) return int(i); bad("mpi-not-member", "rank uses a communicator it does not belong to"); }
inline size_t tsize(MPI_Datatype t) {
  if (t == MPI_CHAR || t == MPI_SIGNED_CHAR || t == MPI_UNSIGNED_CHAR || t == MPI_BYTE || t == MPI_INT8_T || t == MPI_UINT8_T) return 1;
  if (t == MPI_CXX_BOOL || t == MPI_C_BOOL) return sizeof(bool);
  if (t == MPI_SHORT || t == MPI_UNSIGNED_SHORT || t == MPI_INT16_T || t == MPI_UINT16_T) return sizeof(short);
  if (t == MPI_INT || t == MPI_UNSIGNED || t == MPI_INT32_T || t == MPI_UINT32_T) return sizeof(int);
  if (t == MPI_LONG || t == MPI_UNSIGNED_LONG || t == MPI_LONG_LONG || t == MPI_LONG_LONG_INT || t == MPI_UNSIGNED_LONG_LONG || t == MPI_INT64_T || t == MPI_UINT64_T) return sizeof(long);
  if (t == MPI_FLOAT) return sizeof(float);
  if (t == MPI_DOUBLE) return sizeof(double);
  if (t == MPI_2INT) return 2 * sizeof(int);
  bad("mpi-bad-type", "collective called with an unknown data type");
}
template <class T> void fold(std::vector<char>& acc, const std::vector<char>& x, int n, MPI_Op op) {
  for (int i = 0; i < n; ++i) {
    T a, b; memcpy(&a, acc.data() + i * sizeof(T), sizeof(T)); memcpy(&b, x.data() + i * sizeof(T), sizeof(T));
    T r = a;
    if (op == MPI_SUM) r = T(a + b); else if (op == MPI_PROD) r = T(a * b);
    else if (op == MPI_MAX) r = a < b ? b : a; else if (op == MPI_MIN) r = b < a ? b : a;
    else if (op == MPI_LAND) r = T(a && b); else if (op == MPI_LOR) r = T(a || b); else if (op == MPI_LXOR) r = T(bool(a) != bool(b));
    else if constexpr (std::is_integral<T>::value) {
      if (op == MPI_BAND) r = T(a & b); else if (op == MPI_BOR) r = T(a | b); else if (op == MPI_BXOR) r = T(a ^ b); else bad("mpi-bad-op", "unknown reduction");
    } else bad("mpi-bad-op", "reduction not defined for this type");
    memcpy(acc.data() + i * sizeof(T), &r, sizeof(T));
  }
}
inline void fold(std::vector<char>& acc, const std::vector<char>& x, int n, MPI_Datatype t, MPI_Op op) {
  if (t == MPI_CXX_BOOL || t == MPI_C_BOOL) fold<bool>(acc, x, n, op);
  else if (t == MPI_FLOAT) fold<float>(acc, x, n, op);
  else if (t == MPI_DOUBLE) fold<double>(acc, x, n, op);
  else if (t == MPI_UNSIGNED || t == MPI_UINT32_T) fold<unsigned>(acc, x, n, op);
  else if (t == MPI_UNSIGNED_LONG || t == MPI_UNSIGNED_LONG_LONG || t == MPI_UINT64_T) fold<unsigned long>(acc, x, n, op);
  else if (t == MPI_UNSIGNED_CHAR || t == MPI_UINT8_T) fold<unsigned char>(acc, x, n, op);
  else switch (tsize(t)) {
    case 1: fold<signed char>(acc, x, n, op); break;
    case 2: fold<short>(acc, x, n, op); break;
    case 4: fold<int>(acc, x, n, op); break;
    default: fold<long>(acc, x, n, op);
  }
}
inline const char* kind_name(int k) { static const char* n[] = {"barrier","bcast","reduce","allreduce","scan","exscan","gather","allgather","split","dup","scatter"}; return n[k]; }
enum { BARRIER, BCAST, REDUCE, ALLREDUCE, SCAN, EXSCAN, GATHER, ALLGATHER, SPLIT, DUP, SCATTER };
inline void disjoint(const void* a, size_t na, const void* b, size_t nb, const char* what) {
  auto x = (const char*)a; auto y = (const char*)b;
  if (na && nb && x < y + nb && y < x + na) bad("mpi-aliased-buffers", std::string(what) + ": send and receive buffers overlap");
}
// Begin a collective: checks the match, waits until `need` says enough members arrived; returns its record
inline std::vector<Call>& enter(CommImpl& c, Call call, const std::function<bool(const std::vector<Call>&, int)>& need, int& idx) {
  auto& S = mc::Sched::get();
  int m = member(c);
  S.point(kind_name(call.kind));
  idx = c.seq[m]++;
  while (int(c.calls.size()) <= idx) c.calls.emplace_back(c.world.size());
  for (auto& o : c.calls[idx]) if (o.here) {
    if (o.kind != call.kind) bad("mpi-mismatch", std::string("ranks call different collectives: ") + kind_name(o.kind) + " and " + kind_name(call.kind));
    if (o.root != call.root) bad("mpi-mismatch", std::string(kind_name(call.kind)) + ": different roots");
    if (o.kind != BARRIER && o.kind != SPLIT && o.kind != DUP && size_t(o.count) * tsize(o.type) != size_t(call.count) * tsize(call.type)) bad("mpi-mismatch", std::string(kind_name(call.kind)) + ": different message sizes");
    if (o.op != call.op) bad("mpi-mismatch", std::string(kind_name(call.kind)) + ": different operations");
  }
  call.here = true;
  c.calls[idx][m] = std::move(call);
  int i = idx; CommImpl* pc = &c;
  S.block(kind_name(c.calls[idx][m].kind), [pc, i, m, &need] { return need(pc->calls[i], m); });
  return c.calls[idx];
}
inline bool all_here(const std::vector<Call>& v, int) { for (auto& c : v) if (!c.here) return false; return true; }
inline std::vector<char> bytes(const void* p, size_t n) { auto c = (const char*)p; return std::vector<char>(c, c + n); }
inline Call mk(int kind, int count, MPI_Datatype t, MPI_Op op = MPI_OP_NULL, int root = 0) {
  if (count < 0) bad("mpi-bad-count", "negative count");
  Call c; c.kind = kind; c.count = count; c.type = t; c.op = op; c.root = root; c.count2 = 0; c.type2 = t; c.inplace = false; return c;
}
inline void badroot(CommImpl& c, int root) { if (root < 0 || root >= int(c.world.size())) bad("mpi-bad-root", "root rank out of range"); }
} // namespace fmpi
extern "C" {
int MPI_Initialized(int* f) { *f = fmpi::W().inited; return 0; }
int MPI_Finalized(int* f) { *f = 0; return 0; }
int MPI_Comm_size(MPI_Comm c, int* s) { *s = int(fmpi::impl(c).world.size()); return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = fmpi::member(fmpi::impl(c)); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler) { fmpi::impl(c); return 0; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) { *r = a == b ? MPI_IDENT : (fmpi::impl(a).world == fmpi::impl(b).world ? MPI_CONGRUENT : MPI_UNEQUAL); return 0; }
int MPI_Type_size(MPI_Datatype t, int* s) { *s = int(fmpi::tsize(t)); return 0; }
int MPI_Abort(MPI_Comm, int) { fmpi::bad("mpi-abort", "MPI_Abort called"); }
int MPI_Barrier(MPI_Comm c) { int i; fmpi::enter(fmpi::impl(c), fmpi::mk(fmpi::BARRIER, 0, MPI_BYTE), fmpi::all_here, i); return 0; }
int MPI_Bcast(void* buf, int n, MPI_Datatype t, int root, MPI_Comm comm) {
  using namespace fmpi; auto& c = impl(comm); int m = member(c), i; badroot(c, root);
  Call k = mk(BCAST, n, t, MPI_OP_NULL, root); size_t b = size_t(n) * tsize(t); if (m == root) k.data = bytes(buf, b);
  auto& v = enter(c, k, [root](const std::vector<Call>& a, int me) { return me == root || a[root].here; }, i);
  if (m != root && b) memcpy(buf, v[root].data.data(), b);
  return 0;
}
static int red(int kind, const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm comm) {
  using namespace fmpi; auto& c = impl(comm); int m = member(c), i; badroot(c, root);
  size_t b = size_t(n) * tsize(t); bool ip = s == MPI_IN_PLACE; if (r == MPI_IN_PLACE) bad("mpi-in-place", "MPI_IN_PLACE given as receive buffer");
  if (kind == REDUCE && ip && m != root) bad("mpi-in-place", "MPI_IN_PLACE given by a non-root");
  if (!ip && (kind != REDUCE || m == root)) disjoint(s, b, r, b, kind_name(kind));
  Call k = mk(kind, n, t, op, root); k.data = bytes(ip ? r : s, b);
  auto need = [kind, root](const std::vector<Call>& a, int me) {
    if (kind == SCAN) { for (int j = 0; j <= me; ++j) if (!a[j].here) return false; return true; }
    if (kind == EXSCAN) { for (int j = 0; j < me; ++j) if (!a[j].here) return false; return true; }
    if (kind == REDUCE && me != root) return true;
    return all_here(a, me); };
  auto& v = enter(c, k, need, i);
  int lo = 0, hi = kind == SCAN ? m + 1 : kind == EXSCAN ? m : int(c.world.size());
  if ((kind == REDUCE && m != root) || hi == 0) return 0;
  auto acc = v[lo].data; for (int j = lo + 1; j < hi; ++j) fold(acc, v[j].data, n, t, op);
  if (b) memcpy(r, acc.data(), b);
  return 0;
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return red(fmpi::REDUCE, s, r, n, t, op, root, c); }
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return red(fmpi::ALLREDUCE, s, r, n, t, op, 0, c); }
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return red(fmpi::SCAN, s, r, n, t, op, 0, c); }
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return red(fmpi::EXSCAN, s, r, n, t, op, 0, c); }
static int gath(int kind, const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm comm) {
  using namespace fmpi; auto& c = impl(comm); int m = member(c), i; badroot(c, root); int P = int(c.world.size());
  bool recv = kind == ALLGATHER || m == root; bool ip = s == MPI_IN_PLACE;
  if (ip && !recv) bad("mpi-in-place", "MPI_IN_PLACE given by a non-root");
  size_t rb = recv ? size_t(rn) * tsize(rt) : 0, sb = ip ? rb : size_t(sn) * tsize(st);
  if (recv && sb != rb) bad("mpi-truncate", "gather: send and receive sizes differ");
  if (recv && !ip) disjoint(s, sb, r, rb * P, kind_name(kind));
  Call k = mk(kind, int(sb), MPI_BYTE, MPI_OP_NULL, root); k.data = bytes(ip ? (const char*)r + rb * m : s, sb);
  auto& v = enter(c, k, [kind, recv](const std::vector<Call>& a, int me) { return !recv || all_here(a, me); }, i);
  if (recv) for (int j = 0; j < P; ++j) if (rb) memcpy((char*)r + rb * j, v[j].data.data(), rb);
  return 0;
}
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c) { return gath(fmpi::ALLGATHER, s, sn, st, r, rn, rt, 0, c); }
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return gath(fmpi::GATHER, s, sn, st, r, rn, rt, root, c); }
int MPI_Comm_split(MPI_Comm comm, int color, int key, MPI_Comm* out) {
  using namespace fmpi; auto& c = impl(comm); int m = member(c), i;
  if (color < 0 && color != MPI_UNDEFINED) bad("mpi-bad-color", "negative color");
  Call k = mk(SPLIT, 0, MPI_BYTE); k.color = color; k.key = key;
  auto& v = enter(c, k, all_here, i);
  if (color == MPI_UNDEFINED) { *out = MPI_COMM_NULL; return 0; }
  auto it = c.split_res.find(i * 1000 + m);
  if (it == c.split_res.end()) {
    std::vector<int> g; for (size_t j = 0; j < v.size(); ++j) if (v[j].color == color) g.push_back(int(j));
    std::stable_sort(g.begin(), g.end(), [&](int a, int b) { return v[a].key < v[b].key; });
    auto nc = std::make_unique<CommImpl>(); for (int j : g) nc->world.push_back(c.world[j]); nc->seq.assign(g.size(), 0);
    for (int j : g) c.split_res[i * 1000 + j] = nc.get();
    W().made.push_back(std::move(nc)); it = c.split_res.find(i * 1000 + m);
  }
  *out = reinterpret_cast<MPI_Comm>(it->second); return 0;
}
int MPI_Comm_dup(MPI_Comm comm, MPI_Comm* out) { return MPI_Comm_split(comm, 0, fmpi::member(fmpi::impl(comm)), out); }
}
