// The communicator built without MPI behaves as a one-rank communicator.
#include "mc.hpp"
#include "ekat_comm.hpp"
#include <limits>
#ifdef EKAT_ENABLE_MPI
#error this unit is built without MPI
#endif
namespace {
template <class T> T val(int p, int i) { return std::is_same<T, bool>::value ? T((p + i) % 2) : p == 0 ? T(i + 1) : p == 1 ? std::numeric_limits<T>::lowest() : T(std::numeric_limits<T>::max() - T(i)); }
template <class T> void go(mc::Ctx& ctx, const char* tn) {
  int count = ctx.pick(std::vector<int>{0, 1, 2, 3, 16, 17, 31, 32, 33, 64, 65, 128, 129, 1000, 4097}, "count"), p = ctx.choose(3, "pattern"), form = ctx.choose(7, "form"), opi = ctx.choose(4, "op"), who = ctx.choose(4, "comm");
  static const MPI_Op O[4] = {MPI_SUM, MPI_PROD, MPI_MAX, MPI_LOR};
  ekat::Comm c; if (who == 1) c = ekat::Comm(MPI_COMM_WORLD); else if (who == 2) c = c.split(3); else if (who == 3) { c = ekat::Comm(MPI_COMM_SELF); c.reset_mpi_comm(MPI_COMM_WORLD); }
  MC_CHECK(ctx, c.size() == 1 && c.rank() == 0 && c.am_i_root() && c.root_rank() == 0, "rank", "communicator without MPI: size " << c.size() << " rank " << c.rank());
  T* in = new T[count + 2]; T* out = new T[count + 2];
  for (int i = 0; i < count + 2; ++i) { in[i] = val<T>(p, i); out[i] = T(std::is_same<T, bool>::value ? 0 : 9); }
  T g0 = out[0], g1 = out[count + 1];
  bool inplace = form == 1 || form == 3 || form == 5 || form == 6;
  if (inplace) for (int i = 1; i <= count; ++i) out[i] = in[i];
  switch (form) {
    case 0: c.all_reduce(static_cast<const T*>(in + 1), out + 1, count, O[opi]); break; case 1: c.all_reduce(out + 1, count, O[opi]); break;
    case 2: c.scan(static_cast<const T*>(in + 1), out + 1, count, O[opi]); break; case 3: c.scan(out + 1, count, O[opi]); break;
    case 4: c.all_gather(static_cast<const T*>(in + 1), out + 1, count); break; case 5: c.all_gather(out + 1, count); break;
    case 6: c.broadcast(out + 1, count, 0); break;
  }
  c.barrier();
  for (int i = 0; i < count; ++i) {
    MC_CHECK(ctx, out[i + 1] == in[i + 1], std::string("value:") + tn, "one-rank collective form " << form << " of " << tn << " changed entry " << i);
    MC_CHECK(ctx, in[i + 1] == val<T>(p, i + 1), std::string("input:") + tn, "one-rank collective modified its input");
  }
  MC_CHECK(ctx, out[0] == g0 && out[count + 1] == g1, std::string("overrun:") + tn, "one-rank collective wrote outside its buffer");
  delete[] in; delete[] out;
  uint64_t h = mc::hash_str(tn) + count * 100 + p * 20 + form; ctx.outcome(h); ctx.state(mc::mix(h, who * 4 + opi));
}
}
MC_SCENARIO(serial, "8 types x 0-4097 values x 3 patterns x 7 forms x 4 operations x 4 ways to get a communicator", 2) {
  switch (ctx.choose(8, "type")) {
    case 0: go<int>(ctx, "int"); break; case 1: go<double>(ctx, "double"); break; case 2: go<float>(ctx, "float"); break; case 3: go<char>(ctx, "char"); break;
    case 4: go<short>(ctx, "short"); break; case 5: go<long>(ctx, "long"); break; case 6: go<long long>(ctx, "long long"); break; case 7: go<bool>(ctx, "bool"); break;
  }
}
