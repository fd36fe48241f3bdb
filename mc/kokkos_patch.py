#!/usr/bin/env python3
"""Copy the installed Kokkos 3.7 headers to DST and adjust them:
 - View::rank becomes a constexpr object that can be called (Kokkos 4 spelling used by EKAT), View gets element_type,
   Kokkos::is_view_v is added: parts of EKAT need Kokkos 4 and do not compile otherwise;
 - the host barrier waits in mc_wait_until_equal(), which the controlled scheduler may replace (the default spins).
Nothing else is changed; the compiled library is the installed one."""
import os, shutil, subprocess, sys
dst = sys.argv[1]
src = "/usr/include"
names = subprocess.run(["dpkg", "-L", "libkokkos-dev"], capture_output=True, text=True, check=True).stdout.split("\n")
tmp = dst + ".tmp%d" % os.getpid()
if os.path.isdir(tmp): shutil.rmtree(tmp)
n = 0
for f in names:
    if not f.startswith(src + "/") or not os.path.isfile(f): continue
    d = os.path.join(tmp, os.path.relpath(f, src))
    os.makedirs(os.path.dirname(d), exist_ok=True)
    shutil.copyfile(f, d); n += 1
if n < 100: sys.exit("Kokkos headers not found")
def edit(name, *pairs):
    p = os.path.join(tmp, name); s = open(p).read()
    for a, b in pairs:
        if s.count(a) != 1: sys.exit("%s: expected text found %d times: %s" % (name, s.count(a), a))
        s = s.replace(a, b)
    open(p, "w").write(s)
edit("Kokkos_View.hpp",
     ("  enum { rank = dimension::rank };\n", "  static constexpr std::integral_constant<size_t, dimension::rank> rank{};\n  using element_type = value_type;\n"),
     ("struct is_view<const View<D, P...>> : public std::true_type {};\n", "struct is_view<const View<D, P...>> : public std::true_type {};\ntemplate <class T> inline constexpr bool is_view_v = is_view<T>::value;\n"))
edit("impl/Kokkos_HostBarrier.hpp",
     ("class HostBarrier {\n public:\n", "}} extern \"C\" void (*mc_barrier_hook)(int*, int); namespace Kokkos { namespace Impl {\nclass HostBarrier {\n public:\n"),
     ("    bool result = test_equal(ptr, v);\n    for (int i = 0; !result", "    if (mc_barrier_hook) { mc_barrier_hook(ptr, v); return; }\n    bool result = test_equal(ptr, v);\n    for (int i = 0; !result"))
if os.path.isdir(dst): shutil.rmtree(dst)
os.rename(tmp, dst)
