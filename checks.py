"""What each check builds and runs (used by run.py)."""
import glob, os
MPI_I = "/usr/lib/x86_64-linux-gnu/openmpi/include"
MPI_L = "/usr/lib/x86_64-linux-gnu/openmpi/lib"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
DEF = ["-DOMPI_SKIP_MPICXX", "-DKOKKOS_ENABLE_CXX17", "-DEKAT_DEFAULT_BFB", "-DEKAT_ENABLE_MPI", "-DEKAT_HAS_KOKKOS", "-DEKAT_MPI_ERRORS_ARE_FATAL"]
INC = ["-I@REPO@/src/" + d for d in ("core", "kokkos", "pack", "algorithm", "expression", "logging", "parser")] + ["-I@REPO@/tests/core", "-I@VERIF@", "-I@VERIF@/mc", "-isystem", MPI_I]
BASE = DEF + INC + ["-w", "-O1", "-pthread"]
MC = "@VERIF@/mc/mc.cpp"
PLAIN = ["-O2", "-w", "-pthread"]
R = "@REPO@/src/"
CORE = [R + "core/" + f for f in ("ekat_arch.cpp", "ekat_comm.cpp", "ekat_fpe.cpp", "ekat_parameter_list.cpp", "ekat_string_utils.cpp")]
LINK_MPI = ["-L" + MPI_L, "-lmpi", "-Wl,-rpath," + MPI_L]
ASSUME_SEQ = ["compiled with gcc 13 at -O1 with address and undefined-behaviour sanitizers; other compilers and levels are not explored",
              "values outside the stated alphabets and bounds are not explored"]

CHECKS = {}
def unit(name, src, extra=(), flags=None, san=True, link=(), kokkos=False, **kw):
    fl = (list(flags) if flags is not None else list(BASE)) + (SAN if san else [])
    srcs = ["@VERIF@/harness/" + src, MC] + list(extra)
    u = {"name": name, "srcs": srcs, "flags": fl, "plain": {MC: PLAIN + ["-I@VERIF@/mc"]},
         "link": (["-fsanitize=address,undefined"] if san else []) + list(link) + ["-pthread"], "kokkos": kokkos}
    u.update(kw)
    return u
FIBER = "@VERIF@/mc/fiber.cpp"
def fiber_unit(name, src, extra=(), **kw):
    u = unit(name, src, list(extra) + [FIBER], **kw)
    u["plain"][FIBER] = PLAIN + ["-I@VERIF@/mc"] + (["-DMC_ASAN"] if kw.get("san", True) else [])
    return u
def check(pid, units, assumptions=(), level="model_checking", note="", **kw):
    CHECKS[pid] = dict(level=level, units=units, assumptions=ASSUME_SEQ + list(assumptions), note=note, **kw)

STR = [R + "core/ekat_string_utils.cpp", R + "core/ekat_parameter_list.cpp"]
check("C15", [unit("c15", "c15_units.cpp", STR)])
check("C16", [unit("c16", "c16_rational.cpp", STR)])
check("C17", [unit("c17", "c17_strings.cpp", STR)])
check("C18", [unit("c18", "c18_nested.cpp", STR)])
check("C19", [unit("c19", "c19_tokens.cpp", STR)])
check("C21", [unit("c21", "c21_plist.cpp", STR)])
check("C22", [unit("c22", "c22_factory.cpp", STR)])
check("C31", [unit("c31", "c31_zip.cpp", STR)])
check("C32", [unit("c32", "c32_types.cpp")])
check("C20", [unit("c20", "c20_cis.cpp", STR)])

YAML = STR + [R + "parser/ekat_yaml.cpp"]
check("C23", [unit("c23", "c23_yaml.cpp", YAML, link=["-lyaml-cpp"])], ["yaml-cpp is the installed 0.8.0, not instrumented"])
check("C24", [unit("c24", "c24_yaml.cpp", YAML, link=["-lyaml-cpp"])], ["yaml-cpp is the installed 0.8.0, not instrumented"])

check("C26", [unit("c26", "c26_fpe.cpp", [R + "core/ekat_fpe.cpp"], BASE + ["-DEKAT_HAVE_FEENABLEEXCEPT", "-frounding-math", "-ftrapping-math"], san=False)], ["glibc feenableexcept branch, x86-64 (SSE and x87)"])
check("C30", [unit("c30", "c30_args.cpp", STR + [R + "core/ekat_test_utils.cpp"])])

check("C29", [fiber_unit("c29", "c29_logger.cpp", [R + "core/ekat_comm.cpp"], link=LINK_MPI + ["-lspdlog", "-lfmt"], flags=BASE + ["-DSPDLOG_COMPILED_LIB", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_FMT_EXTERNAL"])],
      ["spdlog is the installed 1.12, not instrumented", "rank and size come from a model of MPI"])
KSEQ = "@VERIF@/mc/kokkos_seq.cpp"
KFLAGS = ["-isystem", "@BUILD@/kokkos", "-fopenmp"]
def kunit(name, src, extra=(), flags=(), **kw):
    base = kw.pop("base", BASE)
    return unit(name, src, list(extra) + [KSEQ], flags=base + KFLAGS + list(flags), kokkos=True, link=list(kw.pop("link", [])) + ["-fopenmp", "-lkokkoscore", "-ldl"], **kw)
A_K = ["Kokkos is the installed 3.7 (OpenMP), with View::rank made callable and is_view_v/element_type added in a copy of its headers so that the parts of EKAT that need Kokkos 4 compile"]
# Kokkos OpenMP kernels under the controlled scheduler (mc/kokkos_mt.hpp): the harness is instrumented, the machine is not
MT = ["@VERIF@/mc/fiber.cpp", "@VERIF@/mc/kokkos_mt.cpp"]
def mtunit(name, src, pool=4, flags=(), extra=(), **kw):
    base = [f for f in BASE] + KFLAGS + ["-fsanitize=thread"] + list(flags)
    plain = PLAIN + ["-I@VERIF@/mc", "-DKOKKOS_ENABLE_CXX17"] + KFLAGS
    u = {"name": name, "srcs": ["@VERIF@/harness/" + src, MC] + MT + list(extra), "flags": base, "plain": {MC: plain, MT[0]: plain, MT[1]: plain},
         "link": ["-fopenmp", "-lkokkoscore", "-ldl", "-pthread"] + list(kw.pop("link", [])), "kokkos": True, "env": {"MC_POOL": str(pool)}}
    u.update(kw)
    return u
A_MT = A_K + ["threads of the Kokkos OpenMP pool are fibers on one OS thread: executions are sequentially consistent, weaker memory orders are not explored",
              "races are detected on 4-byte granules from the accesses of the instrumented harness and EKAT headers; code inside the Kokkos library is not instrumented; without a race the other schedules are equivalent to the one run"]
NOUB = ["-fno-sanitize=undefined"]
def c01(name, *fl): return kunit(name, "c01_workspace.cpp", flags=fl, own_flags={"@VERIF@/harness/c01_workspace.cpp": NOUB})
check("C01", [c01("c01"), c01("c01n", "-DNDEBUG"), c01("c01t", "-DTYPES"), c01("c01tn", "-DTYPES", "-DNDEBUG")], A_K)
check("C02", [mtunit("c02", "c02_workspace_mt.cpp"), mtunit("c02n", "c02_workspace_mt.cpp", flags=["-DNDEBUG"]), mtunit("c02p5", "c02_workspace_mt.cpp", pool=5, flags=["-DTEAMS_ONLY"]), mtunit("c02p3n", "c02_workspace_mt.cpp", pool=3, flags=["-DTEAMS_ONLY", "-DNDEBUG"])], A_MT)
check("C03", [mtunit("c03p%d" % p, "c03_slots.cpp", pool=p) for p in (1, 2, 3, 4, 5, 6, 7, 8)] + [mtunit("c03lock%d" % p, "c03_slots.cpp", pool=p, flags=["-DLOCK"]) for p in (2, 3, 4, 7)], A_MT)
check("C04", [kunit("c04", "c04_tridiag.cpp"), mtunit("c04mt", "c04_tridiag.cpp", flags=["-DMT"]), mtunit("c04mt7", "c04_tridiag.cpp", pool=7, flags=["-DMT"])], A_MT)
check("C05", [mtunit("c05", "c05_tridiag_mt.cpp"), mtunit("c05p7", "c05_tridiag_mt.cpp", pool=7), mtunit("c05p13", "c05_tridiag_mt.cpp", pool=13), mtunit("c05p2", "c05_tridiag_mt.cpp", pool=2)], A_MT)
check("C06", [mtunit("c06", "c06_reduction.cpp"), mtunit("c06p7", "c06_reduction.cpp", pool=7), mtunit("c06n", "c06_reduction.cpp", pool=3, flags=["-UEKAT_DEFAULT_BFB", "-DNDEBUG"])], A_MT)
check("C07", [kunit("c07", "c07_lin_interp.cpp"), mtunit("c07mt", "c07_lin_interp.cpp", flags=["-DMT"]), mtunit("c07mt7", "c07_lin_interp.cpp", pool=7, flags=["-DMT"])], A_MT)
check("C08", [kunit("c08", "c08_upper_bound.cpp"), kunit("c08d", "c08_upper_bound.cpp", flags=["-DUB_DEVICE"])], A_K)
check("C09", [kunit("c09" + t[0], "c09_pack.cpp", flags=["-DMC_T=" + t]) for t in ("double", "float", "int")] + [kunit("c09o" + t[0], "c09_pack.cpp", flags=["-DMC_T=" + t, "-O3"], san=False) for t in ("double", "float")], A_K)
check("C10", [kunit("c10" + t[0], "c10_mask.cpp", flags=["-DMC_T=" + t]) for t in ("double", "float", "int")], A_K)
check("C11", [kunit("c11d", "c11_index.cpp"), kunit("c11i", "c11_index.cpp", flags=["-DMC_T=int"]), kunit("c11n", "c11_index.cpp", flags=["-DNDEBUG"])], A_K)
check("C12", [kunit("c12%s%d" % (t[0], r), "c12_transfer.cpp", flags=["-DMC_T=" + t, "-DMC_R=%d" % r] + (["-DNDEBUG"] if t == "bool" else [])) for r in (3, 2, 1) for t in ("bool", "double")], A_K + ["the unit with booleans is built with NDEBUG, the one with doubles without"])
check("C28", [kunit("c28p%d" % i, "c28_expr.cpp", flags=["-O0", "-DMC_PART=%d" % i]) for i in range(6)], A_K)
check("C27", [unit("c27", "c27_assert.cpp"), unit("c27n", "c27_assert.cpp", flags=BASE + ["-DNDEBUG"]), kunit("c27k", "c27_kernel.cpp"), kunit("c27kn", "c27_kernel.cpp", flags=["-DNDEBUG"])], A_K)
check("C34", [kunit("c34", "c34_portable.cpp"), kunit("c34g", "c34_portable.cpp", flags=["-DGPUFORM"])], A_K + ["the device forms are compiled for and run on the host"])
check("C35", [mtunit("c35", "c35_policies.cpp"), mtunit("c35p1", "c35_policies.cpp", pool=1), mtunit("c35g5", "c35_policies.cpp", pool=5, flags=["-DEKAT_MIMIC_GPU"]), mtunit("c35g9", "c35_policies.cpp", pool=9, flags=["-DEKAT_MIMIC_GPU", "-DNDEBUG"])], A_MT)
check("C13", [kunit("c13", "c13_subview.cpp")], A_K)
check("C14", [kunit("c14", "c14_broadcast.cpp")], A_K)
# the test driver: Catch2, MPI and the start and end of Kokkos are stand-ins that record what they are given
DRV = [R + "testing-support/ekat_catch_main.cpp", R + "testing-support/ekat_test_session.cpp", R + "kokkos/ekat_kokkos_session.cpp"] + CORE + [R + "core/ekat_test_utils.cpp"]
def c33(name, *fl): return fiber_unit(name, "c33_driver.cpp", DRV, flags=["-I@VERIF@/harness/fake_catch"] + BASE + KFLAGS + ["-DEKAT_HAVE_FEENABLEEXCEPT"] + list(fl), kokkos=True, link=LINK_MPI + ["-fopenmp", "-lkokkoscore", "-ldl"], own_flags={DRV[0]: ["-Dmain=ekat_main"]})
check("C33", [c33("c33"), c33("c33f", "-DEKAT_ENABLE_FPE_DEFAULT_MASK")], ["Catch2, MPI, and the start and end of Kokkos are replaced by stand-ins that record what they are given; the arithmetic of the tests is not run"])
NOMPI = [f for f in BASE if f != "-DEKAT_ENABLE_MPI"]
check("C25", [fiber_unit("c25", "c25_comm.cpp", [R + "core/ekat_comm.cpp"], link=LINK_MPI),
              unit("c25s", "c25_serial.cpp", [R + "core/ekat_comm_serial.cpp"], flags=NOMPI)],
      ["the MPI library is replaced by a model of the MPI standard's collectives (matching by order, early completion where the standard allows it); data types and handles are those of the installed Open MPI"])

TECH_SEQ = ("stateless model checking of the compiled code: every operation sequence / input over a stated alphabet up to a stated bound is executed "
            "(depth-first enumeration of all choice sequences), each step compared with a reference model")
TECH_MT = ("stateless model checking of the compiled kernels: the threads of the real Kokkos OpenMP back end run as fibers of a controlled scheduler; all schedules up to a stated number of "
           "deviations at compare-and-swap operations, racing accesses and marked points are executed, each execution is checked for data races (vector clocks) and against a reference model, over every configuration of a stated space")
for _c in ("C02", "C03", "C05", "C06", "C07", "C35"):
    if _c in CHECKS: CHECKS[_c]["technique"] = TECH_MT
NOTE_SEQ = "Exhaustive within the bounds printed in the evidence file; nothing is claimed outside the alphabet and bounds. Every explored execution runs the real code, so model and code cannot drift apart."
NA = {}
