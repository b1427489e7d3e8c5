"""What is built, and which builds decide which property."""
import os, subprocess

INC = ["-I/opt/vp/compat", "-I$REPO/src/core", "-I$REPO/src/kokkos", "-I$REPO/src/pack", "-I$REPO/src/algorithm", "-I$REPO/src/logging", "-I$REPO/src/parser", "-I$REPO/src/testing-support", "-I$REPO/src/expression"]
BASE = ["-std=c++17", "-g", "-w", "-DKOKKOS_ENABLE_CXX17", "-DOMPI_SKIP_MPICXX", "-DEKAT_HAS_KOKKOS", "-DEKAT_DEFAULT_BFB"] + INC
# scheduling points: the calls the compiler inserts for a race detector, answered by sim/tsan_hooks.cpp
SIMC = ["-O1", "-fopenmp", "-fsanitize=thread", "--param", "tsan-distinguish-volatile=1"]
CORE = ["-std=c++17", "-O2", "-fPIC", "-g", "-w", "-DKOKKOS_ENABLE_CXX17"] + INC
GPU = ["-DEKAT_ENABLE_GPU", "-DEKAT_SIM_GPU_SPACE=simgpu::SimGpu", "-include", "$HERE/sim/sim_gpu_space.hpp"]
LINK = ["-lkokkoscore", "-ldl", "-lpthread"]


def simunits(*names):
    return [("$HERE/sim/%s.cpp" % n, CORE) for n in names]


def omp(src, extra):
    return {"units": [("$HERE/harness/" + src, BASE + SIMC + extra)] + simunits("sim", "omp_shim", "tsan_hooks", "pthread_shim"), "ldflags": ["-rdynamic"], "link": LINK}


def gpu(src, extra):
    return {"units": [("$HERE/harness/" + src, BASE + SIMC + GPU + extra)] + simunits("sim", "omp_shim", "tsan_hooks", "pthread_shim", "sim_gpu"), "ldflags": ["-rdynamic"], "link": LINK}


MPIINC = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]


def comm(extra, serial=False):
    f = BASE + SIMC + ([] if serial else ["-DEKAT_ENABLE_MPI"] + MPIINC) + extra
    cpp = "$REPO/src/core/ekat_comm_serial.cpp" if serial else "$REPO/src/core/ekat_comm.cpp"
    u = simunits("sim", "omp_shim", "tsan_hooks", "rank_globals")
    if not serial:
        u += [(s, fl + MPIINC + ["-DOMPI_SKIP_MPICXX"]) for s, fl in simunits("sim_mpi", "sim_mpi_syms")]
    return {"so": [("$HERE/harness/comm.cpp", f), (cpp, f), ("$REPO/src/core/ekat_arch.cpp", f)][:2], "units": u, "ldflags": ["-rdynamic"], "link": ["-ldl", "-lpthread"]}


def logger(extra):
    f = BASE + SIMC + ["-DEKAT_ENABLE_MPI", "-DEKAT_MPI_ERRORS_ARE_FATAL"] + MPIINC + extra
    so = [(x, f) for x in ("$HERE/harness/logger.cpp", "$REPO/src/core/ekat_comm.cpp")]
    u = simunits("sim", "omp_shim", "tsan_hooks", "rank_globals", "sim_disk", "pthread_shim") + [(s, fl + MPIINC + ["-DOMPI_SKIP_MPICXX"]) for s, fl in simunits("sim_mpi", "sim_mpi_syms")]
    return {"so": so, "units": u, "ldflags": ["-rdynamic"], "link": ["-lfmt", "-ldl", "-lpthread"]}


def params(extra):
    f = BASE + SIMC + extra
    u = [(x, f) for x in ("$HERE/harness/params.cpp", "$REPO/src/parser/ekat_yaml.cpp", "$REPO/src/core/ekat_parameter_list.cpp", "$REPO/src/core/ekat_string_utils.cpp")]
    return {"units": u + simunits("sim", "omp_shim", "tsan_hooks", "sim_disk", "pthread_shim"), "ldflags": ["-rdynamic"], "link": ["-lyaml-cpp", "-ldl", "-lpthread"]}


def misc(extra):
    f = BASE + SIMC + extra + ["-D_GLIBCXX_ASSERTIONS", "-frounding-math", "-ftrapping-math"]
    u = [(x, f) for x in ("$HERE/harness/misc.cpp", "$REPO/src/core/ekat_fpe.cpp", "$REPO/src/core/ekat_string_utils.cpp", "$REPO/src/core/ekat_parameter_list.cpp")]
    return {"units": u + simunits("sim", "omp_shim", "tsan_hooks", "pthread_shim"), "ldflags": ["-rdynamic"], "link": ["-ldl", "-lpthread"]}


def session(extra):
    f = BASE + SIMC + extra
    u = [(x, f) for x in ("$HERE/harness/session.cpp", "$REPO/src/kokkos/ekat_kokkos_session.cpp")]
    return {"units": u + simunits("sim", "omp_shim", "tsan_hooks", "pthread_shim"), "ldflags": ["-rdynamic"], "link": LINK}


def driver(extra, serial=False):
    f = BASE + SIMC + (["-DEKAT_ENABLE_MPI"] + MPIINC if not serial else []) + ["-DEKAT_HAVE_FEENABLEEXCEPT"] + extra
    core = ["ekat_comm_serial" if serial else "ekat_comm", "ekat_arch", "ekat_fpe", "ekat_string_utils", "ekat_test_utils", "ekat_parameter_list"]
    so = [("$HERE/harness/driver.cpp", f), ("$REPO/src/testing-support/ekat_catch_main.cpp", f + ["-Dmain=ekat_driver_main"]), ("$REPO/src/testing-support/ekat_test_session.cpp", f),
          ("$REPO/src/kokkos/ekat_kokkos_session.cpp", f)] + [("$REPO/src/core/%s.cpp" % c, f) for c in core]
    u = simunits("sim", "omp_shim", "tsan_hooks", "rank_globals", "pthread_shim", "catch_seam")
    if not serial:
        u += [(s, fl + MPIINC + ["-DOMPI_SKIP_MPICXX"]) for s, fl in simunits("sim_mpi", "sim_mpi_syms")]
    wraps = ["-Wl,--wrap=" + w for w in ("_ZN5Catch7cleanUpEv", "sigaction", "sigaltstack")]
    return {"so": so, "units": u, "ldflags": ["-rdynamic"] + wraps, "link": ["-Wl,--whole-archive", "/usr/lib/libCatch2.a", "-Wl,--no-whole-archive", "-Wl,-T,$HERE/sim/catch_ranks.ld"] + LINK}


def kokkos_rank(out, repo):
    """EKAT's pack utilities and expressions need View::rank(), View::element_type and is_view_v of Kokkos 4: a copy of Kokkos 3.7's header with these."""
    d = os.path.join(out, "inc")
    os.makedirs(d, exist_ok=True)
    t = open("/usr/include/Kokkos_View.hpp").read()
    u = t.replace("  enum { rank = dimension::rank };", "  static constexpr std::integral_constant<size_t, dimension::rank> rank = {};")
    u = u.replace("struct is_view<const View<D, P...>> : public std::true_type {};", "struct is_view<const View<D, P...>> : public std::true_type {};\ntemplate <class T> inline constexpr bool is_view_v = is_view<T>::value;")
    u = u.replace("  using traits = ViewTraits<DataType, Properties...>;\n\n private:", "  using traits = ViewTraits<DataType, Properties...>;\n  using element_type = typename traits::value_type;\n\n private:", 1)
    with open(os.path.join(d, "Kokkos_View.hpp"), "w") as f:
        f.write(u)


PREP = {"kokkos_rank": kokkos_rank}
KR = ["-I$OUT/inc"]


def with_prep(v):
    v["prep"] = ["kokkos_rank"]
    return v



VARIANTS = {
    "ws_omp_d": omp("ws_omp.cpp", []),
    "ws_omp_r": omp("ws_omp.cpp", ["-DNDEBUG"]),
    "ws_gpu_d": gpu("ws_gpu.cpp", []),
    "ws_gpu_r": gpu("ws_gpu.cpp", ["-DNDEBUG"]),
    "algo_omp_d": with_prep(omp("algo_omp.cpp", KR)),
    "algo_omp_r": with_prep(omp("algo_omp.cpp", KR + ["-DNDEBUG"])),
    "algo_mimic": with_prep(omp("algo_omp.cpp", KR + ["-DEKAT_MIMIC_GPU"])),
    "algo_gpu_d": with_prep(gpu("algo_gpu.cpp", KR)),
    "algo_gpu_r": with_prep(gpu("algo_gpu.cpp", KR + ["-DNDEBUG"])),
    "expr_omp_d": with_prep(omp("expr_omp.cpp", KR)),
    "expr_omp_r": with_prep(omp("expr_omp.cpp", KR + ["-DNDEBUG"])),
    "expr_gpu_d": with_prep(gpu("expr_gpu.cpp", KR)),
    "expr_gpu_r": with_prep(gpu("expr_gpu.cpp", KR + ["-DNDEBUG"])),
    "comm_fatal_d": comm(["-DEKAT_MPI_ERRORS_ARE_FATAL"]),
    "comm_fatal_r": comm(["-DEKAT_MPI_ERRORS_ARE_FATAL", "-DNDEBUG"]),
    "comm_return_d": comm([]),
    "comm_return_r": comm(["-DNDEBUG"]),
    "comm_serial": comm([], True),
    "logger": logger([]),
    "params": params([]),
    "session": session([]),
    "driver": driver(["-DEKAT_MPI_ERRORS_ARE_FATAL"]),
    "driver_ret": driver(["-DNDEBUG"]),
    "driver_fpe": driver(["-DEKAT_MPI_ERRORS_ARE_FATAL", "-DEKAT_ENABLE_FPE_DEFAULT_MASK"]),
    "driver_serial": driver([], True),
    "launcher": {"script": "$HERE/harness/launcher.py"},
    "assertgen": {"script": "$HERE/harness/assertgen.py"},
    "fetch": {"script": "$HERE/harness/fetch.py"},
    "configfile": {"script": "$HERE/harness/configfile.py"},
    "misc_d": misc(["-DEKAT_HAVE_FEENABLEEXCEPT"]),
    "misc_r": misc(["-DEKAT_HAVE_FEENABLEEXCEPT", "-DNDEBUG"]),
}

WS4 = ["ws_omp_d", "ws_omp_r", "ws_gpu_d", "ws_gpu_r"]
ALGO4 = ["algo_omp_d", "algo_omp_r", "algo_gpu_d", "algo_gpu_r"]
PROPS = {
    "C01": {"variants": WS4},
    "C02": {"variants": WS4},
    "C03": {"variants": WS4},
    "C04": {"variants": ["ws_omp_d", "ws_gpu_d"]},
    "C05": {"variants": ["ws_gpu_d", "ws_gpu_r"]},
    "C06": {"variants": WS4},
    "C07": {"variants": ALGO4},
    "C08": {"variants": ALGO4},
    "C09": {"variants": ALGO4},
    "C10": {"variants": ["algo_omp_d", "algo_omp_r", "algo_mimic", "algo_gpu_d", "algo_gpu_r"]},
    "C11": {"variants": ["expr_omp_d", "expr_omp_r", "expr_gpu_d", "expr_gpu_r"]},
    "C12": {"variants": ["comm_fatal_d", "comm_fatal_r", "comm_return_d", "comm_return_r", "comm_serial"]},
    "C13": {"variants": ["comm_fatal_d", "comm_fatal_r", "comm_return_d", "comm_return_r", "comm_serial"]},
    "C17": {"variants": ["params"]},
    "C18": {"variants": ["params"]},
    "C20": {"variants": ["params"]},
    "C21": {"variants": ["misc_d", "misc_r"]},
    "C22": {"variants": ["misc_d"]},
    "C25": {"variants": ["misc_d", "misc_r"]},
    "C23": {"variants": ["session"]},
    "C26": {"variants": ["driver", "driver_ret", "driver_fpe", "driver_serial"]},
    "C24": {"variants": ["launcher"]},
    "C27": {"variants": ["assertgen"]},
    "C28": {"variants": ["fetch"]},
    "C29": {"variants": ["configfile"]},
    "C15": {"variants": ["logger"]},
    "C16": {"variants": ["logger"]},
    "C14": {"variants": ["comm_return_d", "comm_return_r", "comm_fatal_d", "comm_fatal_r"]},
}
