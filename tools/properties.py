"""Writes properties.jsonl (run from /verif: python3 tools/properties.py)."""
import json
P = []
def add(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

WS = "src/kokkos/ekat_workspace_impl.hpp"; TU = "src/kokkos/ekat_team_policy_utils.hpp"
add("C01", "Teams running at the same time never share a workspace",
    "While a thread team of a kernel holds a workspace, no other team is given the same one, every thread of the team sees the same workspace, and its number lies within the number of workspaces the manager has. "
    "What a team wrote into the workspace before giving it back is complete before the next team can write there, so no team's data is ever altered by another team.",
    ["schedules", "configurations"], "every interleaving of the threads of every team, league and team size, thread count, number of workspaces and overprovision factor, on CPU and on GPU builds",
    "The tests run one league with the machine's own scheduling on CPU only; the GPU slot locking is never executed, and a wrong slot shows only under particular interleavings.",
    [TU, WS], [("OpenMP slot from the thread number", TU + ": TeamUtils<ValueType,Kokkos::OpenMP>::get_workspace_idx"), ("GPU slot lock with random retry and fences", TU + ": TeamUtils<ValueType,EkatGpuSpace>::get_workspace_idx/release_workspace_idx")],
    [("open slots", "which slots are taken", TU)], ["addresses and contents of the sub-blocks each team gets", "the slot numbers given to teams"], "EKAT_SIM_GPU_SPACE: lets a simulated execution space select the GPU code paths")
add("C02", "Sub-blocks held by a team are disjoint, stable and of the requested extent",
    "Every sub-block a team has taken and not released has exactly the number of elements asked for (converted when taken as another type), lies inside the manager's memory and overlaps no other sub-block held at that time. "
    "All threads of the team get the same sub-blocks, and their contents change only when the team writes them, whatever is taken, released or reset in between by the same team's other calls.",
    ["programs", "schedules", "configurations"], "every legal sequence of single, bulk, contiguous, multi-block and reset-and-take acquisitions and the matching releases, for every element type, sub-block size and capacity, team size and interleaving of the team's threads",
    "The tests run a few fixed sequences with one or two team sizes; an overlap appears only after particular sequences of releases and acquisitions, or when one thread of a team is late.",
    [WS, "src/kokkos/ekat_workspace.hpp"], [("linked list of free sub-blocks in the memory before each of them", WS + ": take*/release*/reset"), ("team barriers around every change of the list", WS)],
    [("next free", "head of each workspace's list of free sub-blocks", WS + ": m_next_slot"), ("list links", "index and next index stored before each sub-block", WS + ": init_slot_metadata")], ["addresses, extents, contents of sub-blocks"])
add("C03", "Released workspace memory is always available again, up to the full capacity",
    "After any legal history of acquisitions, releases, resets and kernels, a team can hold the full configured number of sub-blocks at the same time: releasing and resetting lose no sub-block and create none. "
    "Resetting the manager between kernels brings it back to its initial state.",
    ["histories", "schedules", "configurations"], "every legal history over several kernels on the same manager, including resets within kernels and of the manager between them, for every size, capacity and team layout",
    "The tests use fixed short histories that mostly release in reverse order; loss of a sub-block needs a longer history that mixes release kinds and then uses the whole capacity.",
    [WS], [("release paths put sub-blocks back into the list", WS + ": release_impl, release_many_contiguous, release_macro_block"), ("reset paths rebuild the list", WS + ": reset, take_many_and_reset, reset_internals")],
    None, ["success and disjointness of later acquisitions"])
add("C04", "Debug builds stop on workspace misuse and report usage exactly",
    "In builds with assertions, taking more sub-blocks than configured, releasing one that is not held, using an empty or overlong name or taking non-contiguous memory as contiguous stops the program with an error before the kernel ends, and no legal use is ever stopped. "
    "The name reported for a held sub-block is the one it was taken under, and the usage report gives for every name the exact numbers of acquisitions and releases, and the exact high-water mark and current use, summed over all teams.",
    ["programs", "schedules", "configurations"], "every legal program followed by any one misuse, at every point, for every team layout and interleaving",
    "The tests exercise no misuse at all (it aborts the process) and never call the report, whose counts are shared by teams.",
    [WS], [("kernel assertions on counts, names, contiguity and active flags", WS + ": change_num_used, change_indv_meta, take_many_contiguous_unsafe, take_macro_block, release_many_contiguous"), ("usage report", WS + ": report")],
    None, ["abort of the kernel", "text of the report", "name of a sub-block"])
add("C05", "Every team eventually gets a workspace and none is lost (GPU slots)",
    "When more teams than workspaces run, each team that asks for a workspace gets one within a bounded number of its own attempts once others give theirs back, and every workspace given back can be acquired again. "
    "All workspaces can be in use at the same time.",
    ["schedules", "configurations"], "every schedule of resident teams in which holders finish, every league size, number of workspaces, retry seed and sequence of kernels",
    "GPU code paths are not built by the tests here; a lost slot or a retry that cannot reach a slot only shows under contention.",
    [TU], [("compare-and-swap with random retry", TU + ": get_workspace_idx"), ("release store", TU + ": release_workspace_idx")], None, ["progress of the teams", "set of slots held at once"], "EKAT_SIM_GPU_SPACE")
add("C06", "Workspaces over caller-supplied memory use exactly the advertised bytes",
    "A manager built over memory supplied by the caller reads and writes only within the number of bytes that the size query returned for the same arguments, and that number suffices for every workspace and sub-block it can hand out. "
    "Resetting the manager and running kernels with it never touches the memory outside.",
    ["configurations", "programs", "schedules"], "every element type, size, capacity, policy and overprovision factor, every legal program, on CPU and GPU",
    "The tests check one configuration without guards around the memory, so an overrun of one element is invisible to them.",
    [WS], [("size query", WS + ": get_total_bytes_needed"), ("layout computed from the same inputs", WS + ": compute_internals, get_space_in_slot")], None, ["guard bytes around the supplied memory", "addresses handed out"])

AL = "src/algorithm/"
add("C07", "Tridiagonal solves are correct for every team layout and schedule",
    "For diagonally dominant systems the team-level solvers return the solution of the system given, to rounding accuracy, for every number of rows, right-hand sides and threads in the team. "
    "The result does not depend on how the threads of the team are scheduled.",
    ["schedules", "configurations", "inputs"], "every interleaving of the team's threads, team sizes of one and more, one or several matrices and right-hand sides, packed or scalar data",
    "The tests run each solver under the machine's own schedule; a missing barrier or race only shows under particular interleavings.",
    [AL + "ekat_tridiag.hpp"], [("team barriers between elimination stages", AL + "ekat_tridiag.hpp: impl::cr*, thomas*")], None, ["the solution vectors"])
add("C08", "Reproducible tridiagonal solves are bit-identical for any team layout",
    "The solver offered as bit-for-bit reproducible returns bit-identical solutions for the same system whatever the team size, the thread count, the schedule, the number of right-hand sides solved together and whether data are packed.",
    ["schedules", "configurations", "inputs"], "every team size, schedule, packing and problem size",
    "The tests compare a few layouts under one schedule.",
    [AL + "ekat_tridiag.hpp"], [("one fixed order of operations per right-hand side", AL + "ekat_tridiag.hpp: bfb")], None, ["bits of the solution"])
add("C09", "Team reductions over a range are complete and reproducible where promised",
    "A team reduction over a range of a vector, packed or not, equals the sum of exactly the elements of the range (to rounding), and every thread of the team gets the same value. "
    "The serialised form is bit-identical to the sequential left-to-right sum for every team size and schedule.",
    ["schedules", "configurations", "inputs"], "every range, pack size, team size and interleaving",
    "The tests use a few ranges on one schedule.",
    [AL + "ekat_reduction_utils.hpp"], [("serialisation within one thread, broadcast", AL + "ekat_reduction_utils.hpp: ReductionUtils, parallel_reduce, view_reduction")], None, ["value seen by every thread"])
add("C10", "Vertical interpolation is right for every team layout and schedule",
    "Linear interpolation of every column onto target points gives the piecewise-linear value (to rounding) for every point, whatever the pack size, team size and schedule, and columns set up together do not influence each other.",
    ["schedules", "configurations", "inputs"], "every number of columns and levels, pack size, team size and schedule",
    "The interpolation tests cannot be built with the Kokkos available here, and elsewhere sample one schedule.",
    [AL + "ekat_lin_interp.hpp", AL + "ekat_lin_interp_impl.hpp"], [("index search per column, then interpolation", AL + "ekat_lin_interp_impl.hpp")], None, ["interpolated values"])

EX = "src/expression/"
add("C11", "Expressions write every element of the result exactly once, with its value",
    "Evaluating an expression writes every element of the result view exactly once with the value the same formula gives for the elements at that index, for every rank, layout, number of threads and schedule, also when the result is one of the operands, and changes nothing else. "
    "The expression, its scalars and its temporaries need not outlive the call, also where kernels run after it returns. A result whose extents differ from those of the expression is reported before anything is written. "
    "A broadcast view reads exactly the elements of its source that it is defined to, and extents or a source layout it cannot represent are reported.",
    ["schedules", "configurations", "inputs"], "every formula over the provided operations, every rank, extent and layout, every number of threads and order of the elements, host and asynchronous device",
    "The expression and broadcast tests cannot be built with the Kokkos available here; elsewhere they run on fixed shapes on whatever schedule the machine gives, and read the result after a fence.",
    [EX + "ekat_expression_eval.hpp", EX + "ekat_expression_binary_op.hpp", EX + "ekat_expression_view.hpp", "src/kokkos/ekat_view_broadcast.hpp"],
    [("launch of the kernel over the result", EX + "ekat_expression_eval.hpp"), ("operands held by value", EX + "ekat_expression_binary_op.hpp"), ("indices multiplied by zero or one", "src/kokkos/ekat_view_broadcast.hpp")], None, ["result views and the memory around them"])

CO = "src/core/"
add("C12", "Communicator collectives give every rank the value MPI semantics promise",
    "For every supported type and operation, reductions, scans, broadcasts, gathers and barriers issued through a communicator give each rank exactly the value defined by the contributions of the ranks of that communicator, in order of rank, and leave all other memory unchanged. "
    "A barrier is left by no rank before every rank of the communicator has entered it, and the serial build gives the values of a single rank.",
    ["schedules", "configurations", "programs"], "every number of ranks, every order in which ranks arrive, every sequence of collectives over nested communicators, in place or not",
    "The tests run with one to four ranks and one payload per call; arrival orders are whatever the machine does.",
    [CO + "ekat_comm.hpp", CO + "ekat_comm.cpp", CO + "ekat_comm_serial.cpp"], [("mapping of types and buffers onto MPI calls", CO + "ekat_comm.hpp"), ("serial stand-in", CO + "ekat_comm_serial.cpp")], None, ["buffers of every rank after every call"])
add("C13", "Splitting a communicator partitions its ranks consistently",
    "Splitting groups exactly the ranks that passed the same colour, ordered by their rank in the parent, and size, rank and root queries on the result agree with that on every rank. "
    "Traffic on one communicator never reaches another, and resetting or copying a communicator leaves the others usable.",
    ["programs", "schedules", "configurations"], "every colouring, nesting depth, rank count and arrival order",
    "The test splits once into two groups.",
    [CO + "ekat_comm.hpp", CO + "ekat_comm.cpp"], [("split keyed by the parent's rank", CO + "ekat_comm.cpp: split")], None, ["rank, size and results of collectives on the new communicators"])
add("C14", "A failing MPI call never yields a silently wrong result",
    "If an MPI operation fails (arguments that MPI refuses included), the program stops with an error or, where the build says that MPI errors are not fatal, the caller gets an exception: a communicator operation never returns normally with a result that the operation did not produce.",
    ["fault_sequences", "schedules"], "every point at which an MPI operation reports failure, in both error-handling modes of the library",
    "The tests cannot make MPI fail.",
    [CO + "ekat_comm.cpp", CO + "ekat_comm.hpp"], [("error handler set at construction", CO + "ekat_comm.cpp: check_mpi_inited, reset_mpi_comm")], None, ["outcome of each call under a failing MPI"])

LG = "src/logging/"
add("C15", "Every accepted log message reaches each sink exactly once and whole",
    "A message at or above the level of the logger and of a sink appears exactly once, as one unbroken line with its own text, in that sink, and one below either level never does; messages of one thread appear in the order issued. "
    "Only ranks the rank policy allows write anything, with several threads and loggers sharing sinks.",
    ["schedules", "configurations", "programs"], "every interleaving of logging threads, level changes between messages, rank policy, file policy and set of loggers sharing sinks",
    "The tests log from one thread and inspect one file by eye.",
    [LG + "ekat_logger.hpp", LG + "ekat_log_file_policy.hpp", LG + "ekat_log_mpi_policy.hpp"], [("sink and logger levels, thread-safe sinks", LG + "ekat_logger.hpp"), ("rank policies", LG + "ekat_log_mpi_policy.hpp")], None, ["contents of files and console", "order of lines"])
add("C16", "Log files keep what was flushed, across crashes, rotation and disk errors",
    "After a crash at any point, each log file holds exactly the lines logged before the last flush, followed by a prefix of the later ones; rotation keeps the newest lines and neither repeats nor reorders any; a basic file starts empty and a rotating one goes on after what it holds. "
    "A full disk or failing writes never make logging end the program, corrupt lines already written, or stop later lines once the disk recovers.",
    ["crash_points", "fault_sequences", "programs", "configurations"], "every crash point and every sequence of short, failing or slow writes and closes and passing failures of opens and renames, for every file policy and flush level",
    "The tests never crash, fill the disk or rotate.",
    [LG + "ekat_log_file_policy.hpp", LG + "ekat_logger.hpp"], [("file sinks per policy, flush rule", LG + "ekat_log_file_policy.hpp, ekat_logger.hpp")], None, ["bytes in the log files"])

PA = "src/parser/"
add("C17", "Writing parameters to YAML either succeeds or reports it, and reads back equal",
    "When writing a parameter list returns normally, the file holds the whole list and reading it gives a list equal in names, nesting, types and values (doubles, which must be finite, to 14 significant digits). "
    "When the file cannot be completely written, the caller gets an exception.",
    ["fault_sequences", "inputs"], "every parameter list of supported types and every failing or short open, write, flush or close",
    "The tests write one list to a healthy disk.",
    [PA + "ekat_yaml.cpp", PA + "ekat_yaml.hpp"], [("emitter and output file", PA + "ekat_yaml.cpp: write_yaml_file"), ("typed parsing", PA + "ekat_yaml.cpp: parse_yaml_*")], None, ["the file", "the list read back", "exceptions"])
add("C18", "A failed YAML read reports an error and leaves the list as it was",
    "Reading parameters from a missing, unreadable, malformed or unsupported file, or running out of memory while reading, reports an error, and the target list then holds what it held before. "
    "A successful read never drops, duplicates or mixes up entries.",
    ["fault_sequences", "inputs"], "every point at which opening, reading or allocating fails, and every truncation or corruption of the file",
    "The tests read a handful of valid strings and files.",
    [PA + "ekat_yaml.cpp"], [("parse into a temporary list, then assign", PA + "ekat_yaml.cpp: parse_yaml_file")], None, ["the list after the call", "exceptions"])
add("C20", "Parameter lists behave as a typed map through every history and failure",
    "A parameter list returns for each name the value and type last set, reports missing names and wrong types by exceptions, keeps sublists apart, and iterates each entry exactly once. "
    "A set, get or sublist operation that fails, for lack of memory or by misuse, leaves every entry as it was; an assignment or import that fails leaves every entry whole, either as it was or as in the source.",
    ["histories", "fault_sequences"], "every history of set, get, import, copy, sublist and query operations, with allocation failing at any point",
    "The tests run one short history without failures.",
    [CO + "ekat_parameter_list.hpp", CO + "ekat_parameter_list.cpp"], [("map from names to typed values", CO + "ekat_parameter_list.hpp")], None, ["values, types and exceptions"])
add("C21", "Failed assertions raise one error in the right thread and never during unwinding",
    "A failed requirement throws an exception of the requested type, with the expression, location and message, to the thread that made it; while that thread is already unwinding another error it does not throw, the first error keeps propagating, and of the errors it suppresses until it throws again exactly the first is reported, with its message, on standard error. "
    "Conditions are evaluated once (those of disabled assertions never), messages only on failure, and no thread's errors change what another thread's do.",
    ["schedules", "histories"], "every interleaving of threads failing assertions normally and inside destructors during unwinding",
    "The tests check a throw in one thread.",
    [CO + "ekat_assert.hpp"], [("per-thread detection of unwinding", CO + "ekat_assert.hpp")], None, ["exceptions caught, program termination, warnings"])
add("C22", "Enabling and disabling floating-point traps is exact, nested and per call",
    "Enabling, disabling and setting trapped floating-point exceptions changes exactly those asked for and the query returns exactly what is enabled; operations that raise an enabled exception stop the program and others do not. "
    "Disabling all and restoring the saved mask returns to the earlier state.",
    ["histories"], "every sequence of enable, disable, query and restore over all combinations of exceptions",
    "The test enables a couple of masks.",
    [CO + "ekat_fpe.hpp", CO + "ekat_fpe.cpp"], [("fenv calls", CO + "ekat_fpe.cpp")], None, ["enabled mask, signals"])
add("C23", "The Kokkos session can be started and ended safely in any order",
    "Starting a session initialises the runtime exactly when it is not yet running, and ending it finalises at most once and only if it runs, whoever started it; repeated and nested calls are harmless. "
    "The program's arguments reach the runtime when one of them names a --kokkos option; otherwise it starts with default settings.",
    ["histories", "configurations"], "every sequence of starts and ends, by the library and by the application, with any arguments",
    "The tests start one session per process.",
    ["src/kokkos/ekat_kokkos_session.cpp", "src/kokkos/ekat_kokkos_session.hpp"], [("is-initialised guards", "src/kokkos/ekat_kokkos_session.cpp")], None, ["initialisations and finalisations seen by the runtime"])
add("C24", "Unit tests run as registered, with disjoint resources, and failures are reported",
    "EkatCreateUnitTest registers every requested combination of ranks and threads once, under its own name, with as many processors and devices as it has threads, and with the ordering constraints, labels and properties asked for. "
    "When CTest runs it, the launcher starts the executable once per rank with exactly the given arguments and environment (OpenMP placement as the user's environment says, else the default). "
    "If EKAT manages resources and CTest assigned CPUs, each rank is bound to its own equal share of them, and nothing that runs at the same time shares a CPU. "
    "The launcher's exit code is 0 exactly when the executable was started and succeeded, its output is not lost, and a bad command line runs nothing and is an error.",
    ["schedules", "fault_sequences", "configurations"], "every suite, every assignment of resources, every interleaving of concurrent tests and ranks, and every failure of a launched process or a system call",
    "It is exercised only by running the test suite, where everything starts and passes and resources are not managed.",
    ["bin/test-launcher", "cmake/EkatCreateUnitTest.cmake"], [("resource assignment", "bin/test-launcher"), ("exit status", "bin/test-launcher"), ("registration", "cmake/EkatCreateUnitTest.cmake")], None, ["commands launched, exit code"])
add("C25", "The factory registers once per name and creates what was registered",
    "An object factory creates, for a registered name, an object made by the creator registered under it, reports unregistered names and repeated registrations as configured, and matches names regardless of case when told so. "
    "Once the products are registered, several threads may use it at the same time, from its very first use on, and a call that fails leaves the registrations as they were.",
    ["histories", "schedules", "fault_sequences"], "every history of registrations and creations, with failing allocations, and every interleaving of threads using it", "The tests register a few names.",
    [CO + "ekat_factory.hpp"], [("registry map", CO + "ekat_factory.hpp")], None, ["objects created, exceptions"])
add("C26", "The test driver's exit code is a success exactly when every check passed",
    "A test program built with the library's driver exits with success on a rank exactly when every selected test ran there and every check passed; a command line the driver cannot parse is never a success and runs no test. "
    "What follows --args reaches the test session as the flags, parameters and lists documented for it. Each rank that exits has initialised and finalised MPI and the session exactly once, runs no test before every rank's session is up, "
    "and runs the tests with the configured default floating-point mask.",
    ["fault_sequences", "configurations"], "every pattern of failing tests over ranks, and failures at start-up",
    "The suite runs only passing tests.",
    ["src/testing-support/ekat_catch_main.cpp", "src/testing-support/ekat_test_session.cpp"], [("driver", "src/testing-support/ekat_catch_main.cpp")], None, ["exit code"])

add("C27", "Assert tests are exactly those the source marks, or configuring fails",
    "When CMake accepts an EkatCreateUnitTestWithAsserts call, its base test is built from the source without the lines marked EKAT_EXPECT_ASSERT_FAIL and, in debug builds only, each marked line has one test of its own, "
    "built from the unmarked lines and that line without the marker, and expected to fail; there are no others, all have the options passed, and a later change of the source makes CMake run again. "
    "This holds after any history of edits and of failed or killed configures, for sources with no marked line too; if nothing fails, CMake accepts.",
    ["histories", "fault_sequences", "inputs"], "every history of edits of the sources and of configures, with every read or write of the generator short or failing, or its process ending there",
    "One source with two marked lines is configured once, on a healthy disk, and only in debug builds.",
    ["cmake/EkatCreateUnitTestWithAsserts.cmake", "cmake/gen_assert_test_src.py"], [("generated sources", "cmake/gen_assert_test_src.py"), ("registration and the generator's exit status", "cmake/EkatCreateUnitTestWithAsserts.cmake")], None,
    ["tests registered", "the sources they are built from"])

add("C28", "Builds that configure at once share third-party sources safely",
    "Builds that configure at the same time and ask ekat_fetch_content for the same commit (a full hash) in one shared folder all end up with complete sources of that commit: one at a time populates the folder, and only if it lacks the commit; "
    "every configure that succeeds goes on with those sources exactly once per name, built in its own build tree. Overrides of the source folder are honoured, bad calls are refused. "
    "A configure that fails or is killed at any point never blocks the others, and leaves nothing in the folder that a later configure of a fresh build takes for the commit it asks for.",
    ["schedules", "fault_sequences", "histories"], "every interleaving of the configures' steps, with any of them killed, its network or git failing, at any point",
    "The suite never calls it: it needs several configures at once, a network and crashes.",
    ["cmake/EkatUtils.cmake"], [("lock, check of the folder, population", "cmake/EkatUtils.cmake: ekat_fetch_content")], None, ["who populates the folder and when", "contents of the folder when the configure goes on"])

add("C29", "Configured headers are always up to date, and touched only when they change",
    "After every configure that succeeds, the header EkatConfigFile writes is exactly its template with the current values put in (only @VAR@ ones with AT_ONLY), "
    "and the Fortran file, if asked for, is that header with the comments that start a line (// and /*...*/) made Fortran comments. A file that was right already is not written again, so nothing that includes it is rebuilt. "
    "This holds after any history of edits, changes of values and options, lost or damaged files, and configures that were killed or whose sed failed. A call without an existing template is refused; without a fault nothing else fails.",
    ["histories", "fault_sequences"], "every history of edits and configures, with faults and kills at any point",
    "The suite configures once, in a fresh folder, and looks at no configured header.",
    ["cmake/EkatUtils.cmake"], [("configured and Fortran headers", "cmake/EkatUtils.cmake: EkatConfigFile")], None, ["content of the two files after each configure", "when the files are written"])

add("C30", "Pack and mask arithmetic equals the element-wise scalar operations",
    "Every arithmetic, comparison, selection and reduction on packs and masks gives in each lane the result of the scalar operation, whatever the pack length.",
    ["inputs"], "every operand value and pack length", "The tests use a few values.", ["src/pack/ekat_pack.hpp", "src/pack/ekat_pack_math.hpp", "src/pack/ekat_pack_where.hpp"], [("lane loops", "src/pack/ekat_pack.hpp")])
add("C31", "String utilities and nested-list parsing follow their documented grammar",
    "Splitting, trimming, joining, case conversion, similarity measures and nested-list parsing return the documented result for every string.",
    ["inputs"], "every string", "The tests use a few strings.", [CO + "ekat_string_utils.hpp", CO + "ekat_string_utils.cpp"], [("string functions", CO + "ekat_string_utils.cpp")])
add("C32", "Sub-views, scalarised and reshaped views alias exactly the right elements",
    "A subview, scalarised, repacked, reshaped or transposed view addresses exactly the elements of the original that its definition names.",
    ["inputs", "configurations"], "every rank, extent and index", "The tests use a few ranks and extents.", ["src/kokkos/ekat_subview_utils.hpp", "src/kokkos/ekat_view_utils.hpp", "src/pack/ekat_pack_kokkos.hpp"], [("pointer arithmetic", "src/kokkos/ekat_subview_utils.hpp")])
add("C33", "Compile-time utilities select the documented types and values",
    "Type lists, type maps, type traits, rank-changing aliases and upper-bound helpers evaluate to the documented types and values.",
    ["inputs"], "every instantiation", "The tests instantiate a few.", [CO + "ekat_meta_utils.hpp", CO + "ekat_type_traits.hpp"], [("templates", CO + "ekat_meta_utils.hpp")])
with open("properties.jsonl", "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
