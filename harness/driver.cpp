// The test driver: its main program, run by every simulated rank, with generated tests.
#include "catch2/catch.hpp"
#include "ekat_test_utils.hpp"
#include "ekat_fpe.hpp"
#include "ekat_comm.hpp"
#include "ekat_assert.hpp"
#include "ekat_kokkos_session.hpp"
#include "../sim/sim.hpp"
#include "../sim/pthread_shim.hpp"
#include "../sim/rank_globals.hpp"
#ifdef EKAT_ENABLE_MPI
#include "../sim/sim_mpi.hpp"
#endif
#include <Kokkos_Core.hpp>
#include <cfenv>
#include <cstring>
#include <iostream>
#include <memory>
#include <map>
#include <set>
#include <string>
#include <vector>

int ekat_driver_main(int argc, char** argv);

namespace {
using sim::NoPreempt;
constexpr int NT = 12;
enum Fate { PASS, CHECK_FAILS, REQUIRE_FAILS, THROWS, THROWS_ODD, FAILS, MANY_FAIL, SECTION_FAILS, LATE_CHECK, NOTHROW_FAILS, THROWS_EKAT, NFATE };
const char* fate_name[] = {"pass", "CHECK", "REQUIRE", "std exception", "odd exception", "FAIL", "many CHECKs", "CHECK in a section", "CHECK after a passing one", "REQUIRE_NOTHROW", "EKAT_REQUIRE"};
struct StartFailed : std::runtime_error { StartFailed() : std::runtime_error("the runtime cannot start") {} };
struct RankPlan { std::vector<int> fate; std::vector<int> where; };
struct RankState {
  bool up = false, mpi_seen_down = false; int starts = 0, ends = 0; std::vector<int> ran; int failed = 0; bool exited = false, died = false; int code = -1; std::vector<std::string> kargs; bool with_args = false;
};
struct Plan {
  int n = 1, many = 1; std::vector<RankPlan> rank; std::vector<RankState> st; std::set<int> selected; bool bad_args = false, abort_early = false, fail_start = false, mpi_faults = false;
  std::vector<std::string> catch_args, custom; bool has_custom_flag = false, kokkos_arg = false;
  std::map<std::string, bool> flags; std::map<std::string, std::string> params; std::map<std::string, std::vector<std::string>> vec;
};
Plan* P = nullptr;                    // the same in every rank's copy of this variable
int me() {
#ifdef EKAT_ENABLE_MPI
  return simmpi::world_rank();
#else
  return 0;
#endif
}
RankState& mine() { return P->st[size_t(me())]; }
}
// ------------------------------------------------------------ the runtime
namespace Kokkos {
bool is_initialized() noexcept { return P && mine().up; }
bool is_finalized() noexcept { return P && !mine().up && mine().ends > 0; }
static void start() {
  sim::yield(); RankState& s = mine();
  if (s.up) sim::fail("started-twice", "rank %d initialises the runtime while it runs", me());
#ifdef EKAT_ENABLE_MPI
  if (!simmpi::inits(me()) || simmpi::finalizes(me())) sim::fail("wrong-order", "rank %d initialises the runtime while MPI does not run", me());
#endif
  if (P->fail_start && sim::fault("runtime-start-fails", 1, 4)) throw StartFailed();
  s.up = true; ++s.starts;
}
void initialize(int& argc, char* argv[]) { { NoPreempt np; mine().with_args = true; for (int i = 0; i < argc; ++i) mine().kargs.push_back(argv[i]); } start(); }
void initialize(const InitializationSettings&) { start(); }
void finalize() {
  sim::yield(); RankState& s = mine();
  if (!s.up) sim::fail("ended-twice", "rank %d finalises the runtime while it does not run", me());
#ifdef EKAT_ENABLE_MPI
  if (simmpi::finalizes(me())) sim::fail("wrong-order", "rank %d finalises the runtime after MPI", me());
#endif
  s.up = false; ++s.ends;
}
}
// -------------------------------------------------------------- the tests
namespace {
void failed() { NoPreempt np; ++mine().failed; sim::count("failing-checks"); }
void run_test(int t) {
  int fate, where;
  {
    NoPreempt np; RankState& s = mine(); ++s.ran[size_t(t)]; fate = P->rank[size_t(me())].fate[size_t(t)]; where = P->rank[size_t(me())].where[size_t(t)]; sim::count("tests-run");
    if (!s.up) sim::fail("session-down", "rank %d runs a test without a session", me());
    for (int r = 0; r < P->n; ++r) if (!P->st[size_t(r)].starts) sim::fail("session-down", "rank %d runs a test before rank %d has started its session", me(), r);
#ifdef EKAT_ENABLE_MPI
    if (!simmpi::inits(me()) || simmpi::finalizes(me())) sim::fail("wrong-order", "rank %d runs a test while MPI does not run", me());
#endif
    auto& ts = ekat::TestSession::get();
    if (ts.flags != P->flags || ts.params != P->params || ts.vec_params != P->vec) {
      std::string c; for (auto& a : P->custom) c += " " + a; std::string g; for (auto& f : ts.flags) g += " " + f.first; g += ";"; for (auto& p : ts.params) g += " " + p.first + "=" + p.second; g += ";"; for (auto& p : ts.vec_params) { g += " " + p.first + "="; for (auto& v : p.second) g += v + ","; }
      sim::fail("wrong-arguments", "rank %d: the test's arguments '%s' are seen as '%s'", me(), c.c_str(), g.c_str());
    }
#ifdef EKAT_ENABLE_FPE_DEFAULT_MASK
    if (ekat::get_enabled_fpes() != (FE_DIVBYZERO | FE_INVALID | FE_OVERFLOW)) sim::fail("wrong-mask", "tests run with floating-point traps %d", ekat::get_enabled_fpes());
#else
    if (ekat::get_enabled_fpes() != 0) sim::fail("wrong-mask", "tests run with floating-point traps %d", ekat::get_enabled_fpes());
#endif
  }
  sim::yield();
#ifdef EKAT_ENABLE_MPI
  if (!P->abort_early && mine().ran[size_t(t)] == 1) {           // all ranks run the same tests (sections run one several times)
    ekat::Comm c(MPI_COMM_WORLD); int sum = 0, one = me() + t;
    if (where & 1) c.all_reduce(&one, &sum, 1, MPI_SUM); else { sum = one; c.all_reduce(&sum, 1, MPI_SUM); }
    CHECK(sum == P->n * (P->n - 1) / 2 + P->n * t);
  }
#endif
  switch (fate) {
    case PASS: CHECK(t >= 0); REQUIRE(t < NT); break;
    case CHECK_FAILS: failed(); CHECK(t < 0); break;
    case REQUIRE_FAILS: failed(); REQUIRE(t > NT); break;
    case THROWS: failed(); sim::yield(); throw std::runtime_error("an error in a test");
    case THROWS_ODD: failed(); throw 42;
    case FAILS: failed(); FAIL("failing"); break;
    case MANY_FAIL: for (int i = 0; i < P->many; ++i) { failed(); CHECK(i < 0); } break;
    case SECTION_FAILS: { SECTION("a") { CHECK(t >= 0); } SECTION("b") { failed(); CHECK(t < 0); } SECTION("c") { CHECK(t >= 0); } break; }
    case LATE_CHECK: CHECK(t >= 0); sim::yield(); CHECK(t < NT); failed(); CHECK_FALSE(t >= 0); break;
    case NOTHROW_FAILS: failed(); REQUIRE_NOTHROW(throw std::logic_error("inside")); break;
    default: failed(); EKAT_REQUIRE_MSG(t < 0, "a requirement of the library fails in a test\n");
  }
}
#define T(N) TEST_CASE("t" #N) { run_test(N); }
T(0) T(1) T(2) T(3) T(4) T(5) T(6) T(7) T(8) T(9) T(10)
TEST_CASE("t11", "[.hidden]") { run_test(11); }

// ------------------------------------------------------- the command line
void make_args(Plan& p) {
  auto num = [](int t) { return "t" + std::to_string(t); };
  switch (sim::op(5)) {
    case 0: for (int t = 0; t < 11; ++t) p.selected.insert(t); break;
    case 1: { int t = int(sim::op(NT)); p.catch_args.push_back(num(t)); p.selected.insert(t); break; }
    case 2: { std::string s; int k = sim::op_range(1, 4); for (int i = 0; i < k; ++i) { int t = int(sim::op(NT)); p.selected.insert(t); s += (i ? "," : "") + num(t); } p.catch_args.push_back(s); break; }
    case 3: p.catch_args.push_back("t1*"); p.selected = {1, 10, 11}; break;
    default: p.catch_args.push_back("~t1*"); p.selected = {0, 2, 3, 4, 5, 6, 7, 8, 9}; break;
  }
  // (Catch2 drops hidden tests from negative and empty selections, and takes them when named)
  if (sim::op(3) == 2) { p.catch_args.insert(p.catch_args.begin(), {"--use-colour", "no"}); }
  if (sim::op(4) == 3) { p.catch_args.push_back("-a"); p.abort_early = true; }
  if (sim::op(6) == 5) p.catch_args.push_back("-s");
  if (sim::op(24) == 23) { p.bad_args = true; p.catch_args.insert(p.catch_args.begin(), sim::op(2) ? "--non-existent-flag" : "-Q"); }
  if (sim::op(24) == 23) {                      // what follows --args does not follow its rules
    static const char* const bad[][3] = {{"value", "--key", "v"}, {"a=b", nullptr, nullptr}, {"--key=a=b", nullptr, nullptr}, {"--key", "v,-w", nullptr}, {"--key=v,--w", nullptr, nullptr}, {"--key", "a=b", nullptr}, {"one,two", nullptr, nullptr}, {"--ok", "-x", "b==c"}};
    p.bad_args = p.has_custom_flag = true; for (auto w : bad[sim::op(8)]) if (w) p.custom.push_back(w);
  } else if (sim::op(2)) {
    p.has_custom_flag = true; int n = sim::op_range(0, 5); std::set<std::string> used;
    static const char* keys[] = {"a", "b", "key", "long-key", "K", "bar", "kokkos", "x1", "foo", "z_z", "t2", "a=b"};
    static const char* vals[] = {"1", "two", "a.b", "/p/q.yaml", "3.5e2", "x-y", "t3", "--"};
    while (n--) {
      std::string k = keys[sim::op(11)]; if (!used.insert(k).second && sim::op(3)) continue;      // (what is given twice adds up)
      std::string dash = sim::op(2) ? "--" : "-", key = dash + k; if (k == "kokkos" && dash == "--") p.kokkos_arg = true;
      const uint32_t how = sim::op(5); int nv = how == 0 ? 0 : how == 1 || how == 2 ? 1 : sim::op_range(2, 4);
      std::vector<std::string> v; for (int i = 0; i < nv; ++i) v.push_back(vals[sim::op(7)]);
      if (nv == 0) { p.custom.push_back(key); p.flags[k] = true; continue; }
      p.vec[k].insert(p.vec[k].end(), v.begin(), v.end()); if (p.vec[k].size() == 1) p.params[k] = v[0]; else p.params.erase(k);
      std::string joined; for (auto& x : v) joined += (joined.empty() ? "" : ",") + x;
      if (how == 1 || how == 3) { p.custom.push_back(key); if (nv > 1 && sim::op(2)) p.custom.push_back(joined); else for (auto& x : v) p.custom.push_back(x); }
      else p.custom.push_back(key + "=" + joined);
    }
  }
}
void rank_body(int r) {
  std::vector<std::string> a; std::vector<char*> v;
  {
    NoPreempt np;
#ifdef EKAT_ENABLE_MPI
    simmpi::set_rank(r);
#endif
    a.push_back("./driver"); for (auto& x : P->catch_args) a.push_back(x);
    if (P->has_custom_flag) { a.push_back("--args"); for (auto& x : P->custom) a.push_back(x); }
    for (auto& x : a) v.push_back(&x[0]); v.push_back(nullptr);
  }
  RankState& s = P->st[size_t(r)]; std::string why = "unknown";
  try { s.code = ekat_driver_main(int(a.size()), v.data()) & 0xff; s.exited = true; }
  catch (const std::exception& e) { s.died = true; why = e.what(); }
  catch (...) { s.died = true; }
  NoPreempt np;
#ifdef EKAT_ENABLE_MPI
  simmpi::dead(r);
  const bool mpi_failed = simmpi::take_failed();
#else
  const bool mpi_failed = false;
#endif
  if (P->bad_args) {
    for (int t = 0; t < NT; ++t) if (s.ran[size_t(t)]) sim::fail("bad-arguments-accepted", "rank %d ran test t%d in spite of bad arguments", r, t);
    if (s.exited && s.code == 0) sim::fail("bad-arguments-accepted", "rank %d exits with success in spite of bad arguments", r);
    sim::count("bad-command-lines"); return;
  }
  if (s.died) {
    if (!mpi_failed && (s.starts || !P->fail_start)) sim::fail("driver-died", "rank %d: an exception ended the driver: %.200s", r, why.c_str());
    sim::count("ranks-that-could-not-start"); return;
  }
  sim::count("ranks-that-exited"); sim::count(s.code ? "exits-with-failure" : "exits-with-success");
  if (s.starts != 1 || s.ends != 1) sim::fail("session-count", "rank %d started its session %d times and ended it %d times", r, s.starts, s.ends);
#ifdef EKAT_ENABLE_MPI
  if (simmpi::inits(r) != 1 || simmpi::finalizes(r) != 1) sim::fail("mpi-count", "rank %d initialised MPI %d times and finalised it %d times", r, simmpi::inits(r), simmpi::finalizes(r));
#endif
  if (s.with_args != P->kokkos_arg) sim::fail("wrong-arguments", "rank %d: the arguments were%s handed to the runtime", r, s.with_args ? "" : " not");
  if (s.with_args && s.kargs != a) sim::fail("wrong-arguments", "rank %d: other arguments were handed to the runtime than given", r);
  bool stop = false; int bad = 0;
  for (int t : P->selected) {
    const int f = P->rank[size_t(r)].fate[size_t(t)];
    if (!stop && !s.ran[size_t(t)]) sim::fail("test-not-run", "rank %d did not run test t%d", r, t);
    if (P->abort_early && f != PASS) stop = true;
    if (s.ran[size_t(t)] && f != PASS) ++bad;
  }
  for (int t = 0; t < NT; ++t) if (s.ran[size_t(t)] && !P->selected.count(t)) sim::fail("wrong-test-run", "rank %d ran test t%d, which was not selected", r, t);
  if (bad && s.code == 0) sim::fail("failure-hidden", "rank %d exits with success though %d checks failed", r, s.failed);
  if (!bad && !s.failed && s.code != 0 && !mpi_failed) sim::fail("false-failure", "rank %d exits with %d though every check passed", r, s.code);
  if (mpi_failed && s.code == 0) sim::fail("failure-hidden", "rank %d exits with success though an MPI call failed", r);
}
// Catch2 keeps its registries between runs; its signal handlers and cleaning up are switched off (see variants.py)
void run(bool faults) {
  simpt::begin();
  std::unique_ptr<Plan> plan(new Plan); P = plan.get();
#ifdef EKAT_ENABLE_MPI
  plan->n = sim::op(60) == 59 ? sim::op_range(5, 12) : sim::op_range(1, 4);
#endif
  plan->rank.resize(size_t(plan->n)); plan->st.resize(size_t(plan->n)); plan->fail_start = faults && sim::draw(sim::FAULT, 8) == 7; plan->many = 1 << sim::op_range(0, 9);
  make_args(*plan);
  const int density = sim::op_range(0, 3);
  for (auto& r : plan->rank) for (int t = 0; t < NT; ++t) { r.where.push_back(int(sim::op(2))); r.fate.push_back(density && sim::op_chance(1, density == 1 ? 40 : density == 2 ? 10 : 3) ? 1 + int(sim::op(NFATE - 1)) : 0); }
  for (auto& s : plan->st) s.ran.assign(NT, 0);
  if (sim::fault("stdout-fails", 1, 12)) std::cout.setstate(std::ios::badbit); else std::cout.clear();
#ifdef EKAT_ENABLE_MPI
  simmpi::Config c; c.nranks = plan->n; c.initialized = false; c.synchronising = sim::op(2);
  if (faults && sim::draw(sim::FAULT, 6) == 5) { plan->mpi_faults = true; c.fail_num = 1; c.fail_den = 20 + sim::draw(sim::FAULT, 100); }
  simmpi::begin(c);
  simmpi::on_mpi_abort = [](int r, const std::string& why) {
    bool reason = false; for (auto& s : P->st) reason |= s.died || s.code > 0; (void)r;
    if (!reason && !P->mpi_faults) sim::fail("mpi-abort", "MPI aborted the job on rank %d: %s", r, why.c_str());
    sim::count("jobs-aborted"); sim::finish_run();
  };
#endif
  sim::rank_globals("_ranks.so", plan->n);
  for (int r = 0; r < plan->n; ++r) sim::spawn("rank", [=] { rank_body(r); }, r);
  sim::join_all();
  std::cout.clear(); P = nullptr;
}
void c26() { run(true); }
void batch_init(uint32_t) { if (!freopen("/dev/null", "w", stdout)) sim::harness_error("cannot redirect stdout"); }
const char* STUB = "MPI library (simulated, one task with its own copy of the globals per rank), Kokkos::initialize and finalize (a recording stand-in)";
}
namespace sim { extern HarnessDef harness; }
sim::HarnessDef sim::harness = {"driver", 1, batch_init, nullptr, {{"C26", c26, "ekat_catch_main.cpp, ekat_test_session.cpp, ekat::TestSession, ekat::Comm, Kokkos session, Catch2's registries, runner and reporters", STUB}}};
