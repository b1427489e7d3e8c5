// The Kokkos session over a simulated runtime: every start and end it makes is recorded.
#include "ekat_kokkos_session.hpp"
#include "ekat_assert.hpp"
#include "../sim/sim.hpp"
#include "../sim/pthread_shim.hpp"
#include <Kokkos_Core.hpp>
#include <dlfcn.h>
#include <string>
#include <vector>

namespace {
using sim::NoPreempt;
struct Runtime { bool running = false; int starts = 0, ends = 0; bool with_args = false; std::vector<std::string> args; std::string device_by; bool quiet = false; bool has_settings = false; bool touched = false; } rt;
bool failing = false;
struct StartFailed : std::runtime_error { StartFailed() : std::runtime_error("the runtime cannot start") {} };
void start() {
  sim::yield();
  if (rt.running) sim::fail("started-twice", "the runtime is initialised while it runs");
  if (failing && sim::fault("runtime-start-fails", 1, 5)) throw StartFailed();
  rt.running = true; ++rt.starts;
}
}
namespace Kokkos {
bool is_initialized() noexcept { return rt.running; }
bool is_finalized() noexcept { return !rt.running && rt.ends > 0; }
void initialize(int& argc, char* argv[]) { rt.with_args = true; rt.has_settings = false; rt.args.clear(); for (int i = 0; i < argc; ++i) rt.args.push_back(argv[i]); start(); }
void initialize(const InitializationSettings& s) { rt.with_args = false; rt.has_settings = true; rt.device_by = s.has_map_device_id_by() ? s.get_map_device_id_by() : ""; rt.quiet = s.has_disable_warnings() && s.get_disable_warnings(); start(); }
void finalize() { sim::yield(); if (!rt.running) sim::fail("ended-twice", "the runtime is finalised while it does not run"); rt.running = false; ++rt.ends; }
}
// what the runtime says about itself may only be asked while it runs
extern "C" void _ZN6Kokkos6OpenMPC1Ev(void* self) {
  if (sim::running() && !rt.running) sim::fail("used-while-down", "the runtime is used while it is not initialised");
  static auto f = (void (*)(void*))dlsym(RTLD_NEXT, "_ZN6Kokkos6OpenMPC1Ev"); f(self);
}
namespace {
void batch_init(uint32_t) {
  if (!freopen("/dev/null", "w", stdout)) sim::harness_error("cannot redirect stdout");
  auto f = (void (*)(const Kokkos::InitializationSettings&))dlsym(RTLD_NEXT, "_ZN6Kokkos10initializeERKNS_22InitializationSettingsE");
  if (!f) sim::harness_error("no Kokkos runtime found");
  Kokkos::InitializationSettings s; s.set_num_threads(1); s.set_disable_warnings(true); f(s);
}
void c23() {
  simpt::begin(); rt = Runtime(); failing = sim::op(2);
  sim::spawn("app", [] {
    bool up = false; int starts = 0, ends = 0; const int steps = sim::op_range(1, 14);
    for (int s = 0; s < steps; ++s) {
      const uint32_t k = sim::op(8); bool threw = false; const char* what = "";
      try {
        switch (k) {
          case 0: case 1: case 2: case 3: {
            what = "initialize_kokkos_session"; const bool print = sim::op(2), was = up; std::vector<std::string> a; bool mentions = false; const bool with_args = k != 0;
            if (with_args) { int n = sim::op(20) == 19 ? sim::op_range(5, 150) : sim::op_range(0, 4); static const char* w[] = {"prog", "--kokkos-num-threads=3", "--help", "-x", "--kokkos-map-device-id-by=random", "kokkos", "--args", "--kokko", "a--kokkos", ""}; while (n--) { a.push_back(w[sim::op(10)]); if (a.back().find("--kokkos") != std::string::npos) mentions = true; } }
            std::vector<char*> v; for (auto& x : a) v.push_back(&x[0]); v.push_back(nullptr);
            rt.with_args = rt.has_settings = false;
            if (with_args) ekat::initialize_kokkos_session(int(a.size()), v.data(), print); else ekat::initialize_kokkos_session(print);
            if (was) { if (rt.with_args || rt.has_settings) sim::fail("started-twice", "a start while the runtime runs reached the runtime"); }
            else {
              up = true; ++starts;
              if (!rt.with_args && !rt.has_settings) sim::fail("not-started", "a start while the runtime is down did not initialise it");
              if (mentions != rt.with_args) sim::fail("wrong-arguments", "the command line %s the runtime but was %s", mentions ? "mentions" : "does not mention", rt.with_args ? "handed over" : "not handed over");
              if (mentions && rt.args != a) sim::fail("wrong-arguments", "the runtime got other arguments than the session");
              if (!mentions && (rt.device_by != "mpi_rank" || !rt.quiet)) sim::fail("wrong-settings", "the default settings are '%s', warnings %s", rt.device_by.c_str(), rt.quiet ? "off" : "on");
            }
            break;
          }
          case 4: case 5: { what = "finalize_kokkos_session"; const bool was = up; ekat::finalize_kokkos_session(); if (was) ++ends; up = false; break; }
          case 6: { if (up) break; what = "Kokkos::initialize"; Kokkos::initialize(Kokkos::InitializationSettings()); up = true; ++starts; break; }
          default: { if (!up) break; what = "Kokkos::finalize"; Kokkos::finalize(); up = false; ++ends; break; }
        }
      } catch (const StartFailed&) { threw = true; }
      if (threw && up) sim::fail("spurious-error", "%s failed though the runtime was up", what);
      if (rt.running != up || rt.starts != starts || rt.ends != ends) sim::fail("wrong-state", "after %s%s the runtime is %s (%d starts, %d ends) instead of %s (%d, %d)", what, threw ? ", which failed," : "", rt.running ? "up" : "down", rt.starts, rt.ends, up ? "up" : "down", starts, ends);
      if (up) { if (ekat::kokkos_config_string().find("#host threads: ") == std::string::npos) sim::fail("wrong-description", "no thread count in the configuration"); }
      sim::count("session-operations");
    }
  });
  sim::join_all();
}
}
namespace sim { extern HarnessDef harness; }
sim::HarnessDef sim::harness = {"session", 1, batch_init, nullptr, {{"C23", c23, "ekat::initialize_kokkos_session, finalize_kokkos_session, kokkos_config_string", "Kokkos::initialize, finalize, is_initialized (a recording stand-in that can fail to start)"}}};
