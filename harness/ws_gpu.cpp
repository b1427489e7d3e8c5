// WorkspaceManager on the simulated GPU execution space (EKAT's GPU code paths).
#include "../sim/sim_gpu_space.hpp"
#include "ws.hpp"
#include <time.h>

namespace sim { void omp_set_pool(int n); }
namespace {
using Dev = simgpu::SimGpu::device_type;
void batch_init(uint32_t) {
  sim::omp_set_pool(1);
  Kokkos::InitializationSettings st; st.set_num_threads(1); st.set_disable_warnings(true);
  Kokkos::initialize(st);
}
template <class E> typename E::Setup machine(bool slots_scarce, bool single, bool large = false) {
  auto& c = simgpu::config();
  typename E::Setup s;
  s.team_size = sim::op_range(1, 4);
  int conc_teams = sim::op_range(1, slots_scarce ? 4 : 8);
  c.concurrency = s.team_size * conc_teams * (single ? 1 : 2) + int(sim::op(2));
  s.league = sim::op_range(1, slots_scarce ? 16 : 10);
  c.residency = sim::op_range(1, 8);
  c.shuffle_league = sim::op(2);
  c.weak_memory = sim::op(2);
  s.size = sim::op(4) == 3 ? sim::op_range(1, 24) : sim::op_range(1, 6);
  s.cap = sim::op_range(1, 8);
  s.overprov = 1.0 + sim::op(5) * 0.25;
  if (large) switch (sim::op(4)) {
    case 0: s.league = sim::op_range(17, 60); break; case 1: s.size = sim::op_range(40, 400); break; case 2: s.cap = sim::op_range(10, 40); break;
    default: s.team_size = sim::op_range(5, 20); s.league = sim::op_range(1, 4); c.concurrency = s.team_size * conc_teams * (single ? 1 : 2);
  }
  simgpu::memory_begin();
  return s;
}
template <class E> void go(wsim::Params P, bool single) {
  const bool large = sim::op(100) == 99; if (large) { P.max_phases = 1; P.max_ops = P.max_ops < 8 ? P.max_ops : 8; }      // rarely
  auto s = machine<E>(P.contention, single, large); E::run(P, s);
}
void any(const wsim::Params& P) {
  switch (sim::op(3)) {
    case 0: go<wsim::Engine<double, float, Dev>>(P, false); break;
    case 1: go<wsim::Engine<float, int, Dev>>(P, true); break;
    default: go<wsim::Engine<ekat::Pack<double, 2>, double, Dev>>(P, false); break;
  }
}
template <class E> void slots(bool single) {
  auto s = machine<E>(true, single); s.size = s.cap = 1;
  auto& c = simgpu::config();
  bool all_resident = sim::op(2); if (all_resident) c.residency = s.league;
  E::run_slots(s, all_resident, true);
}
void c05() { if (sim::op(2)) slots<wsim::Engine<double, float, Dev>>(false); else slots<wsim::Engine<float, int, Dev>>(true); }
void c01() { if (sim::op(3) == 2) { c05(); return; } wsim::Params P; P.contention = true; P.max_phases = 2; P.max_ops = 8; P.user_data = sim::op(3) == 0; any(P); }
void c02() { wsim::Params P; P.max_phases = 2; P.max_ops = 26; P.user_data = sim::op(3) == 0; any(P); }
void c03() { wsim::Params P; P.max_phases = 6; P.max_ops = 12; any(P); }
void c04() {
  wsim::Params P; P.max_phases = 3; P.max_ops = 14;
#ifndef NDEBUG
  P.misuse = int(sim::op(2)); P.report = true;
#endif
  any(P);
}
void c06() { wsim::Params P; P.max_phases = 3; P.max_ops = 12; P.user_data = true; any(P); }
const char* REAL = "WorkspaceManager, Workspace, TeamUtils (GPU slot locks, random retry), TeamPolicyFactory, Kokkos views and random pool";
const char* STUB = "GPU execution space: team scheduling, barriers, store visibility; the wall clock that seeds the retry generator";
}
// the clock that seeds the retry generator
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(sim::running() ? int64_t(1 + sim::draw(sim::OPS, 1u << 30)) : 1)); }
}}}
sim::HarnessDef sim::harness = {"ws_gpu", 1, batch_init, nullptr, {
  {"C01", c01, REAL, STUB}, {"C02", c02, REAL, STUB}, {"C03", c03, REAL, STUB}, {"C04", c04, REAL, STUB}, {"C05", c05, REAL, STUB}, {"C06", c06, REAL, STUB}}};
