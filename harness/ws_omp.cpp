// WorkspaceManager on the real Kokkos OpenMP backend, over the simulated OpenMP runtime.
#include <Kokkos_Core.hpp>
#include "ws.hpp"

namespace sim { void omp_set_pool(int n); }
namespace {
using Dev = ekat::DefaultDevice;
int nthreads = 4;
void batch_init(uint32_t cfg) {
  nthreads = cfg < 8 ? int(cfg) + 1 : cfg == 8 ? 12 : 17;
  sim::omp_set_pool(nthreads);
  Kokkos::InitializationSettings st; st.set_num_threads(nthreads); st.set_disable_warnings(true);
  Kokkos::initialize(st);
}
template <class E> void go(wsim::Params P) {
  const bool large = sim::op(100) == 99; if (large) { P.max_phases = 1; P.max_ops = P.max_ops < 8 ? P.max_ops : 8; }      // rarely
  typename E::Setup s;
  s.team_size = sim::op_range(1, nthreads);
  s.league = P.contention ? sim::op_range(1, 24) : sim::op_range(1, 8);
  s.size = sim::op(4) == 3 ? sim::op_range(1, 40) : sim::op_range(1, 8);
  s.cap = sim::op(4) == 3 ? sim::op_range(1, 24) : sim::op_range(1, 8);
  s.overprov = 1.0 + sim::op(3) * 0.25;
if (large) switch (sim::op(3)) { case 0: s.league = sim::op_range(25, 100); break; case 1: s.size = sim::op_range(40, 600); break; default: s.cap = sim::op_range(25, 60); }
  E::run(P, s);
}
void any(const wsim::Params& P) {
  switch (sim::op(4)) {
    case 0: go<wsim::Engine<double, float, Dev>>(P); break;
    case 1: go<wsim::Engine<float, int, Dev>>(P); break;
    case 2: go<wsim::Engine<ekat::Pack<double, 4>, double, Dev>>(P); break;
    default: go<wsim::Engine<int, int, Dev>>(P); break;
  }
}
void c01() {
  if (sim::op(4) == 3) { using E = wsim::Engine<double, float, Dev>; typename E::Setup s; s.team_size = sim::op_range(1, nthreads); s.league = sim::op_range(1, 40); s.size = 1; s.cap = 1; s.overprov = 1; E::run_slots(s, false, false); return; }
  wsim::Params P; P.contention = true; P.max_phases = 2; P.max_ops = 8; P.user_data = sim::op(3) == 0; any(P);
}
void c02() { wsim::Params P; P.max_phases = 2; P.max_ops = 30; P.user_data = sim::op(3) == 0; any(P); }
void c03() { wsim::Params P; P.max_phases = 6; P.max_ops = 14; any(P); }
void c04() {
  wsim::Params P; P.max_phases = 3; P.max_ops = 16;
#ifndef NDEBUG
  P.misuse = int(sim::op(2)); P.report = true;
#endif
  any(P);
}
void c06() { wsim::Params P; P.max_phases = 3; P.max_ops = 12; P.user_data = true; any(P); }
const char* REAL = "WorkspaceManager, Workspace, TeamUtils<OpenMP>, TeamPolicyFactory, Kokkos 3.7 OpenMP backend and host barriers";
const char* STUB = "OpenMP runtime (thread creation and scheduling)";
}
sim::HarnessDef sim::harness = {"ws_omp", 10, batch_init, nullptr, {
  {"C01", c01, REAL, STUB}, {"C02", c02, REAL, STUB}, {"C03", c03, REAL, STUB}, {"C04", c04, REAL, STUB}, {"C06", c06, REAL, STUB}}};
