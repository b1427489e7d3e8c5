// Team-level algorithms on the simulated GPU execution space (EKAT's GPU code paths).
#include "../sim/sim_gpu_space.hpp"
#include "algo.hpp"

namespace sim { void omp_set_pool(int n); }
namespace {
using Dev = simgpu::SimGpu::device_type; using Host = Kokkos::Device<Kokkos::OpenMP, Kokkos::HostSpace>;
void batch_init(uint32_t) {
  sim::omp_set_pool(1);
  Kokkos::InitializationSettings st; st.set_num_threads(1); st.set_disable_warnings(true);
  Kokkos::initialize(st);
}
void machine() {
  auto& c = simgpu::config(); c.concurrency = 1 << 16; c.residency = sim::op_range(1, 4); c.shuffle_league = sim::op(2); c.weak_memory = sim::op(2);
  simgpu::memory_begin();
}
alg::Layout layout() { machine(); alg::Layout L; L.team = sim::op(8) == 7 ? sim::op_range(1, sim::op(12) == 11 ? 140 : 40) : sim::op_range(1, 9); L.league = sim::op_range(1, 3); return L; }
void c07() { auto L = layout(); if (sim::op(2)) alg::tri_correct<double, double, Dev>(L); else alg::tri_correct<float, float, Dev>(L); }
void c08() { auto L = layout(); if (sim::op(2)) alg::tri_bfb<double, Dev, Host>(L); else alg::tri_bfb<double, Dev, Dev>(L); }
void c09() {
  auto L = layout();
  switch (sim::op(4)) {
    case 0: alg::reductions<double, 1, true, Dev>(L); break; case 1: alg::reductions<double, 1, false, Dev>(L); break;
    case 2: alg::reductions<double, 4, false, Dev>(L); break; default: alg::reductions<float, 4, true, Dev>(L);
  }
}
void c10() {
  machine();
  switch (sim::op(3)) { case 0: alg::interp<double, 1, 0, Dev>(9, true); break; case 1: alg::interp<double, 1, 1, Dev>(9, true); break; default: alg::interp<double, 4, 4, Dev>(9, true); }
}
const char* REAL = "tridiagonal solvers, ReductionUtils, LinInterp, packs, GPU branches of EKAT";
const char* STUB = "GPU execution space: team scheduling, barriers, team reductions, store visibility";
}
sim::HarnessDef sim::harness = {"algo_gpu", 1, batch_init, nullptr, {{"C07", c07, REAL, STUB}, {"C08", c08, REAL, STUB}, {"C09", c09, REAL, STUB}, {"C10", c10, REAL, STUB}}};
