// Team-level algorithms on the real Kokkos OpenMP backend, over the simulated OpenMP runtime.
#include <Kokkos_Core.hpp>
#include "algo.hpp"

namespace sim { void omp_set_pool(int n); }
namespace {
using Dev = ekat::DefaultDevice;
int nthreads = 4;
void batch_init(uint32_t cfg) {
  nthreads = cfg < 8 ? int(cfg) + 1 : cfg == 8 ? 12 : 17;
  sim::omp_set_pool(nthreads);
  Kokkos::InitializationSettings st; st.set_num_threads(nthreads); st.set_disable_warnings(true);
  Kokkos::initialize(st);
}
alg::Layout layout() { alg::Layout L; L.team = sim::op_range(1, nthreads); L.league = sim::op_range(1, 4); return L; }
void c07() {
  auto L = layout();
  switch (sim::op(3)) { case 0: alg::tri_correct<double, double, Dev>(L); break; case 1: alg::tri_correct<float, float, Dev>(L); break; default: alg::tri_correct<double, double, Dev>(L); }
}
void c08() { auto L = layout(); if (sim::op(2)) alg::tri_bfb<double, Dev, Dev>(L); else alg::tri_bfb<float, Dev, Dev>(L); }
void c09() {
  auto L = layout();
  switch (sim::op(6)) {
    case 0: alg::reductions<double, 4, true, Dev>(L); break; case 1: alg::reductions<double, 4, false, Dev>(L); break;
    case 2: alg::reductions<double, 1, false, Dev>(L); break; case 3: alg::reductions<float, 8, true, Dev>(L); break;
    case 4: alg::reductions<float, 8, false, Dev>(L); break; default: alg::reductions<double, 16, ekat::ekatBFB, Dev>(L);
  }
}
void c10() {
  switch (sim::op(5)) {
    case 0: alg::interp<double, 1, 0, Dev>(nthreads, false); break; case 1: alg::interp<double, 4, 4, Dev>(nthreads, false); break;
    case 2: alg::interp<double, 4, 0, Dev>(nthreads, false); break; case 3: alg::interp<float, 2, 8, Dev>(nthreads, false); break;
    default: alg::interp<double, 16, 16, Dev>(nthreads, false);
  }
}
const char* REAL = "tridiagonal solvers, ReductionUtils, LinInterp, packs, Kokkos 3.7 OpenMP backend, its team reductions and host barriers";
const char* STUB = "OpenMP runtime (thread creation and scheduling)";
}
sim::HarnessDef sim::harness = {"algo_omp", 10, batch_init, nullptr, {{"C07", c07, REAL, STUB}, {"C08", c08, REAL, STUB}, {"C09", c09, REAL, STUB}, {"C10", c10, REAL, STUB}}};
