// Expressions on the simulated GPU: kernels run after evaluate() has returned, their elements in any order.
#include "../sim/sim_gpu_space.hpp"
#include "expr.hpp"

namespace sim { void omp_set_pool(int n); }
namespace {
using Dev = simgpu::SimGpu::device_type;
void batch_init(uint32_t) {
  sim::omp_set_pool(1);
  Kokkos::InitializationSettings st; st.set_num_threads(1); st.set_disable_warnings(true);
  Kokkos::initialize(st);
}
void c11() {
  auto& c = simgpu::config(); c.concurrency = sim::op_range(1, 64); c.async = sim::op(4) != 3;
  ex::fence = [] { simgpu::SimGpu().fence(); };
  static const auto t = ex::table<double, Dev>(std::make_integer_sequence<int, ex::NFORMULAS>());
  sim::spawn("host", [] {
    switch (sim::op(6)) {
      case 0: case 1: case 2: t[sim::op(ex::NFORMULAS)](); break; case 3: ex::ranked<double, Dev, 3>(); break; case 4: ex::ranked<float, Dev, 0>(); break;
      default: if (sim::op(2)) ex::broadcast<double, 1, 2, Kokkos::LayoutRight, Dev>(); else ex::broadcast<double, 2, 3, Kokkos::LayoutLeft, Dev>();
    }
    simgpu::SimGpu().fence();
  });
  sim::join_all(); c.async = false;
}
const char* REAL = "ekat expressions and evaluate(), ViewBroadcast";
const char* STUB = "GPU execution space: asynchronous kernels, order and interleaving of their elements";
}
sim::HarnessDef sim::harness = {"expr_gpu", 1, batch_init, nullptr, {{"C11", c11, REAL, STUB}}};
