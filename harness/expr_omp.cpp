// Expressions on the real Kokkos OpenMP backend, over the simulated OpenMP runtime.
#include <Kokkos_Core.hpp>
#include "expr.hpp"

namespace sim { void omp_set_pool(int n); }
namespace {
using Dev = Kokkos::Device<Kokkos::OpenMP, Kokkos::HostSpace>;
void batch_init(uint32_t cfg) {
  const int n = cfg < 8 ? int(cfg) + 1 : cfg == 8 ? 12 : 17; sim::omp_set_pool(n);
  Kokkos::InitializationSettings st; st.set_num_threads(n); st.set_disable_warnings(true);
  Kokkos::initialize(st);
}
void c11() {
  using LR = Kokkos::LayoutRight; using LL = Kokkos::LayoutLeft; using LS = Kokkos::LayoutStride;
  ex::fence = [] { Kokkos::OpenMP().fence(); };
  static const auto t = ex::table<double, Dev>(std::make_integer_sequence<int, ex::NFORMULAS>());
  switch (sim::op(12)) {
    case 0: case 1: case 2: case 3: case 4: t[sim::op(ex::NFORMULAS)](); break;
    case 5: ex::ranked<double, Dev, 0>(); break; case 6: ex::ranked<float, Dev, 3>(); break; case 7: ex::ranked<double, Dev, 4>(); break;
    case 8: ex::ranked<double, Dev, 6>(); break; case 9: if (sim::op(2)) ex::formula<int, 2, 12, LR, LR, LR, Dev>(); else ex::formula<int, 3, 6, LR, LL, LR, Dev>(); break;
    case 10: ex::ranked<double, Dev, 5>(); break;
    default: switch (sim::op(14)) { case 0: ex::broadcast<double, 1, 1, LR, Dev>(); break; case 1: ex::broadcast<double, 1, 2, LR, Dev>(); break; case 2: ex::broadcast<double, 1, 2, LL, Dev>(); break; case 3: ex::broadcast<float, 1, 4, LR, Dev>(); break;
      case 4: ex::broadcast<double, 2, 3, LR, Dev>(); break; case 5: ex::broadcast<double, 2, 4, LL, Dev>(); break; case 6: ex::broadcast<double, 3, 6, LR, Dev>(); break; case 7: ex::broadcast<double, 2, 8, LR, Dev>(); break;
      case 8: ex::broadcast<double, 1, 2, LR, Dev, LS>(); break; case 9: ex::broadcast<double, 2, 3, LR, Dev, LS>(); break; case 10: ex::broadcast<double, 2, 2, LR, Dev, LL>(); break;
      case 11: ex::broadcast<double, 3, 5, LR, Dev>(); break; case 12: ex::broadcast<double, 3, 7, LL, Dev>(); break;
      default: ex::broadcast<double, 4, 8, LR, Dev>(); }
  }
}
const char* REAL = "ekat expressions and evaluate(), ViewBroadcast, Kokkos 3.7's OpenMP backend (range and multi-dimensional policies)";
const char* STUB = "OpenMP runtime (thread creation and scheduling)";
}
sim::HarnessDef sim::harness = {"expr_omp", 10, batch_init, nullptr, {{"C11", c11, REAL, STUB}}};
