// A stand-in for the OpenMP runtime: a parallel region is a set of simulated tasks.
// Also the two blocking primitives of the real Kokkos OpenMP backend.
#include "sim_internal.hpp"
#include <sched.h>
#include <time.h>
#include <cstring>
#include <functional>
#include <map>
#include <string>

namespace sim {
struct OmpLoop { bool up; unsigned long long next, end, incr, chunk; };   // a loop whose iterations the threads take as they come
struct OmpTeam { int n; int level; OmpTeam* parent; int parent_num; int arrived = 0; unsigned long epoch = 0; std::vector<OmpLoop> loops; int singles = 0; void* single_data = nullptr; };
struct OmpCtx { OmpTeam* team; int num; int loop = 0; int single = 0; };
static int g_omp_threads = 4;
void omp_set_pool(int n) { g_omp_threads = n; }
static OmpCtx* ctx() { return static_cast<OmpCtx*>(local(LOCAL_GOMP)); }
}
using namespace sim;

extern "C" {
static void parallel(void (*fn)(void*), void* data, unsigned n, unsigned, const std::function<void(OmpTeam&)>& init) {
  if (n == 0) n = unsigned(g_omp_threads);
  OmpCtx* c = ctx();
  OmpTeam team{int(n), c ? c->team->level + 1 : 1, c ? c->team : nullptr, c ? c->num : 0};
  if (init) init(team);
  if (n == 1 || !sim::running()) {                    // no concurrency to decide
    void* saved = local(LOCAL_GOMP);
    for (unsigned i = 0; i < n; ++i) { OmpCtx me{&team, int(i)}; local(LOCAL_GOMP) = &me; fn(data); }
    local(LOCAL_GOMP) = saved;
    return;
  }
  std::vector<int> ids; std::vector<OmpCtx> cx(n);
  void* saved = local(LOCAL_GOMP);
  for (unsigned i = 0; i < n; ++i) {
    cx[i] = OmpCtx{&team, int(i)};
    local(LOCAL_GOMP) = &cx[i];
    ids.push_back(sim::spawn("omp", [=] { fn(data); }));
  }
  local(LOCAL_GOMP) = saved;
  sim::join(ids);
}
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned f) { parallel(fn, data, n, f, nullptr); }
void GOMP_barrier() {
  OmpCtx* c = ctx(); if (!c || c->team->n == 1) return;
  if (!sim::running()) sim::harness_error("barrier outside a run");
  OmpTeam* t = c->team; const unsigned long e = t->epoch;
  if (++t->arrived == t->n) { t->arrived = 0; ++t->epoch; sim::detail::access(); return; }
  sim::block_until([t, e] { return t->epoch != e; }, "OpenMP barrier");
}
static std::map<void*, int> g_omp_locks;
static void omp_lock(void* p) { if (!sim::running() || !sim::in_task()) return; while (g_omp_locks.count(p)) sim::block_until([p] { return !g_omp_locks.count(p); }, "OpenMP lock"); g_omp_locks[p] = 1; }
static void omp_unlock(void* p) { g_omp_locks.erase(p); if (sim::running() && sim::in_task()) sim::yield(); }
static char g_critical, g_atomic;
void GOMP_critical_start() { omp_lock(&g_critical); }
void GOMP_critical_end() { omp_unlock(&g_critical); }
void GOMP_critical_name_start(void** p) { omp_lock(p); }
void GOMP_critical_name_end(void** p) { omp_unlock(p); }
void GOMP_atomic_start() { omp_lock(&g_atomic); }
void GOMP_atomic_end() { omp_unlock(&g_atomic); }
bool GOMP_single_start() { OmpCtx* c = ctx(); if (!c) return true; if (++c->single > c->team->singles) { ++c->team->singles; return true; } return false; }
void* GOMP_single_copy_start() { OmpCtx* c = ctx(); if (GOMP_single_start()) return nullptr; GOMP_barrier(); return c->team->single_data; }
void GOMP_single_copy_end(void* p) { OmpCtx* c = ctx(); if (c) c->team->single_data = p; GOMP_barrier(); }
// worksharing loops other than static ones
typedef unsigned long long ull;
static bool loop_take(ull* a, ull* b) {
  OmpCtx* c = ctx(); if (!c) sim::harness_error("worksharing loop outside a parallel region");
  sim::NoPreempt np; OmpLoop& l = c->team->loops[size_t(c->loop)];
  if (l.up ? l.next >= l.end : l.next <= l.end) return false;
  const ull left = l.up ? (l.end - l.next + l.incr - 1) / l.incr : (l.next - l.end + (0 - l.incr) - 1) / (0 - l.incr), n = left < l.chunk ? left : l.chunk;
  *a = l.next; *b = n == left ? l.end : l.next + n * l.incr; l.next = *b; return true;
}
static void loop_open(bool up, ull start, ull end, ull incr, ull chunk) {
  OmpCtx* c = ctx(); if (!c) sim::harness_error("worksharing loop outside a parallel region");
  if (size_t(c->loop) < c->team->loops.size()) return;
  // signed and unsigned bounds are both compared as offsets from the start
  c->team->loops.push_back(OmpLoop{up, start, end, incr, chunk ? chunk : 1});
}
static const ull BIAS = 1ull << 63;
#define LOOP_ENTRIES(KIND) \
  bool GOMP_loop_##KIND##_next(long* a, long* b) { sim::yield(); ull x, y; if (!loop_take(&x, &y)) return false; *a = long(x - BIAS); *b = long(y - BIAS); return true; } \
  bool GOMP_loop_ull_##KIND##_next(ull* a, ull* b) { sim::yield(); return loop_take(a, b); }
#define LOOP_START(KIND) \
  bool GOMP_loop_##KIND##_start(long s, long e, long i, long c, long* a, long* b) { loop_open(i > 0, ull(s) + BIAS, (i > 0 ? e > s : e < s) ? ull(e) + BIAS : ull(s) + BIAS, ull(i), ull(c)); return GOMP_loop_##KIND##_next(a, b); } \
  bool GOMP_loop_ull_##KIND##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { loop_open(up, s, (up ? e > s : e < s) ? e : s, i, c); return GOMP_loop_ull_##KIND##_next(a, b); } \
  void GOMP_parallel_loop_##KIND(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned f) { parallel(fn, data, n, f, [=](OmpTeam& t) { t.loops.push_back(OmpLoop{i > 0, ull(s) + BIAS, (i > 0 ? e > s : e < s) ? ull(e) + BIAS : ull(s) + BIAS, ull(i), c > 0 ? ull(c) : 1}); }); }
#define LOOP_START_RUNTIME(KIND) \
  bool GOMP_loop_##KIND##_start(long s, long e, long i, long* a, long* b) { loop_open(i > 0, ull(s) + BIAS, (i > 0 ? e > s : e < s) ? ull(e) + BIAS : ull(s) + BIAS, ull(i), 1); return GOMP_loop_##KIND##_next(a, b); } \
  bool GOMP_loop_ull_##KIND##_start(bool up, ull s, ull e, ull i, ull* a, ull* b) { loop_open(up, s, (up ? e > s : e < s) ? e : s, i, 1); return GOMP_loop_ull_##KIND##_next(a, b); } \
  void GOMP_parallel_loop_##KIND(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned f) { parallel(fn, data, n, f, [=](OmpTeam& t) { t.loops.push_back(OmpLoop{i > 0, ull(s) + BIAS, (i > 0 ? e > s : e < s) ? ull(e) + BIAS : ull(s) + BIAS, ull(i), 1}); }); }
LOOP_ENTRIES(dynamic) LOOP_ENTRIES(nonmonotonic_dynamic) LOOP_ENTRIES(guided) LOOP_ENTRIES(nonmonotonic_guided) LOOP_ENTRIES(runtime) LOOP_ENTRIES(nonmonotonic_runtime) LOOP_ENTRIES(maybe_nonmonotonic_runtime)
LOOP_START(dynamic) LOOP_START(nonmonotonic_dynamic) LOOP_START(guided) LOOP_START(nonmonotonic_guided)
LOOP_START_RUNTIME(runtime) LOOP_START_RUNTIME(nonmonotonic_runtime) LOOP_START_RUNTIME(maybe_nonmonotonic_runtime)
void GOMP_loop_end_nowait() { OmpCtx* c = ctx(); if (c) ++c->loop; }
void GOMP_loop_end() { GOMP_loop_end_nowait(); GOMP_barrier(); }
void omp_init_lock(void**) {}
void omp_destroy_lock(void**) {}
void omp_set_lock(void** p) { omp_lock(p); }
void omp_unset_lock(void** p) { omp_unlock(p); }
int omp_get_thread_num() { return ctx() ? ctx()->num : 0; }
int omp_get_num_threads() { return ctx() ? ctx()->team->n : 1; }
int omp_get_max_threads() { return g_omp_threads; }
int omp_get_level() { return ctx() ? ctx()->team->level : 0; }
int omp_in_parallel() { return ctx() != nullptr && ctx()->team->n > 1; }
void omp_set_num_threads(int n) { g_omp_threads = n; }
int omp_get_num_procs() { return 64; }
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
int omp_get_max_active_levels() { return 1; }
int omp_get_proc_bind() { return 0; }
double omp_get_wtime() { return double(sim::now()) * 1e-9; }

int sched_yield() { sim::yield(); return 0; }
__attribute__((weak)) int nanosleep(const struct timespec* t, struct timespec*) { if (sim::in_task()) sim::sleep_for(uint64_t(t->tv_sec) * 1000000000ull + uint64_t(t->tv_nsec)); return 0; }
}

namespace Kokkos { namespace Impl {
struct HostBarrier { static void impl_backoff_wait_until_equal(int*, int, bool) noexcept; };
// the real one spins, yields and sleeps: here the task is simply not runnable meanwhile
void HostBarrier::impl_backoff_wait_until_equal(int* ptr, int v, bool) noexcept {
  if (!sim::in_task()) sim::harness_error("host barrier outside a task");
  sim::block_until([=] { return *(volatile int*)ptr == v; }, "host barrier");
}
void host_abort(const char* msg) {
  if (sim::running()) {
    sim::NoPreempt np;
    sim::trace("Kokkos::abort: %s", msg ? msg : "");
    if (sim::on_abort) { auto h = sim::on_abort; sim::on_abort = nullptr; h(msg ? msg : ""); }
    sim::fail("kernel-abort", "Kokkos::abort was called: %s", msg ? msg : "");
  }
  abort();
}
}}
