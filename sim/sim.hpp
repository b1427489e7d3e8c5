// Deterministic simulator core: choice streams, cooperative scheduler, faults,
// virtual clock, run/batch/minimise/replay driver.  See /verif/DESIGN.md.
#ifndef VERIF_SIM_HPP
#define VERIF_SIM_HPP

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ----------------------------------------------------------------- choices
// Every decision of a run is drawn from one of three recorded streams. The
// value 0 is always the tamest alternative (no preemption, no fault, smallest
// size), so that shrinking a recorded stream simplifies the run.
enum Stream { OPS = 0, SCHED = 1, FAULT = 2, NSTREAMS = 3 };

uint32_t draw(Stream s, uint32_t n);              // in [0,n)
inline uint32_t op(uint32_t n) { return draw(OPS, n); }
inline int op_range(int lo, int hi) { return lo + int(draw(OPS, uint32_t(hi - lo + 1))); }
inline bool op_chance(uint32_t num, uint32_t den) { return draw(OPS, den) >= den - num; }
uint64_t op64();                                  // 64 bits from the OPS stream
double op_unit();                                 // [0,1), from the OPS stream

// A fault that may be injected here: fires with probability num/den. Counted
// per kind (offered and fired).
bool fault(const char* kind, uint32_t num, uint32_t den);
// Count an event of a fault kind whose firing was decided elsewhere.
void fault_count(const char* kind);
// Named counters for evidence (operations executed, checks made ...).
void count(const char* what, uint64_t by = 1);

// ------------------------------------------------------------ event log
void note(uint64_t a, uint64_t b = 0, uint64_t c = 0);   // folded in the run hash
void note_str(const std::string& s);
bool tracing();
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ------------------------------------------------------------- verdicts
// Ends the run with a violation of the property under check.
[[noreturn]] void fail(const std::string& cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// Ends the run with a harness error (never reported as a violation).
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Ends the run early, successfully (e.g. an expected abort was seen).
[[noreturn]] void finish_run();
// What to do when the code under test calls abort/Kokkos::abort. Default: a
// violation. The handler may call finish_run(), or return to get the default.
extern std::function<void(const char* msg)> on_abort;
void expect(bool cond, const std::string& cls, const std::string& msg);

// ------------------------------------------------------------- scheduler
struct Fiber;
enum class Backend { Fibers, Threads };
void set_backend(Backend b);                       // before any spawn, per run

// Create a task; it starts when the scheduler picks it. Returns its id.
int spawn(const char* name, std::function<void()> fn, int group = -1);
void join_all();             // from root: run the scheduler until every task ended
void yield();                // voluntary scheduling point
void block_until(std::function<bool()> pred, const char* why);
void sleep_for(uint64_t ticks);
int  self();                 // id of the current task, -1 in root
int  self_group();
void*& local(int slot);      // task-local slots (root has its own)
enum { LOCAL_GOMP = 0, LOCAL_RANK = 1, LOCAL_GPU = 2, LOCAL_USER = 3, LOCAL_N = 6 };
void join(const std::vector<int>& ids);            // from root or from a task
uint64_t now();              // virtual clock, in ticks (1 tick = 1 ns)
bool in_task();
bool running();              // a simulated run is in progress
// critical section for harness code: no preemption inside
struct NoPreempt { NoPreempt(); ~NoPreempt(); };
// Scheduling aggressiveness can be forced by a harness for a run; by default it is drawn.
void sched_mode(int m);
extern bool sched_mode_fixed;
// Called at every context switch between tasks (from,to may be -1 for root).
extern void (*switch_out_hook)(int task, int group);
extern void (*switch_in_hook)(int task, int group);
extern void (*write_hook)(void* addr, size_t n);   // before an instrumented plain write
extern void (*fence_hook)();                       // memory fence
extern void (*atomic_hook)(void* addr, size_t n, bool rmw);  // before an instrumented atomic access/volatile write
void set_step_cap(uint64_t steps);
// a task that is switched to runs at least n accesses (for long kernels; 0: no bound)
void set_min_slice(long n);

// ---------------------------------------------------- allocation failures
// While armed, the k-th allocation made by code under test fails. The point is
// drawn from the FAULT stream.
struct AllocFaults {
  AllocFaults(uint32_t num, uint32_t den, uint32_t window);   // maybe arms
  ~AllocFaults();
  bool fired() const;
  uint64_t seen() const;      // allocations counted while armed
  void disarm();
};

// -------------------------------------------------------------- harness
struct Property {
  const char* id;
  void (*run)();
  const char* real;          // components that run real code
  const char* stub;          // components that run a stand-in
};
struct HarnessDef {
  const char* name;
  uint32_t ncfg;                       // number of per-process configurations
  void (*batch_init)(uint32_t cfg);    // called once in each batch process
  void (*batch_fini)();
  std::vector<Property> props;
};
extern HarnessDef harness;             // defined by the harness
uint32_t batch_cfg();
const std::string& scratch_dir();      // private, exists, empty at batch start
uint64_t run_seed();

uint64_t mix(uint64_t h, uint64_t v);

} // namespace sim

#endif
