// Simulator core. See sim.hpp. Not instrumented; one OS thread runs at a time.
#include "sim_internal.hpp"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dirent.h>
#include <fcntl.h>
#include <ftw.h>
#include <map>
#include <memory>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <string>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace sim {

std::function<void(const char*)> on_abort;
bool sched_mode_fixed = false;
void (*switch_out_hook)(int, int) = nullptr;
void (*switch_in_hook)(int, int)  = nullptr;
void (*write_hook)(void*, size_t) = nullptr;
void (*fence_hook)() = nullptr;
void (*atomic_hook)(void*, size_t, bool) = nullptr;

uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}

namespace {

// ------------------------------------------------------------ shared region
constexpr size_t STREAM_CAP = 1u << 19;
constexpr size_t HASH_CAP   = 1u << 20;
constexpr int    NAMES_CAP  = 96;
struct Named { char name[48]; uint64_t offered, fired; };
enum Status { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2, ST_ERROR = 3 };
struct Shm {
  // current run
  uint64_t seed;
  uint64_t index;
  uint32_t cfg;
  int      status;
  char     cls[96];
  char     msg[4096];
  uint64_t hash, inter_hash, steps, switches, preempts, faults_fired;
  uint64_t vtime;
  uint64_t nstream[NSTREAMS];
  uint32_t stream[NSTREAMS][STREAM_CAP];
  // accumulated over the worker
  uint64_t runs_done, tot_steps, tot_switches, tot_preempts, tot_vtime, nontrivial;
  Named    faults[NAMES_CAP];
  Named    counters[NAMES_CAP];
  uint64_t nhash;
  uint64_t hashes[HASH_CAP];
  // order to the process that forks the batches
  struct { uint64_t first, n, seed0, stride; uint32_t cfg, prop; int replay_last, tracing, replaying, verbose, cpu_limit; char scratch[1024]; uint64_t nrep[NSTREAMS]; } cmd;
  uint32_t rep[NSTREAMS][STREAM_CAP];
};
Shm* shm = nullptr;

// ------------------------------------------------------------------ options
struct Options {
  std::string prop, out, scratch, replay_in, replay_out;
  uint64_t seed0 = 1; uint64_t count = 1000000000ull; uint64_t stride = 1;
  double   time_limit = 10; double min_budget = 30;
  uint64_t batch = 100;
  bool     verbose = false;
  int      cpu_limit = 60;
} opt;
const Property* prop = nullptr;
std::string g_scratch;

// ------------------------------------------------------------------ choices
struct Rng { uint64_t s[2];
  static uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  void seed(uint64_t a, uint64_t b) { uint64_t x = a * 0x9e3779b97f4a7c15ull ^ (b + 1) * 0xd1342543de82ef95ull; s[0] = splitmix(x); s[1] = splitmix(x); }
  uint64_t next() { uint64_t s1 = s[0]; const uint64_t s0 = s[1]; const uint64_t r = s0 + s1; s[0] = s0; s1 ^= s1 << 23; s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5); return r; }
};
Rng rng[NSTREAMS];
bool g_replaying = false;
uint64_t replay_pos[NSTREAMS];
bool g_tracing = false;
bool g_running = false;

Named* find_named(Named* t, const char* n) {
  for (int i = 0; i < NAMES_CAP; ++i) {
    if (t[i].name[0] == 0) { strncpy(t[i].name, n, sizeof(t[i].name) - 1); return &t[i]; }
    if (strncmp(t[i].name, n, sizeof(t[i].name) - 1) == 0) return &t[i];
  }
  return &t[NAMES_CAP - 1];
}

inline void hash_in(uint64_t v) { shm->hash = mix(shm->hash, v); }

} // anon

uint32_t draw(Stream s, uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v;
  if (g_replaying) {
    v = replay_pos[s] < shm->cmd.nrep[s] ? shm->rep[s][replay_pos[s]] : 0;
    ++replay_pos[s];
    if (v >= n) v = v % n;
  } else {
    v = uint32_t(((rng[s].next() >> 32) * uint64_t(n)) >> 32);
  }
  if (shm->nstream[s] < STREAM_CAP) shm->stream[s][shm->nstream[s]] = v;
  ++shm->nstream[s];
  if (shm->nstream[s] > STREAM_CAP) harness_error("choice stream %d overflow", int(s));
  hash_in(v + (uint64_t(s) << 40));
  return v;
}
uint64_t op64() { uint64_t r = 0; for (int i = 0; i < 4; ++i) r = (r << 16) | draw(OPS, 65536); return r; }
double op_unit() { return double(draw(OPS, 1u << 30)) / double(1u << 30); }

bool fault(const char* kind, uint32_t num, uint32_t den) {
  if (!g_running) return false;
  Named* f = find_named(shm->faults, kind);
  ++f->offered;
  if (num == 0) return false;
  const bool fire = draw(FAULT, den) >= den - num;
  if (fire) { ++f->fired; ++shm->faults_fired; hash_in(0xfa017); if (g_tracing) trace("FAULT %s", kind); }
  return fire;
}
void fault_count(const char* kind) { Named* f = find_named(shm->faults, kind); ++f->offered; ++f->fired; ++shm->faults_fired; if (g_tracing) trace("FAULT %s", kind); }
void count(const char* what, uint64_t by) { if (!shm) return; Named* f = find_named(shm->counters, what); f->offered += by; }

void note(uint64_t a, uint64_t b, uint64_t c) { hash_in(a); hash_in(b); hash_in(c); }
void note_str(const std::string& s) { for (unsigned char ch : s) hash_in(ch + 0x100); }
bool tracing() { return g_tracing; }
void trace(const char* fmt, ...) {
  if (!g_tracing) return;
  detail::g_nopreempt++;
  char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  char line[2300]; int n = snprintf(line, sizeof line, "  [%8llu] task %d: %s\n", (unsigned long long)now(), self(), buf);
  static int tfd = -2;
  if (tfd == -2) { const char* p = getenv("SIM_TRACE_FILE"); tfd = p ? open(p, O_WRONLY | O_CREAT | O_APPEND, 0644) : 2; }
  if (tfd >= 0 && write(tfd, line, size_t(n)) < 0) {}
  detail::g_nopreempt--;
}

static void fold_run() {
  shm->tot_steps += shm->steps; shm->tot_switches += shm->switches; shm->tot_preempts += shm->preempts; shm->tot_vtime += shm->vtime;
  shm->runs_done++;
  if (shm->preempts || shm->faults_fired || shm->switches > 1) {
    shm->nontrivial++;
    if (shm->nhash < HASH_CAP) shm->hashes[shm->nhash++] = mix(shm->inter_hash, shm->hash);
  }
}

static void end_run(int st) {
  shm->vtime = now();
  shm->status = st;
  _exit(st == ST_OK ? 43 : st == ST_VIOLATION ? 42 : 44);
}

void fail(const std::string& cls, const char* fmt, ...) {
  detail::g_nopreempt++;
  va_list ap; va_start(ap, fmt); vsnprintf(shm->msg, sizeof shm->msg, fmt, ap); va_end(ap);
  strncpy(shm->cls, cls.c_str(), sizeof shm->cls - 1);
  trace("VIOLATION %s: %s", shm->cls, shm->msg);
  end_run(ST_VIOLATION); abort();
}
void harness_error(const char* fmt, ...) {
  detail::g_nopreempt++;
  va_list ap; va_start(ap, fmt); vsnprintf(shm->msg, sizeof shm->msg, fmt, ap); va_end(ap);
  strncpy(shm->cls, "harness-error", sizeof shm->cls - 1);
  trace("HARNESS ERROR %s", shm->msg);
  end_run(ST_ERROR); abort();
}
void finish_run() { detail::g_nopreempt++; fold_run(); end_run(ST_OK); abort(); }
void expect(bool cond, const std::string& cls, const std::string& msg) { if (!cond) fail(cls, "%s", msg.c_str()); }

uint32_t batch_cfg() { return shm->cfg; }
const std::string& scratch_dir() { return g_scratch; }
uint64_t run_seed() { return shm->seed; }
bool running() { return g_running; }

// ---------------------------------------------------------------- scheduler
extern "C" void sim_ctx_switch(void** save_sp, void* load_sp);
asm(R"(
.text
.globl sim_ctx_switch
.type sim_ctx_switch,@function
sim_ctx_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_ctx_switch,.-sim_ctx_switch
)");

struct EhGlobals { void* caught; unsigned int uncaught; };

struct Fiber {
  int id, group;
  std::string name;
  std::function<void()> fn;
  enum S { Ready, Blocked, Sleeping, Done } st = Ready;
  std::function<bool()> pred; const char* why = "";
  uint64_t wake = 0, stalled_until = 0, last_run = 0;
  uint32_t prio = 0;
  bool yielded = false;
  void* sp = nullptr; char* stack = nullptr;
  EhGlobals eh{nullptr, 0};
  void* locals[LOCAL_N] = {};
  // threads backend
  pthread_t th; sem_t sem; bool started = false;
};

namespace {
constexpr size_t STACK_SZ = 512 * 1024;
std::vector<char*> stack_pool;
std::vector<std::unique_ptr<Fiber>> fibers;    // of this run
std::vector<Fiber*> live;
Fiber* cur = nullptr;
void* root_sp = nullptr; EhGlobals root_eh{nullptr, 0}; void* root_locals[LOCAL_N];
sem_t root_sem;
Backend backend = Backend::Fibers;
uint64_t vclock = 0, step_cap = 20000000; long gap_given = 0, min_gap = 0; int mode = 0; bool mode_drawn = false;
uint64_t sched_round = 0;
constexpr long FAIR = 30000;

char* get_stack() {
  if (!stack_pool.empty()) { char* s = stack_pool.back(); stack_pool.pop_back(); return s; }
  char* s = (char*)mmap(nullptr, STACK_SZ + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (s == MAP_FAILED) harness_error("mmap of a task stack failed");
  mprotect(s, 4096, PROT_NONE);
  return s;
}
void to_root();
void fiber_body(Fiber* f) {
  f->fn();
  f->st = Fiber::Done;
  to_root();
}
extern "C" void sim_fiber_entry() { fiber_body(cur); __builtin_trap(); }
void* thread_entry(void* p) {
  Fiber* f = (Fiber*)p;
  while (sem_wait(&f->sem) != 0) {}
  f->fn();
  f->st = Fiber::Done;
  sem_post(&root_sem);
  return nullptr;
}
void account() {
  long used = gap_given - (detail::g_budget < 0 ? 0 : detail::g_budget);
  if (used < 0) used = 0;
  shm->steps += uint64_t(used); vclock += uint64_t(used); gap_given = detail::g_budget < 0 ? 0 : detail::g_budget;
  if (shm->steps > step_cap) fail("no-progress", "step cap of %llu instrumented accesses exceeded: livelock", (unsigned long long)step_cap);
}
// from a task: give the processor back to the scheduler
void to_root() {
  account();
  Fiber* f = cur;
  if (backend == Backend::Fibers) {
    EhGlobals* g = (EhGlobals*)abi::__cxa_get_globals();
    f->eh = *g; *g = root_eh;
    sim_ctx_switch(&f->sp, root_sp);
    // resumed
  } else {
    sem_post(&root_sem);
    while (sem_wait(&f->sem) != 0) {}
  }
}
// from root: run task f until it gives the processor back
void run_task(Fiber* f, long gap) {
  cur = f;
  if (switch_in_hook) switch_in_hook(f->id, f->group);
  detail::g_budget = gap_given = gap; detail::g_atomics = 0;
  shm->inter_hash = mix(shm->inter_hash, uint64_t(f->id) * 0x10001 + 7);
  shm->hash = mix(shm->hash, uint64_t(f->id) + 0x5000);
  ++shm->switches;
  if (backend == Backend::Fibers) {
    EhGlobals* g = (EhGlobals*)abi::__cxa_get_globals();
    root_eh = *g; *g = f->eh;
    sim_ctx_switch(&root_sp, f->sp);
    if (f->st == Fiber::Done) { if (f->stack) { stack_pool.push_back(f->stack); f->stack = nullptr; } }
  } else {
    sem_post(&f->sem);
    while (sem_wait(&root_sem) != 0) {}
    if (f->st == Fiber::Done) { account(); pthread_join(f->th, nullptr); sem_destroy(&f->sem); }
  }
  shm->inter_hash = mix(shm->inter_hash, shm->steps);
  cur = nullptr;
  detail::g_budget = 1L << 60; gap_given = 1L << 60;
  if (switch_out_hook) switch_out_hook(f->id, f->group);
}

long draw_gap() {
  uint32_t g = 0;
  switch (mode) {
    case 0: return FAIR;
    case 1: g = draw(SCHED, 4001); break;
    case 2: g = draw(SCHED, 401); break;
    case 3: g = draw(SCHED, 41); break;
    case 4: g = draw(SCHED, 7); break;
    case 5: g = draw(SCHED, 3001); break;
    default: { uint32_t e = draw(SCHED, 13); g = e ? draw(SCHED, 1u << e) + 1 : 0; }
  }
  return g ? std::max(long(g), min_gap) : FAIR;
}
void ensure_mode() {
  if (mode_drawn) return;
  mode_drawn = true;
  if (!sched_mode_fixed) mode = int(draw(SCHED, 7));
}

// The scheduler: runs in root until done() holds.
void loop(const std::function<bool()>& done) {
  ensure_mode();
  Fiber* last = nullptr; bool last_preempted = false;
  for (;;) {
    if (done()) return;
    // wake
    bool any_sleep = false; uint64_t next_wake = ~0ull;
    std::vector<Fiber*> ready; ready.reserve(live.size());
    for (Fiber* f : live) {
      if (f->st == Fiber::Blocked && f->pred()) { f->st = Fiber::Ready; f->pred = nullptr; }
      if (f->st == Fiber::Sleeping) { if (f->wake <= vclock) f->st = Fiber::Ready; else { any_sleep = true; next_wake = std::min(next_wake, f->wake); } }
      if (f->st == Fiber::Ready) ready.push_back(f);
    }
    ++sched_round;
    if (ready.empty()) {
      if (any_sleep) { vclock = next_wake; continue; }
      std::string who;
      for (Fiber* f : live) if (f->st == Fiber::Blocked) { who += f->name + "(waiting for " + f->why + ") "; if (who.size() > 1500) break; }
      fail("deadlock", "no task can run: %s", who.c_str());
    }
    // stalled tasks run only if nothing else can
    std::vector<Fiber*> cand;
    for (Fiber* f : ready) if (f->stalled_until <= sched_round) cand.push_back(f);
    if (cand.empty()) cand = ready;
    // those that merely spun (yielded) go last, fairly
    if (cand.size() > 1) {
      std::vector<Fiber*> act; for (Fiber* f : cand) if (!f->yielded) act.push_back(f);
      if (!act.empty() && act.size() < cand.size()) {
        if (mode == 0 || mode == 5 || (sched_round & 3)) cand = act;
      } else if (act.empty()) { for (Fiber* f : cand) f->yielded = false; }
    }
    Fiber* pick;
    if (mode == 5) {
      pick = cand[0];
      for (Fiber* f : cand) if (f->prio > pick->prio || (f->prio == pick->prio && f->id < pick->id)) pick = f;
      if (last_preempted && last == pick && cand.size() > 1) { last->prio = draw(SCHED, 1000); pick = cand[0]; for (Fiber* f : cand) if (f->prio > pick->prio) pick = f; }
      // fairness: priorities never starve a task for good
      Fiber* old = cand[0]; for (Fiber* f : cand) if (f->last_run < old->last_run) old = f;
      if (old != pick && sched_round - old->last_run > 500) pick = old;
    } else {
      // cyclic order after the last task
      std::vector<Fiber*> ord; size_t k = 0;
      if (last) while (k < cand.size() && cand[k]->id <= last->id) ++k;
      for (size_t i = 0; i < cand.size(); ++i) ord.push_back(cand[(k + i) % cand.size()]);
      if (mode == 0) pick = ord[0];
      else {
        uint32_t n = uint32_t(ord.size());
        if (last_preempted && n > 1 && ord.back() == last) --n;    // a preemption switches
        pick = ord[draw(SCHED, n)];
      }
    }
    pick->yielded = false; pick->last_run = sched_round;
    long gap = cand.size() + 0 > 1 || live.size() > 1 ? draw_gap() : FAIR;
    uint64_t pre = shm->preempts;
    run_task(pick, gap);
    last = pick; last_preempted = shm->preempts != pre;
    if (pick->st == Fiber::Done) live.erase(std::find(live.begin(), live.end(), pick));
    else if (last_preempted && mode != 0 && live.size() > 1 && (sched_round % 8) == 0 && fault("task-stall", 1, 16))
      pick->stalled_until = sched_round + 4 + draw(FAULT, 200);
    for (Fiber* f : live) if (f != pick && f->yielded && (sched_round & 1)) f->yielded = false;
  }
}
} // anon

void set_backend(Backend b) { backend = b; }
void sched_mode(int m) { mode = m; mode_drawn = true; }
void set_step_cap(uint64_t s) { step_cap = s; }
void set_min_slice(long n) { min_gap = n; }
namespace detail { int g_atomics = 0; void spun() { if (!cur || g_nopreempt || g_budget <= 0) return; g_atomics = 0; gap_given -= g_budget; g_budget = 0; } }
bool in_task() { return cur != nullptr; }
int self() { return cur ? cur->id : -1; }
int self_group() { return cur ? cur->group : -1; }
void*& local(int s) { return cur ? cur->locals[s] : root_locals[s]; }
uint64_t now() { if (cur && detail::g_budget >= 0 && gap_given > detail::g_budget) return vclock + uint64_t(gap_given - detail::g_budget); return vclock; }

int spawn(const char* name, std::function<void()> fn, int group) {
  ++detail::g_nopreempt;
  auto f = std::make_unique<Fiber>();
  f->id = int(fibers.size()); f->group = group; f->name = std::string(name) + "#" + std::to_string(f->id); f->fn = std::move(fn);
  for (int i = 0; i < LOCAL_N; ++i) f->locals[i] = local(i);
  ensure_mode();
  f->last_run = sched_round; if (mode == 5) f->prio = 1000 + draw(SCHED, 100000);
  if (backend == Backend::Fibers) {
    f->stack = get_stack();
    uintptr_t top = (uintptr_t)(f->stack + 4096 + STACK_SZ) & ~uintptr_t(63);
    void** sp = (void**)top;
    *--sp = nullptr;                              // fake return address of the entry
    *--sp = (void*)&sim_fiber_entry;
    for (int i = 0; i < 6; ++i) *--sp = nullptr;  // rbp rbx r12..r15
    --sp; uint32_t mx; uint16_t cw; asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw));
    ((uint32_t*)sp)[0] = mx; ((uint32_t*)sp)[1] = cw;
    f->sp = sp;
  } else {
    sem_init(&f->sem, 0, 0);
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 20);
    if (pthread_create(&f->th, &a, thread_entry, f.get()) != 0) harness_error("pthread_create failed");
    pthread_attr_destroy(&a);
  }
  live.push_back(f.get());
  int id = f->id;
  fibers.push_back(std::move(f));
  --detail::g_nopreempt;
  return id;
}
void join_all() { if (cur) harness_error("join_all outside root"); loop([] { return live.empty(); }); }
void join(const std::vector<int>& ids) {
  auto done = [ids] { for (int i : ids) if (fibers[size_t(i)]->st != Fiber::Done) return false; return true; };
  if (cur) block_until(done, "join"); else loop(done);
}
void yield() {
  if (!cur || detail::g_nopreempt) return;
  cur->yielded = true;
  to_root();
}
void block_until(std::function<bool()> pred, const char* why) {
  if (!cur) { if (pred()) return; loop(pred); return; }
  if (pred()) return;
  if (detail::g_nopreempt) harness_error("blocking inside a no-preempt section (%s)", why);
  cur->pred = std::move(pred); cur->why = why; cur->st = Fiber::Blocked;
  to_root();
}
void sleep_for(uint64_t t) {
  if (!cur) { vclock += t; return; }
  cur->wake = now() + t; cur->st = Fiber::Sleeping;
  to_root();
}
NoPreempt::NoPreempt() { ++detail::g_nopreempt; }
NoPreempt::~NoPreempt() { --detail::g_nopreempt; }

namespace detail {
long g_budget = 1L << 60;
int g_nopreempt = 0;
void preempt() {
  if (!cur) { g_budget = 1L << 60; gap_given = 1L << 60; return; }
  if (g_nopreempt) { shm->steps += uint64_t(gap_given > 0 ? gap_given : 0); gap_given = g_budget = 16; return; }
  ++shm->preempts;
  to_root();
}
bool g_alloc_armed = false;
} // detail

// ------------------------------------------------------ allocation failures
namespace { uint64_t alloc_seen = 0, alloc_at = 0; bool alloc_fired = false; int alloc_owner = -1; }
namespace detail {
bool alloc_should_fail() {
  if (!g_alloc_armed || g_nopreempt || self() != alloc_owner) return false;
  ++alloc_seen;
  if (alloc_at && alloc_seen == alloc_at) { alloc_fired = true; fault_count("alloc-fail"); return true; }
  return false;
}
}
AllocFaults::AllocFaults(uint32_t num, uint32_t den, uint32_t window) {
  alloc_seen = 0; alloc_fired = false; alloc_at = 0; alloc_owner = self();
  if (draw(FAULT, den) >= den - num) alloc_at = 1 + draw(FAULT, window);
  detail::g_alloc_armed = true;
}
AllocFaults::~AllocFaults() { detail::g_alloc_armed = false; }
bool AllocFaults::fired() const { return alloc_fired; }
uint64_t AllocFaults::seen() const { return alloc_seen; }
void AllocFaults::disarm() { detail::g_alloc_armed = false; }

// ------------------------------------------------------------------ driver
namespace {

int rm_cb(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
void rm_tree(const std::string& d) { if (d.size() > 5) nftw(d.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS); }

void reset_run_shm() {
  shm->status = ST_RUNNING; shm->cls[0] = 0; shm->msg[0] = 0; shm->hash = 0x1234; shm->inter_hash = 0x77; shm->steps = 0; shm->switches = 0;
  shm->preempts = 0; shm->faults_fired = 0; shm->vtime = 0;
  for (int i = 0; i < NSTREAMS; ++i) shm->nstream[i] = 0;
}
void reset_run_state() {
  for (int i = 0; i < NSTREAMS; ++i) { rng[i].seed(shm->seed, uint64_t(i)); replay_pos[i] = 0; }
  fibers.clear(); live.clear(); cur = nullptr; backend = Backend::Fibers; vclock = 0; step_cap = 20000000; min_gap = 0; mode = 0; mode_drawn = false; sched_mode_fixed = false;
  sched_round = 0; detail::g_budget = gap_given = 1L << 60; detail::g_nopreempt = 0; detail::g_alloc_armed = false;
  memset(root_locals, 0, sizeof root_locals);
  on_abort = nullptr; switch_in_hook = switch_out_hook = nullptr; write_hook = nullptr; fence_hook = nullptr; atomic_hook = nullptr;
}
void run_one() {
  reset_run_shm(); reset_run_state();
  g_running = true;
  struct itimerval tv{}; tv.it_value.tv_sec = shm->cmd.cpu_limit; setitimer(ITIMER_PROF, &tv, nullptr);
  prop->run();
  g_running = false;
  if (!live.empty()) harness_error("%zu tasks left behind by the run", live.size());
  shm->vtime = vclock; shm->status = ST_OK;
  fold_run();
}

void redirect_std(bool verbose) {
  int n = open("/dev/null", O_RDWR);
  dup2(n, 0); dup2(n, 1);
  if (!verbose) dup2(n, 2);
  if (n > 2) close(n);
}

// The body of a batch process. Runs seeds first, first+stride, ... (nruns of them).
// Every batch process is forked from the same pristine image (see zygote), so that
// its memory has the same layout and content whoever asked for it.
[[noreturn]] void batch_child() {
  const auto& c = shm->cmd;
  if (mkdir(c.scratch, 0700) != 0 && errno != EEXIST) { snprintf(shm->msg, sizeof shm->msg, "mkdir %s", c.scratch); _exit(44); }
  if (chdir(c.scratch) != 0) _exit(44);
  g_scratch = ".";
  redirect_std(c.verbose);
  sem_init(&root_sem, 0, 0);
  struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
  prop = &harness.props[c.prop];
  shm->cfg = c.cfg;
  reset_run_shm(); reset_run_state();
  if (harness.batch_init) harness.batch_init(c.cfg);
  for (uint64_t i = 0; i < c.n; ++i) {
    shm->index = c.first + i;
    shm->seed = c.seed0 + (c.first + i) * c.stride;
    bool last = c.replay_last && i + 1 == c.n;
    g_replaying = c.replaying && last; g_tracing = c.tracing && (last || !c.replay_last);
    run_one();
  }
  g_running = false;
  if (harness.batch_fini) harness.batch_fini();
  _exit(0);
}
int zy_cmd = -1, zy_res = -1;
void start_zygote() {
  int c[2], r[2]; if (pipe(c) || pipe(r)) { perror("pipe"); exit(3); }
  pid_t p = fork(); if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(c[1]); close(r[0]);
    char b;
    while (read(c[0], &b, 1) == 1) {
      pid_t k = fork();
      if (k == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); close(c[0]); close(r[1]); batch_child(); }
      int ws = 44 << 8;
      if (k > 0) while (waitpid(k, &ws, 0) < 0 && errno == EINTR) {}
      if (write(r[1], &ws, sizeof ws) != sizeof ws) break;
    }
    _exit(0);
  }
  close(c[0]); close(r[1]); zy_cmd = c[1]; zy_res = r[0];
}

struct Outcome { int status; std::string cls, msg; uint64_t hash, index, seed; uint32_t cfg; std::vector<uint32_t> st[NSTREAMS]; uint64_t runs; };

Outcome run_batch(uint64_t first, uint64_t n, uint32_t cfg, bool replay_last) {
  shm->index = first; shm->seed = opt.seed0 + first * opt.stride;
  reset_run_shm();
  uint64_t before = shm->runs_done;
  auto& c = shm->cmd;
  c.first = first; c.n = n; c.seed0 = opt.seed0; c.stride = opt.stride; c.cfg = cfg; c.prop = uint32_t(prop - &harness.props[0]);
  c.replay_last = replay_last; c.tracing = g_tracing; c.replaying = g_replaying; c.verbose = opt.verbose; c.cpu_limit = opt.cpu_limit;
  snprintf(c.scratch, sizeof c.scratch, "%s/run", opt.scratch.c_str());
  char one = 1; int ws = 0;
  if (write(zy_cmd, &one, 1) != 1 || read(zy_res, &ws, sizeof ws) != sizeof ws) { fprintf(stderr, "the forking process is gone\n"); exit(3); }
  rm_tree(c.scratch);
  Outcome o; o.index = shm->index; o.seed = shm->seed; o.cfg = cfg; o.hash = shm->hash; o.status = ST_OK; o.runs = shm->runs_done - before;
  if (WIFSIGNALED(ws)) {
    int sg = WTERMSIG(ws);
    if (sg == SIGKILL) { o.status = ST_ERROR; o.cls = "killed"; o.msg = "a batch process was killed (SIGKILL)"; }
    else {
      o.status = ST_VIOLATION;
      o.cls = sg == SIGPROF ? "no-progress-cpu" : std::string("crash-") + (sg == SIGSEGV ? "SIGSEGV" : sg == SIGABRT ? "SIGABRT" : sg == SIGFPE ? "SIGFPE" : sg == SIGBUS ? "SIGBUS" : sg == SIGILL || sg == SIGTRAP ? "SIGILL" : std::to_string(sg));
      o.msg = sg == SIGPROF ? "the run used its whole CPU budget without finishing" : std::string("the process under simulation died: ") + strsignal(sg) + (shm->msg[0] ? std::string("; ") + shm->msg : "");
    }
  } else {
    int ec = WEXITSTATUS(ws);
    if (ec == 134) { o.status = ST_VIOLATION; o.cls = "crash-SIGABRT"; o.msg = std::string("the process under simulation died: Aborted; ") + (shm->msg[0] ? shm->msg : ""); }
    else if (ec == 42) { o.status = ST_VIOLATION; o.cls = shm->cls; o.msg = shm->msg; }
    else if (ec == 43 || ec == 0) o.status = ST_OK;
    else if (ec == 44) { o.status = ST_ERROR; o.cls = shm->cls; o.msg = shm->msg; }
    else { o.status = ST_VIOLATION; o.cls = "exit-" + std::to_string(ec); o.msg = "the process under simulation called exit(" + std::to_string(ec) + ")"; }
  }
  // what the code under test wrote may be quoted in the message: anything
  for (char& c : o.msg) if (c == '\n') c = ' '; else if (c < 32 || c > 126) c = '?';
  if (o.status == ST_VIOLATION)
    for (int i = 0; i < NSTREAMS; ++i) o.st[i].assign(shm->stream[i], shm->stream[i] + std::min<uint64_t>(shm->nstream[i], STREAM_CAP));
  return o;
}

void json_str(FILE* f, const std::string& s) {
  fputc('"', f);
  for (unsigned char c : s) { if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
  fputc('"', f);
}

struct Replay { std::string prop, harness, cls, msg; uint32_t cfg = 0; uint64_t seed = 0, prefix = 0, hash = 0, seed0 = 0, stride = 1; std::vector<uint32_t> st[NSTREAMS]; };
void write_replay(const std::string& path, const Replay& r) {
  FILE* f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); exit(3); }
  fprintf(f, "# replay file of the deterministic simulator; run: check.py <property> --replay <this file>\n");
  std::string m = r.msg; for (char& c : m) if (c == '\n') c = ' ';
  fprintf(f, "property %s\nharness %s\nclass %s\nmessage %s\ncfg %u\nseed %llu\nprefix %llu\nseed0 %llu\nstride %llu\nhash %llx\n", r.prop.c_str(), r.harness.c_str(), r.cls.c_str(), m.c_str(), r.cfg,
          (unsigned long long)r.seed, (unsigned long long)r.prefix, (unsigned long long)r.seed0, (unsigned long long)r.stride, (unsigned long long)r.hash);
  const char* nm[] = {"ops", "sched", "fault"};
  for (int i = 0; i < NSTREAMS; ++i) { fprintf(f, "%s %zu", nm[i], r.st[i].size()); for (uint32_t v : r.st[i]) fprintf(f, " %u", v); fputc('\n', f); }
  fclose(f);
}
Replay read_replay(const std::string& path) {
  Replay r; FILE* f = fopen(path.c_str(), "r"); if (!f) { perror(path.c_str()); exit(3); }
  char* line = nullptr; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) {
    if (line[0] == '#') continue;
    std::string l(line, size_t(n)); while (!l.empty() && l.back() == '\n') l.pop_back();
    size_t sp = l.find(' '); if (sp == std::string::npos) continue;
    std::string k = l.substr(0, sp), v = l.substr(sp + 1);
    if (k == "property") r.prop = v; else if (k == "harness") r.harness = v; else if (k == "class") r.cls = v; else if (k == "message") r.msg = v;
    else if (k == "cfg") r.cfg = uint32_t(strtoul(v.c_str(), 0, 10)); else if (k == "seed") r.seed = strtoull(v.c_str(), 0, 10); else if (k == "prefix") r.prefix = strtoull(v.c_str(), 0, 10);
    else if (k == "seed0") r.seed0 = strtoull(v.c_str(), 0, 10); else if (k == "stride") r.stride = strtoull(v.c_str(), 0, 10); else if (k == "hash") r.hash = strtoull(v.c_str(), 0, 16);
    else for (int i = 0; i < NSTREAMS; ++i) { const char* nm[] = {"ops", "sched", "fault"}; if (k == nm[i]) { char* p = &v[0]; char* e; strtoull(p, &e, 10); p = e; for (;;) { while (*p == ' ') ++p; if (!*p) break; r.st[i].push_back(uint32_t(strtoul(p, &e, 10))); p = e; } } }
  }
  free(line); fclose(f); return r;
}

Outcome exec_replay(const Replay& r) {
  g_replaying = true;
  for (int i = 0; i < NSTREAMS; ++i) { shm->cmd.nrep[i] = std::min(r.st[i].size(), STREAM_CAP); std::copy_n(r.st[i].begin(), shm->cmd.nrep[i], shm->rep[i]); }
  opt.seed0 = r.seed - r.prefix * r.stride; opt.stride = r.stride;
  Outcome o = run_batch(0, r.prefix + 1, r.cfg, true);
  g_replaying = false;
  if (o.status == ST_VIOLATION && o.index != r.prefix) { o.status = ST_OK; }
  return o;
}

double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }

Replay minimise(Replay r, double budget, uint64_t& execs) {
  double t0 = wall();
  auto expired = [&] { return wall() - t0 > budget; };
  auto attempt = [&](const Replay& c, Replay& out) {
    ++execs;
    Outcome o = exec_replay(c);
    if (o.status != ST_VIOLATION || o.cls != r.cls) return false;
    out = c; for (int i = 0; i < NSTREAMS; ++i) { out.st[i] = o.st[i]; while (!out.st[i].empty() && out.st[i].back() == 0) out.st[i].pop_back(); }
    out.msg = o.msg; out.hash = o.hash;
    return true;
  };
  auto weight = [](const Replay& x) { uint64_t w = 0; for (int i = 0; i < NSTREAMS; ++i) { for (uint32_t v : x.st[i]) w += v ? 64 - uint64_t(__builtin_clzll(v)) : 0; w += 2 * x.st[i].size(); } return w; };
  Replay best = r; { Replay o; if (!attempt(best, o)) return r; best = o; }
  bool progress = true;
  while (progress && !expired()) {
    progress = false;
    int order[] = {SCHED, FAULT, OPS};
    for (int s : order) {
      // empty altogether
      { Replay c = best, o; if (!c.st[s].empty()) { c.st[s].clear(); if (attempt(c, o) && weight(o) < weight(best)) { best = o; progress = true; } } }
      for (size_t len = std::max<size_t>(1, best.st[s].size() / 2); len >= 1 && !expired(); len /= 2) {
        for (int kind = 0; kind < 2; ++kind)                 // 0: zero the chunk, 1: delete it
          for (size_t p = 0; p < best.st[s].size() && !expired();) {
            size_t e = std::min(best.st[s].size(), p + len);
            bool nz = false; for (size_t q = p; q < e; ++q) nz |= best.st[s][q] != 0;
            Replay c = best, o;
            if (kind == 0) { if (!nz) { p = e; continue; } for (size_t q = p; q < e; ++q) c.st[s][q] = 0; }
            else c.st[s].erase(c.st[s].begin() + long(p), c.st[s].begin() + long(e));
            if (attempt(c, o) && weight(o) < weight(best)) { best = o; progress = true; if (kind == 0) p = e; }
            else p = e;
          }
        if (len == 1) break;
      }
      // lower single values
      for (size_t p = 0; p < best.st[s].size() && !expired(); ++p)
        while (p < best.st[s].size() && best.st[s][p] > 1 && !expired()) {
          Replay c = best, o; c.st[s][p] /= 2;
          if (attempt(c, o) && weight(o) < weight(best)) { best = o; progress = true; } else break;
        }
    }
  }
  return best;
}

void usage() { fprintf(stderr, "usage: harness --prop ID --scratch DIR [--seed0 N --stride N --count N --time S --batch N --out F --replay-out F] | --minimise IN OUT | --replay IN\n"); exit(3); }
} // anon
} // namespace sim

using namespace sim;

int main(int argc, char** argv) {
  // one address-space layout for every execution
  if (!getenv("SIM_NO_ASLR_DONE")) {
    setenv("SIM_NO_ASLR_DONE", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (shm == MAP_FAILED) { perror("mmap"); return 3; }
  signal(SIGPIPE, SIG_IGN);
  start_zygote();
  std::string min_in, rep_in, min_out; bool list = false; std::string cfgs;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { if (i + 1 >= argc) usage(); return argv[++i]; };
    if (a == "--prop") opt.prop = val(); else if (a == "--scratch") opt.scratch = val(); else if (a == "--seed0") opt.seed0 = strtoull(val().c_str(), 0, 10);
    else if (a == "--stride") opt.stride = strtoull(val().c_str(), 0, 10);
    else if (a == "--count") opt.count = strtoull(val().c_str(), 0, 10); else if (a == "--time") opt.time_limit = atof(val().c_str());
    else if (a == "--batch") opt.batch = strtoull(val().c_str(), 0, 10); else if (a == "--out") opt.out = val(); else if (a == "--replay-out") opt.replay_out = val();
    else if (a == "--minimise") { min_in = val(); min_out = val(); } else if (a == "--min-budget") opt.min_budget = atof(val().c_str());
    else if (a == "--replay") rep_in = val(); else if (a == "-v") opt.verbose = true; else if (a == "--trace") { opt.verbose = true; g_tracing = true; } else if (a == "--list") list = true; else if (a == "--cpu-limit") opt.cpu_limit = atoi(val().c_str());
    else usage();
  }
  if (list) { for (auto& p : harness.props) printf("%s\n", p.id); return 0; }
  Replay rin; if (!min_in.empty()) rin = read_replay(min_in); if (!rep_in.empty()) rin = read_replay(rep_in);
  if (opt.prop.empty()) opt.prop = rin.prop;
  for (auto& p : harness.props) if (opt.prop == p.id) prop = &p;
  if (!prop) { fprintf(stderr, "no property %s here\n", opt.prop.c_str()); return 3; }
  if (opt.scratch.empty()) usage();
  mkdir(opt.scratch.c_str(), 0700);

  if (!rep_in.empty()) {
    g_tracing = getenv("SIM_TRACE_FILE") != nullptr || opt.verbose;
    Outcome o = exec_replay(rin);
    printf("status %s\nclass %s\nhash %llx\nmessage %s\n", o.status == ST_VIOLATION ? "violation" : o.status == ST_OK ? "ok" : "error", o.cls.c_str(), (unsigned long long)o.hash, o.msg.c_str());
    bool same = o.status == ST_VIOLATION && o.cls == rin.cls && o.hash == rin.hash;
    printf("reproduced %s\n", same ? "exactly" : "no");
    return o.status == ST_VIOLATION ? 1 : o.status == ST_OK ? 0 : 2;
  }
  if (!min_in.empty()) {
    uint64_t ex = 0; Replay r = minimise(rin, opt.min_budget, ex);
    write_replay(min_out, r);
    printf("executions %llu\n", (unsigned long long)ex);
    return 0;
  }

  double t0 = wall();
  uint64_t done = 0, batches = 0; Outcome bad; bad.status = ST_OK; std::string err; int rc = 0;
  double cpu_max = 0; (void)cpu_max;
  int unrepro = 0;
  while (done < opt.count && wall() - t0 < opt.time_limit) {
    uint64_t n = std::min(opt.batch, opt.count - done);
    if (batches < 4) n = std::min<uint64_t>(n, 5);          // first see every configuration quickly
    uint64_t b0 = opt.seed0 + done * opt.stride;
    uint32_t cfg = harness.ncfg <= 1 ? 0 : uint32_t(mix(0xc0f, b0) % harness.ncfg);
    double tb = wall();
    Outcome o = run_batch(done, n, cfg, false);
    ++batches;
    if (o.status == ST_ERROR) { err = o.cls + ": " + o.msg + " (seed " + std::to_string(o.seed) + ")"; rc = 2; break; }
    if (o.status == ST_VIOLATION) {
      Replay r; r.prop = opt.prop; r.harness = harness.name; r.cls = o.cls; r.msg = o.msg; r.cfg = o.cfg; r.seed = o.seed; r.stride = opt.stride; r.seed0 = opt.seed0; r.hash = o.hash;
      for (int i = 0; i < NSTREAMS; ++i) r.st[i] = o.st[i];
      const uint64_t saved_seed0 = opt.seed0;
      // does it reproduce, twice, identically: alone, or else after the runs before it in the same process?
      Outcome a, b; bool ok = false;
      for (int t = 0; t < 2 && !ok; ++t) {
        r.prefix = t == 0 ? 0 : o.index - done;
        a = exec_replay(r); opt.seed0 = saved_seed0; b = exec_replay(r); opt.seed0 = saved_seed0;
        ok = a.status == ST_VIOLATION && b.status == ST_VIOLATION && b.cls == a.cls && a.hash == b.hash;
      }
      if (ok) { r.cls = a.cls; r.msg = a.msg; r.hash = a.hash; for (int i = 0; i < NSTREAMS; ++i) r.st[i] = a.st[i]; bad = o; bad.cls = a.cls; bad.msg = a.msg; write_replay(opt.replay_out, r); rc = 1; break; }
      err = "a violation did not reproduce deterministically: " + r.cls + ": " + r.msg + " (seed " + std::to_string(r.seed) + "; replays gave " + a.cls + "/" + b.cls + ")";
      write_replay(opt.replay_out + ".nondet", r);
      if (++unrepro >= 5) { rc = 2; break; }
    }
    done += o.runs ? o.runs : 1;
    // keep batches short enough to honour the time limit
    double per = (wall() - tb) / double(o.runs ? o.runs : 1);
    if (per * double(opt.batch) > 4) opt.batch = std::max<uint64_t>(1, uint64_t(4 / per));
  }
  if (unrepro && rc == 0) rc = 2;
  double secs = wall() - t0;
  FILE* f = fopen(opt.out.c_str(), "w"); if (!f) { perror(opt.out.c_str()); return 3; }
  fprintf(f, "{\"runs\": %llu, \"seconds\": %.3f, \"batches\": %llu, \"steps\": %llu, \"switches\": %llu, \"preemptions\": %llu, \"virtual_ns\": %llu, \"nontrivial\": %llu",
          (unsigned long long)shm->runs_done, secs, (unsigned long long)batches, (unsigned long long)shm->tot_steps, (unsigned long long)shm->tot_switches, (unsigned long long)shm->tot_preempts, (unsigned long long)shm->tot_vtime, (unsigned long long)shm->nontrivial);
  fprintf(f, ", \"faults\": {"); for (int i = 0, c = 0; i < NAMES_CAP && shm->faults[i].name[0]; ++i) { fprintf(f, "%s\"%s\": [%llu, %llu]", c++ ? ", " : "", shm->faults[i].name, (unsigned long long)shm->faults[i].offered, (unsigned long long)shm->faults[i].fired); }
  fprintf(f, "}, \"counters\": {"); for (int i = 0, c = 0; i < NAMES_CAP && shm->counters[i].name[0]; ++i) fprintf(f, "%s\"%s\": %llu", c++ ? ", " : "", shm->counters[i].name, (unsigned long long)shm->counters[i].offered);
  fprintf(f, "}, \"real\": "); json_str(f, prop->real); fprintf(f, ", \"stub\": "); json_str(f, prop->stub);
  fprintf(f, ", \"class\": "); json_str(f, bad.status == ST_VIOLATION ? bad.cls : ""); fprintf(f, ", \"message\": "); json_str(f, bad.status == ST_VIOLATION ? bad.msg : ""); fprintf(f, ", \"error\": "); json_str(f, err);
  fprintf(f, "}\n"); fclose(f);
  std::string hp = opt.out + ".hashes"; f = fopen(hp.c_str(), "w"); if (f) { std::sort(shm->hashes, shm->hashes + shm->nhash); uint64_t* e = std::unique(shm->hashes, shm->hashes + shm->nhash); fwrite(shm->hashes, 8, size_t(e - shm->hashes), f); fclose(f); }
  return rc;
}

// ---------------------------------------------------- interposed primitives
extern "C" void abort() {
  if (shm && sim::g_running) {
    ++detail::g_nopreempt;
    if (on_abort) { auto h = on_abort; on_abort = nullptr; --detail::g_nopreempt; h("abort()"); ++detail::g_nopreempt; }
    if (!shm->msg[0]) snprintf(shm->msg, sizeof shm->msg, "abort() called");
  }
  struct sigaction sa{}; sa.sa_handler = SIG_DFL; sigaction(SIGABRT, &sa, nullptr);
  sigset_t m; sigemptyset(&m); sigaddset(&m, SIGABRT); pthread_sigmask(SIG_UNBLOCK, &m, nullptr);
  // to this thread: sent to the process, another one could take it, and this one get to the exit first
  syscall(SYS_tgkill, getpid(), syscall(SYS_gettid), SIGABRT);
  for (;;) _exit(134);
}

static void* sim_alloc(size_t n, bool nothrow, size_t al) {
  if (detail::g_alloc_armed && detail::alloc_should_fail()) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  void* p = nullptr;
  if (al <= 16) p = malloc(n ? n : 1); else if (posix_memalign(&p, al, n ? n : 1) != 0) p = nullptr;
  if (!p && !nothrow) throw std::bad_alloc();
  if (p && n <= (1u << 22)) memset(p, 0xA5, n);        // uninitialised memory has one fixed content
  return p;
}
static void sim_free(void* p) {
  if (!p) return;
  size_t n = malloc_usable_size(p); if (n <= 4096) memset(p, 0xDD, n);   // freed memory too
  free(p);
}
void* operator new(size_t n) { return sim_alloc(n, false, 0); }
void* operator new[](size_t n) { return sim_alloc(n, false, 0); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n, true, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n, true, 0); }
void* operator new(size_t n, std::align_val_t a) { return sim_alloc(n, false, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return sim_alloc(n, false, size_t(a)); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim_alloc(n, true, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim_alloc(n, true, size_t(a)); }
void operator delete(void* p) noexcept { sim_free(p); }
void operator delete[](void* p) noexcept { sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim_free(p); }
