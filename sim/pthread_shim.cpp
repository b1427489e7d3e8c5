// Mutexes, sleeping and clocks of the code under test belong to the simulator.
#include "sim_internal.hpp"
#include <cerrno>
#include <dlfcn.h>
#include <map>
#include <pthread.h>
#include <time.h>
#include <unistd.h>
#include "pthread_shim.hpp"
namespace simpt {
int64_t clock_offset = 0;              // the wall clock's, in ns: jumps are a fault
bool clock_on = false;
namespace {
// ranks (task groups) are processes of their own: their mutexes are never shared
struct Key { int group; void* m; bool operator<(const Key& o) const { return group != o.group ? group < o.group : m < o.m; } };
struct Owner { int task; int depth; };
std::map<Key, Owner>* held = new std::map<Key, Owner>;
template <class F> F* next(const char* n) { return (F*)dlsym(RTLD_NEXT, n); }
int kind(pthread_mutex_t* m) { return m->__data.__kind & 3; }
}
void begin() { held->clear(); clock_offset = 0; clock_on = true; }
size_t held_now() { return held->size(); }
}
using namespace simpt;
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  static auto f = next<int(pthread_mutex_t*)>("pthread_mutex_lock");
  if (!sim::in_task() || sim::detail::g_nopreempt) return f ? f(m) : 0;
  Key k{sim::self_group(), m};
  sim::detail::access();
  for (;;) {
    {
      sim::NoPreempt np; auto i = held->find(k);
      if (i == held->end()) { (*held)[k] = {sim::self(), 1}; return 0; }
      if (i->second.task == sim::self()) { if (kind(m) == PTHREAD_MUTEX_RECURSIVE_NP) { ++i->second.depth; return 0; } if (kind(m) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK; }
    }
    sim::block_until([k] { return !held->count(k); }, "mutex");
  }
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  static auto f = next<int(pthread_mutex_t*)>("pthread_mutex_trylock");
  if (!sim::in_task() || sim::detail::g_nopreempt) return f ? f(m) : 0;
  sim::detail::access(); sim::NoPreempt np; Key k{sim::self_group(), m};
  if (held->count(k)) return EBUSY;
  (*held)[k] = {sim::self(), 1}; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  static auto f = next<int(pthread_mutex_t*)>("pthread_mutex_unlock");
  if (!sim::in_task()) return f ? f(m) : 0;
  { sim::NoPreempt np; auto i = held->find({sim::self_group(), m}); if (i != held->end()) { if (--i->second.depth == 0) held->erase(i); } else return f ? f(m) : 0; }
  if (!sim::detail::g_nopreempt) sim::detail::access();
  return 0;
}
int nanosleep(const struct timespec* t, struct timespec* r) {
  if (sim::in_task()) { if (r) *r = {0, 0}; sim::sleep_for(uint64_t(t->tv_sec) * 1000000000ull + uint64_t(t->tv_nsec)); return 0; }
  static auto f = next<int(const struct timespec*, struct timespec*)>("nanosleep"); return f(t, r);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* t, struct timespec* r) {
  if (sim::in_task()) { if (r) *r = {0, 0}; uint64_t d = uint64_t(t->tv_sec) * 1000000000ull + uint64_t(t->tv_nsec); if (fl & TIMER_ABSTIME) { uint64_t n = sim::now() + 1700000000000000000ull; d = d > n ? d - n : 0; } sim::sleep_for(d); return 0; }
  static auto f = next<int(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep"); return f(c, fl, t, r);
}
int clock_gettime(clockid_t c, struct timespec* t) noexcept {
  if (clock_on && sim::running() && (sim::in_task())) {
    uint64_t n = sim::now(); if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) n += 1700000000000000000ull + uint64_t(clock_offset);
    t->tv_sec = time_t(n / 1000000000ull); t->tv_nsec = long(n % 1000000000ull); return 0;
  }
  static auto f = next<int(clockid_t, struct timespec*)>("clock_gettime"); return f(c, t);
}
// Initialisation of function-local statics: the guard's first byte says done, the second in progress.
int __cxa_guard_acquire(long long* g) {
  volatile char* b = (volatile char*)g;
  for (;;) {
    if (b[0]) return 0;
    if (!b[1]) { b[1] = 1; return 1; }
    if (!sim::in_task() || sim::detail::g_nopreempt) return 1;      // would wait for ever: recursion
    sim::yield();
  }
}
void __cxa_guard_release(long long int* g) { volatile char* b = (volatile char*)g; b[1] = 0; b[0] = 1; }
void __cxa_guard_abort(long long int* g) { volatile char* b = (volatile char*)g; b[1] = 0; }
}
