#ifndef VERIF_SIM_INTERNAL_HPP
#define VERIF_SIM_INTERNAL_HPP
#include "sim.hpp"
namespace sim { namespace detail {
extern long g_budget;            // accesses left before the next scheduling point
void preempt();                  // slow path of the access hooks
extern int g_atomics;            // atomic accesses since the task was resumed
void spun();                     // too many: a spinning task gives the processor back
extern int g_nopreempt;
bool alloc_should_fail();        // consulted by every interposed allocator
extern bool g_alloc_armed;
inline void access() { if (__builtin_expect(--g_budget < 0, 0)) preempt(); }
}}
#endif
