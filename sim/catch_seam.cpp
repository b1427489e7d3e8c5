// Catch2 keeps its registries for the next rank, and leaves signals alone, inside a run.
#include "sim.hpp"
#include <signal.h>
extern "C" {
void __wrap__ZN5Catch7cleanUpEv() {}
int __real_sigaction(int, const struct sigaction*, struct sigaction*) noexcept;
int __wrap_sigaction(int s, const struct sigaction* a, struct sigaction* o) noexcept { if (sim::in_task()) { if (o) *o = {}; return 0; } return __real_sigaction(s, a, o); }
int __real_sigaltstack(const stack_t*, stack_t*) noexcept;
int __wrap_sigaltstack(const stack_t* a, stack_t* o) noexcept { if (sim::in_task()) { if (o) *o = {}; return 0; } return __real_sigaltstack(a, o); }
}
