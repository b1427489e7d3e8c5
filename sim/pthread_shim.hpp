#ifndef VERIF_PTHREAD_SHIM_HPP
#define VERIF_PTHREAD_SHIM_HPP
#include <cstddef>
#include <cstdint>
namespace simpt {
void begin();                    // per run: no mutex is held, the wall clock is at its start
extern int64_t clock_offset;     // of the wall clock, in ns
size_t held_now();
}
#endif
