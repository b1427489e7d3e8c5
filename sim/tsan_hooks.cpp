// Scheduling points: the instrumented code (compiled with -fsanitize=thread, but
// linked without its runtime) calls these before every memory access and for every
// atomic operation.
#include "sim_internal.hpp"
#include <cstring>
#include <cstdint>
using sim::detail::access;
#define W(p,n) do { if (__builtin_expect(sim::write_hook != nullptr, 0)) sim::write_hook(p, n); } while (0)
#define A(p,n,rmw) do { if (__builtin_expect(++sim::detail::g_atomics > 48, 0)) sim::detail::spun(); if (__builtin_expect(sim::atomic_hook != nullptr, 0)) sim::atomic_hook((void*)(p), n, rmw); } while (0)
#define F() do { if (__builtin_expect(sim::fence_hook != nullptr, 0)) sim::fence_hook(); } while (0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(); W(p, 8); }
void __tsan_vptr_read(void**) { access(); }
void __tsan_read_range(void*, unsigned long) { access(); }
void __tsan_write_range(void* p, unsigned long n) { access(); W(p, n); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { access(); W(d, n); return memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { access(); W(d, n); return memset(d, c, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { access(); W(d, n); return memmove(d, s, n); }
void __tsan_read1(void*) { access(); }
void __tsan_write1(void* p) { access(); W(p, 1); }
void __tsan_unaligned_read1(void*) { access(); }
void __tsan_unaligned_write1(void* p) { access(); W(p, 1); }
void __tsan_volatile_read1(void*) { access(); }
void __tsan_volatile_write1(void* p) { access(); A(p, 1, false); }
void __tsan_unaligned_volatile_read1(void*) { access(); }
void __tsan_unaligned_volatile_write1(void* p) { access(); A(p, 1, false); }
void __tsan_read1_pc(void*, void*) { access(); }
void __tsan_write1_pc(void* p, void*) { access(); W(p, 1); }
void __tsan_read2(void*) { access(); }
void __tsan_write2(void* p) { access(); W(p, 2); }
void __tsan_unaligned_read2(void*) { access(); }
void __tsan_unaligned_write2(void* p) { access(); W(p, 2); }
void __tsan_volatile_read2(void*) { access(); }
void __tsan_volatile_write2(void* p) { access(); A(p, 2, false); }
void __tsan_unaligned_volatile_read2(void*) { access(); }
void __tsan_unaligned_volatile_write2(void* p) { access(); A(p, 2, false); }
void __tsan_read2_pc(void*, void*) { access(); }
void __tsan_write2_pc(void* p, void*) { access(); W(p, 2); }
void __tsan_read4(void*) { access(); }
void __tsan_write4(void* p) { access(); W(p, 4); }
void __tsan_unaligned_read4(void*) { access(); }
void __tsan_unaligned_write4(void* p) { access(); W(p, 4); }
void __tsan_volatile_read4(void*) { access(); }
void __tsan_volatile_write4(void* p) { access(); A(p, 4, false); }
void __tsan_unaligned_volatile_read4(void*) { access(); }
void __tsan_unaligned_volatile_write4(void* p) { access(); A(p, 4, false); }
void __tsan_read4_pc(void*, void*) { access(); }
void __tsan_write4_pc(void* p, void*) { access(); W(p, 4); }
void __tsan_read8(void*) { access(); }
void __tsan_write8(void* p) { access(); W(p, 8); }
void __tsan_unaligned_read8(void*) { access(); }
void __tsan_unaligned_write8(void* p) { access(); W(p, 8); }
void __tsan_volatile_read8(void*) { access(); }
void __tsan_volatile_write8(void* p) { access(); A(p, 8, false); }
void __tsan_unaligned_volatile_read8(void*) { access(); }
void __tsan_unaligned_volatile_write8(void* p) { access(); A(p, 8, false); }
void __tsan_read8_pc(void*, void*) { access(); }
void __tsan_write8_pc(void* p, void*) { access(); W(p, 8); }
void __tsan_read16(void*) { access(); }
void __tsan_write16(void* p) { access(); W(p, 16); }
void __tsan_unaligned_read16(void*) { access(); }
void __tsan_unaligned_write16(void* p) { access(); W(p, 16); }
void __tsan_volatile_read16(void*) { access(); }
void __tsan_volatile_write16(void* p) { access(); A(p, 16, false); }
void __tsan_unaligned_volatile_read16(void*) { access(); }
void __tsan_unaligned_volatile_write16(void* p) { access(); A(p, 16, false); }
void __tsan_read16_pc(void*, void*) { access(); }
void __tsan_write16_pc(void* p, void*) { access(); W(p, 16); }
uint8_t __tsan_atomic8_load(const volatile uint8_t* p, int) { access(); A(p, 1, false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
void __tsan_atomic8_store(volatile uint8_t* p, uint8_t v, int) { access(); A(p, 1, false); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_exchange(volatile uint8_t* p, uint8_t v, int) { access(); A(p, 1, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_add(volatile uint8_t* p, uint8_t v, int) { access(); A(p, 1, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_sub(volatile uint8_t* p, uint8_t v, int) { access(); A(p, 1, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_and(volatile uint8_t* p, uint8_t v, int) { access(); A(p, 1, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_or(volatile uint8_t* p, uint8_t v, int) { access(); A(p, 1, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_xor(volatile uint8_t* p, uint8_t v, int) { access(); A(p, 1, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_nand(volatile uint8_t* p, uint8_t v, int) { access(); A(p, 1, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }
int __tsan_atomic8_compare_exchange_strong(volatile uint8_t* p, uint8_t* e, uint8_t v, int, int) { access(); A(p, 1, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
int __tsan_atomic8_compare_exchange_weak(volatile uint8_t* p, uint8_t* e, uint8_t v, int, int) { access(); A(p, 1, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_compare_exchange_val(volatile uint8_t* p, uint8_t e, uint8_t v, int, int) { access(); A(p, 1, true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
uint16_t __tsan_atomic16_load(const volatile uint16_t* p, int) { access(); A(p, 2, false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
void __tsan_atomic16_store(volatile uint16_t* p, uint16_t v, int) { access(); A(p, 2, false); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_exchange(volatile uint16_t* p, uint16_t v, int) { access(); A(p, 2, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_add(volatile uint16_t* p, uint16_t v, int) { access(); A(p, 2, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_sub(volatile uint16_t* p, uint16_t v, int) { access(); A(p, 2, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_and(volatile uint16_t* p, uint16_t v, int) { access(); A(p, 2, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_or(volatile uint16_t* p, uint16_t v, int) { access(); A(p, 2, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_xor(volatile uint16_t* p, uint16_t v, int) { access(); A(p, 2, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_nand(volatile uint16_t* p, uint16_t v, int) { access(); A(p, 2, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }
int __tsan_atomic16_compare_exchange_strong(volatile uint16_t* p, uint16_t* e, uint16_t v, int, int) { access(); A(p, 2, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
int __tsan_atomic16_compare_exchange_weak(volatile uint16_t* p, uint16_t* e, uint16_t v, int, int) { access(); A(p, 2, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_compare_exchange_val(volatile uint16_t* p, uint16_t e, uint16_t v, int, int) { access(); A(p, 2, true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
uint32_t __tsan_atomic32_load(const volatile uint32_t* p, int) { access(); A(p, 4, false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
void __tsan_atomic32_store(volatile uint32_t* p, uint32_t v, int) { access(); A(p, 4, false); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_exchange(volatile uint32_t* p, uint32_t v, int) { access(); A(p, 4, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_add(volatile uint32_t* p, uint32_t v, int) { access(); A(p, 4, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_sub(volatile uint32_t* p, uint32_t v, int) { access(); A(p, 4, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_and(volatile uint32_t* p, uint32_t v, int) { access(); A(p, 4, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_or(volatile uint32_t* p, uint32_t v, int) { access(); A(p, 4, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_xor(volatile uint32_t* p, uint32_t v, int) { access(); A(p, 4, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_nand(volatile uint32_t* p, uint32_t v, int) { access(); A(p, 4, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }
int __tsan_atomic32_compare_exchange_strong(volatile uint32_t* p, uint32_t* e, uint32_t v, int, int) { access(); A(p, 4, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
int __tsan_atomic32_compare_exchange_weak(volatile uint32_t* p, uint32_t* e, uint32_t v, int, int) { access(); A(p, 4, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_compare_exchange_val(volatile uint32_t* p, uint32_t e, uint32_t v, int, int) { access(); A(p, 4, true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
uint64_t __tsan_atomic64_load(const volatile uint64_t* p, int) { access(); A(p, 8, false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
void __tsan_atomic64_store(volatile uint64_t* p, uint64_t v, int) { access(); A(p, 8, false); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_exchange(volatile uint64_t* p, uint64_t v, int) { access(); A(p, 8, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_add(volatile uint64_t* p, uint64_t v, int) { access(); A(p, 8, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_sub(volatile uint64_t* p, uint64_t v, int) { access(); A(p, 8, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_and(volatile uint64_t* p, uint64_t v, int) { access(); A(p, 8, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_or(volatile uint64_t* p, uint64_t v, int) { access(); A(p, 8, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_xor(volatile uint64_t* p, uint64_t v, int) { access(); A(p, 8, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_nand(volatile uint64_t* p, uint64_t v, int) { access(); A(p, 8, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }
int __tsan_atomic64_compare_exchange_strong(volatile uint64_t* p, uint64_t* e, uint64_t v, int, int) { access(); A(p, 8, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
int __tsan_atomic64_compare_exchange_weak(volatile uint64_t* p, uint64_t* e, uint64_t v, int, int) { access(); A(p, 8, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_compare_exchange_val(volatile uint64_t* p, uint64_t e, uint64_t v, int, int) { access(); A(p, 8, true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
void __tsan_atomic_thread_fence(int) { access(); F(); }
void __tsan_atomic_signal_fence(int) {}
}
