// The instrumentation interface of -fsanitize=thread, without the TSan runtime:
// every instrumented access goes to the controlled scheduler and race detector.
#include "mcrt.h"
#include <string.h>
#define PC __builtin_return_address(0)
typedef unsigned __int128 u128;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *v) { if (*p != v) rt::mem_access(p, 8, true, false, PC); } // rewriting the same table pointer (destructor entry) is no change
void __tsan_vptr_read(void **p) { rt::mem_access(p, 8, false, false, PC); }
void __tsan_read_range(void *p, unsigned long n) { rt::mem_access(p, n, false, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { rt::mem_access(p, n, true, false, PC); }
// volatile accesses (with --param tsan-distinguish-volatile=1) count as atomic
// release stores and acquire loads, what they are on the targets lce supports
#define VOL(p, n, w) rt::yield(); rt::mem_access(p, n, w, true, PC); if (w) rt::hb_release(p); else rt::hb_acquire(p)
#define RW(N) \
void __tsan_read##N(void *p) { rt::mem_access(p, N, false, false, PC); } \
void __tsan_write##N(void *p) { rt::mem_access(p, N, true, false, PC); } \
void __tsan_unaligned_read##N(void *p) { rt::mem_access(p, N, false, false, PC); } \
void __tsan_unaligned_write##N(void *p) { rt::mem_access(p, N, true, false, PC); } \
void __tsan_volatile_read##N(void *p) { VOL(p, N, false); } \
void __tsan_volatile_write##N(void *p) { VOL(p, N, true); } \
void __tsan_unaligned_volatile_read##N(void *p) { VOL(p, N, false); } \
void __tsan_unaligned_volatile_write##N(void *p) { VOL(p, N, true); } \
void __tsan_read##N##_pc(void *p, void *pc) { rt::mem_access(p, N, false, false, pc); } \
void __tsan_write##N##_pc(void *p, void *pc) { rt::mem_access(p, N, true, false, pc); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define PRE(p, n, w) rt::yield(); rt::mem_access((void *)p, n, w, true, PC)
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T *p, int) { PRE(p, sizeof(T), false); rt::hb_acquire((const void *)p); return *p; } \
void __tsan_atomic##B##_store(volatile T *p, T v, int) { PRE(p, sizeof(T), true); rt::hb_release((const void *)p); *p = v; } \
T __tsan_atomic##B##_exchange(volatile T *p, T v, int) { PRE(p, sizeof(T), true); rt::hb_acquire((const void *)p); rt::hb_release((const void *)p); T o = *p; *p = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int) { PRE(p, sizeof(T), true); rt::hb_acquire((const void *)p); rt::hb_release((const void *)p); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int) { PRE(p, sizeof(T), true); rt::hb_acquire((const void *)p); rt::hb_release((const void *)p); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int) { PRE(p, sizeof(T), true); rt::hb_acquire((const void *)p); rt::hb_release((const void *)p); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int) { PRE(p, sizeof(T), true); rt::hb_acquire((const void *)p); rt::hb_release((const void *)p); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int) { PRE(p, sizeof(T), true); rt::hb_acquire((const void *)p); rt::hb_release((const void *)p); T o = *p; *p = o ^ v; return o; } \
T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int) { PRE(p, sizeof(T), true); rt::hb_acquire((const void *)p); rt::hb_release((const void *)p); T o = *p; *p = ~(o & v); return o; } \
bool __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { PRE(p, sizeof(T), true); rt::hb_acquire((const void *)p); rt::hb_release((const void *)p); if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
bool __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int b) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, a, b); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int, int) { PRE(p, sizeof(T), true); rt::hb_acquire((const void *)p); rt::hb_release((const void *)p); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { rt::yield(); }
void __tsan_atomic_signal_fence(int) {}
}
// kit/memhook.h sends block copies here
extern "C" void *verif_copy(void *d, const void *s, size_t n) {
    char *D = (char *)d; const char *S = (const char *)s;
    if (D <= S || D >= S + n) for (size_t i = 0; i < n; ) { size_t k = n - i > 8 ? 8 : n - i; rt::mem_access(S + i, k, false, false, PC); rt::mem_access(D + i, k, true, false, PC); __builtin_memmove(D + i, S + i, k); i += k; }
    else for (size_t i = n; i > 0; ) { size_t k = i > 8 ? 8 : i; i -= k; rt::mem_access(S + i, k, false, false, PC); rt::mem_access(D + i, k, true, false, PC); __builtin_memmove(D + i, S + i, k); }
    return d;
}
