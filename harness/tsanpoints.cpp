// Receives the calls that -fsanitize=thread puts at every memory access; none of the sanitizer's runtime is linked.
#include "explore.h"
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define A(n) \
    void __tsan_read##n(void* p) { ex::access(p); } \
    void __tsan_write##n(void* p) { ex::access(p); } \
    void __tsan_unaligned_read##n(void* p) { ex::access(p); } \
    void __tsan_unaligned_write##n(void* p) { ex::access(p); } \
    void __tsan_volatile_read##n(void* p) { ex::access(p); } \
    void __tsan_volatile_write##n(void* p) { ex::access(p); } \
    void __tsan_read##n##_pc(void* p, void*) { ex::access(p); } \
    void __tsan_write##n##_pc(void* p, void*) { ex::access(p); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void* p, unsigned long) { ex::access(p); }
void __tsan_write_range(void* p, unsigned long) { ex::access(p); }
void __tsan_vptr_update(void** p, void* v) { ex::access(p); }
void __tsan_vptr_read(void** p) { ex::access(p); }
#define B(n, T) \
    T __tsan_atomic##n##_load(const volatile T* a, int) { ex::access((void*)a); return __atomic_load_n(a, 5); } \
    void __tsan_atomic##n##_store(volatile T* a, T v, int) { ex::access((void*)a); __atomic_store_n(a, v, 5); } \
    T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { ex::access((void*)a); return __atomic_exchange_n(a, v, 5); } \
    T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { ex::access((void*)a); return __atomic_fetch_add(a, v, 5); } \
    T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { ex::access((void*)a); return __atomic_fetch_sub(a, v, 5); } \
    T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { ex::access((void*)a); return __atomic_fetch_and(a, v, 5); } \
    T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { ex::access((void*)a); return __atomic_fetch_or(a, v, 5); } \
    T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { ex::access((void*)a); return __atomic_fetch_xor(a, v, 5); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { ex::access((void*)a); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { ex::access((void*)a); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T e, T v, int, int) { ex::access((void*)a); __atomic_compare_exchange_n(a, &e, v, 0, 5, 5); return e; }
B(8, unsigned char) B(16, unsigned short) B(32, unsigned int) B(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
void __tsan_atomic_signal_fence(int) {}
}
