// <stdatomic.h> for clang over plain (non-_Atomic) objects, as gcc accepts them.
// Same meaning as gcc's header: each generic maps to the __atomic builtin.
#ifndef V_STDATOMIC_H
#define V_STDATOMIC_H
typedef enum {
  memory_order_relaxed = __ATOMIC_RELAXED, memory_order_consume = __ATOMIC_CONSUME,
  memory_order_acquire = __ATOMIC_ACQUIRE, memory_order_release = __ATOMIC_RELEASE,
  memory_order_acq_rel = __ATOMIC_ACQ_REL, memory_order_seq_cst = __ATOMIC_SEQ_CST
} memory_order;
typedef _Atomic(_Bool) atomic_bool;
typedef _Atomic(char) atomic_char;
typedef _Atomic(unsigned char) atomic_uchar;
typedef _Atomic(int) atomic_int;
typedef _Atomic(unsigned) atomic_uint;
typedef _Atomic(long) atomic_long;
typedef _Atomic(unsigned long) atomic_ulong;
typedef _Atomic(__SIZE_TYPE__) atomic_size_t;
typedef _Atomic(__PTRDIFF_TYPE__) atomic_ptrdiff_t;
typedef _Atomic(__INTPTR_TYPE__) atomic_intptr_t;
typedef _Atomic(__UINTPTR_TYPE__) atomic_uintptr_t;
#define V_P(p) ((__typeof__(((void)0, *(p))) *)(p))
#define atomic_init(p, v) ((void)(*(p) = (v)))
#define atomic_thread_fence(mo) __atomic_thread_fence(mo)
#define atomic_signal_fence(mo) __atomic_signal_fence(mo)
#define atomic_load_explicit(p, mo) __atomic_load_n(V_P(p), (mo))
#define atomic_load(p) atomic_load_explicit((p), __ATOMIC_SEQ_CST)
#define atomic_store_explicit(p, v, mo) __atomic_store_n(V_P(p), (v), (mo))
#define atomic_store(p, v) atomic_store_explicit((p), (v), __ATOMIC_SEQ_CST)
#define atomic_exchange_explicit(p, v, mo) __atomic_exchange_n(V_P(p), (v), (mo))
#define atomic_exchange(p, v) atomic_exchange_explicit((p), (v), __ATOMIC_SEQ_CST)
#define atomic_compare_exchange_strong_explicit(p, e, d, s, f) __atomic_compare_exchange_n(V_P(p), (e), (d), 0, (s), (f))
#define atomic_compare_exchange_weak_explicit(p, e, d, s, f) __atomic_compare_exchange_n(V_P(p), (e), (d), 1, (s), (f))
#define atomic_compare_exchange_strong(p, e, d) atomic_compare_exchange_strong_explicit((p), (e), (d), __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)
#define atomic_compare_exchange_weak(p, e, d) atomic_compare_exchange_weak_explicit((p), (e), (d), __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)
#define atomic_fetch_add_explicit(p, v, mo) __atomic_fetch_add(V_P(p), (v), (mo))
#define atomic_fetch_sub_explicit(p, v, mo) __atomic_fetch_sub(V_P(p), (v), (mo))
#define atomic_fetch_or_explicit(p, v, mo) __atomic_fetch_or(V_P(p), (v), (mo))
#define atomic_fetch_and_explicit(p, v, mo) __atomic_fetch_and(V_P(p), (v), (mo))
#define atomic_fetch_xor_explicit(p, v, mo) __atomic_fetch_xor(V_P(p), (v), (mo))
#define atomic_fetch_add(p, v) atomic_fetch_add_explicit((p), (v), __ATOMIC_SEQ_CST)
#define atomic_fetch_sub(p, v) atomic_fetch_sub_explicit((p), (v), __ATOMIC_SEQ_CST)
#define atomic_fetch_or(p, v) atomic_fetch_or_explicit((p), (v), __ATOMIC_SEQ_CST)
#define atomic_fetch_and(p, v) atomic_fetch_and_explicit((p), (v), __ATOMIC_SEQ_CST)
#define atomic_fetch_xor(p, v) atomic_fetch_xor_explicit((p), (v), __ATOMIC_SEQ_CST)
#define atomic_is_lock_free(p) __atomic_is_lock_free(sizeof(*(p)), (p))
#endif
