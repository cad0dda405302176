// Force-included into every file of the ThreadSanitizer variant.
//
// The library publishes records with volatile indexes and CPU fences, which
// ThreadSanitizer does not understand. Here the ring index becomes a type whose
// load acquires and whose store releases, the latter only if the thread executed
// a barrier since its previous transaction: publishing without a barrier is
// reported as a race on the record.
#pragma once
#if defined(__cplusplus)
extern "C" void __tsan_acquire(void *);
extern "C" void __tsan_release(void *);

struct vh_tsan_state { bool wfence = false, rfence = false, stored = false; };
inline vh_tsan_state &vh_tsan() { static thread_local vh_tsan_state s; return s; }

struct vh_index {
	volatile unsigned int v;
	operator unsigned int() const volatile { return load(); }
	operator unsigned int() const { return load(); }
	unsigned int load() const volatile
	{
		vh_tsan_state &s = vh_tsan();
		if (s.stored) s.stored = s.wfence = false;
		unsigned int x = __atomic_load_n(&v, __ATOMIC_RELAXED);
		__tsan_acquire((void *) &v);
		return x;
	}
	void store(unsigned int x)
	{
		vh_tsan_state &s = vh_tsan();
		if (s.wfence || s.rfence) __tsan_release((void *) &v);
		s.stored = true;
		__atomic_store_n(&v, x, __ATOMIC_RELAXED);
	}
	unsigned int operator=(unsigned int x) { store(x); return x; }
	unsigned int operator=(const vh_index &o) { unsigned int x = o.load(); store(x); return x; }
	vh_index() : v(0) { }
	vh_index(unsigned int x) : v(x) { }
	vh_index(const vh_index &o) : v(o.load()) { }
};
#define HOGL_VERIF_INDEX ::vh_index

// may be replaced by a harness that also wants delays at the barriers
extern "C" __attribute__((weak)) void vh_barrier_delay(int);
extern "C" __attribute__((weak)) void hogl_verif_barrier(int kind)
{
	vh_tsan_state &s = vh_tsan();
	if (kind == 1) s.rfence = true; else if (kind == 2) s.wfence = true; else s.rfence = s.wfence = true;
	if (vh_barrier_delay) vh_barrier_delay(kind);
}

// other volatile accesses are flags that need no ordering by themselves
#define VH_TSAN_V(n) \
extern "C" __attribute__((weak)) void __tsan_volatile_read##n(void *) { } \
extern "C" __attribute__((weak)) void __tsan_volatile_write##n(void *) { } \
extern "C" __attribute__((weak)) void __tsan_unaligned_volatile_read##n(void *) { } \
extern "C" __attribute__((weak)) void __tsan_unaligned_volatile_write##n(void *) { }
VH_TSAN_V(1) VH_TSAN_V(2) VH_TSAN_V(4) VH_TSAN_V(8) VH_TSAN_V(16)
#endif
