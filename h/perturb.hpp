// Schedule perturbation for plain builds: random delays at the library's
// synchronisation points (mutexes, conditions, barriers). Only legal behaviour
// is produced: a delay, or a trylock that finds the lock taken.
#pragma once
#include "vh.hpp"
#include <dlfcn.h>

namespace vh {
struct perturb_t {
	std::atomic<unsigned> level{0};       // 0 off, else percentage of points delayed
	std::atomic<unsigned> maxus{60};
	std::atomic<uint64_t> points{0}, delays{0};
	std::atomic<uint64_t> seed{1};
};
inline perturb_t &pert() { static perturb_t *p = new perturb_t; return *p; }
inline rng &pert_rng()
{
	static std::atomic<uint64_t> n{0};
	static thread_local rng r(pert().seed.load() * 1315423911u + n.fetch_add(1));
	return r;
}
inline void pert_point()
{
	perturb_t &p = pert();
	unsigned l = p.level.load(std::memory_order_relaxed);
	if (!l) return;
	rng &r = pert_rng();
	p.points.fetch_add(1, std::memory_order_relaxed);
	if (r.below(100) >= l) return;
	p.delays.fetch_add(1, std::memory_order_relaxed);
	unsigned k = r.below(10);
	if (k < 4) sched_yield();
	else if (k < 8) { unsigned n = r.below(3000); for (volatile unsigned i = 0; i < n; i++) ; }
	else usleep(r.below(p.maxus.load(std::memory_order_relaxed)) + 1);
}
}

#if defined(VH_MAIN)
extern "C" {
#ifndef HOGL_VERIF_INDEX
void hogl_verif_barrier(int) { vh::pert_point(); }
#else
void vh_barrier_delay(int) { vh::pert_point(); }
#endif
#if defined(VH_INTERPOSE)
// (plain variant only)
#define VH_REAL(ret, name, args) static ret (*real) args; if (!real) real = (ret (*) args) dlsym(RTLD_NEXT, #name)
int pthread_mutex_lock(pthread_mutex_t *m) { VH_REAL(int, pthread_mutex_lock, (pthread_mutex_t *)); vh::pert_point(); return real(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { VH_REAL(int, pthread_mutex_unlock, (pthread_mutex_t *)); int r = real(m); vh::pert_point(); return r; }
int pthread_mutex_trylock(pthread_mutex_t *m)
{
	VH_REAL(int, pthread_mutex_trylock, (pthread_mutex_t *));
	vh::pert_point();
	if (vh::pert().level && vh::pert_rng().below(100) < 10) return EBUSY;
	return real(m);
}
#endif
}
#endif
