// S02: what a post does, seen from below: every instruction, system call, allocation and lock of it.
#define VH_MAIN
#include "cap.hpp"
#include <dlfcn.h>
#include <signal.h>
#include <sys/prctl.h>
#include <ucontext.h>
#include <sched.h>
#include <hogl/flush.hpp>
using namespace vh;
typedef hogl::ringbuf RB;

// ---- what happens inside the window of a post ----
struct window { volatile int open; unsigned allocs, frees, locks, waits, syscalls; long nr; uint64_t steps; void *lk[8]; };
static __thread window W; // (the executable's own TLS: access needs no calls)
static __thread int is_engine;

extern "C" {
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *); void *__libc_memalign(size_t, size_t);
void *malloc(size_t n) { if (W.open) W.allocs++; return __libc_malloc(n); }
void *calloc(size_t n, size_t m) { if (W.open) W.allocs++; return __libc_calloc(n, m); }
void *realloc(void *p, size_t n) { if (W.open) W.allocs++; return __libc_realloc(p, n); }
void free(void *p) { if (W.open && p) W.frees++; __libc_free(p); }
void *memalign(size_t a, size_t n) { if (W.open) W.allocs++; return __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { if (W.open) W.allocs++; return __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { if (W.open) W.allocs++; *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
}
// mutexes the engine thread was seen to take
static std::atomic<void *> elocks[4096];
static void note_engine_lock(void *m) { unsigned h = ((uintptr_t) m >> 3) * 2654435761u % 4096; for (unsigned i = 0; i < 4096; i++, h = (h + 1) % 4096) { void *e = elocks[h]; if (e == m) return; if (!e && elocks[h].compare_exchange_strong(e, m)) return; if (e == m) return; } }
static bool engine_locks(void *m) { unsigned h = ((uintptr_t) m >> 3) * 2654435761u % 4096; for (unsigned i = 0; i < 4096; i++, h = (h + 1) % 4096) { void *e = elocks[h]; if (e == m) return true; if (!e) return false; } return false; }
static void note_lock(void *m) { if (W.open) { if (W.locks < 8) W.lk[W.locks] = m; W.locks++; } else if (is_engine) note_engine_lock(m); }
static int (*real_lock)(pthread_mutex_t *), (*real_trylock)(pthread_mutex_t *), (*real_wait)(pthread_cond_t *, pthread_mutex_t *);
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) { if (!real_lock) real_lock = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_lock"); note_lock(m); return real_lock(m); }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (!real_trylock) real_trylock = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_trylock"); if (!W.open) note_lock(m); return real_trylock(m); }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!real_wait) real_wait = (int (*)(pthread_cond_t *, pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_cond_wait"); if (W.open) W.waits++; return real_wait(c, m); }
}

static const uint64_t STEP_LIMIT = 3000000;
static bool have_sud;
static __thread volatile char sel; // 0 allow, 1 block
static void on_sys(int, siginfo_t *, void *u)
{
	sel = 0;
	ucontext_t *c = (ucontext_t *) u; greg_t *r = c->uc_mcontext.gregs;
	W.syscalls++; W.nr = r[REG_RAX];
	long res;
	register long r10 asm("r10") = r[REG_R10]; register long r8 asm("r8") = r[REG_R8]; register long r9 asm("r9") = r[REG_R9];
	asm volatile("syscall" : "=a"(res) : "a"(r[REG_RAX]), "D"(r[REG_RDI]), "S"(r[REG_RSI]), "d"(r[REG_RDX]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	r[REG_RAX] = res;
}
static void on_trap(int, siginfo_t *, void *u)
{
	ucontext_t *c = (ucontext_t *) u; const unsigned char *p = (const unsigned char *) c->uc_mcontext.gregs[REG_RIP];
	W.steps++;
	if ((p[0] == 0x0f && (p[1] == 0x05 || p[1] == 0x34)) || (p[0] == 0xcd && p[1] == 0x80)) { W.syscalls++; W.nr = c->uc_mcontext.gregs[REG_RAX]; }
	if (W.steps > STEP_LIMIT) { W.open = 0; viol("unbounded", "a post is still running after %llu instructions", (unsigned long long) W.steps); flush_report(); _exit(3); }
}
#define TF_ON  asm volatile("lea -128(%%rsp),%%rsp; pushfq; orq $0x100,(%%rsp); popfq; lea 128(%%rsp),%%rsp" ::: "memory", "cc")
#define TF_OFF asm volatile("lea -128(%%rsp),%%rsp; pushfq; andq $~0x100,(%%rsp); popfq; lea 128(%%rsp),%%rsp" ::: "memory", "cc")

static void sud(bool on)
{
	sel = 0;
	if (have_sud && prctl(59 /* PR_SET_SYSCALL_USER_DISPATCH */, on ? 1 : 0, 0, 0, on ? &sel : 0)) harness_error("cannot intercept system calls: %s", strerror(errno));
}

enum how { COUNT, TRAP, STEP };
template <typename F> static __attribute__((noinline)) void watched(how h, F f)
{
	memset((void *) &W, 0, sizeof W);
	W.open = 1;
	if (h == STEP) { TF_ON; f(); TF_OFF; }
	else if (h == TRAP && have_sud) { sel = 1; f(); sel = 0; }
	else f();
	W.open = 0;
}

static uint64_t bytes_of(const std::vector<Val> &v) { uint64_t n = 0; for (auto &x : v) n += x.s.size(); return n; }
static uint64_t worst_steps, worst_excess;
static std::mutex em;

// The verdict on one post
static void judge(how h, RB *r, const std::vector<Val> &v, const char *state, bool shared, bool clock_ok)
{
	eval(); tick(); stat(h == STEP ? "posts_stepped" : h == TRAP && have_sud ? "posts_trapped" : "posts_counted");
	stat(sf("posts_%s", state));
	std::string what = sf("post of %zu arguments (%llu bytes of data) into a %s ring of %u, %u used, engine %s", v.size(), (unsigned long long) bytes_of(v), shared ? "shared" : "private", r->capacity(), r->size(), state);
	if (W.allocs || W.frees) viol("allocates", "%u allocations and %u frees in a %s", W.allocs, W.frees, what.c_str());
	if (W.waits) viol("waits", "condition wait in a %s", what.c_str());
	bool clk = clock_ok && W.nr == SYS_clock_gettime;
	if (!shared && W.syscalls && !clk) viol("syscall", "%u system calls (last is %ld) in a %s", W.syscalls, W.nr, what.c_str());
	for (unsigned i = 0; i < W.locks && i < 8; i++) if (engine_locks(W.lk[i])) viol("engine-lock", "lock that the engine takes as well, in a %s", what.c_str());
	if (W.locks) stat("locks_seen", W.locks);
	if (h == STEP) {
		stat("instructions", W.steps);
		uint64_t bound = 6000 + 40 * bytes_of(v);
		std::lock_guard<std::mutex> l(em);
		if (W.steps > worst_steps) worst_steps = W.steps;
		if (!shared && W.steps > bound) viol("steps", "%llu instructions in a %s", (unsigned long long) W.steps, what.c_str());
		distinct(mix(W.steps, hash_str(state)));
	}
}

struct thread_engine_mark : public cap_format { };

static std::vector<Val> some_vals(rng &g) { return rnd_vals(g, g.chance(15) ? 3000 : g.chance(40) ? 150 : 30); }

// one private (or shared) ring in one engine state
static void one_case(uint64_t seed, unsigned posts)
{
	rng g(seed); phase("case");
	for (auto &e : elocks) e = 0;
	enum { ABSENT, RUNNING, STALLED } st = (decltype(st)) g.below(3);
	static const char *const sn[] = { "absent", "running", "stalled" };
	bool shared = g.chance(25), own_clock = g.chance(80), defer = g.chance(30);
	thread_engine_mark f; hogl::output_null out(f);
	f.on = [&](const hogl::format::data &, const hogl::record &) { is_engine = 1; };
	f.use_gate = true;
	hogl::timesource ts("vh", logical_cb), rt("rt", 0);
	std::unique_ptr<hogl::engine> e; hogl::area *a; std::unique_ptr<hogl::area> loose;
	RB::options o = { g.chance(8) ? 65536u : 2u << g.below(8), (unsigned) g.below(3), shared ? (unsigned) RB::SHARED : 0, (unsigned) (g.chance(50) ? 0 : g.below(4000)) };
	if (o.capacity == 65536) o.record_tailroom = 0;
	RB *r;
	if (st == ABSENT) {
		static const char *s[] = { "S0", "S1", "S2", "S3", 0 };
		loose.reset(new hogl::area("A", s)); a = loose.get(); a->enable();
		r = new RB("R", o); r->hold(); if (own_clock) r->timesource(&ts);
	} else {
		e.reset(new hogl::engine(out, engine_opts::make(g.pick((const unsigned[]) { 1, 4, 64 }), 100, defer ? (unsigned) hogl::engine::DISABLE_TSO : 0, own_clock ? &ts : 0)));
		a = e->add_area("A"); a->enable();
		for (unsigned i = g.below(6); i--; ) e->add_area(sf("more%u", i).c_str());
		r = e->add_ring("R", o);
		if (st == STALLED) {
			RB::options ko = { 256, 0, 0, 0 }; RB *k = e->add_ring("K", ko);
			f.gate.close();
			if (!wait_for([&] { hogl::post(k, a, 0u, "stall"); return f.gate.blocked(); })) harness_error("engine does not stall");
			k->release();
		}
	}
	a->disable(3);
	// dynamic linking and the like are not part of a post
	{ std::vector<Val> v = some_vals(g); Args x(v); post_args(r, a, 0, x); x.~Args(); new (&x) Args(v); post_args_unlocked(r, a, 0, x); }
	bool step = g.chance(25); unsigned n = step ? std::max(6u, posts / 40) : posts;
	unsigned fullness = g.below(3);
	if (fullness == 2 && st != RUNNING) for (unsigned i = 0; i < r->capacity() + g.below(10); i++) hogl::post(r, a, 0u, i);
	sud(true);
	for (unsigned i = 0; i < n && !violated(); i++) {
		std::vector<Val> v = some_vals(g); Args x(v);
		how h = step ? STEP : g.chance(90) ? TRAP : COUNT;
		unsigned sect = g.chance(10) ? 3 : g.below(3);
		uint64_t q = r->seqnum();
		unsigned kind = g.below(3);
		if (kind == 0) watched(h, [&] { post_args(r, a, sect, x); });
		else if (kind == 1 && !shared) watched(h, [&] { post_args_unlocked(r, a, sect, x); });
		else watched(h, [&] { hogl::post(r, a, sect, "%s %d", "simple", i); });
		judge(h, r, kind == 0 || (kind == 1 && !shared) ? v : std::vector<Val>(), sn[st], shared, !own_clock);
		if (sect == 3) { stat("posts_disabled"); if (r->seqnum() != q) viol("disabled", "a post to a disabled section reaches the ring"); }
		else if (r->seqnum() != q + 1) viol("one", "one post, %llu sequence numbers", (unsigned long long) (r->seqnum() - q));
		if (r->room() <= 1) stat("posts_into_full");
		if (fullness == 0 && st == RUNNING && g.chance(30)) usleep(g.below(200));
	}
	sud(false);
	f.gate.open(); f.use_gate = false;
	sample("%s ring of %u (tailroom %u), engine %s, %u posts %s", shared ? "shared" : "private", r->capacity(), r->record_tailroom(), sn[st], n, step ? "single-stepped" : "with system calls trapped");
	r->release(); e.reset();
}

// Shared rings: the engine stalls, the ring is full, and somebody waits for a flush or a change of timesource of another ring
// (these hold their own ring: they are writers of it)
static void shared_case(uint64_t seed, unsigned posts)
{
	rng g(seed); phase("shared");
	for (auto &e : elocks) e = 0;
	cap_format f; hogl::output_null out(f);
	f.on = [&](const hogl::format::data &, const hogl::record &) { is_engine = 1; };
	f.use_gate = true;
	hogl::timesource ts("vh", logical_cb), ts2("vh2", logical_cb);
	hogl::engine e(out, engine_opts::make(g.pick((const unsigned[]) { 1, 4, 64 }), 100, g.chance(30) ? (unsigned) hogl::engine::DISABLE_TSO : 0, &ts));
	hogl::area *a = e.add_area("A"); a->enable();
	RB::options o = { 4u << g.below(5), 0, RB::SHARED, (unsigned) g.below(200) }, ko = { 256, 0, 0, 0 };
	RB *r = e.add_ring("R", o), *k = e.add_ring("K", ko), *other = e.add_ring("F", o);
	f.gate.close();
	if (!wait_for([&] { hogl::post(k, a, 0u, "stall"); return f.gate.blocked(); })) harness_error("engine does not stall");
	std::atomic<unsigned> waiters{0}; std::vector<std::thread> wt; unsigned nw = g.below(3);
	std::atomic<bool> over{false};
	bool engine_side = g.chance(50);
	for (unsigned i = 0; i < nw; i++) wt.emplace_back([&, i] { waiters++; if (i & 1) hogl::change_timesource(other, &ts2, 200000000); else hogl::flush(other, 200000000); });
	if (nw) { wait_for([&] { return waiters == nw; }); usleep(g.below(3000)); }
	std::thread adm; if (engine_side) adm = std::thread([&] { hogl::string_list l; e.list_rings(l); });
	unsigned nt = g.range(2, 5); std::atomic<unsigned> done{0}; std::atomic<uint64_t> prog{0}; std::vector<std::thread> th;
	for (unsigned t = 0; t < nt; t++) th.emplace_back([&, t] {
		rng tg(mix(seed, t + 77));
		sud(true);
		for (unsigned i = 0; i < posts && !violated(); i++) {
			std::vector<Val> v = some_vals(tg); Args x(v);
			how h = tg.chance(1) ? STEP : TRAP;
			watched(h, [&] { post_args(r, a, 0, x); });
			judge(h, r, v, "stalled", true, false); prog++;
		}
		sud(false);
		done++;
	});
	if (!wait_for([&] { return done == nt || violated(); }, [&] { return prog.load(); })) viol("blocked", "writers of a shared ring wait for a stalled engine (%u flushes or changes pending, ring of %u)", nw, r->capacity());
	if (violated()) { flush_report(); _exit(3); }
	for (auto &t : th) t.join();
	if (!f.gate.blocked()) harness_error("engine did not stay stalled");
	f.gate.open(); f.use_gate = false;
	for (auto &t : wt) t.join();
	if (adm.joinable()) adm.join();
	stat("shared_cases"); stat("pending_requests", nw);
	r->release(); k->release(); other->release();
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), cases = argn(argc, argv, 2, 20), posts = argn(argc, argv, 3, 200), sc = argn(argc, argv, 4, 5);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_flags = SA_SIGINFO; sigfillset(&sa.sa_mask);
	sa.sa_sigaction = on_trap; sigaction(SIGTRAP, &sa, 0);
	sa.sa_sigaction = on_sys; sigaction(SIGSYS, &sa, 0);
	have_sud = getenv("VH_NO_SUD") ? false : prctl(59, 1, 0, 0, &sel) == 0; if (have_sud) prctl(59, 0, 0, 0, 0); else stat("system_call_traps_unavailable");
	pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_mutex_lock(&m); pthread_mutex_unlock(&m); pthread_mutex_trylock(&m);
	// the monitors see what they should
	watched(STEP, [&] { syscall(SYS_getppid); }); if (W.syscalls != 1 || W.steps < 5) harness_error("single-stepping does not work: %llu steps, %u system calls", (unsigned long long) W.steps, W.syscalls);
	if (have_sud) { sud(true); watched(TRAP, [&] { syscall(SYS_getppid); }); sud(false); if (W.syscalls != 1) harness_error("trapping system calls does not work"); }
	void *volatile p; watched(COUNT, [&] { p = malloc(10); }); if (W.allocs != 1) harness_error("allocations are not seen"); free(p);
	wd().start();
	rule("evaluation: one post watched from its first to its last instruction, with its allocations, locks and system calls. distinct: instruction counts per engine state");
	for (uint64_t i = 0; i < cases && !violated(); i++) one_case(mix(seed, i), posts);
	for (uint64_t i = 0; i < sc && !violated(); i++) shared_case(mix(seed, 5000 + i), posts / 4);
	fprintf(stderr, "worst post: %llu instructions\n", (unsigned long long) worst_steps);
	return finish();
}
