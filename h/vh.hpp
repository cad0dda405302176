// Common parts of all harnesses: PRNG, reporting, watchdog.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <pthread.h>
#include <time.h>
#include <sys/stat.h>
#include <sys/syscall.h>

#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

namespace vh {

// ---- PRNG (splitmix64) ----
struct rng {
	uint64_t s;
	explicit rng(uint64_t seed = 1) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) { next(); }
	uint64_t next()
	{
		uint64_t z = (s += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t a, int64_t b) { return a + (int64_t) below(b - a + 1); }
	bool chance(unsigned pct) { return below(100) < pct; }
	template <typename T, size_t N> const T &pick(const T (&a)[N]) { return a[below(N)]; }
	template <typename T> const T &pick(const std::vector<T> &a) { return a[below(a.size())]; }
};

inline uint64_t mix(uint64_t a, uint64_t b = 0) { rng r(a ^ (b * 0xff51afd7ed558ccdull + 0x77)); return r.next(); }
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
{
	const uint8_t *b = (const uint8_t *) p;
	for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; }
	return h;
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 0xcbf29ce484222325ull) { return hash_bytes(s.data(), s.size(), h); }

// ---- reporting ----
struct report {
	int fd;
	std::mutex m;
	std::map<std::string, uint64_t> stats;
	std::unordered_set<uint64_t> hashes;
	unsigned nviol = 0, nsample = 0;
	std::set<std::string> keys;
	report()
	{
		const char *p = getenv("VH_OUT");
		fd = p ? open(p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644) : dup(2);
		// keep clear of the descriptors harnesses play with
		int n = fcntl(fd, F_DUPFD_CLOEXEC, 200);
		if (n >= 0) { close(fd); fd = n; }
	}
	void raw(const std::string &s) { ssize_t r = syscall(SYS_write, fd, s.data(), s.size()); (void) r; }
};
inline report &rep() { static report *r = new report; return *r; }

inline std::string vfmt(const char *f, va_list ap)
{
	va_list a2; va_copy(a2, ap);
	int n = vsnprintf(0, 0, f, a2); va_end(a2);
	std::string s(n + 1, 0);
	vsnprintf(&s[0], n + 1, f, ap);
	s.resize(n);
	return s;
}
inline std::string sf(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string sf(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }
inline std::string esc(const std::string &s, size_t max = 300)
{
	std::string o;
	for (unsigned char c : s) {
		if (o.size() > max) { o += "..."; break; }
		if (c >= 32 && c < 127 && c != '\\') o += c; else o += sf("\\x%02x", c);
	}
	return o;
}

// A property violation that was observed. Only the first few of each key are kept.
inline void viol(const std::string &key, const char *f, ...) __attribute__((format(printf, 2, 3)));
inline void viol(const std::string &key, const char *f, ...)
{
	va_list ap; va_start(ap, f); std::string s = esc(vfmt(f, ap), 1500); va_end(ap);
	report &r = rep();
	std::lock_guard<std::mutex> l(r.m);
	r.nviol++;
	if (!r.keys.insert(key).second) return;
	r.raw("@VIOL " + key + " " + s + "\n");
	fprintf(stderr, "@VIOL %s %s\n", key.c_str(), s.c_str());
}
inline bool violated() { report &r = rep(); std::lock_guard<std::mutex> l(r.m); return r.nviol != 0; }
inline void stat(const std::string &name, uint64_t n = 1) { report &r = rep(); std::lock_guard<std::mutex> l(r.m); r.stats[name] += n; }
inline void eval(uint64_t n = 1) { stat("evaluations", n); }
inline void distinct(uint64_t h) { report &r = rep(); std::lock_guard<std::mutex> l(r.m); if (r.hashes.size() < 300000) r.hashes.insert(h); }
inline void sample(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline void sample(const char *f, ...)
{
	va_list ap; va_start(ap, f); std::string s = esc(vfmt(f, ap), 560); va_end(ap);
	report &r = rep();
	std::lock_guard<std::mutex> l(r.m);
	if (r.nsample++ < 3) r.raw("@SAMPLE " + s + "\n");
}
inline void rule(const char *s) { rep().raw(std::string("@RULE ") + s + "\n"); }
[[noreturn]] inline void harness_error(const char *f, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void harness_error(const char *f, ...)
{
	va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
	rep().raw("@ERR " + esc(s, 800) + "\n");
	_exit(97);
}
inline void flush_report()
{
	report &r = rep();
	std::lock_guard<std::mutex> l(r.m);
	std::string s;
	for (auto &x : r.stats) s += sf("@STAT %s %llu\n", x.first.c_str(), (unsigned long long) x.second);
	unsigned i = 0;
	for (uint64_t h : r.hashes) { if (i++ % 16 == 0) s += "\n@H"; s += sf(" %llx", (unsigned long long) h); }
	s += "\n";
	r.raw(s);
	r.stats.clear(); r.hashes.clear();
}
inline int finish() { bool v = violated(); flush_report(); fflush(0); return v ? 3 : 0; }

// ---- watchdog: progress based, reports a hang (exit 98) if nothing moves for a long time ----
struct watchdog_t {
	std::atomic<uint64_t> ticks{0};
	std::atomic<const char *> phase{"start"};
	unsigned limit = 60;
	void start(unsigned secs = 60)
	{
		limit = secs;
		std::thread([this] {
			uint64_t last = ~0ull; unsigned idle = 0;
			while (1) {
				usleep(1000000);
				uint64_t t = ticks.load();
				if (t != last) { last = t; idle = 0; continue; }
				if (++idle >= limit) {
					dprintf(2, "\n@PHASE %s (no progress for %u s)\n", phase.load(), limit);
					flush_report();
					_exit(98);
				}
			}
		}).detach();
	}
};
inline watchdog_t &wd() { static watchdog_t *w = new watchdog_t; return *w; }
inline void tick() { wd().ticks.fetch_add(1, std::memory_order_relaxed); }
inline void phase(const char *p) { wd().phase = p; tick(); }

// Wait for a condition; gives up only when *nothing* progresses for a long time.
template <typename P, typename G> bool wait_for(P pred, G progress, unsigned secs = 25)
{
	uint64_t last = progress(); 
	struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
	unsigned spins = 0;
	while (!pred()) {
		tick();
		if (++spins < 50) sched_yield(); else usleep(200);
		uint64_t p = progress();
		clock_gettime(CLOCK_MONOTONIC, &t);
		if (p != last) { last = p; t0 = t; continue; }
		if (t.tv_sec - t0.tv_sec > (time_t) secs) return pred();
	}
	return true;
}
template <typename P> bool wait_secs(P pred, unsigned secs = 25) { return wait_for(pred, [] { return (uint64_t) 0; }, secs); }
template <typename P> bool wait_for(P pred) { return wait_secs(pred); }

inline std::string scratch()
{
	const char *p = getenv("VH_SCRATCH");
	if (!p) harness_error("VH_SCRATCH not set");
	return p;
}
inline std::string slurp(const std::string &path)
{
	std::string s; FILE *f = fopen(path.c_str(), "rb"); if (!f) return s;
	char b[65536]; size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
	fclose(f);
	return s;
}
inline void spill(const std::string &path, const std::string &data)
{
	FILE *f = fopen(path.c_str(), "wb"); if (!f) harness_error("cannot write %s", path.c_str());
	if (fwrite(data.data(), 1, data.size(), f) != data.size()) harness_error("cannot write %s", path.c_str());
	fclose(f);
}
inline uint64_t argn(int argc, char **argv, int i, uint64_t d) { return i < argc ? strtoull(argv[i], 0, 0) : d; }

} // namespace vh
