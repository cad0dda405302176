// S04: scheduling parameters. Requests for CPUs and policies are recorded (and sometimes refused) instead of executed.
#define VH_MAIN
#include "cap.hpp"
#include <hogl/output-file.hpp>
#include <hogl/detail/schedparam.hpp>
#include <sched.h>
#include <sstream>
using namespace vh;

struct request { std::set<unsigned> cpus; pid_t tid; };
struct polreq { int policy, prio; pid_t tid; };
static std::mutex rm_; static std::vector<request> reqs; static std::vector<polreq> pols; static std::atomic<int> refuse{0}, refuse_pol{0};
static std::atomic<bool> foreign{false};
static pid_t mytid() { return (pid_t) syscall(SYS_gettid); }

static int record_request(size_t n, const cpu_set_t *c)
{
	request r; r.tid = mytid();
	for (size_t i = 0; i < n * 8; i++) if (CPU_ISSET_S(i, n, c)) r.cpus.insert(i);
	std::lock_guard<std::mutex> l(rm_); reqs.push_back(r); return refuse;
}
extern "C" int pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *c) { if (!pthread_equal(t, pthread_self())) foreign = true; return record_request(n, c); }
extern "C" int sched_setaffinity(pid_t p, size_t n, const cpu_set_t *c) { if (p && p != mytid()) foreign = true; int r = record_request(n, c); if (r) { errno = r; return -1; } return 0; }
extern "C" int pthread_setschedparam(pthread_t t, int pol, const struct sched_param *sp)
{
	if (!pthread_equal(t, pthread_self())) foreign = true;
	std::lock_guard<std::mutex> l(rm_); pols.push_back({ pol, sp->sched_priority, mytid() }); return refuse_pol;
}
static void clear() { std::lock_guard<std::mutex> l(rm_); reqs.clear(); pols.clear(); }

enum verdict { VALID, INVALID, UNCLEAR };
// What a string means. UNCLEAR where the rules given in the documentation do not say
static verdict meaning(const std::string &s, std::set<unsigned> &out)
{
	out.clear();
	if (s.find('\0') != s.npos) return UNCLEAR;
	if (s.compare(0, 5, "list:") == 0) {
		std::string l = s.substr(5); size_t p = 0; verdict v = VALID;
		if (l.empty()) return INVALID;
		while (1) {
			auto num = [&](unsigned long &x, bool &range) { size_t b = p; x = 0; range = false; while (p < l.size() && l[p] >= '0' && l[p] <= '9') { x = x * 10 + (l[p++] - '0'); if (x > 255) { range = true; x = 256; } } return p > b; };
			unsigned long a, b; bool ra, rb;
			if (!num(a, ra)) return INVALID;
			b = a; rb = ra;
			if (p < l.size() && l[p] == '-') { p++; if (!num(b, rb)) return INVALID; }
			if (ra || rb || a > b) return INVALID;
			for (; a <= b; a++) out.insert(a);
			if (p == l.size()) break;
			if (l[p] != ',') return (l[p] >= '0' && l[p] <= '9') ? UNCLEAR : INVALID;
			p++;
			if (p == l.size()) return UNCLEAR; // trailing comma
		}
		return v;
	}
	std::string m = s.compare(0, 5, "mask:") == 0 ? s.substr(5) : s;
	if (m.empty()) return UNCLEAR;
	if (isspace((unsigned char) m[0]) || m[0] == '+' || m[0] == '-') return UNCLEAR;
	unsigned base = 10; size_t p = 0;
	if (m[0] == '0' && m.size() > 1) {
		if (m[1] == 'x' || m[1] == 'X') { base = 16; p = 2; if (p == m.size()) return INVALID; }
		else if (m[1] == 'b' || m[1] == 'B') return UNCLEAR;
		else { base = 8; p = 1; }
	}
	unsigned __int128 x = 0;
	for (; p < m.size(); p++) {
		int c = tolower((unsigned char) m[p]); unsigned d = isdigit(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : 99;
		if (d >= base) return INVALID;
		x = x * base + d;
		if (x >> 64) { for (size_t q = p + 1; q < m.size(); q++) { int c2 = tolower((unsigned char) m[q]); unsigned d2 = isdigit(c2) ? c2 - '0' : c2 >= 'a' && c2 <= 'f' ? c2 - 'a' + 10 : 99; if (d2 >= base) return INVALID; } return INVALID; }
	}
	for (unsigned i = 0; i < 64; i++) if ((uint64_t) x >> i & 1) out.insert(i);
	return VALID;
}

static std::string show(const std::set<unsigned> &c) { std::string s; for (unsigned i : c) s += sf("%u ", i); return s; }

static void check_one(rng &g, const std::string &s, verdict v, const std::set<unsigned> &want, bool in_thread)
{
	eval(); tick();
	distinct(hash_str(s));
	int pol = g.pick((const int[]) { SCHED_OTHER, SCHED_FIFO, SCHED_RR, SCHED_BATCH, SCHED_IDLE }), prio = g.below(100);
	hogl::schedparam sp(pol, prio, 0, s);
	clear(); foreign = false;
	bool ok = sp.validate();
	stat(v == VALID ? "valid_strings" : v == INVALID ? "malformed_strings" : "unclear_strings");
	if (v == VALID && !ok) viol("validate", "valid affinity '%s' (CPUs %s) is rejected", esc(s).c_str(), show(want).c_str());
	if (v == INVALID && ok) viol("validate", "malformed affinity '%s' passes the validation", esc(s).c_str());
	{ std::lock_guard<std::mutex> l(rm_); if (!reqs.empty() || !pols.empty()) viol("dry", "validation of '%s' changes the thread", esc(s).c_str()); }
	int inj = g.chance(10) ? EPERM : 0, injp = g.chance(10) ? EPERM : 0;
	refuse = inj; refuse_pol = injp;
	bool done; pid_t tid;
	if (in_thread) { std::thread([&] { tid = mytid(); done = sp.thread_enter("probe"); sp.thread_exit(); }).join(); }
	else { tid = mytid(); done = sp.thread_enter("probe"); sp.thread_exit(); }
	refuse = refuse_pol = 0;
	std::lock_guard<std::mutex> l(rm_);
	bool wellformed = v == VALID || (v == UNCLEAR && ok);
	if (foreign) viol("thread", "'%s' is applied to another thread", esc(s).c_str());
	if (wellformed) {
		if (reqs.size() != 1) viol("requests", "'%s': %zu requests for CPUs", esc(s).c_str(), reqs.size());
		else {
			if (reqs[0].tid != tid) viol("thread", "'%s': CPUs requested by another thread", esc(s).c_str());
			if (v == VALID && reqs[0].cpus != want) viol("cpus", "'%s': CPUs %s requested, not %s", esc(s).c_str(), show(reqs[0].cpus).c_str(), show(want).c_str());
		}
		stat("cpus_requested", reqs.empty() ? 0 : reqs[0].cpus.size());
	} else if (!reqs.empty()) viol("rejected", "malformed '%s' changes the affinity to %s", esc(s).c_str(), show(reqs[0].cpus).c_str());
	if (pols.size() != 1 || pols[0].policy != pol || pols[0].prio != prio || pols[0].tid != tid) viol("policy", "policy %d priority %d is applied as %zu requests, first %d %d", pol, prio, pols.size(), pols.size() ? pols[0].policy : -1, pols.size() ? pols[0].prio : -1);
	bool expect = wellformed && !inj && !injp;
	if (done != expect) viol("result", "applying '%s' (refused %d %d) is reported as %s", esc(s).c_str(), inj, injp, done ? "done" : "failed");
	if (s.size()) sample("'%s' -> %s", esc(s).c_str(), wellformed ? show(reqs.empty() ? want : reqs[0].cpus).c_str() : "rejected");
}

static std::string gen_list(rng &g, std::set<unsigned> &c)
{
	std::string s; unsigned n = g.range(1, g.chance(10) ? 80 : 6), lim = g.chance(50) ? 255 : 20;
	for (unsigned i = 0; i < n; i++) {
		unsigned a = g.chance(15) ? (g.chance(50) ? 255 : 0) : g.below(lim + 1), b = a;
		if (g.chance(50)) b = g.chance(10) ? 255 : a + g.below(256 - a > 10 && !g.chance(20) ? 10 : 256 - a);
		if (i) s += ',';
		std::string z = g.chance(8) ? "00" : "";
		s += z + sf("%u", a); if (b != a || g.chance(10)) s += "-" + z + sf("%u", b);
		for (; a <= b; a++) c.insert(a);
	}
	return s;
}
static std::string gen_mask(rng &g, std::set<unsigned> &c)
{
	uint64_t m = g.next();
	switch (g.below(6)) { case 0: m >>= g.below(64); break; case 1: m = 1ull << g.below(64); break; case 2: m = ~0ull >> g.below(64); break; case 3: m = ~0ull << g.below(64); break; case 4: m &= g.next() & g.next(); break; }
	for (unsigned i = 0; i < 64; i++) if (m >> i & 1) c.insert(i);
	switch (g.below(5)) { case 0: return sf("%llu", (unsigned long long) m); case 1: return sf("0%llo", (unsigned long long) m); case 2: return sf("0x%llx", (unsigned long long) m); case 3: return sf("0X%016llX", (unsigned long long) m); default: return sf("0x%08llx", (unsigned long long) m); }
}

static void strings(uint64_t seed, uint64_t n)
{
	rng g(seed); phase("strings");
	static const char *bad[] = { "list:", "list:a", "list:-1", "list:1-", "list:-", "list:,1", "list:1,,2", "list:5-3", "list:256", "list:0-256", "list:0-99999999999999999999999", "list:99999999999999999999999", "list:18446744073709551616", "list:4294967296",
		"list:1 ", "list: 1", "list:1;2", "list:1-2-3", "list:1,2x", "list:0x10", "list:1,300", "list:255-256", "list:+1", "list", "lis:1", "mask", "mask:x", "mask:0x", "0x", "0xg", "08", "0779", "1z", "z", "mask:1 ", "1 ", "0x10000000000000000", "18446744073709551616", "99999999999999999999999999",
		"mask:0x1ffffffffffffffff", "maskx1", "MASK:1", "LIST:1", "list:list:1", "mask:list:1", "0x1,0x2", "1,2", "1-3", "all", "list:18446744073709551615", "list:4294967297", "list:0-18446744073709551616", "list:1-4294967298", "list:3,2-1,4", "list:1-2,", "list:1\n" };
	for (auto b : bad) { std::set<unsigned> w; verdict v = meaning(b, w); check_one(g, b, v, w, false); }
	static const char *good[] = { "1", "0xff", "010", "255", "mask:0x8000000000000000", "mask:18446744073709551615", "list:0", "list:255", "list:0-255", "list:0,255", "list:3-3", "list:1,1,1", "list:2-4,3-8", "list:000000000000000000000000000000007", "0x00000000000000000000000000001", "mask:017" };
	for (auto b : good) { std::set<unsigned> w; verdict v = meaning(b, w); if (v != VALID) harness_error("oracle rejects %s", b); check_one(g, b, v, w, true); }
	for (uint64_t i = 0; i < n && !violated(); i++) {
		std::set<unsigned> c, w; std::string s;
		switch (g.below(3)) { case 0: s = "list:" + gen_list(g, c); break; case 1: s = "mask:" + gen_mask(g, c); break; default: s = gen_mask(g, c); }
		verdict v = meaning(s, w);
		if (v != VALID || w != c) harness_error("oracle misreads %s", s.c_str());
		if (g.chance(50)) check_one(g, s, v, w, g.chance(5));
		else {
			// damaged
			for (unsigned k = g.range(1, 3); k--; ) {
				size_t at = g.below(s.size() + 1);
				switch (g.below(5)) {
				case 0: if (at < s.size()) s.erase(at, 1); break;
				case 1: s.insert(at, 1, "0123456789,-:xlist mak\t+"[g.below(24)]); break;
				case 2: if (at < s.size()) s[at] = (char) g.range(1, 255); break;
				case 3: s.insert(at, rnd_str(g, g.below(4))); break;
				case 4: s = s.substr(0, at); break;
				}
			}
			if (s.empty()) continue;
			std::set<unsigned> w2; v = meaning(s, w2); check_one(g, s, v, w2, g.chance(5));
		}
	}
}

// Threads of the library apply what they are given, themselves, once, and live on when it is malformed
struct counted : public hogl::schedparam {
	std::atomic<int> enters{0}, exits{0}; pid_t tid = 0; static std::atomic<int> alive;
	counted(int p, int pr, unsigned f, const std::string &a) : hogl::schedparam(p, pr, f, a) { alive++; }
	~counted() { alive--; }
	virtual bool thread_enter(const char *t) { enters++; tid = mytid(); return hogl::schedparam::thread_enter(t); }
	virtual void thread_exit() { if (enters != 1 || exits) viol("exit", "thread_exit without exactly one thread_enter"); if (tid != mytid()) viol("exit", "thread_exit from another thread"); exits++; hogl::schedparam::thread_exit(); }
};
std::atomic<int> counted::alive{0};

struct counting_format : public hogl::format {
	uint64_t &n; counting_format(uint64_t &x) : n(x) {}
	virtual void process(hogl::ostrbuf &, const data &) { n++; tick(); }
};

static void threads(uint64_t seed, uint64_t n)
{
	rng g(seed); phase("threads");
	for (uint64_t i = 0; i < n && !violated(); i++) {
		eval(); tick();
		std::set<unsigned> c, w; std::string s = g.chance(50) ? "list:" + gen_list(g, c) : gen_mask(g, c);
		if (g.chance(30)) s = g.chance(50) ? "list:9-2" : s + "z";
		verdict v = meaning(s, w); if (v == UNCLEAR) continue;
		bool del = g.chance(50), rot = g.chance(50); unsigned fl = del ? (unsigned) hogl::schedparam::DELETE_ON_EXIT : 0;
		counted *sp = new counted(SCHED_FIFO, 7, fl, s); int base = counted::alive;
		refuse = g.chance(20) ? EINVAL : 0; refuse_pol = g.chance(50) ? EPERM : 0;
		clear(); foreign = false; uint64_t got = 0;
		{
			counting_format lf(got);
			std::unique_ptr<hogl::output> out; std::string dir = scratch() + "/t"; mkdir(dir.c_str(), 0755);
			if (rot) { hogl::output_file::options fo = hogl::output_file::default_options; fo.schedparam = sp; out.reset(new hogl::output_file(dir + "/log.#.txt", lf, fo)); }
			else out.reset(new hogl::output_null(lf));
			hogl::engine::options eo = engine_opts::make(64, 100, 0, 0); if (!rot) eo.schedparam = sp;
			hogl::engine e(*out, eo);
			hogl::area *a = e.add_area("A"); a->enable();
			hogl::ringbuf::options ro = { 64, 0, hogl::ringbuf::BLOCKING, 0 };
			hogl::ringbuf *r = e.add_ring("R", ro);
			for (unsigned k = 0; k < 20; k++) hogl::post(r, a, 0u, "%u", k);
			r->release();
			stat(rot ? "rotation_threads" : "engine_threads");
		}
		refuse = refuse_pol = 0;
		if (got != 20) viol("alive", "%llu of 20 records delivered with affinity '%s'", (unsigned long long) got, esc(s).c_str());
		std::lock_guard<std::mutex> l(rm_);
		if (foreign) viol("thread", "'%s' is applied to another thread", esc(s).c_str());
		if (v == VALID) {
			if (reqs.size() != 1 || reqs[0].cpus != w) viol("cpus", "thread with '%s' makes %zu requests, the first for %s", esc(s).c_str(), reqs.size(), reqs.size() ? show(reqs[0].cpus).c_str() : "nothing");
			else if (reqs[0].tid == mytid()) viol("thread", "'%s' is applied by the caller, not by the thread", esc(s).c_str());
		} else if (!reqs.empty()) viol("rejected", "malformed '%s' changes the affinity", esc(s).c_str());
		if (pols.size() != 1 || pols[0].policy != SCHED_FIFO || pols[0].prio != 7) viol("policy", "%zu policy requests", pols.size());
		if (del) { if (counted::alive != base - 1) viol("delete", "DELETE_ON_EXIT params: %d objects left of %d", (int) counted::alive, base); }
		else { if (sp->enters != 1 || sp->exits != 1) viol("exit", "thread entered %d times, left %d times", (int) sp->enters, (int) sp->exits); delete sp; }
		distinct(mix(hash_str(s), rot * 2 + del));
	}
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), n = argn(argc, argv, 2, 1000), t = argn(argc, argv, 3, 20);
	wd().start();
	rule("evaluation: one string validated and applied, or one library thread started with it. distinct: strings");
	strings(seed, n); threads(seed, t);
	return finish();
}
