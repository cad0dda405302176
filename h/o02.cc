// O02: short, interrupted and failing writes.
#define VH_MAIN
#include "chunks.hpp"
#include <hogl/output-tee.hpp>
#include <hogl/output-pipe.hpp>
#include <hogl/output-stdout.hpp>
#include <hogl/output-stderr.hpp>
#include <hogl/detail/ostrbuf-fd.hpp>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <poll.h>
using namespace vh;
typedef hogl::ringbuf RB;

static std::atomic<uint64_t> pings{0};
static void on_sig(int) { pings++; }
static std::string show(const std::string &s) { return s.size() < 120 ? esc(s) : esc(s.substr(0, 50)) + " ... " + esc(s.substr(s.size() - 50)); }

// An engine with one ring that blocks when full, records with a length
struct rig {
	chunk_format &fmt; hogl::output &out; hogl::timesource ts; std::unique_ptr<hogl::engine> e; hogl::area *ar; RB *r; unsigned posted = 0;
	std::atomic<pthread_t> tid{0};
	rig(chunk_format &f, hogl::output &o) : fmt(f), out(o), ts("vh", logical_cb)
	{
		fmt.each = [this] { tid = pthread_self(); };
		e.reset(new hogl::engine(out, engine_opts::make(64, 20, 0, &ts)));
		ar = e->add_area("A"); ar->enable(); fmt.only = ar;
		RB::options ro = { 32, 0, RB::BLOCKING, 64 };
		r = e->add_ring("R", ro);
	}
	void post(unsigned len) { hogl::post_unlocked(r, ar, hogl::area::INFO, len); posted++; tick(); }
	// every record was handed to the format; the engine lives on whatever the output does
	bool settle(const char *what)
	{
		if (!wait_for([&] { return fmt.count >= posted; }, [&] { return fmt.count.load(); })) { viol("engine-stuck", "%s: %llu of %u records processed", what, (unsigned long long) fmt.count.load(), posted); return false; }
		if (!hogl::flush(r, 200000000)) { viol("flush-failed", "%s: flush did not complete", what); return false; }
		return true;
	}
	~rig() { r->release(); e.reset(); }
};

static bool is_prefix(const std::string &a, const std::string &b) { return a.size() <= b.size() && !b.compare(0, a.size(), a); }
// all of b but for one piece
static bool one_hole(const std::string &a, const std::string &b)
{
	if (a.size() > b.size()) return false;
	size_t p = 0, q = 0; while (p < a.size() && a[p] == b[p]) p++;
	while (q < a.size() && a[a.size() - 1 - q] == b[b.size() - 1 - q]) q++;
	return p + q >= a.size();
}
static void differ(const char *key, const std::string &what, const std::string &a, const std::string &x)
{
	size_t p = 0; while (p < a.size() && p < x.size() && a[p] == x[p]) p++;
	viol(key, "%s: destination has %zu bytes, %zu were written; they differ at %zu: '%s' instead of '%s'", what.c_str(), a.size(), x.size(), p, esc(a.substr(p, 40)).c_str(), esc(x.substr(p, 40)).c_str());
}

// Files with simulated faults
static void file_case(uint64_t seed, const std::string &top, unsigned id)
{
	rng g(seed); tick(); eval();
	std::string dir = top + sf("/c%u", id); mkdir(dir.c_str(), 0755);
	fs_monitor &f = fsm(); f.reset(dir);
	chunk_format fmt; std::string what, name;
	unsigned kind = g.below(3), cap = g.pick((const unsigned[]) { 0, 1, 64, 500, 8192 });
	bool perm = g.chance(45), sticky = g.chance(50); int err = g.pick((const int[]) { ENOSPC, EIO, EPIPE, EFBIG, EDQUOT });
	unsigned pshort = g.pick((const unsigned[]) { 0, 20, 60, 95 }), peintr = g.pick((const unsigned[]) { 0, 20, 60 }), n = g.range(3, 60);
	uint64_t fail_at = perm ? g.below(g.chance(50) ? 6 : 60) : ~0ull, nth = 0; std::atomic<bool> hit{false};
	std::shared_ptr<rng> fg(new rng(seed + 5));
	uint64_t s0 = f.shorts, e0 = f.eintrs, p0 = f.write_faults;
	{ std::lock_guard<std::mutex> l(f.m); f.on_write = [&, fg](int, size_t len) -> ssize_t {
		uint64_t k = nth++;
		if (k == fail_at || (sticky && k > fail_at)) { hit = true; return -err; }
		if (fg->chance(peintr)) return -EINTR;
		if (len > 1 && fg->chance(pshort)) return fg->range(1, len - 1);
		return 0;
	}; }
	bool failed = false; std::string error, want;
	{
		std::unique_ptr<hogl::output> out; hogl::output_file *of = 0;
		hogl::output_file::options o = hogl::output_file::default_options; o.buffer_capacity = cap;
		if (kind == 0) { what = "plain file"; name = dir + "/p"; out.reset(new hogl::output_plainfile(name.c_str(), fmt, cap)); }
		else {
			what = kind == 1 ? "file" : "rotating file"; if (kind == 2) { o.max_size = g.pick((const unsigned[]) { 100, 1000 }); }
			o.max_count = 100000; name = dir + "/log.#";
			out.reset(of = new hogl::output_file(name.c_str(), fmt, o));
		}
		what += sf(" with buffer %u, %u%% short, %u%% interrupted", cap, pshort, peintr); if (perm) what += sf(", error %d at write %llu%s", err, (unsigned long long) fail_at, sticky ? " and later" : "");
		rig R(fmt, *out);
		for (unsigned i = 0; i < n && !violated(); i++) { R.post(g.chance(5) ? g.below(20000) : g.below(300)); if (g.chance(10)) usleep(g.below(300)); }
		R.settle(what.c_str());
		failed = out->failed(); error = out->error();
		if (of && kind == 1 && g.chance(50) && !perm) { std::string s(g.below(3000), 'q'); ssize_t k = of->write(s.data(), s.size()); if (k != (ssize_t) s.size()) viol("direct-write", "%s: write of %zu bytes returned %zd", what.c_str(), s.size(), k); fmt.stream += s; }
	}
	bool was_hit = hit;
	f.off();
	want = fmt.get();
	std::string got;
	if (kind == 0) {
		want = sf("<H %s 1>\n", name.c_str()) + want + "<F >\n"; got = slurp(name);
		// on one descriptor all writes come from one place: nothing may follow the failure
		if (!perm || !was_hit) { if (got != want) differ("bytes", what, got, want); }
		else if (!is_prefix(got, want)) differ("prefix", what, got, want);
	} else {
		std::lock_guard<std::mutex> l(f.m);
		for (size_t i = 0; i < f.chunks.size(); i++) {
			if (i + 1 < f.chunks.size() && f.chunks[i].path == f.chunks[i + 1].path) continue;      // header failed, tried again
			if (getenv("VH_SHOW")) fprintf(stderr, "%s: %s\n", f.chunks[i].path.c_str(), show(slurp(f.chunks[i].path)).c_str());
			std::string b = slurp(f.chunks[i].path), hd = sf("<H %s %d>\n", f.chunks[i].path.c_str(), i == 0);
			if (!b.compare(0, hd.size(), hd)) b.erase(0, hd.size());
			else if (!perm) viol("header", "%s: %s does not start with its header: %s", what.c_str(), f.chunks[i].path.c_str(), show(b).c_str());
			else { size_t k = 0; while (k < b.size() && k < hd.size() && b[k] == hd[k]) k++; b.erase(0, k); }      // header cut by the failure
			size_t p = b.rfind("<F "); if (p != b.npos) b.erase(p);
			else if (!perm) viol("footer", "%s: %s has no footer: %s", what.c_str(), f.chunks[i].path.c_str(), show(b).c_str());
			else if ((p = b.rfind('<')) != b.npos) b.erase(p);       // footer cut by the failure
			got += b;
		}
		if (!perm || !was_hit) { if (got != want) differ("bytes", what, got, want); }
		// a rotating file goes on after a failure: what could not be written is missing, nothing else
		else if (sticky ? !is_prefix(got, want) : !one_hole(got, want)) differ("prefix", what, got, want);
	}
	// the engine's view: a failure that hit the record stream is reported
	if (perm && was_hit && !failed && got != want && kind == 0) { std::string w = want; bool foot_only = got.size() >= w.size() - 5; if (!foot_only) viol("silent", "%s: %zu of %zu bytes written but the output does not say it failed", what.c_str(), got.size(), want.size()); }
	if (kind && perm && !failed && got != want) viol("silent", "%s: %zu of %zu bytes of records written but the output does not say it failed", what.c_str(), got.size(), want.size());
	if (failed && !(perm && was_hit)) viol("failed", "%s: output failed (%s) although every write could be completed", what.c_str(), error.c_str());
	if (failed && error.empty()) viol("no-message", "%s: output failed without a message", what.c_str());
	if (failed && perm && error.find(strerror(err)) == error.npos) viol("message", "%s: output failed with '%s'", what.c_str(), error.c_str());
	stat("short_writes", f.shorts - s0); stat("interrupted_writes", f.eintrs - e0); stat("failed_writes", f.write_faults - p0);
	stat(failed ? "outputs_failed" : "outputs_ok"); stat("bytes", got.size());
	distinct(mix(hash_str(got), mix(f.shorts - s0, f.eintrs - e0)));
	sample("%s: %zu bytes, failed: %d", what.c_str(), got.size(), failed);
	std::string rm = "/bin/rm -rf '" + dir + "'"; if (system(rm.c_str())) stat("rm_failed");
}

// One branch of a tee fails: the tee says so and why, the others stay intact
static void tee_case(uint64_t seed, const std::string &top, unsigned id)
{
	rng g(seed); tick(); eval();
	std::string dir = top + sf("/t%u", id); mkdir(dir.c_str(), 0755);
	fs_monitor &f = fsm(); f.reset(dir);
	chunk_format fmt;
	unsigned n = g.range(3, 60), leaves = g.chance(70) ? 2 : 3, bad = g.below(leaves);
	bool perm = g.chance(80), sticky = g.chance(50), left = g.chance(50); int err = g.pick((const int[]) { ENOSPC, EIO, EPIPE, EFBIG, EDQUOT });
	unsigned pshort = g.pick((const unsigned[]) { 0, 20, 60, 95 }), peintr = g.pick((const unsigned[]) { 0, 20, 60 });
	uint64_t fail_at = g.below(g.chance(50) ? 4 : 30), nth = 0; std::atomic<bool> hit{false};
	std::shared_ptr<rng> fg(new rng(seed + 5)); std::string badname = dir + sf("/p%u", bad);
	uint64_t s0 = f.shorts, e0 = f.eintrs, p0 = f.write_faults;
	{ std::lock_guard<std::mutex> l(f.m); f.on_write = [&, fg](int fd, size_t len) -> ssize_t {
		char pn[64], b[PATH_MAX]; snprintf(pn, sizeof pn, "/proc/self/fd/%d", fd); ssize_t k = readlink(pn, b, sizeof b); if (k < 0) k = 0;
		if (perm && std::string(b, k) == badname) { uint64_t at = nth++; if (at == fail_at || (sticky && at > fail_at)) { hit = true; return -err; } }
		if (fg->chance(peintr)) return -EINTR;
		if (len > 1 && fg->chance(pshort)) return fg->range(1, len - 1);
		return 0;
	}; }
	std::string what = sf("tee over %u files, %u%% short, %u%% interrupted", leaves, pshort, peintr), error; if (perm) what += sf(", error %d at write %llu of file %u%s", err, (unsigned long long) fail_at, bad, sticky ? " and later" : "");
	bool failed = false; 
	{
		std::vector<std::unique_ptr<hogl::output>> o; std::unique_ptr<hogl::output> t0, t1; hogl::output *root;
		for (unsigned i = 0; i < leaves; i++) o.emplace_back(new hogl::output_plainfile((dir + sf("/p%u", i)).c_str(), fmt, g.pick((const unsigned[]) { 0, 1, 64, 500, 8192 })));
		auto cap = [&] { return g.pick((const unsigned[]) { 0, 1, 64, 500, 8192 }); };
		t0.reset(new hogl::output_tee(o[0].get(), o[1].get(), cap())); root = t0.get();
		if (leaves == 3) { t1.reset(left ? new hogl::output_tee(t0.get(), o[2].get(), cap()) : new hogl::output_tee(o[2].get(), t0.get(), cap())); root = t1.get(); }
		{
			rig R(fmt, *root);
			for (unsigned i = 0; i < n && !violated(); i++) { R.post(g.chance(5) ? g.below(20000) : g.below(300)); if (g.chance(10)) usleep(g.below(300)); }
			R.settle(what.c_str());
			failed = root->failed(); error = root->error();
			bool any = false; for (auto &x : o) any |= x->failed();
			if (any != failed) viol("tee-state", "%s: a branch %s but the tee %s", what.c_str(), any ? "failed" : "did not fail", failed ? "did" : "did not");
		}
		t1.reset(); t0.reset();
	}
	bool was_hit = hit; f.off();
	std::string s = fmt.get(); bool lost = false; size_t bytes = 0;
	for (unsigned i = 0; i < leaves && !violated(); i++) {
		std::string name = dir + sf("/p%u", i), got = slurp(name), hd = sf("<H %s 1>\n", name.c_str()), ft = "<F >\n", want = hd + s + ft, w = what + sf(": file %u", i); bytes += got.size();
		if (!was_hit) { if (got != want) differ("bytes", w, got, want); }
		else if (i == bad) { if (!is_prefix(got, want)) differ("prefix", w, got, want); if (got.size() + ft.size() < want.size()) lost = true; }
		else {
			if (got.size() < hd.size() + ft.size() || got.compare(0, hd.size(), hd) || got.compare(got.size() - ft.size(), ft.size(), ft)) viol("header-footer", "%s: header or footer is missing: %s", w.c_str(), show(got).c_str());
			else if (std::string body = got.substr(hd.size(), got.size() - hd.size() - ft.size()); !is_prefix(body, s)) differ("prefix", w, body, s);
			else if (body.size() != s.size()) lost = true;
		}
	}
	if (lost && !failed) viol("silent", "%s: bytes are missing but the tee does not say it failed", what.c_str());
	if (failed && !was_hit) viol("failed", "%s: output failed (%s) although every write could be completed", what.c_str(), error.c_str());
	if (failed && error.find(strerror(err)) == error.npos) viol("message", "%s: the tee failed with '%s'", what.c_str(), error.c_str());
	stat("short_writes", f.shorts - s0); stat("interrupted_writes", f.eintrs - e0); stat("failed_writes", f.write_faults - p0);
	stat(failed ? "tees_failed" : "tees_ok"); stat("bytes", bytes);
	distinct(mix(hash_str(s), mix(bytes, failed)));
	sample("%s: %zu bytes, failed: %d %s", what.c_str(), bytes, failed, error.c_str());
	std::string rm = "/bin/rm -rf '" + dir + "'"; if (system(rm.c_str())) stat("rm_failed");
}

// Pipes and terminals outputs: a slow reader, signals to the writing thread, a reader that goes away
static void pipe_case(uint64_t seed, const std::string &top, unsigned id)
{
	rng g(seed); tick(); eval();
	std::string dir = top + sf("/p%u", id); mkdir(dir.c_str(), 0755);
	chunk_format fmt; std::string what, file = dir + "/out", got;
	unsigned kind = g.below(5), cap = g.pick((const unsigned[]) { 0, 1, 64, 500, 8192, 20000 }), n = g.range(3, 40);
	bool quits = g.chance(35), buffered = false; size_t quit_after = g.below(40000);
	int p[2] = { -1, -1 }; std::thread reader; FILE *fp = 0, *old = 0; std::atomic<bool> reading{true};
	bool failed = false; std::string error, hname;
	std::unique_ptr<hogl::output> out;
	auto start_reader = [&](int fd) {
		reader = std::thread([&, fd] {
			rng rg(seed + 9); char b[9000];
			while (1) {
				if (quits && got.size() >= quit_after) break;
				if (rg.chance(20)) usleep(rg.below(1500));
				ssize_t k = read(fd, b, rg.range(1, sizeof b)); if (k <= 0) break;
				got.append(b, k); tick();
			}
			close(fd); reading = false;
		});
	};
	switch (kind) {
	case 0: {
		what = "pipe"; hname = "pipe";
		std::string cmd = quits ? sf("head -c %zu > '%s'", quit_after, file.c_str()) : sf("sleep 0.0%u; cat > '%s'", (unsigned) g.below(6), file.c_str());
		out.reset(new hogl::output_pipe(cmd.c_str(), fmt, cap)); break; }
	case 1: case 2: {
		if (pipe(p)) harness_error("pipe"); fcntl(p[1], F_SETPIPE_SZ, 4096);
		fp = fdopen(p[1], "w"); buffered = kind == 1 && g.chance(60);
		if (!buffered) setvbuf(fp, 0, _IONBF, 0);
		start_reader(p[0]);
		if (kind == 1) { what = buffered ? "stdout" : "unbuffered stdout"; hname = "stdout"; old = stdout; stdout = fp; out.reset(new hogl::output_stdout(fmt, cap)); stdout = old; }
		else { what = "stderr"; hname = "stderr"; old = stderr; stderr = fp; out.reset(new hogl::output_stderr(fmt, cap)); stderr = old; }
		break; }
	case 3: case 4: {
		what = "plain file on a named pipe"; hname = dir + "/fifo";
		if (mkfifo(hname.c_str(), 0600)) harness_error("mkfifo");
		int fd = open(hname.c_str(), O_RDONLY | O_NONBLOCK); fcntl(fd, F_SETFL, 0); 
		if (g.chance(70)) fcntl(fd, F_SETPIPE_SZ, 4096);
		// read() of a pipe without writers ends at once, so the reader starts later
		out.reset(new hogl::output_plainfile(hname.c_str(), fmt, cap));
		start_reader(fd);
		break; }
	}
	what += sf(" with buffer %u", cap); if (quits) what += sf(", reader leaves after %zu bytes", quit_after);
	uint64_t p0 = pings;
	{
		rig R(fmt, *out);
		std::atomic<bool> stop{false}; unsigned pg = g.chance(75) ? g.range(1, 400) : 0;
		std::thread pinger([&] { while (!stop && pg) { pthread_t t = R.tid; if (t) pthread_kill(t, SIGUSR1); usleep(pg); } });
		for (unsigned i = 0; i < n && !violated(); i++) { R.post(g.chance(15) ? g.below(70000) : g.below(2000)); if (g.chance(10)) usleep(g.below(300)); }
		R.settle(what.c_str());
		stop = true; pinger.join();
		failed = out->failed(); error = out->error();
	}
	out.reset();
	if (fp) { fclose(fp); }
	if (reader.joinable()) reader.join();
	if (kind == 0) got = slurp(file);      // the command is done once the output is gone
	std::string want = sf("<H %s 1>\n", hname.c_str()) + fmt.get() + "<F >\n";
	if (quits) {
		// the reader has the first bytes of the stream, whatever it was able to take
		if (!is_prefix(got, want)) differ("prefix", what, got, want);
		if (kind == 0 && got.size() != std::min(quit_after, want.size())) viol("pipe-short", "%s: the command got %zu bytes", what.c_str(), got.size());
		if (!failed && !buffered && want.size() > quit_after + 200000) viol("silent", "%s: %zu of %zu bytes delivered but the output does not say it failed", what.c_str(), got.size(), want.size());
		if (failed && error.find(strerror(EPIPE)) == error.npos && !(buffered && error.find(strerror(EINTR)) != error.npos)) viol("message", "%s: output failed with '%s'", what.c_str(), error.c_str());
	} else if (buffered && failed) {
		// stdio gives up what it holds when it is interrupted; it has to be said and nothing may follow
		if (!is_prefix(got, want)) differ("prefix", what, got, want);
		stat("buffered_stdio_interrupted");
	} else {
		if (failed) viol("failed", "%s: output failed (%s) although the reader took everything", what.c_str(), error.c_str());
		if (got != want) differ("bytes", what, got, want);
	}
	stat("signals", pings - p0); stat(std::string("pipes_") + (failed ? "failed" : "ok")); stat("bytes", got.size());
	distinct(hash_str(got, pings - p0));
	sample("%s: %zu of %zu bytes, failed: %d, %llu signals", what.c_str(), got.size(), want.size(), failed, (unsigned long long) (pings - p0));
	std::string rm = "/bin/rm -rf '" + dir + "'"; if (system(rm.c_str())) stat("rm_failed");
}

// Real errors of the system: full device, size limit
static void full_case(uint64_t seed, const std::string &top, unsigned id)
{
	rng g(seed); tick(); eval();
	std::string dir = top + sf("/f%u", id); mkdir(dir.c_str(), 0755);
	fsm().reset(dir);
	chunk_format fmt; fmt.heads = g.chance(70); std::string what, path = dir + "/x", got;
	unsigned kind = g.below(5), cap = g.pick((const unsigned[]) { 0, 1, 64, 500, 8192 }), n = g.range(3, 60); size_t limit = g.below(20000);
	bool full = kind < 2; bool failed; std::string error; FILE *fp = 0; int unlim = 0; (void) unlim;
	struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old;
	std::unique_ptr<hogl::output> out; std::string hname = path;
	if (!full) { lim.rlim_cur = limit; setrlimit(RLIMIT_FSIZE, &lim); }
	if (kind == 0) { hname = path = "/dev/full"; out.reset(new hogl::output_plainfile(path.c_str(), fmt, cap)); what = "plain file on a full device"; }
	else if (kind == 1) { fp = fopen("/dev/full", "w"); if (!fp) harness_error("/dev/full"); what = "stderr on a full device"; hname = "stderr"; setvbuf(fp, 0, _IONBF, 0); FILE *o = stderr; stderr = fp; out.reset(new hogl::output_stderr(fmt, cap)); stderr = o; }
	else if (kind == 2) { out.reset(new hogl::output_plainfile(path.c_str(), fmt, cap)); what = "plain file with a limit"; }
	else if (kind == 3) { hogl::output_file::options o = hogl::output_file::default_options; o.buffer_capacity = cap; out.reset(new hogl::output_file((path + ".#").c_str(), fmt, o)); what = "file with a limit"; hname = path = path + ".000"; }
	else { fp = fopen(path.c_str(), "w"); setvbuf(fp, 0, _IONBF, 0); what = "stdout with a limit"; hname = "stdout"; FILE *o = stdout; stdout = fp; out.reset(new hogl::output_stdout(fmt, cap)); stdout = o; }
	what += sf(" %zu, buffer %u", full ? 0 : limit, cap);
	{
		rig R(fmt, *out);
		for (unsigned i = 0; i < n && !violated(); i++) { R.post(g.below(2000)); if (g.chance(10)) usleep(g.below(300)); }
		R.settle(what.c_str());
		failed = out->failed(); error = out->error();
	}
	out.reset();
	if (fp) fclose(fp);
	setrlimit(RLIMIT_FSIZE, &old);
	fsm().off();
	std::string want = (fmt.heads ? sf("<H %s 1>\n", hname.c_str()) : std::string()) + fmt.get() + "<F >\n";
	got = full ? std::string() : slurp(path);
	size_t fits = full ? 0 : std::min(want.size(), limit);
	if (got.size() != fits || !is_prefix(got, want)) differ("bytes", what, got, want.substr(0, fits));
	bool records_fit = full ? false : want.size() - 5 <= limit;
	if (failed == records_fit) viol(failed ? "failed" : "silent", "%s: %zu bytes were written and the output says failed: %d (%s)", what.c_str(), want.size(), failed, error.c_str());
	if (failed && error.find(strerror(full ? ENOSPC : EFBIG)) == error.npos) viol("message", "%s: output failed with '%s'", what.c_str(), error.c_str());
	stat(failed ? "limits_hit" : "limits_kept"); distinct(hash_str(got, limit));
	std::string rm = "/bin/rm -rf '" + dir + "'"; if (system(rm.c_str())) stat("rm_failed");
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), n = argn(argc, argv, 2, 30), np = argn(argc, argv, 3, 10), nf = argn(argc, argv, 4, 10);
	signal(SIGPIPE, SIG_IGN); signal(SIGXFSZ, SIG_IGN);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sigaction(SIGUSR1, &sa, 0);   // interrupts system calls
	wd().start();
	rule("evaluation: one output's life under faults with the destination compared. distinct: destination content and number of faults or signals");
	for (uint64_t i = 0; i < n && !violated(); i++) file_case(mix(seed, i), scratch(), i);
	for (uint64_t i = 0; i < n / 3 && !violated(); i++) tee_case(mix(seed, 3000000 + i), scratch(), i);
	for (uint64_t i = 0; i < np && !violated(); i++) pipe_case(mix(seed, 1000000 + i), scratch(), i);
	for (uint64_t i = 0; i < nf && !violated(); i++) full_case(mix(seed, 2000000 + i), scratch(), i);
	return finish();
}
