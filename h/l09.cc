// L09: flush() returns true only when earlier records have been written out.
#define VH_MAIN
#include "perturb.hpp"
#include "cap.hpp"
#include <hogl/output-file.hpp>
#include <hogl/output-pipe.hpp>
using namespace vh;
typedef hogl::ringbuf RB;

// Destination that counts, per writer, the complete lines which left the output's buffer.
struct line_dest {
	std::mutex m; std::string part; std::atomic<uint64_t> n[8]; std::atomic<uint64_t> lines{0};
	line_dest() { for (auto &x : n) x = 0; }
	void add(const char *p, size_t k)
	{
		for (size_t i = 0; i < k; i++) {
			if (p[i] != '\n') { part += p[i]; continue; }
			unsigned w; unsigned long long c;
			if (sscanf(part.c_str(), "%u %llu", &w, &c) == 2 && w < 8) {
				if (c != n[w]) viol("order", "writer %u: line %llu, expected %llu", w, c, (unsigned long long) n[w]);
				n[w] = c + 1;
			}
			lines++;
			part.clear();
		}
	}
};
struct line_ostrbuf : public hogl::ostrbuf {
	line_dest &d; unsigned slow; rng g;
	line_ostrbuf(line_dest &x, unsigned cap, unsigned s) : hogl::ostrbuf(cap), d(x), slow(s), g(cap + s) { }
	virtual void do_flush(const uint8_t *p, size_t n)
	{
		if (slow && g.below(100) < slow) usleep(g.below(150));
		d.add((const char *) _data, _size);
		if (n) d.add((const char *) p, n);
		_size = 0;
	}
};
struct line_output : public hogl::output {
	line_output(hogl::format &f, line_dest &d, unsigned cap, unsigned slow) : hogl::output(f) { init(new line_ostrbuf(d, cap, slow)); }
};

static void one_case(uint64_t seed, unsigned total)
{
	rng g(seed);
	bool notso = g.chance(40);
	static const unsigned tsos[] = { 1, 2, 8, 64, 1024, 4096 };
	unsigned tso = g.pick(tsos), nw = g.range(1, 5), kind = g.below(4); // 0,1 memory, 2 file, 3 plain file
	bool shared = nw > 1 && g.chance(40);
	hogl::timesource ts("vh", logical_cb);
	cap_format f; line_dest dest; std::unique_ptr<hogl::output> out;
	unsigned ocap = g.chance(40) ? g.range(16, 200) : g.chance(50) ? 8192 : 1 << 20;
	std::string path = scratch() + "/f.log";
	unlink(path.c_str());
	if (kind < 2) out.reset(new line_output(f, dest, ocap, g.chance(40) ? g.range(1, 50) : 0));
	else if (kind == 2) { hogl::output_file::options oo = hogl::output_file::default_options; oo.buffer_capacity = ocap; oo.max_size = 1ull << 40; out.reset(new hogl::output_file(path, f, oo)); }
	else out.reset(new hogl::output_plainfile(path, f, ocap));
	const hogl::area *internal = 0;
	std::atomic<uint64_t> delivered{0}, marks{0};
	rng eg(seed ^ 1); unsigned slow = g.chance(50) ? g.range(1, 30) : 0;
	f.text = [&](hogl::ostrbuf &sb, const hogl::format::data &d) {
		const hogl::record &r = *d.record;
		if (r.area == internal) { if (r.section == hogl::internal::DROPMARK) marks++; return; }
		sb.push_back(sf("%u %llu\n", (unsigned) r.get_arg_val64(0), (unsigned long long) r.get_arg_val64(1)));
		delivered++;
		if (slow && eg.below(100) < slow) { if (eg.chance(20)) usleep(eg.below(200)); else sched_yield(); }
	};
	std::unique_ptr<hogl::engine> e(new hogl::engine(*out, engine_opts::make(tso, g.chance(40) ? 0 : g.chance(70) ? g.range(1, 500) : g.range(1000, 10000), notso ? (unsigned) hogl::engine::DISABLE_TSO : 0, &ts)));
	internal = e->internal_area();
	hogl::area *ar = e->add_area("A"); ar->enable();
	static const unsigned lv[] = { 0, 0, 5, 25 };
	pert().level = g.pick(lv); pert().maxus = 80;
	std::atomic<uint64_t> fin[8]; for (auto &x : fin) x = 0;       // records whose post returned
	std::atomic<uint64_t> posted{0}, flushes{0}, timeouts{0}, full{0}; std::atomic<unsigned> done{0};
	std::vector<std::thread> th;
	// what of a file is on disk
	auto ondisk = [&](unsigned w) -> uint64_t {
		if (kind < 2) return dest.n[w];
		std::string s = slurp(path), pre = sf("%u ", w); uint64_t c = 0; size_t p = 0;
		while (p < s.size()) { size_t q = s.find('\n', p); if (q == std::string::npos) break; if (!s.compare(p, pre.size(), pre)) c++; p = q + 1; }
		return c;
	};
	unsigned fpct = kind < 2 ? g.range(5, 200) : 20, todo = kind < 2 ? total : total / 8;
	for (unsigned i = 0; i < nw; i++) {
		uint64_t s = g.next();
		th.emplace_back([&, i, s] {
			rng t(s);
			RB::options o = { (unsigned) (2 << t.below(8)), (unsigned) t.below(10), (unsigned) RB::BLOCKING | (shared ? (unsigned) RB::SHARED : 0), 0 };
			RB *r = e->add_ring(shared ? "S" : sf("w%u", i).c_str(), o);
			if (!r) { viol("add-ring", "refused"); done++; return; }
			for (uint64_t n = 0; n < todo; n++) {
				hogl::post(r, ar, hogl::area::INFO, (unsigned long) i, (unsigned long) n);
				fin[i] = n + 1; posted++; tick();
				if (t.below(10000) >= fpct * 10 && n + 1 != todo) { if (t.chance(2)) usleep(t.below(100)); continue; }
				uint64_t snap[8]; for (unsigned w = 0; w < 8; w++) snap[w] = fin[w];
				if (!r->room()) full++;
				unsigned to = t.chance(25) ? t.below(3000) : 200000000;
				bool ok = hogl::flush(r, to);
				if (!ok) { timeouts++; if (to > 3000) viol("flush-fails", "flush failed on a running engine"); continue; }
				flushes++;
				for (unsigned w = 0; w < nw; w++) {
					if (!shared && w != i) continue;
					uint64_t have = ondisk(w);
					if (have < snap[w]) viol("not-written", "flush returned true, %llu records posted before to the ring by writer %u, %llu have been written out (output kind %u, buffer %u, tso %u%s)", (unsigned long long) snap[w], w, (unsigned long long) have, kind, ocap, tso, notso ? " off" : "");
				}
			}
			done++;
			r->release();
		});
	}
	// rings that come and go while the flushes happen
	std::thread churn; std::atomic<uint64_t> churned{0};
	if (g.chance(35)) {
		unsigned gap = g.below(300);
		churn = std::thread([&, gap] {
			for (unsigned n = 0; done != nw && !violated() && n < 20000; n++) {
				RB::options o = { 4, 0, 0, 0 };
				RB *r = e->add_ring(sf("c%u", n % 4).c_str(), o);
				if (r) { churned++; r->release(); }
				usleep(gap);
			}
		});
	}
	phase("flush");
	if (!wait_for([&] { return done == nw || violated(); }, [&] { return posted + delivered + flushes + timeouts; })) viol("stuck", "flushes do not return although the engine runs");
	if (violated()) { flush_report(); _exit(3); }
	for (auto &t : th) t.join();
	if (churn.joinable()) churn.join();
	pert().level = 0;
	e.reset();
	if (delivered != (uint64_t) todo * nw) viol("lost", "%llu of %llu delivered", (unsigned long long) delivered, (unsigned long long) todo * nw);
	if (marks) viol("loss-reported", "%llu drop marks although no record was dropped (%llu flushes timed out)", (unsigned long long) marks, (unsigned long long) timeouts);
	if (violated()) { flush_report(); _exit(3); }
	out.reset();
	eval(flushes); stat("flushes_true", flushes); stat("flushes_timed_out", timeouts); stat("flushes_on_full_ring", full); stat("records", delivered); stat("rings_added_during_flushes", churned);
	if (flushes) distinct(mix(seed, mix(flushes, timeouts)));
	sample("%u writers %s, output kind %u buffer %u, tso %u%s: %llu flushes true (everything posted before was written out), %llu timed out, %llu records", nw, shared ? "sharing a ring" : "with own rings", kind, ocap, tso, notso ? " off" : "", (unsigned long long) flushes, (unsigned long long) timeouts, (unsigned long long) delivered);
}

// engine stalled: flush must fail, and leave no trace
static void stall_case(uint64_t seed)
{
	rng g(seed);
	bool notso = g.chance(50);
	hogl::timesource ts("vh", logical_cb);
	cap_format f; line_dest dest; std::unique_ptr<hogl::output> out(new line_output(f, dest, 4096, 0));
	const hogl::area *internal = 0;
	std::atomic<uint64_t> marks{0}, other{0}, delivered{0};
	std::atomic<unsigned> lag{0};   // time it takes to deliver one record
	f.text = [&](hogl::ostrbuf &sb, const hogl::format::data &d) {
		const hogl::record &r = *d.record;
		if (r.area == internal) { if (r.section == hogl::internal::DROPMARK) marks++; return; }
		sb.push_back(sf("%u %llu\n", (unsigned) r.get_arg_val64(0), (unsigned long long) r.get_arg_val64(1)));
		delivered++;
		if (lag) usleep(lag);
	};
	std::unique_ptr<hogl::engine> e(new hogl::engine(*out, engine_opts::make(g.range(1, 256), g.range(0, 200), notso ? (unsigned) hogl::engine::DISABLE_TSO : 0, &ts)));
	internal = e->internal_area();
	hogl::area *ar = e->add_area("A"); ar->enable();
	RB::options go = { 8, (unsigned) g.below(10), 0, 0 }, ro = { (unsigned) (2 << g.below(5)), (unsigned) g.below(10), g.chance(50) ? (unsigned) RB::SHARED : 0, 0 };
	RB *gr = e->add_ring("GATE", go), *r = e->add_ring("R", ro);
	f.use_gate = true;
	uint64_t gn = 0, n = 0, flushed_ok = 0, flushed_no = 0, asynct = 0;
	for (unsigned rd = 0; rd < 3 && !violated(); rd++) {
		phase("stall");
		if (!wait_for([&] { return !gr->size() && !r->size(); })) { viol("not-committed", "rings not emptied"); break; }
		f.gate.close();
		hogl::post(gr, ar, hogl::area::INFO, 7ul, (unsigned long) gn++);
		if (!wait_for([&] { return f.gate.blocked(); })) { viol("not-delivered", "gate record not delivered"); break; }
		unsigned k = g.below(r->capacity() + 1), room0;
		for (unsigned i = 0; i < k && r->room(); i++) hogl::post(r, ar, hogl::area::INFO, 0ul, (unsigned long) n++);
		room0 = r->room();
		unsigned fl = g.range(1, 4);
		for (unsigned i = 0; i < fl; i++) {
			if (hogl::flush(g.chance(30) ? gr : r, g.range(0, 4000))) { viol("false-success", "flush returned true while the engine is stalled and %u records wait", r->size()); break; }
			flushed_no++; tick();
		}
		(void) room0;
		// more posts behind the timed out flush records
		for (unsigned i = g.below(4); i && r->room(); i--) hogl::post(r, ar, hogl::area::INFO, 0ul, (unsigned long) n++);
		if (r->dropcnt() || gr->dropcnt()) viol("drop", "a flush request dropped something");
		// one that waits until the engine is back
		std::atomic<int> res{-1}; uint64_t seen = 0;
		std::thread t([&] { bool ok = hogl::flush(r, 200000000); seen = dest.n[0]; res = ok; });
		usleep(g.below(3000));
		if (res != -1) viol("false-success", "flush returned while the engine is stalled");
		if (g.chance(50)) lag = 1500;
		f.gate.open();
		if (!wait_for([&] { return res != -1; }, [&] { return (uint64_t) delivered; })) { viol("flush-fails", "flush does not return after the engine resumed"); break; }
		t.join(); asynct++; lag = 0;
		if (res != 1) viol("flush-fails", "flush failed although the engine resumed");
		if (seen < n) viol("not-written", "flush true, %llu of %llu records written out", (unsigned long long) seen, (unsigned long long) n);
		if (hogl::flush(r, 200000000)) flushed_ok++; else viol("flush-fails", "flush failed on a running engine");
	}
	f.gate.open();
	if (violated()) { flush_report(); _exit(3); }
	r->release(); gr->release();
	e.reset();
	if (marks) viol("loss-reported", "%llu drop marks although only flush requests timed out", (unsigned long long) marks);
	if (delivered != n + gn) viol("lost", "%llu of %llu delivered", (unsigned long long) delivered, (unsigned long long) (n + gn));
	eval(flushed_no + asynct); stat("flushes_failed_on_stalled_engine", flushed_no); stat("flushes_across_resume", asynct);
	distinct(mix(seed, n));
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), na = argn(argc, argv, 2, 20), total = argn(argc, argv, 3, 3000), nb = argn(argc, argv, 4, 20);
	rule("flushes from several threads on private and shared rings, checked against what left the output's buffer (memory, files) when they return; stalled engines with timeouts; non-trivial: at least one true flush, distinct by (case, flushes, timeouts)");
	pert().seed = seed;
	wd().start(60);
	for (uint64_t i = 0; i < na && !violated(); i++) one_case(mix(seed, i), total);
	for (uint64_t i = 0; i < nb && !violated(); i++) stall_case(mix(seed, 1000 + i));
	return finish();
}
