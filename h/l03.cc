// L03: blocking rings never lose a record and writers always make progress.
#define VH_MAIN
#include "perturb.hpp"
#include "cap.hpp"
using namespace vh;

static void one_case(uint64_t seed, unsigned total)
{
	rng g(seed);
	static const unsigned caps[] = { 2, 2, 2, 3, 4, 8, 16 };
	unsigned cap = g.pick(caps), nw = g.range(1, 4);
	bool shared = nw > 1 && g.chance(50), notso = g.chance(40);
	static const unsigned tsos[] = { 2, 8, 64, 4096 };
	unsigned poll = g.chance(50) ? 0 : g.range(1, 150), tso = g.pick(tsos);
	hogl::timesource ts("vh", logical_cb);
	cap_format f; hogl::output_null out(f);
	// what was delivered, per writer
	std::vector<uint64_t> next(nw, 0); std::atomic<uint64_t> got{0};
	const hogl::area *internal = 0;
	std::map<std::string, uint64_t> rseq;
	rng eg(seed ^ 7); unsigned slow = g.chance(30) ? g.range(1, 30) : 0;
	f.on = [&](const hogl::format::data &d, const hogl::record &r) {
		if (r.area == internal) { if (r.section == hogl::internal::DROPMARK) viol("drop-mark", "drop mark for a blocking ring"); return; }
		if (r.get_arg_type(0) != U64 || r.get_arg_type(1) != U64) { viol("content", "argument types changed"); return; }
		uint64_t w = r.get_arg_val64(0), n = r.get_arg_val64(1);
		if (w >= nw) { viol("content", "writer %llu unknown", (unsigned long long) w); return; }
		if (n != next[w]) viol(n > next[w] ? "lost" : "duplicate", "cap %u %s tso %u%s: writer %llu delivers #%llu, expected #%llu", cap, shared ? "shared" : "private", tso, notso ? " off" : "", (unsigned long long) w, (unsigned long long) n, (unsigned long long) next[w]);
		next[w] = n + 1;
		uint64_t &s = rseq[d.ring_name];
		if (r.seqnum < s) viol("order", "ring %s seqnum %llu after %llu", d.ring_name, (unsigned long long) r.seqnum, (unsigned long long) s);
		s = r.seqnum + 1;
		got++;
		if (slow && eg.below(100) < slow) { if (eg.chance(20)) usleep(eg.below(200)); else sched_yield(); }
	};
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(tso, poll, notso ? (unsigned) hogl::engine::DISABLE_TSO : 0, &ts)));
	internal = e->internal_area();
	hogl::area *ar = e->add_area("A"); ar->enable();
	static const unsigned lv[] = { 0, 0, 5, 20, 50 };
	pert().level = g.pick(lv);
	pert().maxus = g.range(5, 100);
	std::atomic<uint64_t> posted{0}; std::atomic<unsigned> done{0}, flushes{0};
	std::atomic<bool> stop{false};
	std::vector<std::thread> th;
	std::atomic<uint64_t> full{0};
	for (unsigned i = 0; i < nw; i++) {
		uint64_t s = g.next();
		th.emplace_back([&, i, s] {
			rng t(s);
			hogl::ringbuf::options ro = { cap, (unsigned) t.below(10), (unsigned) hogl::ringbuf::BLOCKING | (shared ? (unsigned) hogl::ringbuf::SHARED : 0), 0 };
			hogl::ringbuf *r = e->add_ring(shared ? "S" : sf("w%u", i).c_str(), ro);
			if (!r) { viol("add-ring", "add_ring failed"); return; }
			uint64_t n = 0;
			while (n < total) {
				if (r->room() == 0) full++;
				unsigned k = t.below(100);
				if (k < 50 || (shared && k < 85)) { hogl::post(r, ar, hogl::area::INFO, (unsigned long) i, (unsigned long) n); n++; posted++; }
				else if (k < 85) { hogl::post_unlocked(r, ar, hogl::area::INFO, (unsigned long) i, (unsigned long) n, "some string"); n++; posted++; }
				else if (k < 92) {
					r->lock();
					for (unsigned b = t.range(1, 2 * cap); b && n < total; b--) { hogl::post_unlocked(r, ar, hogl::area::WARN, (unsigned long) i, (unsigned long) n); n++; posted++; }
					r->unlock();
				} else if (t.below(200) == 0) { if (!hogl::flush(r, 200000000)) viol("flush", "flush failed"); flushes++; }
				else if (t.chance(20)) usleep(t.below(100));
				if (r->dropcnt()) viol("dropcnt", "blocking ring counts %llu drops", (unsigned long long) r->dropcnt());
			}
			done++;
			if (t.chance(50)) while (!stop) usleep(100);
			r->release();
		});
	}
	phase("post");
	if (!wait_for([&] { return done == nw || violated(); }, [&] { return posted + got; }))
		viol("writer-stuck", "cap %u %s tso %u%s poll %u: writers stay blocked after %llu of %llu posts, %llu delivered, engine running", cap, shared ? "shared" : "private", tso, notso ? " off" : "", poll,
			(unsigned long long) posted, (unsigned long long) total * nw, (unsigned long long) got);
	phase("deliver");
	if (!violated() && !wait_for([&] { return got >= (uint64_t) total * nw; }, [&] { return (uint64_t) got; }))
		viol("lost", "%llu of %llu delivered", (unsigned long long) got, (unsigned long long) total * nw);
	if (violated()) { flush_report(); _exit(3); }
	stop = true;
	for (auto &t : th) t.join();
	phase("destroy");
	e.reset();
	if (got != (uint64_t) total * nw) viol("extra", "%llu delivered of %llu", (unsigned long long) got, (unsigned long long) total * nw);
	eval(got); stat("cases"); stat("flushes", flushes); stat("posts_on_full_ring", full); stat(shared ? "shared_cases" : "private_cases");
	if (full) distinct(mix(seed, mix(cap * 64 + nw * 8 + shared * 4 + notso, full)));
	sample("cap %u, %u writers %s, tso %u%s, poll %u us, perturbation %u%%: %llu records, ring seen full before %llu posts", cap, nw, shared ? "sharing one ring" : "with own rings", tso, notso ? " off" : "", poll, pert().level.load(),
		(unsigned long long) got, (unsigned long long) full);
}

// writers already blocked on a stalled engine, which then resumes
static void stall_case(uint64_t seed)
{
	rng g(seed);
	bool notso = g.chance(50);
	hogl::timesource ts("vh", logical_cb);
	cap_format f; hogl::output_null out(f);
	unsigned nw = g.range(1, 3), cap = 1 << g.range(1, 3), total = cap * g.range(2, 20);
	bool shared = g.chance(50);
	std::vector<uint64_t> next(nw, 0); std::atomic<uint64_t> got{0};
	hogl::area *ar = 0;
	f.on = [&](const hogl::format::data &, const hogl::record &r) {
		if (r.area != ar || r.section != hogl::area::INFO) return;
		uint64_t w = r.get_arg_val64(0), n = r.get_arg_val64(1);
		if (w >= nw || n != next[w]) viol("lost", "writer %llu: #%llu", (unsigned long long) w, (unsigned long long) n);
		else next[w]++;
		got++;
	};
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(1024, g.range(0, 100), notso ? (unsigned) hogl::engine::DISABLE_TSO : 0, &ts)));
	ar = e->add_area("A"); ar->enable();
	hogl::ringbuf::options go = { 8, 100, 0, 0 };
	hogl::ringbuf *gr = e->add_ring("GATE", go);
	f.use_gate = true; f.gate.close();
	hogl::post(gr, ar, hogl::area::WARN, 1);
	if (!wait_for([&] { return f.gate.blocked(); })) viol("not-delivered", "gate record not delivered");
	pert().level = g.chance(50) ? 30 : 0;
	std::atomic<uint64_t> posted{0}; std::vector<std::thread> th;
	std::atomic<unsigned> done{0};
	hogl::ringbuf::options ro = { cap, 0, (unsigned) hogl::ringbuf::BLOCKING | (shared ? (unsigned) hogl::ringbuf::SHARED : 0), 0 };
	std::vector<hogl::ringbuf *> rs;
	for (unsigned i = 0; i < nw; i++) rs.push_back(e->add_ring(shared ? "S" : sf("w%u", i).c_str(), ro));
	for (unsigned i = 0; i < nw; i++) th.emplace_back([&, i] {
		for (unsigned n = 0; n < total; n++) { hogl::post(rs[i], ar, hogl::area::INFO, (unsigned long) i, (unsigned long) n); posted++; }
		done++;
	});
	// the rings fill up to their capacity and no further
	uint64_t fill = (uint64_t) (rs[0]->capacity() - 1) * (shared ? 1 : nw);
	phase("fill");
	if (!wait_for([&] { return posted >= fill; }, [&] { return (uint64_t) posted; })) viol("early-block", "cap %u: only %llu records accepted by rings that hold %llu", cap, (unsigned long long) posted, (unsigned long long) fill);
	for (unsigned i = 0; i < 20 && posted <= fill; i++) usleep(100);
	if (posted > fill) viol("no-block", "cap %u: %llu posts returned on rings that hold %llu while nothing was consumed", cap, (unsigned long long) posted, (unsigned long long) fill);
	f.gate.open();
	phase("resume");
	if (!violated() && !wait_for([&] { return done == nw && got >= (uint64_t) nw * total; }, [&] { return posted + got; }))
		viol("writer-stuck", "stalled engine resumed but writers do not: %llu of %llu posts, %llu delivered", (unsigned long long) posted, (unsigned long long) nw * total, (unsigned long long) got);
	for (auto r : rs) if (r->dropcnt()) viol("dropcnt", "blocking ring counts drops");
	if (violated()) { flush_report(); _exit(3); }
	for (auto &t : th) t.join();
	for (auto r : rs) r->release();
	gr->release();
	e.reset();
	eval(got); stat("stall_resumes"); distinct(mix(seed, mix(cap, nw * 2 + shared)));
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), cases = argn(argc, argv, 2, 10), total = argn(argc, argv, 3, 4000), stalls = argn(argc, argv, 4, 10);
	rule("tiny blocking rings, private or shared, against a running or stalled engine with delays at mutexes, conditions and barriers; non-trivial: a case whose writers found the ring full, distinct by (case, ring, writers, how often full)");
	pert().seed = seed;
	wd().start(60);
	for (uint64_t i = 0; i < cases && !violated(); i++) one_case(mix(seed, i), total);
	for (uint64_t i = 0; i < stalls && !violated(); i++) stall_case(mix(seed, 5000 + i));
	stat("perturbation_points", pert().points); stat("perturbation_delays", pert().delays);
	return finish();
}
