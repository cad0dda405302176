// L05: output is ordered by timestamp across rings.
#define VH_MAIN
#include "perturb.hpp"
#include "cap.hpp"
using namespace vh;

struct D { uint64_t ts, id; unsigned ring; bool mark; };
struct Mon {
	std::mutex m; const hogl::area *internal = 0, *gate = 0;
	std::vector<D> log; uint64_t n = 0, fullmarks = 0;
	void on(const hogl::format::data &d, const hogl::record &r)
	{
		std::lock_guard<std::mutex> l(m);
		if (r.area == internal) {
			if (r.section == hogl::internal::TSOFULLMARK) {
				std::vector<CArg> a = capture_args(r, 0);
				if (a.size() < 1 || a[0].type != GSTR || strcmp((const char *) a[0].v, "following records may be out of order")) viol("mark-text", "unexpected overflow mark %s", show_args(a).c_str());
				log.push_back({ 0, 0, 0, true }); fullmarks++;
			} else if (r.section == hogl::internal::DROPMARK) viol("drop", "drop mark although nothing was dropped");
			return;
		}
		if (r.area == gate) return;
		log.push_back({ r.timestamp.to_nsec(), r.get_arg_val64(0), (unsigned) r.get_arg_val64(1), false });
		n++;
	}
	uint64_t recs() { std::lock_guard<std::mutex> l(m); return n; }
	std::vector<D> take() { std::lock_guard<std::mutex> l(m); std::vector<D> x; x.swap(log); return x; }
};

// A: batches posted while the engine is stalled
static void gated_case(uint64_t seed)
{
	rng g(seed);
	bool mono = !g.chance(20);
	static const unsigned tsos[] = { 1, 2, 3, 8, 9, 16, 31, 64, 256, 1000, 4096 };
	unsigned tso = g.pick(tsos), nr = g.range(1, 8);
	hogl::timesource ts("vh", chosen_cb);
	cap_format f; hogl::output_null out(f); Mon mon;
	f.on = [&](const hogl::format::data &d, const hogl::record &r) { mon.on(d, r); };
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(tso, g.range(0, 300), 0, &ts)));
	mon.internal = e->internal_area();
	bool masked = g.chance(15); if (masked) { e->apply_mask(hogl::mask("!HOGL:TSOFULLMARK", 0)); stat("marks_masked"); }
	hogl::area *ar = e->add_area("A"), *ga = e->add_area("G"); ar->enable(); ga->enable();
	mon.gate = ga;
	std::vector<hogl::ringbuf *> r;
	auto add = [&] { hogl::ringbuf::options o = { (unsigned) (1 << g.range(2, 10)), (unsigned) g.below(6), 0, 0 }; r.push_back(e->add_ring(sf("r%zu", r.size()).c_str(), o)); };
	for (unsigned i = 0; i < nr; i++) add();
	hogl::ringbuf::options go = { 8, (unsigned) g.below(6), 0, 0 };
	hogl::ringbuf *gr = e->add_ring("GATE", go);
	f.use_gate = true;
	uint64_t base = 1000000, expect = 0;
	unsigned rounds = g.range(2, 6);
	for (unsigned rd = 0; rd < rounds && !violated(); rd++) {
		f.gate.close();
		next_stamp() = base++;
		hogl::post(gr, ga, hogl::area::INFO, 1);
		phase("stall");
		if (!wait_for([&] { return f.gate.blocked(); })) { viol("not-delivered", "gate record not delivered"); break; }
		uint64_t marks0; { std::lock_guard<std::mutex> l(mon.m); marks0 = mon.fullmarks; }
		mon.take();
		if (g.chance(20)) { add(); stat("rings_added_while_stalled"); }
		// how many: below, at or above the buffer
		uint64_t room = 0; for (auto x : r) room += x->room();
		uint64_t n = g.chance(60) ? g.below(tso > 1 ? tso - 1 : 1) : g.range(1, 3 * tso);
		bool within = n + 1 < tso;
		std::vector<uint64_t> last(r.size(), 0), seqr(r.size(), 0);
		uint64_t posted = 0, mx = base;
		std::map<unsigned, std::vector<uint64_t>> order;
		unsigned style = g.below(4);
		unsigned burst = 0, cur = 0;
		for (uint64_t i = 0; i < n; i++) {
			if (!burst) { cur = g.below(r.size()); burst = style == 0 ? 1 : g.range(1, 40); }
			burst--;
			if (!r[cur]->room()) { burst = 0; continue; }
			uint64_t t;
			if (mono) {
				// strictly increasing along the ring, arbitrary across rings
				uint64_t lo = std::max(base, last[cur] + 1);
				t = style == 1 ? std::max(lo, mx + 1) : lo + g.below(style == 2 ? 3 : 50);
			} else t = base + g.below(30);
			last[cur] = std::max(last[cur], t); mx = std::max(mx, t);
			next_stamp() = t;
			hogl::post(r[cur], ar, hogl::area::INFO, (unsigned long) i, (unsigned long) cur);
			order[cur].push_back(i);
			posted++;
		}
		base = mx + 100;
		expect += posted;
		f.gate.open();
		phase("drain");
		if (!wait_for([&] { return mon.recs() >= expect; }, [&] { return mon.recs(); })) { viol("kept-back", "%llu of %llu records output, the rest stays in the engine (tso %u)", (unsigned long long) mon.recs(), (unsigned long long) expect, tso); break; }
		if (!wait_for([&] { if (gr->size()) return false; for (auto x : r) if (x->size()) return false; return true; })) { viol("not-committed", "rings not emptied"); break; }
		std::vector<D> log = mon.take();
		uint64_t nmarks; { std::lock_guard<std::mutex> l(mon.m); nmarks = mon.fullmarks - marks0; }
		// per ring order, completeness
		std::map<unsigned, size_t> pos; uint64_t cnt = 0;
		for (const D &x : log) {
			if (x.mark) continue;
			cnt++;
			auto &o = order[x.ring]; size_t &p = pos[x.ring];
			if (p >= o.size() || o[p] != x.id) { viol("ring-order", "ring %u: record %llu out of its ring's order (tso %u, %s stamps)", x.ring, (unsigned long long) x.id, tso, mono ? "monotonic" : "random"); break; }
			p++;
		}
		if (!violated() && cnt != posted) viol("lost", "%llu of %llu", (unsigned long long) cnt, (unsigned long long) posted);
		uint64_t inv = 0;
		if (mono && !violated()) {
			uint64_t hi = 0; bool marked = false;
			for (const D &x : log) {
				if (x.mark) { marked = true; continue; }
				if (x.ts < hi) {
					inv++;
					if (!marked && !masked) { viol("unsorted", "tso %u, %llu pending on %zu rings: stamp %llu after %llu, no overflow mark before it", tso, (unsigned long long) posted, r.size(), (unsigned long long) x.ts, (unsigned long long) hi); break; }
				}
				hi = std::max(hi, x.ts);
			}
			if (within && nmarks) viol("mark-extra", "overflow mark with %llu records pending and a buffer for %u", (unsigned long long) posted, tso);
			if (masked && nmarks) viol("mark-masked", "%llu overflow marks although their section is masked off", (unsigned long long) nmarks);
			if (within && inv) viol("unsorted", "batch of %llu not sorted, buffer %u", (unsigned long long) posted, tso);
		}
		eval(posted); stat(within ? "batches_within" : "batches_overflowing"); stat("inversions_after_overflow_mark", inv); stat("overflow_marks", nmarks);
		if (posted > 2) distinct(mix(mix(seed, rd), mix(posted, inv)));
		sample("stalled batch: tso %u, %zu rings, %llu records (%s buffer), %llu overflow marks, %llu inversions", tso, r.size(), (unsigned long long) posted, within ? "within" : "beyond", (unsigned long long) nmarks, (unsigned long long) inv);
	}
	f.gate.open();
	if (violated()) { flush_report(); _exit(3); }
	for (auto x : r) x->release();
	gr->release();
	e.reset();
}

// B: free running, real-time order: a post that returned before another began comes out first
static void free_case(uint64_t seed, unsigned total)
{
	rng g(seed);
	unsigned nr = g.range(2, 8), cap = 1 << g.range(1, 6);
	unsigned tso = 8 * nr * cap + 64 + g.below(100);
	hogl::timesource ts("vh", logical_cb);
	cap_format f; hogl::output_null out(f);
	struct X { uint64_t b, e; unsigned w; uint64_t n; };
	std::vector<std::vector<X>> win(nr);
	struct Y { unsigned w; uint64_t n, ts; };
	std::vector<Y> got; std::atomic<uint64_t> ngot{0};
	const hogl::area *internal = 0; const hogl::area *ar_;
	rng eg(seed ^ 3); unsigned slow = g.chance(50) ? g.range(1, 30) : 0;
	std::atomic<bool> warm{true};
	f.on = [&](const hogl::format::data &, const hogl::record &r) {
		if (r.area == internal) { if (r.section == hogl::internal::TSOFULLMARK) viol("mark-extra", "overflow mark although the buffer (%u) holds 8 times all rings", tso); return; }
		if (warm) { ngot++; return; }
		got.push_back({ (unsigned) r.get_arg_val64(0), r.get_arg_val64(1), r.timestamp.to_nsec() });
		ngot++;
		if (slow && eg.below(100) < slow) { if (eg.chance(20)) usleep(eg.below(200)); else sched_yield(); }
	};
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(tso, g.chance(60) ? 0 : g.range(1, 500), 0, &ts)));
	internal = e->internal_area();
	hogl::area *ar = e->add_area("A"); ar->enable(); ar_ = ar;
	std::vector<hogl::ringbuf *> r;
	for (unsigned i = 0; i < nr; i++) { hogl::ringbuf::options o = { cap, (unsigned) g.below(4), g.chance(50) ? (unsigned) hogl::ringbuf::BLOCKING : 0, 0 }; r.push_back(e->add_ring(sf("r%u", i).c_str(), o)); }
	// make sure that every ring is known to the engine before we start
	for (auto x : r) hogl::post(x, ar, hogl::area::INFO, 0ul, 0ul);
	if (!wait_for([&] { return ngot >= nr; })) viol("not-delivered", "first records not delivered");
	warm = false; ngot = 0;
	static const unsigned lv[] = { 0, 0, 5, 20 };
	pert().level = g.pick(lv); pert().maxus = 50;
	std::atomic<uint64_t> clk{1}, posted{0}, accepted{0}; std::atomic<unsigned> done{0}, turn{0};
	bool relay = g.chance(40);   // posts strictly take turns, ring after ring
	std::vector<std::thread> th;
	uint64_t per = total / nr;
	for (unsigned i = 0; i < nr; i++) {
		uint64_t s = g.next();
		th.emplace_back([&, i, s] {
			rng t(s); std::vector<X> &w = win[i];
			for (uint64_t n = 0; n < per; n++) {
				if (relay) while (turn.load() % nr != i) sched_yield();
				uint64_t d = r[i]->dropcnt(), b = clk.fetch_add(1);
				hogl::post(r[i], ar, hogl::area::INFO, (unsigned long) i, (unsigned long) n);
				uint64_t en = clk.fetch_add(1);
				w.push_back({ b, r[i]->dropcnt() == d ? en : ~0ull, i, n });
				if (r[i]->dropcnt() == d) accepted++;
				if (relay) turn++;
				posted++; tick();
				if (t.chance(10)) usleep(t.below(100)); else if (t.chance(20)) sched_yield();
			}
			done++;
		});
	}
	phase("post");
	if (!wait_for([&] { return done == nr; }, [&] { return posted + ngot; })) viol("stuck", "writers do not finish");
	phase("drain");
	if (!violated() && !wait_for([&] { return ngot >= accepted; }, [&] { return (uint64_t) ngot; })) viol("kept-back", "%llu of %llu records output, the rest stays in the engine", (unsigned long long) ngot, (unsigned long long) accepted);
	if (violated()) { flush_report(); _exit(3); }
	pert().level = 0;
	for (auto &t : th) t.join();
	for (auto x : r) x->release();
	e.reset();
	uint64_t maxb = 0; unsigned mw = 0; uint64_t mn = 0, sw = 0, conc = 0;
	for (size_t i = 0; i < got.size(); i++) {
		const X &x = win[got[i].w][got[i].n];
		if (x.e < maxb) { viol("real-time-order", "ring %u #%llu was posted completely before the post of ring %u #%llu began but comes out after it (tso %u, %u rings of %u)", x.w, (unsigned long long) x.n, mw, (unsigned long long) mn, tso, nr, cap); break; }
		if (x.b > maxb) { maxb = x.b; mw = x.w; mn = x.n; } else conc++;
		if (i && got[i].w != got[i - 1].w) sw++;
	}
	eval(got.size()); stat("free_records", got.size()); stat("free_alternations", sw); stat("free_overlapping", conc);
	if (sw > 3) distinct(mix(seed, mix(sw, got.size())));
	sample("free running: %u rings of %u, tso %u, %s: %zu records, %llu changes of ring, %llu overlapping posts", nr, cap, tso, relay ? "taking turns" : "racing", got.size(), (unsigned long long) sw, (unsigned long long) conc);
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), na = argn(argc, argv, 2, 30), nb = argn(argc, argv, 3, 8), total = argn(argc, argv, 4, 8000);
	rule("batches of chosen timestamps posted on several rings while the engine is stalled, below and above the ordering buffer; free-running writers with operation windows; non-trivial: a batch of more than two records or a run alternating between rings, distinct by (case, size, inversions/alternations)");
	pert().seed = seed;
	wd().start(60);
	for (uint64_t i = 0; i < na && !violated(); i++) gated_case(mix(seed, i));
	for (uint64_t i = 0; i < nb && !violated(); i++) free_case(mix(seed, 1000 + i), total);
	return finish();
}
