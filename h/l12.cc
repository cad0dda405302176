// L12: every ring is served in every pass; busy rings starve nobody; without
// timestamp ordering higher priority rings are served first.
#define VH_MAIN
#include "perturb.hpp"
#include "cap.hpp"
using namespace vh;
typedef hogl::ringbuf RB;

// A: rings that never run dry (refilled while their records are being formatted, or by threads)
static void busy_case(uint64_t seed, unsigned probes)
{
	rng g(seed); tick();
	bool tso = g.chance(50);
	unsigned nb = g.range(1, 4), nq = g.range(1, 4), tsocap = g.pick((const unsigned[]) { 2, 8, 9, 64, 200, 1000, 4096 });
	hogl::timesource ts("vh", logical_cb);
	cap_format f; hogl::output_null out(f);
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(tsocap, g.pick((const unsigned[]) { 0, 1, 50, 300 }), tso ? 0 : (unsigned) hogl::engine::DISABLE_TSO, &ts)));
	hogl::area *ba = e->add_area("BUSY"), *qa = e->add_area("QUIET"); ba->enable(); qa->enable();
	struct Busy { RB *r; unsigned cap, k; bool self; unsigned live = 0; };
	std::vector<Busy> bs; std::vector<RB *> qs; uint64_t sum = 0;
	for (unsigned i = 0; i < nb; i++) {
		bool self = g.chance(60);
		unsigned cap = 1 << g.range(self ? 2 : 1, 10);
		RB::options o = { cap, (unsigned) g.below(4), 0, 0 };
		bs.push_back({ e->add_ring(sf("b%u", i).c_str(), o), cap, (unsigned) g.range(1, 3), self });
		sum += cap;
	}
	for (unsigned i = 0; i < nq; i++) { RB::options o = { (unsigned) (1 << g.range(1, 6)), (unsigned) g.below(4), g.chance(30) ? (unsigned) RB::SHARED : 0, 0 }; qs.push_back(e->add_ring(sf("q%u", i).c_str(), o)); }
	std::atomic<uint64_t> busy{0}, done{0}, at{0}; std::atomic<bool> stop{false};
	f.on = [&](const hogl::format::data &d, const hogl::record &r) {
		if (r.area == ba) {
			busy++;
			Busy &b = bs[r.get_arg_val32(0)];
			// (half of the slots, the other half are freed after this pass: the ring neither drops nor runs dry)
			if (b.self) b.live--;
			if (b.self && !stop) for (unsigned i = 0; i < b.k && b.live < (b.cap - 1) / 2; i++, b.live++) hogl::post(b.r, ba, hogl::area::INFO, (unsigned) (&b - &bs[0]));
		} else if (r.area == qa) { at = busy.load(); done++; }
	};
	// all rings known to the engine
	for (unsigned i = 0; i < nq; i++) { hogl::post(qs[i], qa, hogl::area::INFO, i); if (!wait_for([&] { return done == i + 1; })) { viol("not-delivered", "first record of a ring not delivered"); flush_report(); _exit(3); } }
	for (Busy &b : bs) if (b.self) b.live = 1, hogl::post(b.r, ba, hogl::area::INFO, (unsigned) (&b - &bs[0]));
	std::vector<std::thread> th; std::atomic<unsigned> out_{0};
	for (unsigned i = 0; i < nb; i++) if (!bs[i].self) { uint64_t s = g.next(); th.emplace_back([&, i, s] {
		rng t(s); out_++;
		while (!stop) { for (unsigned k = 0; k < 50; k++) hogl::post(bs[i].r, ba, hogl::area::INFO, i); if (t.chance(20)) sched_yield(); }
	}); }
	static const unsigned lv[] = { 0, 0, 5, 20 };
	pert().level = g.pick(lv); pert().maxus = 30;
	uint64_t bound = 4 * sum + 16, n = nq, worst = 0;
	phase("busy");
	for (unsigned i = 0; i < probes && !violated(); i++) {
		unsigned k = g.below(nq);
		if (g.chance(50)) { uint64_t b = busy + g.below(sum); wait_for([&] { return busy >= b; }, [&] { return busy.load(); }); }
		if (!wait_for([&] { return qs[k]->room(); })) { viol("not-freed", "slot of a delivered record not freed"); break; }
		hogl::post(qs[k], qa, hogl::area::INFO, k);
		uint64_t c0 = busy;
		n++;
		if (!wait_for([&] { return done >= n || busy > c0 + bound + sum; }, [&] { return busy.load() / (bound + 1); })) { viol("not-delivered", "record of a quiet ring not delivered"); break; }
		uint64_t w = done >= n ? at - std::min<uint64_t>(at, c0) : busy - c0;
		if (w > bound) { viol("starved", "%llu records of %u busy rings (%llu slots) were output %s the record posted to quiet ring q%u (%s, ordering buffer %u)", (unsigned long long) w, nb, (unsigned long long) sum, done >= n ? "before" : "and still not", k, tso ? "ordered" : "not ordered", tsocap); break; }
		worst = std::max(worst, w * 100 / sum);
		eval(); stat("probes"); stat("records_ahead", w);
		tick();
	}
	stop = true; pert().level = 0;
	if (violated()) { flush_report(); _exit(3); }
	for (auto &t : th) t.join();
	for (Busy &b : bs) b.r->release();
	for (RB *r : qs) r->release();
	uint64_t total = busy;
	e.reset();
	if (total > sum) { stat("busy_records", total); distinct(mix(seed, mix(worst, sum))); }
	sample("%u busy rings with %llu slots, %u quiet ones, %s: at most %llu%% of the slots were output ahead of a quiet ring's record", nb, (unsigned long long) sum, nq, tso ? "ordered" : "not ordered", (unsigned long long) worst);
}

// B: the order in which rings are served
static void prio_case(uint64_t seed)
{
	rng g(seed); tick();
	hogl::timesource ts("vh", logical_cb);
	cap_format f; hogl::output_null out(f);
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(16, g.pick((const unsigned[]) { 0, 20, 200 }), (unsigned) hogl::engine::DISABLE_TSO, &ts)));
	hogl::area *ar = e->add_area("A"), *ga = e->add_area("G"); ar->enable(); ga->enable();
	std::mutex m; std::vector<unsigned> log; std::atomic<uint64_t> cnt{0}, gates{0};
	f.on = [&](const hogl::format::data &, const hogl::record &r) {
		if (r.area == ga) { gates++; std::lock_guard<std::mutex> l(m); log.push_back(~0u); }
		else if (r.area == ar) { { std::lock_guard<std::mutex> l(m); log.push_back(r.get_arg_val32(0)); } cnt++; }
	};
	struct R { RB *r; int prio; };
	std::vector<R> rs; std::set<int> used; uint64_t expect = 0;
	unsigned style = g.below(4);
	auto rprio = [&]() -> unsigned { return style == 0 ? g.below(3) : style == 1 ? g.below(10001) : style == 2 ? g.range(9990, 10040) : g.chance(50) ? g.below(100000) : g.below(20); };
	auto eff = [](unsigned p) { return (int) std::min(p, (unsigned) RB::PRIORITY_CEILING); };
	unsigned gp = 0, nadd = 0;
	auto add = [&] {
		unsigned p; do p = rprio(); while (eff(p) == eff(gp));
		RB::options o = { (unsigned) (1 << g.range(1, 5)), p, g.chance(20) ? (unsigned) RB::SHARED : 0, 0 };
		R x = { e->add_ring(sf("%c%zu", (char) g.range('a', 'z'), (size_t) nadd++).c_str(), o), eff(p) };
		if (!x.r) return;
		if (x.r->prio() != x.prio) viol("prio", "ring asked for with priority %u has %d", p, x.r->prio());
		rs.push_back(x);
	};
	gp = style == 0 ? 1000 : rprio();
	RB::options go = { 8, gp, 0, 0 };
	RB *gr = e->add_ring("GATE", go);
	for (unsigned i = g.chance(20) ? g.range(17, 60) : g.range(1, 9); i; i--) add();
	f.use_gate = true;
	unsigned rounds = g.range(2, 8);
	for (unsigned rd = 0; rd < rounds && !violated(); rd++) {
		if (rd && g.chance(40)) { add(); stat("rings_added"); }
		if (rd && g.chance(50)) {
			// some go, some come, between two passes
			f.gate.close();
			hogl::post(gr, ga, hogl::area::INFO, 3);
			phase("replace");
			if (!wait_for([&] { return f.gate.blocked(); })) { viol("not-delivered", "gate record not delivered"); break; }
			unsigned k = g.range(1, 3), c = 0;
			for (; c < k && rs.size() > 1; c++) { size_t i = g.below(rs.size()); rs[i].r->release(); rs.erase(rs.begin() + i); }
			if (g.chance(30)) c = g.below(4);
			while (c--) add();
			f.gate.open(); stat("rings_replaced");
		}
		// the engine knows all of them
		for (size_t i = 0; i < rs.size(); i++) { if (!wait_for([&] { return rs[i].r->room(); })) break; hogl::post(rs[i].r, ar, hogl::area::INFO, (unsigned) i); expect++; }
		phase("warm");
		if (!wait_for([&] { return cnt >= expect; })) { viol("not-delivered", "%llu of %llu records", (unsigned long long) cnt, (unsigned long long) expect); break; }
		if (!wait_for([&] { for (auto &x : rs) if (x.r->size()) return false; return true; })) { viol("not-committed", "rings not emptied"); break; }
		f.gate.close();
		hogl::post(gr, ga, hogl::area::INFO, 1);
		phase("stall");
		if (!wait_for([&] { return f.gate.blocked(); })) { viol("not-delivered", "gate record not delivered"); break; }
		{ std::lock_guard<std::mutex> l(m); log.clear(); }
		std::vector<unsigned> want(rs.size(), 0); uint64_t posted = 0;
		for (unsigned i = g.range(1, 200); i; i--) { unsigned k = g.below(rs.size()); if (!rs[k].r->room()) continue; hogl::post(rs[k].r, ar, hogl::area::INFO, k); want[k]++; posted++; }
		bool again = g.chance(50); if (again) hogl::post(gr, ga, hogl::area::INFO, 2);
		expect += posted;
		uint64_t g0 = gates + 1 + again;
		f.gate.open();
		phase("drain");
		if (!wait_for([&] { return cnt >= expect && gates >= g0; })) { viol("not-delivered", "%llu of %llu records", (unsigned long long) cnt, (unsigned long long) expect); break; }
		std::vector<unsigned> l; { std::lock_guard<std::mutex> k(m); l = log; }
		// the gate's own record, then the rest of this pass (lower priorities), then the next one from the top
		std::vector<unsigned> have(rs.size(), 0); std::vector<bool> closed(rs.size() + 1, false);
		int pass = 0, last = gp; bool gate_seen = false; unsigned prev = ~1u; std::string seen;
		for (size_t i = 0; i < l.size() && !violated(); i++) {
			unsigned k = l[i]; int p = k == ~0u ? eff(gp) : rs[k].prio;
			if (k == ~0u && !gate_seen) { gate_seen = true; last = eff(gp); prev = k; continue; }
			if (k != ~0u) have[k]++;
			if (k == prev && k != ~0u) continue;
			seen += sf(" %d", p);
			if (k != ~0u) { if (closed[k]) viol("pass", "ring of priority %d is served in pieces, others in between:%s", p, seen.c_str()); closed[k] = true; }
			if (k == ~0u) pass = 1;
			else if (p > last) { if (pass++ || p < eff(gp)) viol("priority", "rings served by priority:%s (the engine was stopped in the ring of priority %d)", seen.c_str(), eff(gp)); }
			else if (pass && p < eff(gp)) viol("priority", "ring of priority %d served a pass late, priority %d was its turn:%s", p, eff(gp), seen.c_str());
			last = p; prev = k;
		}
		for (size_t k = 0; k < rs.size() && !violated(); k++) if (have[k] != want[k]) viol("lost", "%u of %u records of a ring", have[k], want[k]);
		eval(posted); stat("stalled_passes"); stat("ring_turns", std::count(seen.begin(), seen.end(), ' '));
		if (posted > 2) distinct(mix(seed, mix(rd, hash_str(seen))));
		if (rd == 0) sample("stopped in a ring of priority %d, then served by priority:%s", eff(gp), seen.c_str());
	}
	f.gate.open();
	if (violated()) { flush_report(); _exit(3); }
	for (auto &x : rs) x.r->release();
	gr->release();
	e.reset();
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), na = argn(argc, argv, 2, 20), probes = argn(argc, argv, 3, 60), nb = argn(argc, argv, 4, 60);
	rule("evaluation: one record of a quiet ring with the number of busy rings' records output ahead of it, or one record of a stalled pass; non-trivial: busy rings refilled beyond their capacity, or a pass of more than two records, distinct by case and order of service");
	pert().seed = seed;
	wd().start(60);
	for (uint64_t i = 0; i < na && !violated(); i++) busy_case(mix(seed, i), probes);
	for (uint64_t i = 0; i < nb && !violated(); i++) prio_case(mix(seed, 1000 + i));
	return finish();
}
