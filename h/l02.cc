// L02: drops only on a full ring, accounted exactly.
#define VH_MAIN
#include "cap.hpp"
using namespace vh;

struct Ev { int kind; uint64_t n; uint64_t ts; };  // 0 record (n = seqnum), 1 mark (n = count)
struct Mon {
	std::mutex m;
	const hogl::area *internal = 0;
	std::map<std::string, std::vector<Ev>> ev;
	uint64_t recs = 0, marks = 0, announced = 0, other = 0;
	std::string pending; // ring of a mark that has not been followed by a record yet
	bool stamps = true; uint64_t mts = 0; std::map<std::string, uint64_t> lts; // stamp of that mark; last stamp delivered from each ring
	std::set<std::string> flushing; // rings with a flush record under way: its mark is followed by no record
	void on(const hogl::format::data &d, const hogl::record &r)
	{
		std::lock_guard<std::mutex> l(m);
		if (internal && r.area == internal) {
			if (r.section == hogl::internal::DROPMARK) {
				std::vector<CArg> a = capture_args(r, 0);
				if (a.size() < 2 || a[0].type != GSTR || strncmp((const char *) a[0].v, "dropped %", 9))
					viol("mark-text", "drop mark without its text: %s", show_args(a).c_str());
				else {
					if (!pending.empty()) viol("mark-position", "two marks in a row (%s, %s)", pending.c_str(), d.ring_name);
					ev[d.ring_name].push_back({ 1, a[1].v, 0 });
					if (!flushing.count(d.ring_name)) pending = d.ring_name;
					mts = r.timestamp.to_nsec();
					if (stamps && lts.count(d.ring_name) && mts + 1 < lts[d.ring_name]) viol("mark-stamp", "ring %s: mark stamped %llu after a record stamped %llu", d.ring_name, (unsigned long long) mts, (unsigned long long) lts[d.ring_name]);
					marks++; announced += a[1].v;
				}
			} else if (r.section == hogl::internal::TSOFULLMARK) {
				// may stand anywhere
			} else other++;
			return;
		}
		if (!pending.empty()) {
			if (pending != d.ring_name) viol("mark-position", "mark of ring %s followed by a record of ring %s", pending.c_str(), d.ring_name);
			else if (stamps && mts > r.timestamp.to_nsec()) viol("mark-stamp", "ring %s: mark stamped %llu before a record stamped %llu", d.ring_name, (unsigned long long) mts, (unsigned long long) r.timestamp.to_nsec());
			pending.clear();
		}
		recs++; lts[d.ring_name] = r.timestamp.to_nsec();
		ev[d.ring_name].push_back({ 0, r.seqnum, r.timestamp.to_nsec() });
	}
	void flush_begin(const std::string &n) { std::lock_guard<std::mutex> l(m); flushing.insert(n); }
	void flush_end(const std::string &n) { std::lock_guard<std::mutex> l(m); flushing.erase(n); }
	uint64_t nrec() { std::lock_guard<std::mutex> l(m); return recs; }
};

// ---- Part A: stalled engine, exact model -----------------------------------------
struct MRing {
	hogl::ringbuf *r; std::string name;
	uint64_t pending = 0, seq = 0, lost = 0, gap = 0, delivered_exp = 0;
	std::vector<Ev> exp;       // expected events
	bool gone = false;
};

static void gated_case(uint64_t seed)
{
	rng g(seed);
	bool notso = g.chance(25), marks_on = !g.chance(20);
	static const unsigned tsos[] = { 1, 2, 7, 16, 64, 1024, 4096 };
	unsigned tso = g.pick(tsos);
	hogl::timesource ts("vh", logical_cb);
	cap_format f; Mon mon;
	hogl::output_null out(f);
	f.on = [&](const hogl::format::data &d, const hogl::record &r) { mon.on(d, r); };
	hogl::engine::options eo = engine_opts::make(tso, g.range(20, 300), notso ? (unsigned) hogl::engine::DISABLE_TSO : 0, &ts);
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, eo));
	mon.internal = e->internal_area();
	hogl::area *ar = e->add_area("A"); ar->enable();
	if (!marks_on) e->apply_mask(hogl::mask("!HOGL:DROPMARK", 0));
	std::vector<std::unique_ptr<MRing>> rings;
	uint64_t specials = 0, recs_exp = 0, marks_exp = 0, ann_exp = 0;
	unsigned serial = 0;
	static const unsigned caps[] = { 2, 3, 4, 8, 16, 32, 100 };
	auto add = [&] {
		std::unique_ptr<MRing> m(new MRing);
		m->name = sf("r%u", serial++);
		hogl::ringbuf::options ro = { g.pick(caps), (unsigned) g.below(20), 0, 0 };
		m->r = e->add_ring(m->name.c_str(), ro);
		if (!m->r) { viol("add-ring", "add_ring failed"); return; }
		if (m->r->capacity() < ro.capacity) viol("capacity", "capacity %u instead of %u", m->r->capacity(), ro.capacity);
		rings.push_back(std::move(m));
	};
	auto post1 = [&](MRing &m) {
		uint64_t dc = m.r->dropcnt();
		unsigned N = m.r->capacity();
		bool fits = m.pending < N - 1;
		if (m.r->seqnum() != m.seq) viol("seqnum", "ring %s: seqnum %llu, %llu posts so far", m.name.c_str(), (unsigned long long) m.r->seqnum(), (unsigned long long) m.seq);
		if (m.r->size() != m.pending || m.r->room() != N - 1 - m.pending || m.r->empty() != (m.pending == 0))
			viol("room", "ring %s cap %u: %llu pending but size %u room %u empty %d", m.name.c_str(), N, (unsigned long long) m.pending, m.r->size(), m.r->room(), m.r->empty());
		if (g.chance(50)) hogl::post(m.r, ar, hogl::area::INFO, hogl::arg_gstr("x %u"), 1u); else hogl::post_unlocked(m.r, ar, hogl::area::WARN, "string arg");
		bool ok = m.r->dropcnt() == dc;
		if (ok != fits) viol("drop-when", "ring %s cap %u: %llu pending, record %s", m.name.c_str(), N, (unsigned long long) m.pending, ok ? "accepted" : "dropped");
		if (fits) {
			if (m.gap) { if (!notso) { if (marks_on) { m.exp.push_back({ 1, m.gap, 0 }); marks_exp++; ann_exp += m.gap; } else ann_exp += m.gap; } m.gap = 0; }
			m.exp.push_back({ 0, m.seq, 0 });
			m.pending++; recs_exp++;
		} else { m.gap++; m.lost++; }
		m.seq++;
		if (m.r->dropcnt() != m.lost) viol("dropcnt", "ring %s: dropcnt %llu, %llu lost", m.name.c_str(), (unsigned long long) m.r->dropcnt(), (unsigned long long) m.lost);
	};
	auto drained = [&] {
		if (mon.nrec() < recs_exp) return false;
		for (auto &m : rings) if (!m->gone && m->r->size()) return false;
		return true;
	};
	auto fail = [&] { f.gate.open(); };
	hogl::ringbuf::options go = { 8, 0, 0, 0 };
	MRing gm; gm.name = "GATE"; gm.r = e->add_ring("GATE", go);
	unsigned n0 = g.range(1, 4);
	for (unsigned i = 0; i < n0; i++) add();
	f.use_gate = true;
	unsigned rounds = g.range(3, 8);
	for (unsigned rd = 0; rd < rounds && !violated(); rd++) {
		phase("stall");
		if (!wait_for(drained, [&] { return mon.nrec(); })) { viol("not-delivered", "%llu of %llu accepted records delivered", (unsigned long long) mon.nrec(), (unsigned long long) recs_exp); break; }
		for (auto &m : rings) m->pending = 0;
		bool empty_gate = wait_for([&] { return gm.r->size() == 0; });
		if (!empty_gate) { viol("not-committed", "ring not emptied"); break; }
		gm.pending = 0;
		f.gate.close();
		post1(gm);
		if (!wait_for([&] { return f.gate.blocked(); })) { viol("not-delivered", "gate record not delivered"); break; }
		stat("stalls");
		unsigned steps = g.range(1, 6);
		for (unsigned s = 0; s < steps; s++) {
			if (rings.empty()) break;
			MRing &m = *rings[g.below(rings.size())];
			unsigned N = m.r->capacity();
			unsigned k = g.chance(30) ? N - 1 : g.chance(30) ? N : g.chance(50) ? g.below(3 * N) : g.below(4);
			for (unsigned i = 0; i < k; i++) { post1(m); tick(); }
			if (g.chance(15)) add();
		}
		f.gate.open();
		if (g.chance(40)) add();   // index is rebuilt with gaps pending
		if (g.chance(35) && rings.size()) {
			MRing &m = *rings[g.below(rings.size())];
			phase("flush");
			mon.flush_begin(m.name);
			bool fl = hogl::flush(m.r, 60000000);
			mon.flush_end(m.name);
			if (!fl) { viol("flush", "flush failed on an idle engine"); break; }
			// the flush record takes a sequence number and carries the gap
			if (m.gap) { if (!notso) { if (marks_on) { m.exp.push_back({ 1, m.gap, 0 }); marks_exp++; } ann_exp += m.gap; } m.gap = 0; }
			m.exp.push_back({ 2, m.seq, 0 });
			m.seq++; specials++;
			stat("flushes");
		}
		if (g.chance(25) && rings.size() > 1) {
			size_t i = g.below(rings.size());
			MRing &m = *rings[i];
			if (wait_for([&] { return m.r->size() == 0; })) { m.r->release(); m.gone = true; }
			// keep its expectations
			static std::vector<std::unique_ptr<MRing>> grave; (void) grave;
			// compare right away and forget
			std::vector<Ev> got; { wait_for([&] { return mon.nrec() >= recs_exp; }, [&] { return mon.nrec(); }); std::lock_guard<std::mutex> l(mon.m); got = mon.ev[m.name]; mon.ev.erase(m.name); }
			size_t gi = 0; bool bad = false;
			for (const Ev &x : m.exp) { if (x.kind == 2) continue; if (gi >= got.size() || got[gi].kind != x.kind || got[gi].n != x.n) { bad = true; break; } gi++; }
			if (bad || gi != got.size()) viol("events", "ring %s (released): delivered records and marks differ from the model at %zu of %zu", m.name.c_str(), gi, got.size());
			rings.erase(rings.begin() + i);
		}
	}
	if (!violated()) {
		phase("drain");
		if (!wait_for(drained, [&] { return mon.nrec(); })) viol("not-delivered", "%llu of %llu accepted records delivered", (unsigned long long) mon.nrec(), (unsigned long long) recs_exp);
		rings.push_back(std::unique_ptr<MRing>(new MRing(gm)));
		// stats are updated right after the record was handed over
		const volatile hogl::engine::stats &st = (const volatile hogl::engine::stats &) e->get_stats();
		uint64_t want = recs_exp + specials;
		wait_secs([&] { return st.recs_out >= want; }, 25);
		if (st.recs_out != want) viol("recs_out", "engine counted %lu records out, %llu were delivered", st.recs_out, (unsigned long long) want);
		uint64_t wd_ = notso ? st.recs_dropped : ann_exp;
		if (st.recs_dropped != wd_) viol("recs_dropped", "engine counted %lu dropped, %llu were lost before delivered records", st.recs_dropped, (unsigned long long) wd_);
		std::lock_guard<std::mutex> l(mon.m);
		for (auto &m : rings) {
			std::vector<Ev> &got = mon.ev[m->name];
			size_t gi = 0;
			for (const Ev &x : m->exp) {
				if (x.kind == 2) continue;
				if (gi >= got.size() || got[gi].kind != x.kind || got[gi].n != x.n) {
					viol(gi < got.size() && (got[gi].kind == 1 || x.kind == 1) ? "marks" : "events", "ring %s cap %u tso %u%s: event #%zu is %s %llu, model says %s %llu", m->name.c_str(), m->r->capacity(), tso, notso ? " (off)" : "", gi,
						gi < got.size() ? (got[gi].kind ? "mark" : "record") : "none", (unsigned long long) (gi < got.size() ? got[gi].n : 0), x.kind ? "mark" : "record", (unsigned long long) x.n);
					break;
				}
				gi++;
			}
			if (!violated() && gi != got.size()) viol("extra", "ring %s: %zu events beyond the model", m->name.c_str(), got.size() - gi);
			stat("lost", m->lost);
			if (m->lost) distinct(mix(seed, mix(m->r->capacity(), m->lost)));
		}
		if (mon.marks != marks_exp) viol("mark-count", "%llu marks, model says %llu", (unsigned long long) mon.marks, (unsigned long long) marks_exp);
		stat("marks", mon.marks); stat("records", mon.recs);
		eval(mon.recs + mon.marks);
		sample("stalled engine, seed %llx: tso %u%s marks %s, %zu rings, %llu records, %llu marks announcing %llu lost", (unsigned long long) seed, tso, notso ? " off" : "", marks_on ? "on" : "masked", rings.size(),
			(unsigned long long) mon.recs, (unsigned long long) mon.marks, (unsigned long long) mon.announced);
		rings.pop_back();
	}
	fail();
	if (violated()) { flush_report(); _exit(3); }
	for (auto &m : rings) m->r->release();
	gm.r->release();
	phase("destroy");
	e.reset();
}

// ---- Part B: free running engine, small rings, many writers -----------------------
static void free_case(uint64_t seed, unsigned total)
{
	rng g(seed);
	bool notso = g.chance(25);
	static const unsigned tsos[] = { 1, 3, 8, 64, 4096 };
	unsigned tso = g.pick(tsos), nr = g.range(1, 6);
	hogl::timesource ts("vh", logical_cb);
	cap_format f; Mon mon;
	hogl::output_null out(f);
	f.on = [&](const hogl::format::data &d, const hogl::record &r) { mon.on(d, r); };
	hogl::engine::options eo = engine_opts::make(tso, g.chance(50) ? 0 : g.range(1, 3000), notso ? (unsigned) hogl::engine::DISABLE_TSO : 0, &ts);
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, eo));
	mon.internal = e->internal_area();
	hogl::area *ar = e->add_area("A"); ar->enable();
	struct W { std::string name; uint64_t posts = 0, lost = 0, accepted = 0, flushes = 0; hogl::ringbuf *r = 0; std::thread t; };
	std::vector<W> w(nr);
	std::atomic<unsigned> done{0}; std::atomic<bool> stop{false}; std::atomic<uint64_t> moved{0};
	for (unsigned i = 0; i < nr; i++) {
		w[i].name = sf("w%u", i);
		uint64_t s = g.next();
		w[i].t = std::thread([&, i, s] {
			rng t(s); W &x = w[i];
			static const unsigned caps[] = { 2, 4, 8, 16, 64, 256 };
			hogl::ringbuf::options ro = { t.pick(caps), (unsigned) t.below(20), 0, 0 };
			if (t.chance(40)) usleep(t.below(3000));
			x.r = e->add_ring(x.name.c_str(), ro);
			uint64_t n = total / nr;
			for (uint64_t k = 0; k < n; k++) {
				hogl::post(x.r, ar, hogl::area::INFO, hogl::arg_gstr("n %llu"), (unsigned long long) k);
				x.posts++; moved++;
				if (t.chance(3)) usleep(t.below(400));
				else if (t.chance(30)) sched_yield();
				if (t.chance(100) && t.below(400) == 0) {
					mon.flush_begin(x.name);
					if (!hogl::flush(x.r, 60000000)) viol("flush", "flush failed");
					mon.flush_end(x.name); x.flushes++;
				}
			}
			x.lost = x.r->dropcnt();
			x.accepted = x.posts - x.lost;
			if (x.r->seqnum() != x.posts + x.flushes) viol("seqnum", "ring %s: seqnum %llu after %llu posts", x.name.c_str(), (unsigned long long) x.r->seqnum(), (unsigned long long) (x.posts + x.flushes));
			done++;
			while (!stop) usleep(100);
			x.r->release();
		});
	}
	phase("post");
	wait_for([&] { return done == nr; }, [&] { return moved + mon.nrec(); }, 50);
	uint64_t acc = 0, spec = 0, lost = 0;
	for (W &x : w) { acc += x.accepted; spec += x.flushes; lost += x.lost; }
	phase("drain");
	bool ok = wait_for([&] { return mon.nrec() >= acc; }, [&] { return mon.nrec(); });
	if (!ok) viol("lost", "dropcnt says %llu lost of %llu posts but only %llu were delivered", (unsigned long long) lost, (unsigned long long) (acc + lost), (unsigned long long) mon.nrec());
	const volatile hogl::engine::stats &st = (const volatile hogl::engine::stats &) e->get_stats();
	wait_secs([&] { return st.recs_out >= acc + spec; }, 25);
	{
		std::lock_guard<std::mutex> l(mon.m);
		if (st.recs_out != acc + spec) viol("recs_out", "engine counted %lu records out, %llu delivered", st.recs_out, (unsigned long long) (acc + spec));
		uint64_t gaps = 0;
		for (W &x : w) {
			uint64_t exp = 0, n = 0; bool mark = false; uint64_t mn = 0;
			for (const Ev &v : mon.ev[x.name]) {
				if (v.kind == 1) { mark = true; mn = v.n; continue; }
				n++;
				if (v.n < exp) { viol("order", "ring %s: seqnum %llu after %llu", x.name.c_str(), (unsigned long long) v.n, (unsigned long long) exp); break; }
				uint64_t gap = v.n - exp;
				// specials are part of the sequence but not delivered as records
				if (!notso && x.flushes == 0) {
					if (gap && !mark) viol("mark-missing", "ring %s: %llu records missing before seqnum %llu, no mark", x.name.c_str(), (unsigned long long) gap, (unsigned long long) v.n);
					if (mark && mn != gap) viol("mark-value", "ring %s: mark says %llu, %llu missing", x.name.c_str(), (unsigned long long) mn, (unsigned long long) gap);
				} else if (!notso && mark && mn > gap) viol("mark-value", "ring %s: mark says %llu, only %llu missing", x.name.c_str(), (unsigned long long) mn, (unsigned long long) gap);
				else if (notso && mark) viol("mark-extra", "mark without timestamp ordering");
				gaps += gap; mark = false; exp = v.n + 1;
			}
			if (n != x.accepted) viol("dropcnt", "ring %s: %llu posts, dropcnt %llu, %llu delivered", x.name.c_str(), (unsigned long long) x.posts, (unsigned long long) x.lost, (unsigned long long) n);
			if (x.lost) distinct(mix(seed, mix(x.lost, n)));
		}
		if (!notso && st.recs_dropped != mon.announced) viol("recs_dropped", "engine counted %lu dropped, marks announce %llu", st.recs_dropped, (unsigned long long) mon.announced);
		if (!notso && mon.announced > lost) viol("mark-value", "marks announce %llu lost, writers lost %llu", (unsigned long long) mon.announced, (unsigned long long) lost);
		stat("free_records", mon.recs); stat("free_marks", mon.marks); stat("free_lost", lost);
		eval(mon.recs);
		sample("free running, seed %llx: tso %u%s, %u writers, %llu delivered, %llu lost, %llu marks", (unsigned long long) seed, tso, notso ? " off" : "", nr, (unsigned long long) mon.recs, (unsigned long long) lost, (unsigned long long) mon.marks);
	}
	if (violated()) { flush_report(); _exit(3); }
	stop = true;
	for (W &x : w) x.t.join();
	phase("destroy");
	e.reset();
}

// ---- Part C: a ring that outlives engines ------------------------------------------
static void restart_case(uint64_t seed)
{
	rng g(seed);
	hogl::timesource ts("vh", logical_cb);
	hogl::ringbuf::options ro = { 8, 0, hogl::ringbuf::IMMORTAL, 0 };
	std::unique_ptr<hogl::ringbuf> ring(new hogl::ringbuf("R", ro));
	hogl::area ar("A"); ar.enable();
	uint64_t seq = 0;
	for (unsigned k = 0; k < 3; k++) {
		cap_format f; Mon mon; hogl::output_null out(f); mon.stamps = false; // the ring comes with stamps of other sources
		f.on = [&](const hogl::format::data &d, const hogl::record &r) { mon.on(d, r); };
		hogl::engine::options eo = engine_opts::make(64, 100, 0, &ts);
		std::unique_ptr<hogl::engine> e(new hogl::engine(out, eo));
		mon.internal = e->internal_area();
		// some records before the engine knows the ring
		unsigned pre = g.below(12), acc = 0;
		std::vector<Ev> exp; uint64_t gap = 0;
		auto post = [&] {
			uint64_t dc = ring->dropcnt();
			bool fits = ring->room() > 0;
			hogl::post(ring.get(), &ar, hogl::area::INFO, 1);
			if ((ring->dropcnt() == dc) != fits) viol("drop-when", "room says %d", fits);
			if (fits) { if (gap) { exp.push_back({ 1, gap, 0 }); gap = 0; } exp.push_back({ 0, seq, 0 }); acc++; } else gap++;
			seq++;
		};
		for (unsigned i = 0; i < pre; i++) post();
		ring->hold();
		if (!e->add_ring(ring.get())) viol("add-ring", "add_ring failed");
		auto idle = [&] { return mon.nrec() >= acc && ring->size() == 0; };
		unsigned n = g.range(1, 30);
#ifdef __OPTIMIZE__
		unsigned hugeat = g.chance(20) ? g.below(n) : n;
#else
		unsigned hugeat = n;
#endif
		for (unsigned i = 0; i < n && !violated(); i++) {
			if (i >= hugeat && acc) {
				// a loss of more than 4G records, told by the ring's own counters
				hugeat = n;
				timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a); uint64_t k0 = 0, want = (1ull << 32) + g.below(1000);
				for (; k0 < want; ) {
					uint64_t k1 = std::min<uint64_t>(want, k0 + (1u << 20));
					for (uint64_t z = k0; z < k1; z++) { ring->inc_seqnum(); ring->inc_dropcnt(); }
					k0 = k1; tick();
					clock_gettime(CLOCK_MONOTONIC, &b); if (b.tv_sec - a.tv_sec > 3) break;
				}
				gap += k0; seq += k0; stat(k0 == want ? "huge_gaps" : "large_gaps");
			}
			if (ring->room() == 0 || g.chance(20)) wait_for(idle, [&] { return mon.nrec(); });
			post();
		}
		if (!wait_for(idle, [&] { return mon.nrec(); })) viol("not-delivered", "restart: %llu of %u", (unsigned long long) mon.nrec(), acc);
		std::lock_guard<std::mutex> l(mon.m);
		std::vector<Ev> &got = mon.ev["R"];
		bool same = got.size() == exp.size();
		for (size_t i = 0; same && i < got.size(); i++) same = got[i].kind == exp[i].kind && got[i].n == exp[i].n;
		if (!same) viol("restart-marks", "engine #%u on a used ring (first seqnum %llu): %zu events delivered, %zu expected; first is %s %llu", k, (unsigned long long) (exp.size() ? exp[0].n : 0), got.size(), exp.size(),
			got.size() && got[0].kind ? "mark" : "record", (unsigned long long) (got.size() ? got[0].n : 0));
		eval(mon.recs); stat("restarts");
		mon.m.unlock();
		if (violated()) { flush_report(); _exit(3); }
		ring->release();
		e.reset();
		mon.m.lock();
	}
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), na = argn(argc, argv, 2, 20), nb = argn(argc, argv, 3, 8), total = argn(argc, argv, 4, 20000);
	rule("stalled-engine rounds against an exact ring model; free-running overload with per-ring gap/mark matching; rings carried over engines. Non-trivial: a ring that lost records, distinct by (case, capacity, count)");
	wd().start(60);
	for (uint64_t i = 0; i < na && !violated(); i++) gated_case(mix(seed, i));
	for (uint64_t i = 0; i < nb && !violated(); i++) free_case(mix(seed, 1000 + i), total);
	for (uint64_t i = 0; i < na / 4 + 1 && !violated(); i++) restart_case(mix(seed, 2000 + i));
	return finish();
}
