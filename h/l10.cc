// L10: a timesource change applies to all rings and to nothing posted before.
#define VH_MAIN
#include "perturb.hpp"
#include "cap.hpp"
using namespace vh;
typedef hogl::ringbuf RB;

enum { MAXTS = 400 };
static hogl::timesource *tsv[MAXTS];
static std::atomic<uint64_t> tcnt{1};
// stamps name the timesource they come from
static hogl::timestamp which_cb(const hogl::timesource *ts)
{
	for (unsigned i = 0; i < MAXTS; i++) if (tsv[i] == ts) return last_stamp() = ((uint64_t) i << 40) + tcnt.fetch_add(1);
	return last_stamp() = ~0ull;
}

struct Sink {
	std::mutex m; const hogl::area *internal = 0;
	struct R { uint64_t seq, ts, id, n; };
	std::map<std::string, std::vector<R>> recs; std::atomic<uint64_t> got{0};
	std::vector<std::pair<std::string, std::string>> sw; std::vector<std::string> swring; std::map<std::string, uint64_t> last; uint64_t drops = 0;
	void on(const hogl::format::data &d, const hogl::record &r)
	{
		std::lock_guard<std::mutex> l(m);
		if (r.area == internal) {
			if (r.section == hogl::internal::DROPMARK) drops += r.get_arg_val64(1);
			else if (r.section == hogl::internal::INFO) {
				std::vector<CArg> a = capture_args(r, 0);
				if (a.size() == 3 && a[0].type == GSTR && !strcmp((const char *) a[0].v, "switching timesource from %s to %s")) {
					std::string rn = d.ring_name ? d.ring_name : "(none)";
					sw.push_back({ (const char *) a[1].v, (const char *) a[2].v }); swring.push_back(rn);
					// announced in its place in the ring
					auto it = recs.find(rn); if (it != recs.end() && !it->second.empty() && it->second.back().seq >= r.seqnum) viol("announce-place", "ring %s: announced with number %llu after record %llu", rn.c_str(), (unsigned long long) r.seqnum, (unsigned long long) it->second.back().seq);
					last[rn] = r.seqnum;
				}
			}
			return;
		}
		auto li = last.find(d.ring_name); if (li != last.end() && r.seqnum <= li->second) viol("announce-place", "ring %s: record %llu comes after the announcement with number %llu", d.ring_name, (unsigned long long) r.seqnum, (unsigned long long) li->second);
		recs[d.ring_name].push_back({ r.seqnum, r.timestamp.to_nsec(), r.get_arg_val64(0), r.get_arg_val64(1) });
		got++;
	}
	size_t nsw() { std::lock_guard<std::mutex> l(m); return sw.size(); }
};

// one driver changes, many post
static void driver_case(uint64_t seed, unsigned changes)
{
	rng g(seed);
	bool notso = g.chance(40);
	static const unsigned tsos[] = { 1, 8, 64, 4096 };
	cap_format f; hogl::output_null out(f); Sink k;
	f.on = [&](const hogl::format::data &d, const hogl::record &r) { k.on(d, r); };
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(g.pick(tsos), g.chance(50) ? 0 : g.range(1, 300), notso ? (unsigned) hogl::engine::DISABLE_TSO : 0, tsv[0])));
	k.internal = e->internal_area();
	hogl::area *ar = e->add_area("A"); ar->enable();
	static const unsigned lv[] = { 0, 0, 5, 25, 50 };
	pert().level = g.pick(lv); pert().maxus = 80;
	std::atomic<unsigned> started{0}, applied{0}; // highest index requested / acked
	std::atomic<bool> stop{false}; std::atomic<unsigned> done{0};
	std::atomic<uint64_t> posted{0}, rings{0}, inst{1}, wrong{0}, crossing{0};
	unsigned nw = g.range(1, 5);
	std::vector<std::thread> th;
	struct P { std::string ring; uint64_t id, n, stamp; };
	std::vector<std::vector<P>> log(nw);
	bool useshared = g.chance(50);
	RB::options so = { 64, 0, RB::SHARED | RB::BLOCKING, 0 }, dopt = { 16, 0, g.chance(50) ? (unsigned) RB::BLOCKING : 0, 0 };
	RB *sh = e->add_ring("S", so), *dr = e->add_ring("DRV", dopt);
	for (unsigned i = 0; i < nw; i++) {
		uint64_t s = g.next();
		th.emplace_back([&, i, s] {
			rng t(s);
			while (!stop) {
				// a new ring every now and then, also while a change is under way
				uint64_t id = inst++;
				std::string nm = sf("w%u-%llu", i, (unsigned long long) id);
				RB::options o = { (unsigned) (4 << t.below(5)), (unsigned) t.below(10), RB::BLOCKING, 0 };
				RB *r;
				if (useshared && t.chance(30)) { r = sh->hold(); nm = "S"; } else r = e->add_ring(nm.c_str(), o);
				if (!r) { viol("add-ring", "refused"); break; }
				rings++;
				unsigned c = t.chance(30) ? 1 : t.below(200);
				for (unsigned n = 0; n < c && !stop; n++) {
					unsigned lo = applied;
					hogl::post(r, ar, hogl::area::INFO, (unsigned long) id, (unsigned long) n);
					unsigned hi = started;
					uint64_t st = last_stamp(); unsigned src = st >> 40;
					if (src < lo) { viol("old-timesource", "ring %s record %u stamped by timesource %u although the change to %u had returned true before the post", nm.c_str(), n, src, lo); }
					if (src > hi) { viol("early", "ring %s stamped by timesource %u, only %u requested", nm.c_str(), src, hi); }
					if (lo != hi) crossing++;
					log[i].push_back({ nm, id, n, st });
					posted++; tick();
					if (t.chance(5)) usleep(t.below(100)); else if (t.chance(20)) sched_yield();
				}
				r->release();
			}
			done++;
		});
	}
	phase("change");
	uint64_t timeouts = 0, nchanges = 0; unsigned cur = 0;
	std::vector<std::string> chain{ tsv[0]->name() }, vias;
	for (unsigned c = 0; c < changes && !violated(); c++) {
		unsigned nx = cur + 1;
		started = nx;
		RB *via = g.chance(50) ? dr : sh;
		bool shorty = g.chance(20);
		bool ok = hogl::change_timesource(via, tsv[nx], shorty ? g.range(1, 3000) : 200000000);
		if (!ok) {
			timeouts++;
			if (!shorty) { viol("change-fails", "timesource change failed on a running engine"); break; }
			// the request may or may not have been queued; find out what happened to it
			if (!hogl::flush(via, 200000000)) viol("flush", "flush failed");
			size_t s = k.nsw();
			if (s == nchanges) { continue; } // not queued: index stays
		}
		nchanges++; cur = nx; applied = nx;
		chain.push_back(tsv[nx]->name()); vias.push_back(via->name());
		for (int j = 0; j < 3; j++) if (dr->timesource() != tsv[nx] || sh->timesource() != tsv[nx]) { viol("not-applied", "ring keeps another timesource after the change"); break; }
		if (g.chance(30)) usleep(g.below(300));
		if (g.chance(20)) hogl::post(dr, ar, hogl::area::INFO, 0ul, 0ul);
		tick();
	}
	stop = true;
	if (!wait_for([&] { return done == nw || violated(); }, [&] { return posted + k.got; })) viol("stuck", "writers do not finish");
	if (violated()) { flush_report(); _exit(3); }
	for (auto &t : th) t.join();
	pert().level = 0;
	sh->release(); dr->release();
	const hogl::engine::stats st = e->get_stats();
	if (st.timesource_changed != nchanges) viol("count", "%llu changes done, engine counts %lu", (unsigned long long) nchanges, (unsigned long) st.timesource_changed);
	e.reset();
	if (k.sw.size() != nchanges) viol("announce", "%llu changes, %zu announced", (unsigned long long) nchanges, k.sw.size());
	for (size_t i = 0; i < k.sw.size() && i + 1 < chain.size(); i++)
		if (k.sw[i].first != chain[i] || k.sw[i].second != chain[i + 1]) { viol("announce", "change #%zu announced as from %s to %s, was from %s to %s", i, k.sw[i].first.c_str(), k.sw[i].second.c_str(), chain[i].c_str(), chain[i + 1].c_str()); break; }
	for (size_t i = 0; i < k.swring.size() && i < vias.size(); i++) if (k.swring[i] != vias[i]) { viol("announce", "change #%zu requested on ring %s, announced on %s", i, vias[i].c_str(), k.swring[i].c_str()); break; }
	// delivered as stamped, in ring order, nothing lost
	if (k.drops) viol("loss-reported", "%llu losses reported, none happened (%llu requests timed out)", (unsigned long long) k.drops, (unsigned long long) timeouts);
	std::map<std::pair<std::string, uint64_t>, std::map<uint64_t, uint64_t>> got;
	for (auto &x : k.recs) {
		uint64_t ls = 0; bool first = true;
		for (auto &r : x.second) {
			if (!first && r.seq <= ls) { viol("order", "ring %s out of order", x.first.c_str()); break; }
			first = false; ls = r.seq;
			if (x.first != "DRV" && !got[{ x.first, r.id }].insert({ r.n, r.ts }).second) viol("duplicate", "ring %s record %llu twice", x.first.c_str(), (unsigned long long) r.n);
		}
	}
	uint64_t cnt = 0;
	for (auto &l : log) for (auto &p : l) {
		auto &x = got[{ p.ring, p.id }]; auto it = x.find(p.n); cnt++;
		if (it == x.end()) { viol("lost", "ring %s record %llu lost", p.ring.c_str(), (unsigned long long) p.n); break; }
		if (it->second != p.stamp) { viol("restamped", "ring %s record %llu stamped %llx, delivered with %llx", p.ring.c_str(), (unsigned long long) p.n, (unsigned long long) p.stamp, (unsigned long long) it->second); break; }
	}
	if (violated()) { flush_report(); _exit(3); }
	eval(cnt); stat("changes", nchanges); stat("change_timeouts", timeouts); stat("rings_created", rings); stat("posts_while_changing", crossing);
	if (crossing) distinct(mix(seed, mix(crossing, rings)));
	sample("%llu changes (%llu timed out) against %u writers creating %llu rings: %llu records, %llu posted while a change was under way", (unsigned long long) nchanges, (unsigned long long) timeouts, nw, (unsigned long long) rings, (unsigned long long) cnt, (unsigned long long) crossing);
}

// several threads change at once
static void racing_case(uint64_t seed, unsigned changes)
{
	rng g(seed);
	bool notso = g.chance(40);
	cap_format f; hogl::output_null out(f); Sink k;
	f.on = [&](const hogl::format::data &d, const hogl::record &r) { k.on(d, r); };
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(g.range(1, 256), g.chance(50) ? 0 : g.range(1, 200), notso ? (unsigned) hogl::engine::DISABLE_TSO : 0, tsv[0])));
	k.internal = e->internal_area();
	hogl::area *ar = e->add_area("A"); ar->enable();
	static const unsigned lv[] = { 0, 5, 25 };
	pert().level = g.pick(lv); pert().maxus = 80;
	unsigned nt = g.range(2, 4); std::atomic<unsigned> done{0}; std::atomic<uint64_t> ok{0}, posted{0};
	std::vector<std::thread> th; std::vector<RB *> r(nt);
	RB::options so = { 16, 0, RB::SHARED | RB::BLOCKING, 0 };
	bool one = g.chance(30);
	for (unsigned i = 0; i < nt; i++) r[i] = e->add_ring(one ? "S" : sf("r%u", i).c_str(), so);
	for (unsigned i = 0; i < nt; i++) {
		uint64_t s = g.next();
		th.emplace_back([&, i, s] {
			rng t(s);
			for (unsigned c = 0; c < changes; c++) {
				if (t.chance(60)) { if (hogl::change_timesource(r[i], tsv[1 + i * changes + c], 200000000)) ok++; else viol("change-fails", "change failed"); }
				hogl::post(r[i], ar, hogl::area::INFO, (unsigned long) i, (unsigned long) c); posted++; tick();
			}
			done++;
		});
	}
	phase("race");
	if (!wait_for([&] { return done == nt; }, [&] { return ok + posted + k.got; })) viol("stuck", "changes do not return");
	if (violated()) { flush_report(); _exit(3); }
	for (auto &t : th) t.join();
	pert().level = 0;
	if (!wait_for([&] { return k.got >= posted; })) viol("lost", "%llu of %llu", (unsigned long long) k.got, (unsigned long long) posted);
	{
		std::lock_guard<std::mutex> l(k.m);
		if (k.sw.size() != ok) viol("announce", "%llu changes, %zu announced", (unsigned long long) ok, k.sw.size());
		std::string cur = tsv[0]->name();
		for (auto &x : k.sw) { if (x.first != cur) { viol("announce", "announced from %s, was %s", x.first.c_str(), cur.c_str()); break; } cur = x.second; }
		RB *n = 0; k.m.unlock(); n = e->add_ring("late", so); k.m.lock();
		if (n->timesource()->name() != cur) viol("not-applied", "new ring uses %s, last announced is %s", n->timesource()->name(), cur.c_str());
		for (auto x : r) if (x->timesource() != n->timesource()) viol("not-applied", "rings use %s and %s after all changes returned", x->timesource()->name(), n->timesource()->name());
		n->release();
		if (k.drops) viol("loss-reported", "losses reported, none happened");
	}
	if (violated()) { flush_report(); _exit(3); }
	for (auto x : r) x->release();
	e.reset();
	eval(ok); stat("racing_changes", ok); distinct(mix(seed, ok));
}

// the engine is held up while changes are requested: some time out in a full ring, some are queued
static void stalled_case(uint64_t seed)
{
	rng g(seed); tick();
	bool notso = g.chance(30);
	cap_format f; hogl::output_null out(f); Sink k;
	f.on = [&](const hogl::format::data &d, const hogl::record &r) { k.on(d, r); };
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(g.pick((const unsigned[]) { 4, 64, 4096 }), g.range(0, 200), notso ? (unsigned) hogl::engine::DISABLE_TSO : 0, tsv[0])));
	k.internal = e->internal_area();
	hogl::area *ar = e->add_area("A"); ar->enable();
	unsigned nr = g.range(1, 3), nx = 1; std::vector<RB *> rs;
	struct Want { std::string ring; uint64_t seq, stamp, id; };
	std::vector<std::vector<Want>> want(nr); uint64_t posted = 0, queued = 0, refused = 0, flushes = 0, nowaits = 0;
	for (unsigned i = 0; i < nr; i++) { RB::options o = { (unsigned) (2 << g.below(4)), 0, g.chance(50) ? (unsigned) RB::SHARED : 0, 0 }; rs.push_back(e->add_ring(sf("r%u", i).c_str(), o)); }
	RB::options go = { 8, 0, 0, 0 }; RB *gr = e->add_ring("GATE", go);
	std::set<std::string> names;
	f.use_gate = true;
	for (unsigned rd = g.range(1, 4); rd && !violated(); rd--) {
		f.gate.close();
		hogl::post(gr, ar, hogl::area::INFO, 99ul, 0ul); posted++;
		phase("stall");
		if (!wait_for([&] { return f.gate.blocked(); })) { viol("not-delivered", "gate record not delivered"); break; }
		for (unsigned n = g.range(4, 40); n; n--) {
			unsigned i = g.below(nr); RB *r = rs[i];
			if (g.chance(20) && nx < MAXTS - 1) {
				bool room = r->room(); uint64_t q = r->seqnum(), d = r->dropcnt(); unsigned sz = r->size();
				bool nowait = g.chance(30), ok = hogl::change_timesource(r, tsv[nx], nowait ? 0 : 1000);
				if (nowait && ok != room) { viol("no-wait", "a change that is not to wait returns %s with %s", ok ? "true" : "false", room ? "room in the ring" : "a full ring"); break; }
				if (ok && !nowait) { viol("ack", "change returned true while the engine was held up"); break; }
				if (room) { names.insert(tsv[nx]->name()); queued++; } else refused++;
				if (nowait) nowaits++;
				if (r->dropcnt() != d) viol("loss-reported", "a change that timed out counts as a drop");
				if (!room && (r->size() != sz || r->seqnum() != q)) viol("side-effect", "a change that found no room changed the ring: %u records, number %llu instead of %u, %llu", r->size(), (unsigned long long) r->seqnum(), sz, (unsigned long long) q);
				nx++;
			} else if (g.chance(10)) {
				bool room = r->room(); uint64_t q = r->seqnum();
				if (hogl::flush(r, 1000)) { viol("flush", "flush returned true while the engine was held up"); break; }
				if (!room && r->seqnum() != q) viol("side-effect", "a flush that found no room changed the ring's number");
				flushes++;
			} else if (r->room()) {
				uint64_t q = r->seqnum();
				hogl::post(r, ar, hogl::area::INFO, (unsigned long) i, (unsigned long) posted);
				want[i].push_back({ r->name(), q, last_stamp(), posted }); posted++;
			}
		}
		f.gate.open();
		phase("drain");
		if (!wait_for([&] { return k.got >= posted; })) { viol("lost", "%llu of %llu records", (unsigned long long) k.got, (unsigned long long) posted); break; }
		for (unsigned i = 0; i < nr && !violated(); i++) if (!wait_for([&] { return !rs[i]->size(); })) viol("stuck", "ring not emptied");
		// the next record tells whether the engine believes something is missing
		for (unsigned i = 0; i < nr && !violated(); i++) { uint64_t q = rs[i]->seqnum(); hogl::post(rs[i], ar, hogl::area::INFO, (unsigned long) i, (unsigned long) posted); want[i].push_back({ rs[i]->name(), q, last_stamp(), posted }); posted++; }
		if (!violated() && !wait_for([&] { return k.got >= posted; })) viol("lost", "%llu of %llu records", (unsigned long long) k.got, (unsigned long long) posted);
		if (violated()) break;
		std::lock_guard<std::mutex> l(k.m);
		if (k.drops) viol("loss-reported", "%llu losses reported, none happened (%llu changes refused, %llu queued, %llu flushes timed out)", (unsigned long long) k.drops, (unsigned long long) refused, (unsigned long long) queued, (unsigned long long) flushes);
		if (k.sw.size() != queued) viol("announce", "%llu changes queued, %zu announced", (unsigned long long) queued, k.sw.size());
		std::string cur = tsv[0]->name(); std::set<std::string> seen;
		for (auto &x : k.sw) { if (x.first != cur) { viol("announce", "announced from %s, was %s", x.first.c_str(), cur.c_str()); break; } cur = x.second; if (!names.count(cur) || !seen.insert(cur).second) viol("announce", "change to %s announced, which was refused or announced before", cur.c_str()); }
		for (auto x : rs) if (x->timesource()->name() != cur) { viol("not-applied", "ring uses %s, last announced is %s", x->timesource()->name(), cur.c_str()); break; }
		for (unsigned i = 0; i < nr; i++) {
			auto &y = k.recs[rs[i]->name()];
			if (y.size() != want[i].size()) { viol("lost", "ring %u: %zu of %zu records", i, y.size(), want[i].size()); break; }
			for (size_t j = 0; j < y.size(); j++) if (y[j].seq != want[i][j].seq || y[j].ts != want[i][j].stamp || y[j].n != want[i][j].id) { viol("order", "ring %u record #%zu delivered with number %llu stamp %llx, posted with %llu %llx", i, j, (unsigned long long) y[j].seq, (unsigned long long) y[j].ts, (unsigned long long) want[i][j].seq, (unsigned long long) want[i][j].stamp); break; }
		}
	}
	f.gate.open();
	if (violated()) { flush_report(); _exit(3); }
	const hogl::engine::stats st = e->get_stats();
	if (st.recs_dropped) viol("loss-reported", "engine counts %lu drops", (unsigned long) st.recs_dropped);
	for (auto x : rs) x->release();
	gr->release();
	e.reset();
	eval(posted); stat("stalled_changes_refused", refused); stat("stalled_changes_queued", queued); stat("stalled_flushes", flushes); stat("changes_without_waiting", nowaits);
	if (refused + queued) distinct(mix(seed, mix(refused, queued)));
}

// rings that come from elsewhere use the timesource of the engine they are added to
static void moved_case(uint64_t seed)
{
	rng g(seed); tick();
	RB::options o = { 64, 0, RB::IMMORTAL | (g.chance(50) ? (unsigned) RB::SHARED : 0), 0 };
	std::vector<RB *> rs; for (unsigned i = 0; i < 2; i++) rs.push_back((new RB(sf("m%u", i).c_str(), o))->hold());
	cap_format f; hogl::output_null out(f);
	std::map<std::string, std::pair<uint64_t, uint64_t>> exp; std::atomic<uint64_t> got{0}; uint64_t posted = 0;
	const hogl::area *internal = 0; unsigned cur = 0; std::string bad;
	std::atomic<unsigned> lo{0};
	f.on = [&](const hogl::format::data &d, const hogl::record &r) {
		if (r.area == internal) return;
		unsigned src = r.timestamp.to_nsec() >> 40;
		if (src != r.get_arg_val64(0) && bad.empty()) bad = sf("ring %s: record stamped by timesource %u, the engine used %llu", d.ring_name, src, (unsigned long long) r.get_arg_val64(0));
		got++;
	};
	for (unsigned k = g.range(2, 6); k && !violated(); k--) {
		cur = g.below(MAXTS);
		bool deflt = g.chance(30);
		hogl::engine::options eo = engine_opts::make(64, g.range(0, 100), g.chance(50) ? (unsigned) hogl::engine::DISABLE_TSO : 0, tsv[cur]);
		hogl::engine *e;
		if (deflt) { hogl::activate(out, eo); e = hogl::default_engine; } else e = new hogl::engine(out, eo);
		internal = e->internal_area();
		hogl::area *ar = e->add_area("A"); ar->enable();
		std::vector<RB *> use;
		for (RB *r : rs) if (g.chance(70)) { if (g.chance(50)) { unsigned n = g.below(MAXTS); r->timesource(tsv[n]); } if (!e->add_ring(r)) { viol("add-ring", "ring refused"); break; } use.push_back(r); }
		if (deflt) use.push_back(&hogl::default_ring);
		RB::options no = { 32, 0, 0, 0 }; RB *nr = e->add_ring("new", no); use.push_back(nr);
		for (unsigned j = g.range(1, 6); j && !violated(); j--) {
			for (RB *r : use) { if (r->timesource() != tsv[cur]) { viol("not-applied", "ring %s uses timesource %s, its engine %s", r->name(), r->timesource()->name(), tsv[cur]->name()); break; } hogl::post(r, ar, hogl::area::INFO, (unsigned long) cur); posted++; }
			if (!wait_for([&] { return got == posted; })) { viol("lost", "%llu of %llu records", (unsigned long long) got, (unsigned long long) posted); break; }
			if (g.chance(50)) { unsigned n = g.below(MAXTS); if (!hogl::change_timesource(g.pick(use), tsv[n], 200000000)) viol("change-fails", "change failed"); cur = n; }
		}
		if (violated()) { flush_report(); _exit(3); }
		nr->release();
		for (RB *r : rs) r->release();
		if (deflt) hogl::deactivate(); else delete e;
		for (RB *r : rs) r->hold();
		if (!bad.empty()) viol("old-timesource", "%s", bad.c_str());
		stat("engines_joined");
	}
	if (violated()) { flush_report(); _exit(3); }
	for (RB *r : rs) { r->release(); delete r; }
	eval(posted); distinct(mix(seed, posted));
}

// sources that know themselves by their name
static hogl::timestamp named_cb(const hogl::timesource *ts) { return last_stamp() = ((uint64_t) (atoi(ts->name() + 1) + 1) << 40) + tcnt.fetch_add(1); }

// through the ring of the thread; copies of sources; back to the default one
static void thread_case(uint64_t seed)
{
	rng g(seed); tick();
	cap_format f; hogl::output_null out(f); Sink k;
	f.on = [&](const hogl::format::data &d, const hogl::record &r) { k.on(d, r); };
	std::vector<hogl::timesource *> src;
	for (unsigned i = 0; i < 6; i++) { hogl::timesource *o = new hogl::timesource(sf("c%u", i).c_str(), named_cb); if (g.chance(60)) { hogl::timesource *c = new hogl::timesource(*o); delete o; o = c; stat("copied_sources"); } src.push_back(o); }
	hogl::timesource *special[] = { &hogl::default_timesource, &hogl::realtime_timesource, &hogl::monotonic_timesource };
	int cur = g.chance(50) ? -1 : (int) g.below(6);     // -1: the default one
	hogl::engine::options eo = engine_opts::make(g.pick((const unsigned[]) { 8, 64 }), g.range(0, 200), g.chance(40) ? (unsigned) hogl::engine::DISABLE_TSO : 0, cur < 0 ? 0 : src[cur]);
	hogl::activate(out, eo); k.internal = hogl::default_engine->internal_area();
	hogl::area *ar = hogl::add_area("A"); ar->enable();
	auto name = [&](int c) { return std::string(c < 0 ? special[-c - 1]->name() : sf("c%d", c).c_str()); };
	std::vector<std::pair<std::string, std::string>> chain; uint64_t posted = 0; unsigned nt = g.range(1, 4);
	std::map<std::string, std::vector<uint64_t>> stamps;
	for (unsigned t = 0; t < nt && !violated(); t++) {
		uint64_t s = g.next();
		std::thread th([&, t, s] {
			rng q(s); std::unique_ptr<hogl::tls> own; std::string rn = hogl::default_ring.name();
			if (q.chance(70)) { hogl::ringbuf::options o = { 64, (unsigned) q.below(5), RB::BLOCKING, 0 }; rn = sf("t%u", t); own.reset(new hogl::tls(rn.c_str(), o)); }
			for (unsigned i = q.range(1, 25); i && !violated(); i--) {
				if (q.chance(30)) {
					int nx = (int) q.below(9) - 3;
					if (!hogl::change_timesource(nx < -1 ? special[-nx - 1] : nx < 0 ? 0 : src[nx], 200000000)) { viol("change-fails", "change through the ring of the thread fails"); break; }
					chain.push_back({ name(cur), name(nx) }); cur = nx; stat(nx < 0 ? nx == -3 ? "changes_to_monotonic" : "changes_to_realtime" : "changes_by_thread");
				}
				if (!own && hogl::default_ring.room() < 2) hogl::flush(200000000);
				clockid_t ck = cur == -3 ? CLOCK_MONOTONIC : CLOCK_REALTIME;
				timespec a, b; clock_gettime(ck, &a); last_stamp() = 0;
				hogl::post(ar, hogl::area::INFO, (unsigned long) t, (unsigned long) posted);
				clock_gettime(ck, &b);
				uint64_t lo = a.tv_sec * 1000000000ull + a.tv_nsec, hi = b.tv_sec * 1000000000ull + b.tv_nsec;
				posted++;
				if (cur >= 0) { lo = hi = last_stamp(); if (lo >> 40 != (unsigned) cur + 1) { viol("old-timesource", "stamped by source %llu, the last change was to %s", (unsigned long long) (lo >> 40), name(cur).c_str()); break; } }
				else if (last_stamp()) { viol("old-timesource", "stamped by source %llu after the change back to the default one", (unsigned long long) (last_stamp() >> 40)); break; }
				stamps[rn].push_back(lo); stamps[rn].push_back(hi);
			}
			if (!hogl::flush(200000000)) viol("flush", "flush fails");
		});
		th.join();
	}
	if (!violated() && !wait_for([&] { return k.got == posted; }, [&] { return k.got.load(); })) viol("lost", "%llu of %llu records", (unsigned long long) k.got, (unsigned long long) posted);
	if (violated()) { flush_report(); _exit(3); }
	hogl::deactivate();
	if (k.sw != chain) viol("announce", "%zu changes, %zu announced%s", chain.size(), k.sw.size(), k.sw.size() == chain.size() ? ", with other names" : "");
	for (auto &x : stamps) {
		auto &r = k.recs[x.first];
		for (size_t i = 0; i < r.size() && 2 * i + 1 < x.second.size(); i++) if (r[i].ts < x.second[2 * i] || r[i].ts > x.second[2 * i + 1]) { viol("restamped", "ring %s record %zu is stamped %llu, not within %llu and %llu", x.first.c_str(), i, (unsigned long long) r[i].ts, (unsigned long long) x.second[2 * i], (unsigned long long) x.second[2 * i + 1]); break; }
	}
	if (violated()) { flush_report(); _exit(3); }
	hogl::default_ring.timesource(&hogl::default_timesource);
	for (auto p : src) delete p;
	eval(posted); distinct(mix(seed, posted)); stat("thread_cases");
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), na = argn(argc, argv, 2, 10), changes = argn(argc, argv, 3, 100), nb = argn(argc, argv, 4, 10);
	for (unsigned i = 0; i < MAXTS; i++) tsv[i] = new hogl::timesource(sf("ts%u", i).c_str(), which_cb);
	rule("timesources whose stamps identify them, changed while other threads post, create rings and flush; non-trivial: posts that overlapped a change, distinct by (case, overlaps, rings)");
	pert().seed = seed;
	wd().start(60);
	for (uint64_t i = 0; i < na && !violated(); i++) driver_case(mix(seed, i), std::min<uint64_t>(changes, MAXTS - 2));
	for (uint64_t i = 0; i < nb && !violated(); i++) racing_case(mix(seed, 1000 + i), 40);
	for (uint64_t i = 0; i < 2 * na && !violated(); i++) stalled_case(mix(seed, 2000 + i));
	for (uint64_t i = 0; i < 2 * na && !violated(); i++) moved_case(mix(seed, 3000 + i));
	for (uint64_t i = 0; i < 2 * na && !violated(); i++) thread_case(mix(seed, 4000 + i));
	hogl::default_ring.timesource(&hogl::default_timesource);
	for (unsigned i = 0; i < MAXTS; i++) delete tsv[i];
	return finish();
}
