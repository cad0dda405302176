// L07: rings live exactly as long as needed; exiting threads lose nothing.
#define VH_MAIN
#include "perturb.hpp"
#include "cap.hpp"
using namespace vh;
typedef hogl::ringbuf RB;

struct Sink {
	std::mutex m; const hogl::area *internal = 0;
	std::map<uint64_t, uint64_t> next; std::atomic<uint64_t> got{0};
	std::map<uint64_t, std::string> name; // incarnation -> ring name it was posted to
	void on(const hogl::format::data &d, const hogl::record &r)
	{
		if (r.area == internal) { if (r.section == hogl::internal::DROPMARK) viol("drop", "drop mark although nothing was dropped"); return; }
		uint64_t id = r.get_arg_val64(0), n = r.get_arg_val64(1);
		std::lock_guard<std::mutex> l(m);
		uint64_t &x = next[id];
		if (x != n) viol(n > x ? "lost" : "duplicate", "owner #%llu of ring '%s': record %llu, expected %llu", (unsigned long long) id, d.ring_name, (unsigned long long) n, (unsigned long long) x);
		x = n + 1;
		auto it = name.find(id);
		if (it != name.end() && it->second != d.ring_name) viol("ring-name", "record of '%s' delivered as '%s'", it->second.c_str(), d.ring_name);
		got++;
	}
};

// threads that start and exit continuously
static void churn_case(uint64_t seed, unsigned rounds)
{
	rng g(seed);
	bool notso = g.chance(50);
	hogl::timesource ts("vh", logical_cb);
	cap_format f; hogl::output_null out(f); Sink k;
	f.on = [&](const hogl::format::data &d, const hogl::record &r) { k.on(d, r); };
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(g.chance(50) ? g.range(1, 64) : 4096, g.chance(50) ? 0 : g.range(1, 300), notso ? (unsigned) hogl::engine::DISABLE_TSO : 0, &ts)));
	k.internal = e->internal_area();
	hogl::area *ar = e->add_area("A"); ar->enable();
	static const unsigned lv[] = { 0, 0, 5, 20, 40 };
	pert().level = g.pick(lv); pert().maxus = 100;
	unsigned par = g.range(1, 6);
	std::atomic<uint64_t> inst{1}, posted{0}, scopes{0}, refused{0}, reused{0}, done{0};
	std::vector<std::thread> drv;
	// an immortal ring owned by the test: must never be freed
	static std::vector<std::unique_ptr<RB>> keep;
	RB::options io = { 64, 0, RB::IMMORTAL | RB::SHARED | RB::BLOCKING, 0 };
	keep.emplace_back(new RB("IMM", io));
	RB *imm = keep.back().get(); imm->hold();
	if (!e->add_ring(imm)) viol("add-ring", "immortal ring refused");
	for (unsigned i = 0; i < par; i++) {
		uint64_t s = g.next();
		drv.emplace_back([&, i, s] {
			rng t(s);
			for (unsigned rd = 0; rd < rounds && !violated(); rd++) {
				uint64_t s2 = t.next();
				std::thread th([&, s2] {
					rng u(s2);
					unsigned mode = u.below(4);
					// 0: own reusable name, 1: fresh name, 2: name others use too, 3: shared name
					uint64_t id = inst++;
					std::string nm = mode == 0 ? sf("own%u", i) : mode == 1 ? sf("fresh%llu", (unsigned long long) id) : mode == 2 ? "common" : "shared";
					RB::options o = { (unsigned) (4 << u.below(5)), (unsigned) u.below(10), (mode == 3 ? (unsigned) RB::SHARED : mode != 1 ? (unsigned) RB::REUSABLE : 0) | (unsigned) RB::BLOCKING, 0 };
					if (u.chance(10)) { // the immortal one
						uint64_t c = u.below(8);
						imm->lock(); for (uint64_t n = 0; n < c; n++) { hogl::post_unlocked(imm, ar, hogl::area::INFO, (unsigned long) id, (unsigned long) n); posted++; } imm->unlock();
						return;
					}
					hogl::tls scope(nm, o, e.get());
					if (!scope.valid()) {
						refused++;
						if (mode != 2 && mode != 0) viol("add-refused", "ring '%s' refused", nm.c_str());
						return;
					}
					scopes++; tick();
					if (hogl::tls::ring()->seqnum()) reused++;
					{ std::lock_guard<std::mutex> l(k.m); k.name[id] = nm; }
					uint64_t c = u.chance(20) ? 0 : u.below(60);
					for (uint64_t n = 0; n < c; n++) {
						if (u.chance(50)) hogl::post(ar, hogl::area::INFO, (unsigned long) id, (unsigned long) n);
						else hogl::post(ar, hogl::area::WARN, (unsigned long) id, (unsigned long) n, "text");
						posted++;
						if (u.chance(3)) usleep(u.below(150));
					}
				});
				th.join();
				if (t.chance(10)) usleep(t.below(300));
			}
			done++;
		});
	}
	phase("churn");
	if (!wait_for([&] { return done == par || violated(); }, [&] { return posted + k.got + scopes + refused; })) viol("stuck", "threads do not finish");
	if (violated()) { flush_report(); _exit(3); }
	for (auto &t : drv) t.join();
	pert().level = 0;
	phase("drain");
	// everything that exited threads left behind comes out and their rings go away
	hogl::string_list l;
	if (!wait_for([&] { l.clear(); e->list_rings(l); return l.size() == 1; }, [&] { return (uint64_t) k.got; })) viol("orphan-kept", "%zu rings of exited threads stay registered, e.g. %s", l.size() - 1, l.empty() ? "" : l.front().c_str());
	if (!wait_for([&] { return k.got >= posted; }, [&] { return (uint64_t) k.got; }) || k.got != posted) viol("lost", "%llu records posted by exited threads, %llu delivered", (unsigned long long) posted, (unsigned long long) k.got);
	if (imm->refcnt() != 2) viol("refcount", "immortal ring has %d references, owner and engine expected", imm->refcnt());
	if (violated()) { flush_report(); _exit(3); }
	imm->release();
	if (!wait_for([&] { l.clear(); e->list_rings(l); return l.empty(); })) viol("orphan-kept", "abandoned immortal ring stays registered");
	if (!wait_for([&] { return imm->refcnt() == 0; })) viol("refcount", "dropped immortal ring has %d references", imm->refcnt());
	e.reset();
	// still usable: never freed
	hogl::area a2("x"); a2.enable();
	uint64_t sq = imm->seqnum(); hogl::post(imm, &a2, hogl::area::INFO, 1);
	if (imm->seqnum() != sq + 1) viol("immortal", "immortal ring unusable after its engine is gone");
	keep.pop_back();
	eval(k.got); stat("scopes", scopes); stat("scopes_refused", refused); stat("scopes_on_reused_ring", reused);
	distinct(mix(seed, mix(scopes, reused)));
	sample("churn: %u x %u threads, %llu scopes (%llu picked up an abandoned ring, %llu refused), %llu records all delivered, all rings dropped", par, rounds, (unsigned long long) scopes, (unsigned long long) reused, (unsigned long long) refused, (unsigned long long) k.got);
}

// one ring: release and pick-up by name aimed at the moment the engine drops it
static void reacquire_case(uint64_t seed, unsigned rounds)
{
	rng g(seed);
	bool notso = g.chance(50), shared = g.chance(30);
	hogl::timesource ts("vh", logical_cb);
	cap_format f; hogl::output_null out(f); Sink k;
	f.on = [&](const hogl::format::data &d, const hogl::record &r) { k.on(d, r); };
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(g.range(1, 64), g.range(0, 30), notso ? (unsigned) hogl::engine::DISABLE_TSO : 0, &ts)));
	k.internal = e->internal_area();
	hogl::area *ar = e->add_area("A"); ar->enable();
	static const unsigned lv[] = { 0, 10, 30, 60 };
	pert().level = g.pick(lv); pert().maxus = 80;
	uint64_t posted = 0, same = 0, fresh = 0, id = 1;
	RB::options o = { 64, 0, (shared ? (unsigned) RB::SHARED : (unsigned) RB::REUSABLE) | (unsigned) RB::BLOCKING, 0 };
	phase("reacquire");
	for (unsigned i = 0; i < rounds && !violated(); i++) {
		RB *r = g.chance(80) ? e->add_ring("R", o) : e->find_ring("R");
		if (!r) { tick(); continue; }
		if (r->seqnum()) same++; else fresh++;
		id++;
		uint64_t c = g.below(6);
		for (uint64_t n = 0; n < c; n++) { hogl::post(r, ar, hogl::area::INFO, (unsigned long) id, (unsigned long) n); posted++; }
		// while we hold it the ring is served: records come out although we do not let go
		if (g.chance(25) && !wait_for([&] { return k.got >= posted; }, [&] { return (uint64_t) k.got; })) viol("not-served", "ring picked up by name is not served any more: %llu of %llu delivered", (unsigned long long) k.got, (unsigned long long) posted);
		if (g.chance(10)) { RB *q = e->find_ring("R"); if (q != r) viol("not-registered", "owned ring is not registered under its name"); if (q) q->release(); }
		r->release();
		unsigned w = g.below(4);
		if (w == 1) sched_yield(); else if (w == 2) { unsigned n = g.below(5000); for (volatile unsigned j = 0; j < n; j++) ; } else if (w == 3) usleep(g.below(60));
		tick();
	}
	pert().level = 0;
	hogl::string_list l;
	if (!violated() && !wait_for([&] { l.clear(); e->list_rings(l); return l.empty(); })) viol("orphan-kept", "abandoned ring stays registered");
	if (!violated() && k.got != posted) viol("lost", "%llu posted, ring dropped, %llu delivered", (unsigned long long) posted, (unsigned long long) k.got);
	if (violated()) { flush_report(); _exit(3); }
	e.reset();
	eval(posted); stat("reacquired_same_ring", same); stat("reacquired_new_ring", fresh);
	if (same && fresh) distinct(mix(seed, mix(same, fresh)));
}

// the engine is kept busy elsewhere while owners come and go
static void pending_case(uint64_t seed)
{
	rng g(seed);
	bool notso = g.chance(50);
	hogl::timesource ts("vh", logical_cb);
	cap_format f; hogl::output_null out(f); Sink k;
	f.on = [&](const hogl::format::data &d, const hogl::record &r) { k.on(d, r); };
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(g.chance(50) ? g.range(1, 16) : 1024, g.range(0, 200), notso ? (unsigned) hogl::engine::DISABLE_TSO : 0, &ts)));
	k.internal = e->internal_area();
	hogl::area *ar = e->add_area("A"); ar->enable();
	RB::options o = { 8, (unsigned) g.below(5), 0, 0 };
	RB *gr = e->add_ring("GATE", o);
	f.use_gate = true; f.gate.close();
	hogl::post(gr, ar, hogl::area::INFO, 0ul, 0ul);
	uint64_t posted = 1;
	if (!wait_for([&] { return f.gate.blocked(); })) { viol("not-delivered", "gate record not delivered"); flush_report(); _exit(3); }
	unsigned n = g.range(1, 20), freed = 0;
	std::vector<std::string> names;
	for (unsigned i = 0; i < n; i++) {
		RB::options ro = { (unsigned) (2 << g.below(7)), (unsigned) g.below(10), g.chance(50) ? (unsigned) RB::REUSABLE : 0, (unsigned) g.below(600) };
		RB *r = e->add_ring(sf("p%u", i).c_str(), ro);
		names.push_back(sf("p%u", i));
		unsigned c = g.chance(30) ? r->capacity() - 1 : g.below(r->capacity());
		for (unsigned j = 0; j < c; j++) { hogl::post(r, ar, hogl::area::INFO, (unsigned long) (i + 1), (unsigned long) j, rnd_str(g, g.below(100))); posted++; }
		r->release();          // the engine is the only one left
		if (g.chance(30)) { RB *q = e->find_ring(names.back().c_str()); if (q != r) viol("dropped-early", "ring with pending records not registered"); if (q) { if (q->size() != c) viol("dropped-early", "pending records gone"); q->release(); } }
		freed++;
	}
	f.gate.open();
	phase("pending");
	hogl::string_list l;
	if (!wait_for([&] { l.clear(); e->list_rings(l); return l.size() == 1; }, [&] { return (uint64_t) k.got; })) viol("orphan-kept", "%zu abandoned rings stay registered", l.size() - 1);
	if (!violated() && !wait_for([&] { return k.got >= posted; }, [&] { return (uint64_t) k.got; })) viol("lost", "%llu pending records of abandoned rings, %llu delivered", (unsigned long long) posted, (unsigned long long) k.got);
	// names are free again
	for (auto &x : names) { RB *r = e->add_ring(x.c_str(), o); if (!r) { viol("name-kept", "name of a dropped ring is not available"); break; } if (r->seqnum()) viol("name-kept", "dropped ring came back"); r->release(); }
	// the number of passes to get there
	const volatile hogl::engine::stats &st = (const volatile hogl::engine::stats &) e->get_stats();
	uint64_t l0 = st.loops;
	RB *r = e->add_ring("last", o); r->release();
	if (!wait_for([&] { RB *q = e->find_ring("last"); if (q) q->release(); else return true; return false; })) viol("orphan-kept", "abandoned ring stays registered");
	stat("passes_to_drop_total", st.loops - l0);
	if (violated()) { flush_report(); _exit(3); }
	gr->release();
	e.reset();
	eval(posted); stat("pending_rings", freed);
	distinct(mix(seed, mix(posted, n)));
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), na = argn(argc, argv, 2, 8), rounds = argn(argc, argv, 3, 40), nb = argn(argc, argv, 4, 8), nc = argn(argc, argv, 5, 20);
	rule("threads starting and exiting with own, fresh, common and shared ring names; one ring released and picked up around its drop; rings abandoned with pending records behind a stalled engine; distinct by (case, scopes, reuses)");
	pert().seed = seed;
	wd().start(60);
	for (uint64_t i = 0; i < na && !violated(); i++) churn_case(mix(seed, i), rounds);
	for (uint64_t i = 0; i < nb && !violated(); i++) reacquire_case(mix(seed, 1000 + i), rounds * 20);
	for (uint64_t i = 0; i < nc && !violated(); i++) pending_case(mix(seed, 2000 + i));
	return finish();
}
