// S03: default engine cycles and per-thread scopes against a model of both.
#define VH_MAIN
#include "perturb.hpp"
#include "cap.hpp"
#include <hogl/engine.hpp>
#include <hogl/ring.hpp>
#include <hogl/area.hpp>
#include <hogl/mask.hpp>
#include <hogl/flush.hpp>
using namespace vh;
typedef hogl::ringbuf RB;
#ifdef VH_RING_OPTS
namespace hogl { ringbuf::options default_ring_options = VH_RING_OPTS; }
#endif

static hogl::timesource ts_a("A", logical_cb), ts_b("B", logical_cb);
static hogl::timesource *const srcs[] = { &ts_a, &ts_b };
static const char *secs[] = { "S0", "S1", 0 };
static hogl::area *A;

typedef std::pair<uint64_t, uint64_t> id; // thread, number
struct sink { // what one engine delivered
	std::mutex m; const hogl::area *internal = 0; bool tso = true;
	std::map<std::string, std::vector<id>> got; std::map<std::string, uint64_t> errors, warns, marked; std::map<std::string, std::pair<bool, uint64_t>> last; uint64_t pendmark = 0; std::string pendring; std::atomic<uint64_t> n{0};
	uint64_t gaps = 0, other = 0;
	void on(const hogl::format::data &d, const hogl::record &r)
	{
		std::lock_guard<std::mutex> l(m); std::string ring = d.ring_name;
		if (r.area == internal && r.section == hogl::internal::DROPMARK) { if (pendmark) viol("mark", "two marks in a row for %s", ring.c_str()); pendmark = r.get_arg_val64(1); pendring = ring; return; }
		if (r.area == internal && r.section == hogl::internal::TSOFULLMARK) { other++; return; }
		auto &la = last[ring];
		uint64_t gap = la.first && r.seqnum > la.second ? r.seqnum - la.second - 1 : 0; // (the name may be taken by a new ring)
		if (la.first && r.seqnum <= la.second && r.seqnum) viol("order", "ring %s: record %llu after %llu", ring.c_str(), (unsigned long long) r.seqnum, (unsigned long long) la.second);
		la = { true, r.seqnum };
		if (pendmark && pendring != ring) viol("mark", "loss announced for %s, next record is from %s", pendring.c_str(), ring.c_str());
		if (tso && gap != pendmark) viol("mark", "ring %s: %llu sequence numbers are missing, %llu losses announced", ring.c_str(), (unsigned long long) gap, (unsigned long long) pendmark);
		if (pendmark) marked[ring] += pendmark;
		pendmark = 0; gaps += gap;
		if (r.area == internal) { if (r.section == hogl::internal::ERROR) errors[ring]++; else if (r.section == hogl::internal::WARN) warns[ring]++; else other++; return; }
		if (r.area != A) { viol("area", "record of an unknown area in %s", ring.c_str()); return; }
		got[ring].push_back({ r.get_arg_val64(0), r.get_arg_val64(1) }); n++;
	}
};
struct expectations { std::mutex m; std::map<std::string, std::vector<id>> want; std::map<std::string, uint64_t> errors, warns; std::map<std::string, uint64_t> refused; };

static std::mutex dm; // serialises the users of the default ring, which loses records when it is full
static std::atomic<uint64_t> posted, scopes, refused_, deep, shared_scopes, contested_won, contested_lost, stale;

static uint64_t compare(const char *who, sink &s, expectations &x)
{
	uint64_t total = 0;
	for (auto &w : x.want) {
		auto &g = s.got[w.first];
		std::map<uint64_t, std::vector<uint64_t>> a, b;
		for (auto &i : w.second) a[i.first].push_back(i.second);
		for (auto &i : g) b[i.first].push_back(i.second);
		total += w.second.size();
		if (a == b) continue;
		for (auto &t : a) if (t.second != b[t.first]) {
			size_t k = 0; while (k < t.second.size() && k < b[t.first].size() && t.second[k] == b[t.first][k]) k++;
			viol("delivery", "%s: ring %s, thread %llu: %zu records posted, %zu delivered there; they differ at #%zu", who, w.first.c_str(), (unsigned long long) t.first, t.second.size(), b[t.first].size(), k);
			break;
		}
		for (auto &t : b) if (!a.count(t.first)) viol("delivery", "%s: ring %s delivers %zu records of thread %llu, which posted none there", who, w.first.c_str(), t.second.size(), (unsigned long long) t.first);
	}
	for (auto &g : s.got) if (!g.second.empty() && !x.want.count(g.first)) viol("delivery", "%s: %zu records delivered by ring %s, none were posted there", who, g.second.size(), g.first.c_str());
	for (auto &e : x.errors) if (s.errors[e.first] != e.second) viol("says-so", "%s: %llu scopes refused while %s was current, %llu reported there", who, (unsigned long long) e.second, e.first.c_str(), (unsigned long long) s.errors[e.first]);
	for (auto &e : s.errors) if (e.second && !x.errors.count(e.first)) viol("says-so", "%s: %llu errors reported in %s, none expected", who, (unsigned long long) e.second, e.first.c_str());
	s.got.clear(); s.errors.clear(); s.warns.clear(); x.want.clear(); x.errors.clear();
	return total;
}

struct world { // one activation
	hogl::engine *e = 0, *aux = 0; sink *se = 0, *sa = 0; expectations *xe, *xa;
	std::atomic<int> claim[4]; RB *held = 0;
};

// the ring a thread should be using
struct cursor { RB *r; bool aux; std::string name; };

static void room_for(RB *r, unsigned n) { if (!r->blocking() && !wait_for([&] { return r->room() > n; })) viol("stuck", "ring %s is not emptied", r->name()); }

struct walker {
	world &w; rng g; uint64_t tid, n = 0; unsigned budget;
	walker(world &x, uint64_t seed, uint64_t t, unsigned b) : w(x), g(seed), tid(t), budget(b) {}
	bool is_default(const cursor &c) { return c.r == &hogl::default_ring; }
	void say(const cursor &c)
	{
		expectations &x = c.aux ? *w.xa : *w.xe;
		std::unique_lock<std::mutex> l(dm, std::defer_lock);
		if (is_default(c)) { l.lock(); room_for(c.r, 1); }
		if (hogl::tls::ring() != c.r) { viol("current", "thread uses ring %s instead of %s", hogl::tls::ring()->name(), c.name.c_str()); return; }
		hogl::post(A, 0u, (unsigned long) tid, (unsigned long) n);
		std::lock_guard<std::mutex> xl(x.m); x.want[c.name].push_back({ tid, n++ }); posted++; tick();
	}
	// a refused scope is reported in the current ring
	template <typename F> void maybe_refused(const cursor &c, const std::string &name, F make, bool must, bool mustnot, const std::function<void(hogl::tls &)> &inside)
	{
		std::unique_lock<std::mutex> l(dm, std::defer_lock);
		if (is_default(c)) { l.lock(); room_for(c.r, 2); }
		std::unique_ptr<hogl::tls> t(make());
		if (l.owns_lock()) l.unlock();
		scopes++;
		if (t->valid()) {
			if (mustnot) { viol("refuse", "scope got ring %s that somebody else owns", name.c_str()); return; }
			if (hogl::tls::ring() == c.r && c.name != name) viol("current", "valid scope %s leaves ring %s current", name.c_str(), c.name.c_str());
			if (hogl::tls::ring()->name() != name) viol("current", "scope %s makes ring %s current", name.c_str(), hogl::tls::ring()->name());
			inside(*t);
		} else {
			refused_++;
			if (must) { viol("refuse", "scope could not get ring %s, which is free", name.c_str()); return; }
			// the engine asked is the one that reports, into the current ring
			{ expectations &x = c.aux ? *w.xa : *w.xe; std::lock_guard<std::mutex> xl(x.m); x.refused[c.name]++; }
			if (hogl::tls::ring() != c.r) viol("current", "refused scope %s changes the current ring", name.c_str());
			for (unsigned k = g.below(4); k--; ) say(c);
			if (g.chance(30)) nest(c, 1);
			if (hogl::tls::ring() != c.r) viol("current", "within the refused scope %s the current ring changed", name.c_str());
		}
		if (is_default(c)) { l.lock(); room_for(c.r, 2); }
		t.reset();
		if (hogl::tls::ring() != c.r) viol("restore", "leaving scope %s restores %s instead of %s", name.c_str(), hogl::tls::ring()->name(), c.name.c_str());
	}
	void nest(const cursor &c, unsigned depth)
	{
		if (depth > 1) deep++;
		unsigned n_ops = g.range(1, depth > 6 ? 2 : 6);
		for (unsigned i = 0; i < n_ops && budget && !violated(); i++) {
			budget--; tick();
			for (unsigned k = g.below(5); k--; ) say(c);
			bool aux = w.aux && g.chance(25); hogl::engine *e = aux ? w.aux : w.e;
			unsigned blk = RB::BLOCKING;
			int refs = is_default(c) || c.r->shared() || c.name.compare(0, 6, "wanted") == 0 ? 0 : c.r->refcnt();
			switch (g.below(7)) {
			case 0: case 1: { // a ring of its own
				std::string nm = sf("own-%llu-%llu", (unsigned long long) tid, (unsigned long long) g.next()); RB::options o = { 4u << g.below(5), 0, blk | (g.chance(30) ? (unsigned) RB::SHARED : 0), (unsigned) g.below(100) };
				maybe_refused(c, nm, [&] { return e == hogl::default_engine && g.chance(50) ? new hogl::tls(nm, o) : new hogl::tls(nm.c_str(), o, e); }, true, false, [&](hogl::tls &) {
					cursor k = { hogl::tls::ring(), aux, nm }; if (k.r->capacity() != o.capacity) viol("options", "ring of %u became %u", o.capacity, k.r->capacity()); nest(k, depth + 1); });
				break; }
			case 2: { // a shared one
				std::string nm = sf("shared%u", (unsigned) g.below(3)); RB::options o = { 16, 0, blk | RB::SHARED | RB::REUSABLE, 0 }; shared_scopes++;
				maybe_refused(c, nm, [&] { return new hogl::tls(nm.c_str(), o, e); }, true, false, [&](hogl::tls &) { cursor k = { hogl::tls::ring(), aux, nm }; if (!k.r->shared()) viol("options", "ring is not shared"); nest(k, depth + 1); });
				break; }
			case 3: { // a name that is taken for certain
				std::string nm = w.held->name(); RB::options o = { 16, 0, blk | (g.chance(50) ? (unsigned) RB::REUSABLE : 0), 0 };
				if (c.aux) break;
				count_error(c);
				maybe_refused(c, nm, [&] { return new hogl::tls(nm.c_str(), o, w.e); }, false, true, [&](hogl::tls &) {});
				break; }
			case 4: { // the name of this very scope
				if (is_default(c) || c.r->shared()) break;
				RB::options o = { 16, 0, blk | RB::REUSABLE, 0 }; hogl::engine *ce = c.aux ? w.aux : w.e;
				count_error(c);
				maybe_refused(c, c.name, [&] { return new hogl::tls(c.name.c_str(), o, ce); }, false, true, [&](hogl::tls &) {});
				break; }
			case 5: { // a reusable name that several threads want
				if (c.aux) break;
				unsigned q = g.below(4); std::string nm = sf("wanted%u", q); RB::options o = { 16, 0, blk | RB::REUSABLE, 0 };
				bool won = false;
				maybe_refused(c, nm, [&] { return new hogl::tls(nm.c_str(), o, w.e); }, false, false, [&](hogl::tls &) {
					won = true; contested_won++;
					int who = w.claim[q].exchange((int) tid + 1); if (who) viol("exclusive", "ring %s is owned by threads %d and %llu at once", nm.c_str(), who - 1, (unsigned long long) tid);
					cursor k = { hogl::tls::ring(), false, nm }; nest(k, depth + 1);
					w.claim[q] = 0; });
				if (!won) { contested_lost++; count_error(c); }
				break; }
			case 6: { // an existing ring
				std::string nm = sf("made-%llu-%llu", (unsigned long long) tid, (unsigned long long) g.next()); RB::options o = { 8, 0, blk, 0 };
				RB *r = e->add_ring(nm.c_str(), o); if (!r) { viol("refuse", "ring refused"); break; }
				if (g.chance(50)) { RB *f = e->find_ring(nm.c_str()); if (f != r) viol("find", "find_ring returns another ring"); if (f) f->release(); }
				maybe_refused(c, nm, [&] { return new hogl::tls(r, e); }, true, false, [&](hogl::tls &) { if (hogl::tls::ring() != r) viol("current", "another ring"); cursor k = { r, aux, nm }; nest(k, depth + 1); });
				break; }
			}
			if (refs && c.r->refcnt() != refs) viol("refs", "ring %s has %d references after the scopes, had %d", c.name.c_str(), c.r->refcnt(), refs);
			say(c);
		}
	}
	void count_error(const cursor &c) { expectations &x = c.aux ? *w.xa : *w.xe; std::lock_guard<std::mutex> l(x.m); x.errors[c.name]++; }
};

static std::vector<id> pending; // accepted by the default ring, not yet delivered
static uint64_t main_n = 1000000;

// between activations: the ring takes what it has room for
static void post_inactive(rng &g, unsigned n)
{
	RB &d = hogl::default_ring;
	for (unsigned i = 0; i < n && !violated(); i++) {
		uint64_t drops = d.dropcnt(); bool fits = pending.size() < d.capacity() - 1;
		if (d.size() != pending.size()) viol("pending", "default ring holds %u records, %zu were accepted", d.size(), pending.size());
		if (d.blocking() && !fits) break;
		auto p = [&] { hogl::post(A, 0u, 99ul, (unsigned long) main_n); };
		if (g.chance(2)) std::thread([&] { if (hogl::tls::ring() != &d) viol("current", "new thread does not use the default ring"); p(); }).join(); else p();
		bool acc = d.dropcnt() == drops;
		if (acc != fits) viol("capacity", "record #%zu of %u is %s", pending.size(), d.capacity(), acc ? "accepted" : "dropped");
		if (acc) { pending.push_back({ 99, main_n }); stat("posts_inactive"); } else stat("drops_inactive");
		main_n++;
	}
}

static void cycle(uint64_t seed, unsigned idx)
{
	rng g(seed); eval(); phase("cycle"); pert().seed = seed; pert().level = g.chance(50) ? g.range(1, 15) : 0;
	RB &d = hogl::default_ring;
	if (hogl::default_engine) viol("state", "default engine exists while inactive");
	if (g.chance(70)) post_inactive(g, g.chance(25) ? d.capacity() + g.below(20) : g.below(d.capacity() / 2));
	if (g.chance(20)) { hogl::deactivate(); if (hogl::default_engine) viol("state", "deactivate made an engine"); }
	sink se, sa; expectations xe, xa; cap_format f, fa; hogl::output_null out(f), outa(fa);
	f.on = [&](const hogl::format::data &x, const hogl::record &r) { se.on(x, r); }; fa.on = [&](const hogl::format::data &x, const hogl::record &r) { sa.on(x, r); };
	se.tso = g.chance(70); sa.tso = g.chance(70);
	hogl::engine::options eo = engine_opts::make(g.pick((const unsigned[]) { 1, 16, 256, 4096 }), g.pick((const unsigned[]) { 10, 300, 3000 }), se.tso ? 0 : (unsigned) hogl::engine::DISABLE_TSO, g.pick(srcs)), ao = engine_opts::make(64, 200, sa.tso ? 0 : (unsigned) hogl::engine::DISABLE_TSO, g.pick(srcs));
	world w; for (auto &c : w.claim) c = 0;
	w.xe = &xe; w.xa = &xa;
	struct internal_probe { std::atomic<bool> ready{false}; } pr;
	auto base = f.on; f.on = [&](const hogl::format::data &x, const hogl::record &r) { while (!pr.ready) usleep(50); base(x, r); };
	hogl::activate(out, eo); w.e = hogl::default_engine;
	if (!w.e) { viol("state", "no default engine after activation"); return; }
	se.internal = w.e->internal_area(); pr.ready = true;
	stat("activations");
	for (auto &p : pending) { xe.want[d.name()].push_back(p); stat("carried_over"); }
	pending.clear();
	if (g.chance(40)) {
		int refs = d.refcnt(); bool thrown = false;
		try { hogl::activate(out, eo); } catch (const std::logic_error &) { thrown = true; }
		if (!thrown) viol("twice", "a second activation is accepted"); if (hogl::default_engine != w.e) viol("twice", "a refused activation replaces the engine"); if (d.refcnt() != refs) viol("twice", "a refused activation takes a reference"); stat("second_activations");
	}
	bool aux = g.chance(60);
	if (aux) { w.aux = new hogl::engine(outa, ao); sa.internal = w.aux->internal_area(); }
	RB::options ho = { 8, 0, g.chance(50) ? (unsigned) RB::REUSABLE : 0, 0 };
	w.held = hogl::add_ring("HELD", ho); if (!w.held) { viol("refuse", "no ring"); return; }
	// the free functions speak to this engine
	std::string an = sf("area%u", idx); hogl::area *na = hogl::add_area(an.c_str(), secs); if (!na || w.e->find_area(an.c_str()) != na || hogl::find_area(an) != na) viol("free", "areas go elsewhere");
	hogl::apply_mask(hogl::mask(sf("!%s:.*", an.c_str()).c_str(), sf("%s:S1", an.c_str()).c_str(), (char *) 0)); if (na && (na->test(0) || !na->test(1))) viol("free", "masks go elsewhere");
	RB *h2 = hogl::find_ring("HELD"); if (h2 != w.held) viol("free", "rings go elsewhere"); if (h2) h2->release();
	unsigned nt = g.range(1, 5); std::vector<std::thread> th;
	std::atomic<unsigned> done{0};
	auto walk = [&](uint64_t s, unsigned t) { walker k(w, s, t, g.below(2) ? 40 : 15); cursor c = { &d, false, d.name() }; if (hogl::tls::ring() != &d) viol("current", "a thread without scopes uses %s", hogl::tls::ring()->name()); k.nest(c, 0); k.say(c); done++; };
	uint64_t s0 = g.next();
	for (unsigned t = 1; t <= nt; t++) { uint64_t s = g.next(); th.emplace_back([&, s, t] { walker k(w, s, t, 30); cursor c = { &d, false, d.name() }; if (hogl::tls::ring() != &d) viol("current", "a thread without scopes uses %s", hogl::tls::ring()->name()); k.nest(c, 0); k.say(c); done++; }); }
	walk(s0, 0);
	for (auto &t : th) t.join();
	pert().level = 0;
	if (g.chance(40) && !hogl::flush(200000000)) viol("flush", "flush of the default ring fails");
	w.held->release();
	if (aux) { phase("aux"); delete w.aux; compare("second engine", sa, xa); }
	phase("deactivate");
	hogl::deactivate();
	if (hogl::default_engine) viol("state", "default engine exists after deactivation");
	if (g.chance(20)) hogl::deactivate();
	uint64_t total = compare("default engine", se, xe);
	stat("records_compared", total);
	distinct(mix(total, nt)); stat("gaps_announced", se.tso ? se.gaps : 0);
	sample("activation %u with %u threads: %llu records in the expected rings", idx, nt + 1, (unsigned long long) total);
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), n = argn(argc, argv, 2, 20);
	static hogl::area loose("A", secs); A = &loose; A->enable();
	wd().start();
	RB &d = hogl::default_ring;
	rule("evaluation: one activation of the default engine, with threads walking through nested scopes. distinct: records and threads");
	if (!d.immortal() || !d.shared()) { // such a ring must not be accepted
		for (unsigned i = 0; i < 50; i++) {
			eval(); stat("bad_default_rings"); distinct(i);
			cap_format f; hogl::output_null out(f); bool thrown = false; int refs = d.refcnt();
			try { hogl::activate(out); } catch (const std::logic_error &) { thrown = true; }
			if (!thrown || hogl::default_engine) { viol("bad-ring", "a default ring that is %sshared and %simmortal is accepted", d.shared() ? "" : "not ", d.immortal() ? "" : "not "); return finish(); }
			if (d.refcnt() != refs) viol("bad-ring", "refused activation leaves a reference behind");
			hogl::deactivate();
		}
		return finish();
	}
	for (uint64_t i = 0; i < n && !violated(); i++) cycle(mix(seed, i), i);
	stat("scopes", scopes); stat("scopes_refused", refused_); stat("nested", deep); stat("shared_scopes", shared_scopes); stat("contested_won", contested_won); stat("contested_lost", contested_lost);
	return finish();
}
