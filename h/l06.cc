// L06: ring registry: unique names, correct reuse and reference counts.
#define VH_MAIN
#include "perturb.hpp"
#include "cap.hpp"
using namespace vh;

typedef hogl::ringbuf RB;

// ---- A: one thread, exact model. The engine is stalled, so no ring goes away by itself.
struct M { RB *r; unsigned flags; int owners; bool ours; unsigned cap; };

static std::vector<RB *> &immortals() { static std::vector<RB *> v; return v; }

static void model_case(uint64_t seed)
{
	rng g(seed);
	hogl::timesource ts("vh", logical_cb);
	cap_format f; hogl::output_null out(f);
	std::mutex m; const hogl::area *internal = 0; std::vector<std::string> errs; std::map<std::string, uint64_t> delivered;
	f.on = [&](const hogl::format::data &d, const hogl::record &r) {
		std::lock_guard<std::mutex> l(m);
		if (r.area == internal) {
			if (r.section != hogl::internal::ERROR) return;
			std::vector<CArg> a = capture_args(r, 0);
			std::string s; for (auto &x : a) s += x.type == GSTR ? std::string((const char *) x.v) : x.d, s += "|";
			errs.push_back(s);
		} else delivered[d.ring_name]++;
	};
	bool notso = g.chance(50);
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(g.range(1, 256), g.range(0, 200), notso ? (unsigned) hogl::engine::DISABLE_TSO : 0, &ts)));
	internal = e->internal_area();
	hogl::area *ar = e->add_area("A"); ar->enable();
	RB::options mo = { 256, 0, 0, 0 };
	std::map<std::string, M> model;
	std::map<std::string, uint64_t> posted;
	uint64_t errs_exp = 0;
	static const char *const pool[] = { "a", "b", "A", "ring with blanks", "a.b*", "", "DEFAULT", "very-long-name-very-long-name-very-long-name-very-long-name-very-long-name", "a " };
	{
	hogl::tls main_tls("MAIN", mo, e.get());
	if (!main_tls.valid()) { viol("add-ring", "add_ring(MAIN) failed"); return; }
	model["MAIN"] = { hogl::tls::ring(), 0, 1, false, 256 };
	f.use_gate = true;
	unsigned rounds = g.range(2, 5);
	std::string trace;
	for (unsigned rd = 0; rd < rounds && !violated(); rd++) {
		f.gate.close();
		hogl::post(ar, hogl::area::INFO, 1); posted["MAIN"]++;
		phase("stall");
		if (!wait_for([&] { return f.gate.blocked(); })) { viol("not-delivered", "gate record not delivered"); break; }
		trace.clear();
		auto check = [&](const char *op) {
			hogl::string_list l; e->list_rings(l);
			std::multiset<std::string> have(l.begin(), l.end()), want;
			for (auto &x : model) want.insert(x.first);
			if (have != want) { std::string s; for (auto &x : have) s += "'" + x + "' "; viol("listing", "after %s: listed %s, %zu expected. history: %s", op, s.c_str(), want.size(), trace.c_str()); }
			for (auto &x : model) if (x.second.r->refcnt() != 1 + x.second.owners) viol("refcount", "after %s: ring '%s' has %d references, %d owners and the engine expected. history: %s", op, x.first.c_str(), x.second.r->refcnt(), x.second.owners, trace.c_str());
		};
		unsigned ops = g.range(5, 60);
		for (unsigned i = 0; i < ops && !violated(); i++) {
			std::string n = g.pick(pool);
			auto it = model.find(n);
			unsigned k = g.below(100);
			tick();
			if (k < 40) {
				RB::options o = { (unsigned) (2 << g.below(6)), (unsigned) g.below(100), 0, 0 };
				if (g.chance(30)) o.flags |= RB::SHARED;
				if (g.chance(40)) o.flags |= RB::REUSABLE;
				if (g.chance(20)) o.flags |= RB::BLOCKING;
				trace += sf("add(%s,%u) ", n.c_str(), o.flags);
				bool exist = it != model.end();
				uint64_t sq = exist ? it->second.r->seqnum() : 0; unsigned sz = exist ? it->second.r->size() : 0, rm = exist ? it->second.r->room() : 0;
				std::string pr = exist ? sf("%d %u %u %d", it->second.r->prio(), it->second.r->capacity(), it->second.r->record_size(), it->second.r->blocking()) : "";
				RB *r = e->add_ring(n.c_str(), o);
				bool ok = !exist || (it->second.flags & RB::SHARED) || ((it->second.flags & RB::REUSABLE) && it->second.owners == 0);
				if (ok != (r != 0)) { viol(r ? "add-accepted" : "add-refused", "adding '%s' (flags %u): existing ring flags %u owners %d, %s. history: %s", n.c_str(), o.flags, exist ? it->second.flags : 0, exist ? it->second.owners : 0, r ? "accepted" : "refused", trace.c_str()); break; }
				if (!ok) { errs_exp++; posted["MAIN"] += 0; }
				if (exist) {
					if (r && r != it->second.r) viol("add-other", "adding '%s' returned a different ring than the registered one", n.c_str());
					RB *x = it->second.r;
					if (x->seqnum() != sq || x->size() != sz || x->room() != rm || pr != sf("%d %u %u %d", x->prio(), x->capacity(), x->record_size(), x->blocking())) viol("add-side-effect", "adding '%s' changed the existing ring", n.c_str());
					if (r) it->second.owners++;
				} else if (r) {
					for (auto &x : model) if (x.second.r == r) viol("add-other", "two names for one ring");
					if (n != r->name() || r->capacity() < o.capacity || r->prio() != (int) o.prio || r->shared() != !!(o.flags & RB::SHARED) || r->reusable() != !!(o.flags & RB::REUSABLE) || r->blocking() != !!(o.flags & RB::BLOCKING) || r->immortal())
						viol("add-options", "ring '%s' does not have the options it was added with", n.c_str());
					if (!r->empty() || r->seqnum() || r->dropcnt()) viol("add-options", "new ring '%s' is not fresh", n.c_str());
					model[n] = { r, o.flags, 1, false, r->capacity() };
				}
				stat(exist ? (ok ? "adds_reusing" : "adds_refused") : "adds_new");
				check("add");
			} else if (k < 60) {
				trace += sf("find(%s) ", n.c_str());
				RB *r = e->find_ring(n.c_str());
				if (r != (it == model.end() ? 0 : it->second.r)) { viol("find", "find('%s') returned %s. history: %s", n.c_str(), r ? r->name() : "nothing", trace.c_str()); break; }
				if (r) it->second.owners++;
				stat(r ? "finds_hit" : "finds_miss");
				check("find");
			} else if (k < 70) {
				// register a ring made by the caller
				unsigned fl = g.chance(50) ? (unsigned) RB::IMMORTAL : 0;
				RB::options o = { 16, 3, fl | (unsigned) g.below(2) * RB::SHARED | (unsigned) g.below(2) * RB::REUSABLE, 0 };
				RB *r = new RB(n.c_str(), o); r->hold();
				if (fl & RB::IMMORTAL) immortals().push_back(r);
				trace += sf("addptr(%s,%u) ", n.c_str(), o.flags);
				bool ok = e->add_ring(r);
				if (ok != (it == model.end())) { viol("add-ptr", "registering a ring under the name '%s' (%s) %s", n.c_str(), it == model.end() ? "free" : "taken", ok ? "accepted" : "refused"); break; }
				if (ok) model[n] = { r, o.flags, 1, true, 16 };
				else {
					errs_exp++;
					if (r->refcnt() != 1) viol("refcount", "refused ring has %d references", r->refcnt());
					r->release();
				}
				stat("adds_by_pointer");
				check("add(ptr)");
			} else if (k < 90) {
				if (it == model.end() || !it->second.owners || n == "MAIN") continue;
				trace += sf("release(%s) ", n.c_str());
				it->second.owners--; it->second.r->release();
				if (g.chance(30)) while (it->second.owners) { it->second.owners--; it->second.r->release(); }
				check("release");
			} else {
				if (it == model.end() || !it->second.owners || !it->second.r->room()) continue;
				hogl::post(it->second.r, ar, hogl::area::INFO, 2); posted[n]++;
			}
		}
		// let the engine run: exactly the abandoned rings go
		f.gate.open();
		if (violated()) break;
		phase("drop orphans");
		std::multiset<std::string> want;
		std::vector<std::string> gone;
		for (auto it = model.begin(); it != model.end();) {
			if (it->second.owners) { want.insert(it->first); ++it; } else { gone.push_back(it->first); it = model.erase(it); }
		}
		std::multiset<std::string> have;
		bool ok = wait_for([&] { hogl::string_list l; e->list_rings(l); have = std::multiset<std::string>(l.begin(), l.end()); return have == want; });
		if (!ok) { std::string s, w; for (auto &x : have) s += "'" + x + "' "; for (auto &x : want) w += "'" + x + "' "; viol("orphans", "engine runs but registers %s, rings with owners are %s", s.c_str(), w.c_str()); break; }
		for (auto &x : gone) { RB *r = e->find_ring(x.c_str()); if (r) { viol("find", "dropped ring '%s' is still found", x.c_str()); break; } }
		check("drop");
		stat("orphans_dropped", gone.size());
		uint64_t tot = 0; for (auto &x : posted) tot += x.second;
		if (!wait_for([&] { std::lock_guard<std::mutex> l(m); uint64_t t = 0; for (auto &x : delivered) t += x.second; return t >= tot; })) viol("lost", "records of released rings lost");
		if (!wait_for([&] { std::lock_guard<std::mutex> l(m); return errs.size() >= errs_exp; })) viol("no-error-record", "%llu refused adds, %zu error records", (unsigned long long) errs_exp, errs.size());
		std::lock_guard<std::mutex> l(m);
		for (auto &x : posted) if (delivered[x.first] != x.second) viol("lost", "ring '%s': %llu posted, %llu delivered", x.first.c_str(), (unsigned long long) x.second, (unsigned long long) delivered[x.first]);
		if (errs.size() != errs_exp) viol("error-records", "%llu refused adds, %zu error records: %s", (unsigned long long) errs_exp, errs.size(), errs.empty() ? "" : errs.back().c_str());
		eval(ops);
		distinct(hash_str(trace, seed));
		sample("history: %s", trace.c_str());
	}
	f.gate.open();
	if (violated()) { flush_report(); _exit(3); }
	for (auto &x : model) if (x.first != "MAIN") while (x.second.owners--) x.second.r->release();
	}
	phase("destroy");
	e.reset();
	for (RB *r : immortals()) { if (r->refcnt() != 0) viol("refcount", "immortal ring keeps %d references after the engine is gone", r->refcnt()); else delete r; }
	immortals().clear();
}

// ---- B: several threads
static void conc_case(uint64_t seed, unsigned ops)
{
	rng g(seed);
	hogl::timesource ts("vh", logical_cb);
	cap_format f; hogl::output_null out(f);
	const hogl::area *internal = 0;
	std::atomic<uint64_t> errs{0}, got{0};
	std::mutex m; std::map<std::string, std::map<uint64_t, uint64_t>> next;
	f.on = [&](const hogl::format::data &d, const hogl::record &r) {
		if (r.area == internal) { if (r.section == hogl::internal::ERROR) errs++; return; }
		uint64_t inst = r.get_arg_val64(0), n = r.get_arg_val64(1);
		std::lock_guard<std::mutex> l(m);
		uint64_t &x = next[d.ring_name][inst];
		if (x != n) viol("lost", "ring '%s' owner #%llu: record %llu, expected %llu", d.ring_name, (unsigned long long) inst, (unsigned long long) n, (unsigned long long) x);
		x = n + 1;
		got++;
	};
	bool notso = g.chance(50);
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(g.range(2, 512), g.chance(60) ? 0 : g.range(1, 100), notso ? (unsigned) hogl::engine::DISABLE_TSO : 0, &ts)));
	internal = e->internal_area();
	hogl::area *ar = e->add_area("A"); ar->enable();
	static const unsigned lv[] = { 0, 0, 5, 20, 40 };
	pert().level = g.pick(lv); pert().maxus = 60;
	unsigned nt = g.range(2, 6), nn = g.range(1, 4);
	struct N { std::atomic<int> owners{0}; unsigned flags; std::atomic<uint64_t> reg{0}; };
	std::vector<std::unique_ptr<N>> names;
	for (unsigned i = 0; i < nn; i++) { names.emplace_back(new N); names[i]->flags = g.chance(25) ? (unsigned) RB::SHARED : g.chance(70) ? (unsigned) RB::REUSABLE : 0u; names[i]->flags |= RB::BLOCKING; }
	std::atomic<uint64_t> done{0}, cnt{0}, refused{0}, inst{1}, posted{0}, granted{0};
	std::vector<std::thread> th;
	for (unsigned i = 0; i < nt; i++) {
		uint64_t s = g.next();
		th.emplace_back([&, i, s] {
			rng t(s);
			RB::options mo = { 4096, 0, RB::BLOCKING, 0 };
			hogl::tls mine(sf("T%u", i), mo, e.get());
			if (!mine.valid()) viol("add-ring", "unique name refused");
			for (unsigned k = 0; k < ops && !violated(); k++) {
				unsigned x = t.below(nn); N &n = *names[x]; std::string nm = sf("n%u", x);
				unsigned w = t.below(100);
				cnt++; tick();
				if (w < 55) {
					RB::options o = { 8, 0, n.flags, 0 };
					RB *r = e->add_ring(nm.c_str(), o);
					if (!r) { refused++; if (n.flags & RB::SHARED) viol("add-refused", "shared ring refused"); if (t.chance(50)) sched_yield(); continue; }
					granted++;
					if (nm != r->name()) viol("add-other", "got ring %s instead of %s", r->name(), nm.c_str());
					int o_ = n.owners.fetch_add(1);
					if (!(n.flags & RB::SHARED) && o_ != 0) viol("two-owners", "ring '%s' (flags %u) given to two owners at once", nm.c_str(), n.flags);
					uint64_t id = inst++, c = t.below(20);
					for (uint64_t j = 0; j < c; j++) { hogl::post(r, ar, hogl::area::INFO, (unsigned long) id, (unsigned long) j); posted++; }
					if (t.chance(20)) usleep(t.below(200));
					// while we own it, it is registered, and it is the one
					if (t.chance(30)) { RB *q = e->find_ring(nm.c_str()); if (q != r) viol("find", "owner looks up '%s' and finds %s", nm.c_str(), q ? "another ring" : "nothing"); if (q) q->release(); }
					if (t.chance(10)) { hogl::string_list l; e->list_rings(l); unsigned c2 = 0; for (auto &y : l) c2 += y == nm; if (c2 != 1) viol("listing", "owned ring '%s' listed %u times", nm.c_str(), c2); }
					n.owners--;
					r->release();
				} else if (w < 80) {
					RB *r = e->find_ring(nm.c_str());
					if (r) { if (nm != r->name()) viol("find", "find(%s) returned %s", nm.c_str(), r->name()); if (r->refcnt() < 1) viol("refcount", "found ring has %d references", r->refcnt()); if (t.chance(20)) sched_yield(); r->release(); }
				} else if (w < 90) {
					hogl::string_list l; e->list_rings(l);
					std::set<std::string> u(l.begin(), l.end());
					if (u.size() != l.size()) viol("listing", "name listed twice");
					if (!u.count(sf("T%u", i))) viol("listing", "own ring not listed");
				} else if (t.chance(50)) usleep(t.below(100)); else sched_yield();
			}
			done++;
		});
	}
	phase("concurrent");
	if (!wait_for([&] { return done == nt || violated(); }, [&] { return cnt + got; })) viol("stuck", "registry operations do not finish");
	if (violated()) { flush_report(); _exit(3); }
	for (auto &t : th) t.join();
	pert().level = 0;
	phase("drop");
	hogl::string_list l;
	if (!wait_for([&] { l.clear(); e->list_rings(l); return l.empty(); }, [&] { return got + errs; })) viol("orphans", "%zu abandoned rings stay registered, e.g. %s", l.size(), l.front().c_str());
	// an abandoned ring goes only after all its records were delivered
	if (!violated() && got != posted) viol("lost", "%llu posted, all rings dropped, %llu delivered", (unsigned long long) posted, (unsigned long long) got);
	if (!violated() && errs != refused) viol("error-records", "%llu refused, %llu error records", (unsigned long long) refused, (unsigned long long) errs);
	if (violated()) { flush_report(); _exit(3); }
	e.reset();
	eval(cnt); stat("conc_granted", granted); stat("conc_refused", refused); stat("conc_records", got);
	distinct(mix(seed, mix(granted, refused)));
	sample("concurrent: %u threads on %u names: %llu rings granted, %llu refused, %llu records", nt, nn, (unsigned long long) granted, (unsigned long long) refused, (unsigned long long) got);
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), na = argn(argc, argv, 2, 30), nb = argn(argc, argv, 3, 8), ops = argn(argc, argv, 4, 600);
	rule("random add/find/release/register/list histories against an exact model with the engine stalled, then concurrent ones with owner-exclusion monitors; distinct: different histories or outcomes");
	pert().seed = seed;
	wd().start(60);
	for (uint64_t i = 0; i < na && !violated(); i++) model_case(mix(seed, i));
	for (uint64_t i = 0; i < nb && !violated(); i++) conc_case(mix(seed, 1000 + i), ops);
	return finish();
}
