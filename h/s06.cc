// S06: a ring read directly, without an engine, is a bounded first-in first-out queue.
#define VH_MAIN
#include "perturb.hpp"
#include "cap.hpp"
#include <deque>
using namespace vh;
typedef hogl::ringbuf RB;

static unsigned pow2(unsigned n) { unsigned c = 1; while (c < n) c <<= 1; return c; }
static uint64_t idof(const hogl::record *r) { return r->get_arg_val64(0); }

struct Item { uint64_t id, seq, ts; std::string s; const hogl::area *a; unsigned sec; };
static bool same(hogl::record *r, const Item &x, std::string &why)
{
	std::vector<CArg> a = capture_args(*r, 0);
	if (r->seqnum != x.seq) why = sf("number %llu", (unsigned long long) r->seqnum);
	else if (r->timestamp.to_nsec() != x.ts) why = "timestamp";
	else if (r->area != x.a || r->section != x.sec) why = "area or section";
	else if (a.size() != 2 || a[0].v != x.id || a[1].d != x.s) why = sf("arguments: id %llu", (unsigned long long) (a.size() ? a[0].v : 0));
	else return true;
	return false;
}

// one thread, exact model
static void model_case(uint64_t seed, unsigned ops)
{
	rng g(seed); tick();
	static const unsigned caps[] = { 2, 3, 4, 5, 8, 16, 17, 64, 100, 1024 };
	unsigned cap = g.pick(caps), prio = g.chance(20) ? g.pick((const unsigned[]) { 0, 9999, 10000, 65535, 65536, 0x7fffffff, 0xffffffff }) : g.below(9999);
	unsigned flags = (g.chance(40) ? RB::SHARED : 0) | (g.chance(30) ? RB::REUSABLE : 0) | (g.chance(30) ? RB::BLOCKING : 0) | (g.chance(20) ? RB::IMMORTAL : 0);
	unsigned tail = g.pick((const unsigned[]) { 0, 1, 64, 128, 129, 300, 1000 });
	RB::options o = { cap, prio, flags, tail };
	std::string name = rnd_str(g, g.range(1, 200)); for (char &c : name) if (!c) c = 'x';
	RB *r = new RB(name.c_str(), o); r->hold();
	hogl::timesource ts("vh", logical_cb); r->timesource(&ts);
	hogl::area A("A"); A.enable();
	unsigned max = pow2(cap) - 1, refs = 1; uint64_t id = 1, seq = 0, drops = 0, resets = 0, popped = 0, reread = 0;
	std::deque<Item> q;
	RB::pop_iterator it(r); bool itok = false; size_t itpos = 0, itend = 0; // position of the iterator in the queue, and what it saw when reset
	std::string trace;
	auto check = [&](const char *op) {
		eval();
		auto bad = [&](const char *w, uint64_t have, uint64_t want) { viol(w, "ring of %u (flags %x), after %s: %s is %llu, expected %llu. history: %s", cap, flags, op, w, (unsigned long long) have, (unsigned long long) want, trace.substr(trace.size() > 300 ? trace.size() - 300 : 0).c_str()); };
		if (r->capacity() != max + 1) bad("capacity", r->capacity(), max + 1);
		if (r->size() != q.size()) bad("size", r->size(), q.size());
		if (r->room() != max - q.size()) bad("room", r->room(), max - q.size());
		if (r->empty() != q.empty()) bad("empty", r->empty(), q.empty());
		if (r->seqnum() != seq) bad("seqnum", r->seqnum(), seq);
		if (r->dropcnt() != drops) bad("dropcnt", r->dropcnt(), drops);
		if (r->refcnt() != (int) refs) bad("refcnt", r->refcnt(), refs);
		if (r->orphan() != (refs == 1)) bad("orphan", r->orphan(), refs == 1);
		if (r->prio() != std::min((int) prio, 9999)) bad("prio", r->prio(), std::min((int) prio, 9999));
		if (r->shared() != !!(flags & RB::SHARED) || r->reusable() != !!(flags & RB::REUSABLE) || r->blocking() != !!(flags & RB::BLOCKING) || r->immortal() != !!(flags & RB::IMMORTAL)) bad("flags", 0, flags);
		if (name != r->name()) viol("name", "ring is called '%s', asked for '%s'", esc(r->name()).c_str(), esc(name).c_str());
		if (r->timesource() != &ts) viol("timesource", "ring lost its timesource");
	};
	auto match = [&](hogl::record *x, size_t pos, const char *how) {
		std::string why;
		if (pos >= q.size()) viol("extra", "%s hands out a record although none is left. history: %s", how, trace.c_str());
		else if (!same(x, q[pos], why)) viol("content", "%s: record at place %zu of %zu should have id %llu and number %llu, differs in %s. history: %s", how, pos, q.size(), (unsigned long long) q[pos].id, (unsigned long long) q[pos].seq, why.c_str(), trace.substr(trace.size() > 300 ? trace.size() - 300 : 0).c_str());
	};
	check("creation");
	for (unsigned i = 0; i < ops && !violated(); i++) {
		unsigned k = g.below(100);
		if (k < 35) {
			unsigned n = g.chance(20) ? g.below(2 * max + 2) : g.range(1, 3);
			for (unsigned j = 0; j < n && !violated(); j++) {
				if (q.size() == max && (flags & RB::BLOCKING)) break;
				std::string s = rnd_str(g, g.below(20));
				unsigned sec = g.below(6); const hogl::area *a = g.chance(90) ? &A : 0;
				switch (g.below(4)) {
				case 0: hogl::push(r, a, sec, (uint64_t) id, s.c_str()); break;
				case 1: hogl::push_unlocked(r, a, sec, (uint64_t) id, s.c_str()); break;
				case 2: a = &A; hogl::post(r, a, sec, (uint64_t) id, s.c_str()); break;
				default: { hogl::record *x; r->lock(); x = r->push_begin(); x->area = a; x->section = sec; x->timestamp = r->timestamp(); x->seqnum = r->inc_seqnum(); x->set_args(r->record_tailroom(), (uint64_t) id, s.c_str()); r->push_commit(); r->unlock(); }
				}
				uint64_t st = last_stamp();
				if (q.size() == max) { drops++; seq++; } else { std::vector<Val> v(2); q.push_back({ id, seq++, st, s, a, sec }); }
				id++;
				check("post");
			}
			trace += sf("p%u ", n);
		} else if (k < 50) { // single reads
			unsigned n = g.range(1, 4); trace += sf("r%u ", n);
			for (unsigned j = 0; j < n && !violated(); j++) {
				hogl::record *x = r->pop_begin();
				if (!x) { if (!q.empty()) viol("missing", "no record handed out although %zu wait", q.size()); break; }
				match(x, 0, "pop");
				if (g.chance(30)) { reread++; continue; }      // not committed
				r->pop_commit(g.chance(50)); if (g.chance(30)) r->unblock();
				q.pop_front(); popped++; itok = false;
				check("pop");
			}
		} else if (k < 85) { // iterator
			if (!itok || g.chance(40)) { if (g.chance(20)) it = RB::pop_iterator(r); else if (!it.valid() || g.chance(20)) it.ring(r); else it.reset(); itok = true; itpos = 0; itend = q.size(); trace += "i "; }
			std::vector<hogl::record *> seen; size_t start = itpos;
			unsigned n = g.chance(30) ? ~0u : g.below(6);
			for (unsigned j = 0; j < n && !violated(); j++) {
				hogl::record *x = it.next();
				if (!x) { if (itpos != itend) viol("missing", "iterator ends after %zu of %zu records. history: %s", itpos, itend, trace.c_str()); break; }
				match(x, itpos, "iterator"); seen.push_back(x); itpos++;
				if (itpos > itend) { viol("extra", "iterator goes on after the %zu records that were there", itend); break; }
			}
			trace += sf("n%zu ", seen.size());
			if (!seen.empty() && g.chance(30)) { size_t b = g.below(seen.size()); it.rewind(seen[b]); itpos = start + b + 1; reread += seen.size() - b - 1; trace += sf("w%zu ", b); }
			if (g.chance(50)) { it.commit(g.chance(50)); if (g.chance(30)) r->unblock(); q.erase(q.begin(), q.begin() + itpos); popped += itpos; itend -= itpos; itpos = 0; trace += "c "; check("iterator commit"); }
			if (g.chance(10)) { it.invalidate(); if (it.valid() || it.ring()) viol("iterator", "invalidated iterator still has a ring"); itok = false; }
			else if (!it.valid() || it.ring() != r || it.const_ring() != r) viol("iterator", "iterator lost its ring");
		} else if (k < 88) { r->reset(); q.clear(); seq = drops = 0; itok = false; resets++; trace += "R "; check("reset"); }
		else if (k < 92) { r->hold(); refs++; check("hold"); }
		else if (k < 96) { if (refs > 1) { r->release(); refs--; check("release"); } }
		else { r->unblock(); check("unblock"); }
	}
	if (!violated()) { uint64_t n = 0; for (hogl::record *x; (x = r->pop_begin()); n++) { match(x, 0, "last pop"); r->pop_commit(); if (q.empty()) break; q.pop_front(); } if (!q.empty() && !violated()) viol("missing", "%zu records never handed out", q.size()); popped += n; }
	if (violated()) { flush_report(); _exit(3); }
	while (refs--) r->release();
	if (flags & RB::IMMORTAL) { if (r->refcnt() || name != r->name()) viol("immortal", "immortal ring changed when its last reference went"); delete r; }
	stat("model_rings"); stat("popped", popped); stat("reread", reread); stat("dropped", drops); stat("resets", resets); distinct(hash_str(trace));
}

// writers and a reader
static void thread_case(uint64_t seed, unsigned total)
{
	rng g(seed); tick();
	unsigned nw = g.chance(50) ? 1 : g.range(2, 4), cap = 1u << g.range(1, 8); bool blocking = g.chance(50);
	RB::options o = { cap, 0, (nw > 1 || g.chance(30) ? (unsigned) RB::SHARED : 0) | (blocking ? (unsigned) RB::BLOCKING : 0), 0 };
	RB *r = new RB("R", o); r->hold();
	hogl::timesource ts("vh", logical_cb); r->timesource(&ts);
	hogl::area A("A"); A.enable();
	static const unsigned lv[] = { 0, 0, 5, 25 };
	pert().level = g.pick(lv); pert().maxus = 40;
	std::atomic<unsigned> done{0}; std::atomic<uint64_t> posted{0}, got{0};
	std::vector<std::thread> th;
	for (unsigned i = 0; i < nw; i++) {
		uint64_t s = g.next();
		th.emplace_back([&, i, s] {
			rng t(s);
			for (unsigned n = 0; n < total; n++) {
				hogl::post(r, &A, n % 6, (unsigned long) (((uint64_t) i << 32) | n), (unsigned long) mix(i, n));
				posted++;
				if (t.chance(3)) { if (t.chance(50)) sched_yield(); else usleep(t.below(60)); }
			}
			done++;
		});
	}
	phase("read");
	rng t(g.next()); std::vector<uint64_t> next(nw, 0); uint64_t seq = 0, lost = 0, ts0 = 0; bool first = true; unsigned mode = t.below(3);
	auto take = [&](hogl::record *x) {
		uint64_t v = idof(x); unsigned w = v >> 32, n = (uint32_t) v;
		if (w >= nw) { viol("content", "record of writer %u", w); return; }
		if (x->get_arg_val64(1) != mix(w, n) || x->section != n % 6 || x->area != &A) { viol("content", "record %u of writer %u is torn", n, w); return; }
		if (n < next[w]) { viol("order", "record %u of writer %u handed out after %llu", n, w, (unsigned long long) next[w]); return; }
		if (x->seqnum < seq) { viol("order", "number %llu handed out, %llu expected", (unsigned long long) x->seqnum, (unsigned long long) seq); return; }
		if (!first && x->timestamp.to_nsec() <= ts0) { viol("order", "timestamps go back in one ring"); return; }
		first = false; ts0 = x->timestamp.to_nsec();
		if (x->seqnum != seq && blocking) { viol("lost", "blocking ring lost %llu records", (unsigned long long) (x->seqnum - seq)); return; }
		lost += x->seqnum - seq; seq = x->seqnum + 1; next[w] = n + 1; got++; tick();
	};
	RB::pop_iterator it(r);
	auto round = [&]() -> bool {
		bool any = false;
		if (mode == 0 || (mode == 2 && t.chance(50))) {
			for (unsigned k = t.range(1, 20); k && !violated(); k--) { hogl::record *x = r->pop_begin(); if (!x) break; take(x); any = true; r->pop_commit(); r->unblock(); }
		} else {
			it.reset(); hogl::record *x; std::vector<hogl::record *> v;
			unsigned lim = t.chance(50) ? ~0u : t.range(1, 10);
			while (v.size() < lim && (x = it.next())) v.push_back(x);
			if (t.chance(20) && v.size() > 1) { size_t b = t.below(v.size()); it.rewind(v[b]); v.resize(b + 1); }
			for (auto y : v) { if (violated()) break; take(y); any = true; }
			it.commit(); r->unblock();
		}
		if (t.chance(10)) usleep(t.below(200));
		return any;
	};
	uint64_t idle = 0;
	while (!violated()) {
		bool fin = done == nw;
		if (round()) { idle = 0; continue; }
		if (fin) break;
		if (!blocking || !r->empty()) { sched_yield(); continue; }
		sched_yield(); if (++idle > 1000) usleep(100);
	}
	if (violated()) { flush_report(); _exit(3); }
	for (auto &x : th) x.join();
	pert().level = 0;
	uint64_t n = (uint64_t) nw * total;
	if (r->seqnum() != n) viol("seqnum", "%llu posts, ring counts %llu", (unsigned long long) n, (unsigned long long) r->seqnum());
	if (got + r->dropcnt() != n) viol("conservation", "%llu posts, %llu handed out, %llu counted as dropped", (unsigned long long) n, (unsigned long long) got, (unsigned long long) r->dropcnt());
	if (blocking && r->dropcnt()) viol("lost", "blocking ring dropped %llu", (unsigned long long) r->dropcnt());
	if (!r->empty() || r->size()) viol("size", "%u records left after the last one was handed out", r->size());
	if (violated()) { flush_report(); _exit(3); }
	eval(got); stat("threaded_records", got); stat("threaded_drops", r->dropcnt()); stat("threaded_rings");
	distinct(mix(seed, mix(got, lost)));
	r->release();
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), n = argn(argc, argv, 2, 50), ops = argn(argc, argv, 3, 200), nt = argn(argc, argv, 4, 10), total = argn(argc, argv, 5, 3000);
	rule("evaluation: one comparison of a ring's state with the model, or one record handed out to a concurrent reader. distinct: operation history, or (case, records, drops)");
	pert().seed = seed;
	wd().start(60);
	for (uint64_t i = 0; i < n && !violated(); i++) model_case(mix(seed, i), ops);
	for (uint64_t i = 0; i < nt && !violated(); i++) thread_case(mix(seed, 5000 + i), total);
	sample("random histories of post, pop, uncommitted pop, iterator, rewind, commit, reset on rings of 2..1024 slots; concurrent writers with a reader that mixes both interfaces");
	return finish();
}
