// L01: every accepted record is delivered exactly once, in ring order, intact.
#define VH_MAIN
#include "perturb.hpp"
#include "cap.hpp"
using namespace vh;

struct Exp { uint64_t seq, ts; const hogl::area *area; unsigned sect; uint64_t h; std::vector<Val> vals; };
struct Got { uint64_t seq, ts; const hogl::area *area; unsigned sect; uint64_t h; std::string txt; };

struct RingT {
	std::string name; unsigned tailroom = 0; bool blocking = false;
	std::vector<Exp> exp; std::atomic<uint64_t> nexp{0};
	std::vector<Got> got; std::atomic<uint64_t> ngot{0};
	uint64_t drops = 0; int prio = 0; unsigned cap = 0;
};

static const char *many[65];

static void one_case(uint64_t seed, unsigned total, bool quickwait)
{
	rng g(seed);
	unsigned nr = g.range(1, 6);
	static const unsigned tsos[] = { 1, 2, 3, 4, 5, 8, 16, 33, 64, 257, 1024, 4096 };
	unsigned tso = g.pick(tsos), poll = g.chance(30) ? 0 : g.chance(50) ? g.range(1, 200) : g.range(200, 2000);
	unsigned feat = g.chance(35) ? (unsigned) hogl::engine::DISABLE_TSO : 0;
	bool chosen = g.chance(30);
	hogl::timesource ts("vh", chosen ? chosen_cb : logical_cb);
	cap_format f;
	hogl::output_null out(f);
	std::map<std::string, RingT *> rings;
	std::vector<std::unique_ptr<RingT>> rv;
	for (unsigned i = 0; i < nr; i++) {
		std::unique_ptr<RingT> r(new RingT);
		r->name = sf("ring%u-%llx", i, (unsigned long long) g.below(1000));
		rings[r->name] = r.get();
		rv.push_back(std::move(r));
	}
	const hogl::area *internal = 0;
	std::atomic<uint64_t> stray{0};
	// slow consumer from time to time
	unsigned slow = g.chance(40) ? g.range(1, 40) : 0;
	rng eg(seed ^ 0x55);
	f.on = [&](const hogl::format::data &d, const hogl::record &r) {
		if (r.area == internal) return;
		auto it = rings.find(d.ring_name ? d.ring_name : "");
		if (it == rings.end()) { viol("unknown-ring", "record delivered under ring name '%s'", d.ring_name); return; }
		RingT *rt = it->second;
		std::string bad;
		std::vector<CArg> a = capture_args(r, rt->tailroom, &bad);
		if (!bad.empty()) viol("args-bounds", "%s", bad.c_str());
		Got x = { r.seqnum, r.timestamp.to_nsec(), r.area, (unsigned) r.section, hash_args(a), "" };
		if (rt->got.size() < 64) x.txt = show_args(a);
		rt->got.push_back(x);
		rt->ngot++;
		if (slow && eg.below(100) < slow) { if (eg.chance(20)) usleep(eg.below(300)); else sched_yield(); }
	};
	hogl::engine::options eo = engine_opts::make(tso, poll, feat, &ts);
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, eo));
	internal = e->internal_area();
	hogl::area *ar[3] = { e->add_area("A"), e->add_area("B", many), e->add_area("C") };
	ar[0]->enable(); ar[1]->enable(); ar[2]->enable();
	uint64_t per = total / nr;
	std::atomic<bool> stop{false};
	std::vector<std::thread> th;
	std::atomic<uint64_t> posted{0};
	for (unsigned i = 0; i < nr; i++) {
		uint64_t s = g.next();
		bool early_release = g.chance(50);
		th.emplace_back([&, i, s, early_release] {
			rng t(s);
			RingT *rt = rv[i].get();
			static const unsigned caps[] = { 2, 3, 4, 8, 16, 64, 100, 256, 1024 };
			static const unsigned tails[] = { 0, 64, 128, 130, 160, 200, 333, 512, 1500 };
			hogl::ringbuf::options ro = { t.pick(caps), (unsigned) t.below(200), 0, t.pick(tails) };
			rt->blocking = t.chance(40);
			if (rt->blocking) ro.flags |= hogl::ringbuf::BLOCKING;
			if (t.chance(20)) ro.flags |= hogl::ringbuf::REUSABLE;
			if (t.chance(30)) usleep(t.below(3000)); // ring shows up while others are posting
			hogl::ringbuf *r = e->add_ring(rt->name.c_str(), ro);
			if (!r) { viol("add-ring", "add_ring(%s) failed", rt->name.c_str()); return; }
			rt->tailroom = r->record_tailroom(); rt->cap = r->capacity(); rt->prio = r->prio();
			if (ro.record_tailroom > r->record_tailroom() || ro.capacity > r->capacity())
				viol("ring-size", "ring smaller than asked for: capacity %u<%u tailroom %u<%u", r->capacity(), ro.capacity, r->record_tailroom(), ro.record_tailroom);
			unsigned burst = 0;
			for (uint64_t n = 0; n < per; n++) {
				std::vector<Val> v = rnd_vals(t, t.chance(10) ? 300 : 20);
				Args a(v);
				unsigned ai = t.below(3), sect = t.below(ai == 1 ? 64 : 6);
				next_stamp() = t.chance(20) ? t.below(50) : 1000 + n * 3 + t.below(60);
				uint64_t d0 = r->dropcnt(), q = r->seqnum();
				if (t.chance(50)) post_args(r, ar[ai], sect, a); else post_args_unlocked(r, ar[ai], sect, a);
				a.scribble();
				if (r->dropcnt() == d0) {
					Exp x = { q, last_stamp(), ar[ai], sect, hash_args(expect_args(v, rt->tailroom)), {} };
					if (rt->exp.size() < 64) x.vals = v;
					rt->exp.push_back(x);
					rt->nexp++;
				} else {
					rt->drops++;
					if (rt->blocking) viol("blocking-drop", "blocking ring dropped a record");
				}
				posted++; tick();
				if (burst) { burst--; continue; }
				if (t.chance(30)) burst = t.below(rt->cap * 2);
				else if (!rt->blocking) { if (t.chance(60)) while (r->room() == 0 && t.chance(98)) usleep(50); else usleep(t.below(200)); }
			}
			if (!early_release) while (!stop) usleep(100);
			r->release();
		});
	}
	auto exp_all = [&] { uint64_t n = 0; for (auto &r : rv) n += r->nexp; return n; };
	auto got_all = [&] { uint64_t n = 0; for (auto &r : rv) n += r->ngot; return n; };
	phase("post");
	if (!wait_for([&] { return posted == per * nr; }, [&] { return posted + got_all(); }))
		viol("post-stuck", "posting does not finish (%llu of %llu)", (unsigned long long) posted, (unsigned long long) per * nr);
	bool drained = true;
	if (quickwait && !violated()) {
		// records must come out without any further activity
		phase("deliver");
		drained = wait_for([&] { return got_all() >= exp_all(); }, [&] { return got_all(); });
		if (!drained)
			viol("not-delivered", "%llu of %llu accepted records delivered, engine idle", (unsigned long long) got_all(), (unsigned long long) exp_all());
	}
	if (violated()) { flush_report(); _exit(3); }
	stop = true;
	for (auto &t : th) t.join();
	phase("destroy");
	e.reset();
	phase("check");
	for (auto &r : rv) {
		uint64_t n = std::min(r->exp.size(), r->got.size());
		uint64_t i = 0;
		for (; i < n; i++) {
			const Exp &x = r->exp[i]; const Got &y = r->got[i];
			if (x.seq != y.seq) {
				viol("order", "ring %s cap %u tso %u feat %u prio %d: delivery #%llu has seqnum %llu, accepted was %llu", r->name.c_str(), r->cap, tso, feat, r->prio,
					(unsigned long long) i, (unsigned long long) y.seq, (unsigned long long) x.seq);
				break;
			}
			if (x.ts != y.ts || x.area != y.area || x.sect != y.sect) {
				viol("header", "ring %s seqnum %llu: posted ts %llu area %p section %u, delivered ts %llu area %p section %u", r->name.c_str(), (unsigned long long) x.seq,
					(unsigned long long) x.ts, (void *) x.area, x.sect, (unsigned long long) y.ts, (void *) y.area, y.sect);
				break;
			}
			if (x.h != y.h) {
				viol("content", "ring %s seqnum %llu tailroom %u: arguments differ. delivered %s expected %s", r->name.c_str(), (unsigned long long) x.seq, r->tailroom, y.txt.c_str(),
					x.vals.size() ? show_args(expect_args(x.vals, r->tailroom)).c_str() : "?");
				break;
			}
		}
		if (i == n && r->exp.size() != r->got.size())
			viol(r->exp.size() > r->got.size() ? "lost" : "extra", "ring %s cap %u tso %u feat %u: %zu accepted, %zu delivered", r->name.c_str(), r->cap, tso, feat, r->exp.size(), r->got.size());
		stat("records_posted", per); stat("records_delivered", r->got.size()); stat("records_dropped", r->drops);
		if (r->got.size() > r->cap) stat("rings_wrapped");
		if (r->got.size() > 3) distinct(mix(mix(seed, r->cap * 7919 + r->tailroom), mix(tso * 4 + feat, r->got.size())));
		eval(r->got.size());
	}
	stat("cases");
	sample("case seed %llx: %u rings, tso %u, features %u, polling %u us; ring %s cap %u tailroom %u blocking %d: %zu accepted = %zu delivered, %llu dropped", (unsigned long long) seed, nr, tso, feat, poll,
		rv[0]->name.c_str(), rv[0]->cap, rv[0]->tailroom, rv[0]->blocking, rv[0]->exp.size(), rv[0]->got.size(), (unsigned long long) rv[0]->drops);
}

// A ring with more than 4 GB of records: every slot must be its own.
static void big_case(uint64_t seed)
{
	rng g(seed); phase("big");
	FILE *mi = fopen("/proc/meminfo", "r"); unsigned long long avail = 0; char line[200];
	while (mi && fgets(line, sizeof line, mi)) if (sscanf(line, "MemAvailable: %llu kB", &avail) == 1) break;
	if (mi) fclose(mi);
	if (avail < (10ull << 20)) { stat("big_ring_skipped"); return; }
	cap_format f; hogl::output_null out(f);
	std::mutex m; std::vector<std::pair<uint64_t, uint64_t>> got;
	f.on = [&](const hogl::format::data &d, const hogl::record &r) {
		if (strcmp(d.ring_name, "BIG")) return;
		std::vector<CArg> a = capture_args(r, 0);
		std::lock_guard<std::mutex> l(m); got.push_back({ (uint64_t) r.seqnum, hash_args(a) });
	};
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(256, 50, 0)));
	hogl::area *ar = e->add_area("A"); ar->enable();
	hogl::ringbuf::options ro = { 64, 0, hogl::ringbuf::IMMORTAL, 67000000 };
	hogl::ringbuf *r = new hogl::ringbuf("BIG", ro); r->hold();
	tick();
	if (r->capacity() == 64 && r->record_size() >= 67000000) {
		std::vector<uint64_t> want;
		for (unsigned i = 0; i < 63; i++) {
			std::vector<Val> v; Val s; s.type = CSTR; s.s = rnd_str(g, 100 + g.below(5000)); v.push_back(s); s.type = U32; s.v = i; v.push_back(s);
			Args a(v); post_args(r, ar, 0, a); a.scribble();
			want.push_back(hash_args(expect_args(v, r->record_tailroom()))); tick();
		}
		if (r->dropcnt()) viol("big-ring", "ring of 64 records dropped %llu of 63", (unsigned long long) r->dropcnt());
		e->add_ring(r);
		wait_for([&] { std::lock_guard<std::mutex> l(m); return got.size() >= 63; });
		std::lock_guard<std::mutex> l(m);
		if (got.size() != want.size()) viol("big-ring", "%zu of %zu records of a 4 GB ring delivered", got.size(), want.size());
		else for (size_t i = 0; i < want.size(); i++) { if (got[i].second != want[i]) { viol("big-ring", "record %zu of a 4 GB ring is damaged", i); break; } eval(); }
		stat("big_ring");
	}
	r->release();
	e.reset();
	delete r;
}

// A ring that was just added is served, whatever the engine was doing meanwhile.
static void register_case(uint64_t seed)
{
	rng g(seed); phase("register"); tick();
	pert().seed = g.next(); pert().maxus = g.pick((const unsigned[]) { 20, 100, 400 });
	cap_format f; hogl::output_null out(f);
	std::mutex m; std::map<std::string, std::vector<uint64_t>> got; std::atomic<uint64_t> n{0};
	const hogl::area *internal = 0;
	f.on = [&](const hogl::format::data &d, const hogl::record &r) {
		if (r.area == internal) return;
		std::lock_guard<std::mutex> l(m); got[d.ring_name].push_back(r.get_arg_val32(0)); n++;
	};
	hogl::engine::options eo = engine_opts::make(g.pick((const unsigned[]) { 8, 256 }), g.pick((const unsigned[]) { 0, 0, 20 }), g.chance(40) ? (unsigned) hogl::engine::DISABLE_TSO : 0);
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, eo));
	internal = e->internal_area();
	hogl::area *ar = e->add_area("A"); ar->enable();
	pert().level = g.pick((const unsigned[]) { 20, 50, 80 });
	std::vector<hogl::ringbuf *> own; uint64_t posted = 0; std::map<std::string, unsigned> want;
	unsigned rings = g.range(4, 24);
	for (unsigned i = 0; i < rings && !violated(); i++) {
		std::string nm = sf("r%u", i);
		hogl::ringbuf::options ro = { 16, (unsigned) g.below(3), g.chance(50) ? (unsigned) hogl::ringbuf::REUSABLE : 0u, 0 };
		hogl::ringbuf *r;
		if (g.chance(60)) r = e->add_ring(nm.c_str(), ro);
		else { r = new hogl::ringbuf(nm.c_str(), ro); r->hold(); if (!e->add_ring(r)) viol("add-ring", "add_ring(%s) failed", nm.c_str()); }
		if (!r) { viol("add-ring", "add_ring(%s) failed", nm.c_str()); break; }
		own.push_back(r);
		unsigned k = g.range(1, 3);
		for (unsigned j = 0; j < k; j++) hogl::post(r, ar, 0, (unsigned) posted++);
		want[nm] += k; eval(k);
		if (!wait_for([&] { return n >= posted; }, [&] { return n.load(); }))
			viol("not-served", "ring %s, added while the engine was polling, is not served: %llu of %llu records delivered", nm.c_str(), (unsigned long long) n.load(), (unsigned long long) posted);
		if (g.chance(15)) { own.back()->release(); own.pop_back(); }
	}
	pert().level = 0;
	if (violated()) { flush_report(); _exit(3); }
	for (hogl::ringbuf *r : own) r->release();
	e.reset();
	for (auto &w : want) if (got[w.first].size() != w.second) viol("lost", "ring %s: %u posted, %zu delivered", w.first.c_str(), w.second, got[w.first].size());
	stat("rings_registered", rings);
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), cases = argn(argc, argv, 2, 10), total = argn(argc, argv, 3, 4000);
	rule("random rings/engine options per case; each accepted record compared with what its writer posted; non-trivial: a ring that delivered more than 3 records, distinct by (case, ring size, engine options, count)");
	static std::vector<std::string> names;
	for (int i = 0; i < 64; i++) names.push_back(sf("S%d", i));
	for (int i = 0; i < 64; i++) many[i] = names[i].c_str();
	wd().start(60);
	if (!total && cases) { for (uint64_t i = 0; i < cases && !violated(); i++) register_case(mix(seed, i)); return finish(); }
	if (!total) { big_case(seed); return finish(); }
	for (uint64_t i = 0; i < cases && !violated(); i++)
		one_case(mix(seed, i), total, i % 2 == 0);
	return finish();
}
