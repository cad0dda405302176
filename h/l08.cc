// L08: destroying an engine drains everything first.
#define VH_MAIN
#include "perturb.hpp"
#include "cap.hpp"
#include <fstream>
using namespace vh;
typedef hogl::ringbuf RB;

static void one_case(uint64_t seed)
{
	rng g(seed);
	bool notso = g.chance(40), deflt = g.chance(30), file = g.chance(30);
	static const unsigned tsos[] = { 1, 2, 8, 64, 1024, 4096 };
	unsigned tso = g.pick(tsos), nr = g.range(1, 6);
	hogl::timesource ts("vh", logical_cb);
	cap_format f; mem_dest dest;
	std::string path = scratch() + "/out.log";
	unsigned ocap = g.chance(30) ? g.range(1, 64) : g.chance(50) ? 8192 : 1 << 20;
	std::unique_ptr<hogl::output> out;
	if (file) { unlink(path.c_str()); out.reset(new hogl::output_plainfile(path, f, ocap)); } else out.reset(new mem_output(f, dest, ocap));
	const hogl::area *internal = 0;
	std::map<std::string, std::map<uint64_t, uint64_t>> next; // per ring and writer
	std::map<std::string, uint64_t> seq, marks;
	std::atomic<uint64_t> got{0}, calls{0};
	rng eg(seed ^ 9); unsigned slow = g.chance(50) ? g.range(1, 40) : 0;
	std::map<std::string, std::vector<std::pair<uint64_t, uint64_t>>> recv;
	f.on = [&](const hogl::format::data &d, const hogl::record &r) {
		calls++;
		if (r.area == internal) { if (r.section == hogl::internal::DROPMARK) marks[d.ring_name] += r.get_arg_val64(1); return; }
		recv[d.ring_name].push_back({ r.seqnum, r.get_arg_val64(1) });
		got++;
		if (slow && eg.below(100) < slow) { if (eg.chance(20)) usleep(eg.below(100)); else sched_yield(); }
	};
	f.text = [&](hogl::ostrbuf &sb, const hogl::format::data &d) {
		if (d.record->area == internal) return;
		std::string s = sf("%s %llu\n", d.ring_name, (unsigned long long) d.record->get_arg_val64(1));
		sb.push_back(s);
	};
	hogl::engine::options eo = engine_opts::make(tso, g.chance(40) ? 0 : g.chance(50) ? g.range(1, 300) : g.range(1000, 20000), notso ? (unsigned) hogl::engine::DISABLE_TSO : 0, &ts);
	hogl::engine *e;
	if (deflt) { hogl::activate(*out, eo); e = hogl::default_engine; } else e = new hogl::engine(*out, eo);
	internal = e->internal_area();
	hogl::area *ar = e->add_area("A"); ar->enable();
	for (unsigned i = 0; i < 3; i++) e->add_area(sf("extra%u", i).c_str());
	static const unsigned lv[] = { 0, 0, 5, 25 };
	pert().level = g.pick(lv); pert().maxus = 80;

	RB::options io = { 16, 0, RB::IMMORTAL | RB::SHARED, 0 };
	RB *imm = new RB("IMM", io); imm->hold();
	if (!e->add_ring(imm)) viol("add-ring", "refused");
	std::atomic<uint64_t> immposts{0};

	std::atomic<bool> go{false}, killing{false}, killed{false}, letgo{false};
	struct W { std::string name; uint64_t posts = 0, lost = 0, fl = 0; bool blocking = false; std::vector<std::pair<uint64_t, uint64_t>> exp; };
	std::vector<W> w(nr);
	std::atomic<unsigned> ready{0}, finished{0}; std::atomic<uint64_t> posted{0}, flushes{0}, late{0};
	std::vector<std::thread> th;
	bool gate = g.chance(40);
	f.use_gate = gate;
	for (unsigned i = 0; i < nr; i++) {
		uint64_t s = g.next();
		w[i].name = sf("w%u", i);
		th.emplace_back([&, i, s] {
			rng t(s); W &x = w[i];
			x.blocking = t.chance(40);
			RB::options o = { (unsigned) (2 << t.below(8)), (unsigned) t.below(10), x.blocking ? (unsigned) RB::BLOCKING : 0, (unsigned) t.below(400) };
			RB *r = e->add_ring(x.name.c_str(), o);
			if (!r) { viol("add-ring", "refused"); ready++; finished++; return; }
			ready++;
			unsigned mode = t.below(4);    // when to let go: 0 before, 1/2 during, 3 after destruction began plus more posts
			uint64_t n = mode == 0 ? t.below(r->capacity()) : t.below(600);
			for (uint64_t k = 0; k < n || (mode >= 2 && !killing); k++) {
				if (k >= n) { usleep(50); continue; }
				uint64_t q = r->seqnum(), d = r->dropcnt();
				hogl::post(r, ar, hogl::area::INFO, (unsigned long) i, (unsigned long) posted.fetch_add(1), rnd_str(t, t.below(60)));
				x.posts++;
				if (r->dropcnt() == d) x.exp.push_back({ q, 0 }); else x.lost++;
				if (t.chance(2)) usleep(t.below(200));
				tick();
			}
			if (mode == 3) {
				uint64_t k = t.below(100);
				for (; k; k--) {
					uint64_t q = r->seqnum(), d = r->dropcnt();
					hogl::post(r, ar, hogl::area::WARN, (unsigned long) i, (unsigned long) posted.fetch_add(1));
					x.posts++; late++; tick();
					if (r->dropcnt() == d) x.exp.push_back({ q, 0 }); else x.lost++;
					if (t.chance(10)) usleep(t.below(100));
				}
				if (t.chance(40)) { if (!hogl::flush(r, 200000000)) viol("flush", "flush failed while the engine drains"); x.fl++; flushes++; }
			}
			if (killed) viol("returned-early", "engine destroyed while ring %s still has an owner", x.name.c_str());
			finished++;
			r->release();
		});
	}
	// immortal ring posts
	unsigned ip = g.below(15);
	for (unsigned i = 0; i < ip; i++) hogl::post(imm, ar, hogl::area::INFO, 99ul, (unsigned long) posted.fetch_add(1));
	uint64_t immacc = ip - imm->dropcnt();
	uint64_t dposts = 0, d0 = 0;
	phase("start");
	wait_for([&] { return ready == nr; });
	if (deflt) {
		d0 = hogl::default_ring.dropcnt();
		unsigned n = g.below(50);
		for (unsigned i = 0; i < n; i++) { hogl::post(ar, hogl::area::INFO, 98ul, (unsigned long) posted.fetch_add(1)); dposts++; }
	}
	if (gate) { f.gate.close(); usleep(g.below(2000)); }
	else usleep(g.below(3000));
	std::thread opener;
	if (gate) opener = std::thread([&, d = g.below(3000)] { usleep(d); f.gate.open(); });
	imm->release();
	phase("destroy");
	killing = true;
	if (deflt) hogl::deactivate(); else delete e;
	killed = true;
	uint64_t c1 = calls, g1 = got;
	std::string txt = file ? slurp(path) : dest.get();
	if (finished != nr) viol("returned-early", "engine destroyed, %u of %u owners released", finished.load(), nr);
	for (auto &t : th) t.join();
	if (opener.joinable()) opener.join();
	pert().level = 0;
	usleep(g.below(500));
	if (calls != c1) viol("after-destruction", "records delivered after the engine was destroyed");
	if (imm->refcnt() != 0) viol("refcount", "ring keeps %d references after its engine is gone", imm->refcnt());
	if (deflt && hogl::default_ring.refcnt() != 0) viol("refcount", "default ring keeps %d references", hogl::default_ring.refcnt());
	uint64_t want = immacc + (deflt ? dposts - (hogl::default_ring.dropcnt() - d0) : 0);
	for (W &x : w) want += x.exp.size();
	if (g1 != want) viol(g1 < want ? "lost" : "extra", "engine destroyed (tso %u%s, %s): %llu accepted records, %llu delivered before destruction returned", tso, notso ? " off" : "", deflt ? "default engine" : "engine", (unsigned long long) want, (unsigned long long) g1);
	uint64_t lines = std::count(txt.begin(), txt.end(), '\n');
	if (lines != g1) viol("not-flushed", "%llu records delivered but only %llu lines reached the destination (buffer %u) when destruction returned", (unsigned long long) g1, (unsigned long long) lines, ocap);
	for (W &x : w) {
		auto &v = recv[x.name];
		if (v.size() != x.exp.size()) { viol("lost", "ring %s: %zu accepted, %zu delivered", x.name.c_str(), x.exp.size(), v.size()); break; }
		for (size_t i = 0; i < v.size(); i++) if (v[i].first != x.exp[i].first) { viol("order", "ring %s: delivery #%zu has seqnum %llu instead of %llu", x.name.c_str(), i, (unsigned long long) v[i].first, (unsigned long long) x.exp[i].first); break; }
		// drops up to the last delivered record are announced
		uint64_t ann = marks[x.name];
		uint64_t before = 0; if (v.size()) before = v.back().first + 1 - v.size();
		if (!notso && !x.fl && ann != before) viol("drop-account", "ring %s: %llu records missing between delivered ones, marks say %llu", x.name.c_str(), (unsigned long long) before, (unsigned long long) ann);
	}
	if (violated()) { flush_report(); _exit(3); }
	delete imm;
	out.reset();
	eval(g1); stat("destructions"); stat("posts_after_destruction_began", late); stat("flushes_during_destruction", flushes);
	if (deflt) stat("default_engine_destructions");
	if (g1 > 3) distinct(mix(seed, mix(g1, late)));
	sample("destruction with %u owned rings, tso %u%s, %s, output buffer %u: %llu records accepted, all delivered and flushed; %llu posted after destruction began", nr, tso, notso ? " off" : "", deflt ? "default engine" : "own engine", ocap, (unsigned long long) g1, (unsigned long long) late);
}

// a ring added to an idle engine that is destroyed at once, while its index may be locked
static void brief_case(uint64_t seed)
{
	rng g(seed); tick();
	hogl::timesource ts("vh", logical_cb);
	cap_format f; hogl::output_null out(f);
	std::atomic<uint64_t> got{0}; const hogl::area *internal = 0;
	f.on = [&](const hogl::format::data &, const hogl::record &r) { if (r.area != internal) got++; };
	hogl::engine *e = new hogl::engine(out, engine_opts::make(64, g.pick((const unsigned[]) { 0, 500, 3000 }), g.chance(50) ? (unsigned) hogl::engine::DISABLE_TSO : 0, &ts));
	internal = e->internal_area();
	hogl::area *ar = e->add_area("A"); ar->enable();
	pert().level = g.pick((const unsigned[]) { 1, 1, 30 }); pert().maxus = 40;
	usleep(g.below(2500));
	unsigned n = g.range(1, 3), k = 0; std::vector<RB *> r;
	for (unsigned i = 0; i < n; i++) { RB::options o = { 32, (unsigned) g.below(5), g.chance(30) ? (unsigned) RB::SHARED : 0, 0 }; r.push_back(e->add_ring(sf("r%u", i).c_str(), o)); }
	for (RB *x : r) for (unsigned j = g.below(20); j; j--, k++) hogl::post(x, ar, hogl::area::INFO, (unsigned long) k);
	for (RB *x : r) x->release();
	phase("destroy");
	delete e;
	pert().level = 0;
	if (got != k) viol(got < k ? "lost" : "extra", "engine destroyed right after %u rings were added: %u records accepted, %llu delivered", n, k, (unsigned long long) got);
	if (violated()) { flush_report(); _exit(3); }
	eval(k); stat("brief_engines"); distinct(mix(seed, k));
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), n = argn(argc, argv, 2, 30);
	rule("engines destroyed at random points with backlogs, stalled outputs, blocked writers and owners releasing before or after; non-trivial: more than three records delivered, distinct by (case, delivered, posted late)");
	pert().seed = seed;
	wd().start(60);
	for (uint64_t i = 0; i < n && !violated(); i++) one_case(mix(seed, i));
	for (uint64_t i = 0; i < 4 * n && !violated(); i++) brief_case(mix(seed, 7000 + i));
	return finish();
}
