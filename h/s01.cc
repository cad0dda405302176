// S01: everything at once, under the sanitizers.
#define VH_MAIN
#include "cap.hpp"
#include "perturb.hpp"
#include <hogl/output-file.hpp>
#include <hogl/output-tee.hpp>
#include <hogl/format-basic.hpp>
#include <hogl/format-raw.hpp>
#include <hogl/detail/schedparam.hpp>
#include <sstream>
using namespace vh;
typedef hogl::ringbuf RB;

static hogl::timesource ts_a("A", logical_cb), ts_b("B", logical_cb), ts_c("C", logical_cb);
static hogl::timesource *const srcs[] = { &ts_a, &ts_b, &ts_c };
static const char *const names[] = { "alpha", "beta", "gamma", "delta", "net", "disk" };
static const char *secs[] = { "DEBUG", "INFO", "WARN", "ERROR", "TRACE", 0 };

struct counts { std::atomic<uint64_t> c[16]; };
static counts ops;
static const char *const opname[] = { "posts", "scopes", "shared_scopes", "areas_added", "masks", "timesources", "flushes", "listings", "rings", "lookups", "name_switches", "direct_writes", "private_engines", "section_flips", "default_ring_posts", "bursts" };

// Checks records as they pass: reading all of a record is what the race detector needs
struct reading_format : public hogl::format {
	std::unique_ptr<hogl::format> in; std::atomic<uint64_t> count{0}, sum{0};
	reading_format(hogl::format *f) : in(f) {}
	virtual void process(hogl::ostrbuf &sb, const data &d)
	{
		const hogl::record &r = *d.record; std::string bad;
		std::vector<CArg> a = capture_args(r, 0, &bad); sum += hash_args(a) + r.seqnum + r.timestamp + r.section + (uintptr_t) r.area;
		if (r.area && r.area->name()) sum += strlen(r.area->name());
		if (d.ring_name) sum += strlen(d.ring_name);
		if (in) in->process(sb, d);
		count++; tick();
	}
	virtual void header(hogl::ostrbuf &sb, const char *n, bool f) { if (in) in->header(sb, n, f); }
	virtual void footer(hogl::ostrbuf &sb, const char *n) { if (in) in->footer(sb, n); }
};

// Often the same kind in all engines of a world: what formats share among them, if anything
static std::atomic<unsigned> usual_format{0};
static hogl::format *mkfmt(rng &g)
{
	switch (g.chance(60) ? usual_format.load() : (unsigned) g.below(6)) {
	case 0: return new hogl::format_raw();
	case 1: return new hogl::format_basic(0xffffffffu);
	case 2: return new hogl::format_basic();
	case 3: return new hogl::format_basic("fast0");
	case 4: return new hogl::format_basic("timestamp,timedelta,ring,section");
	default: return new hogl::format_basic("fast1");
	}
}

// one record of any shape; no address is handed out that dies early (global strings are static)
static void post_any(rng &g, RB *r, const hogl::area *a)
{
	unsigned s = g.below(4);
	switch (g.below(9)) {
	case 0: hogl::post(r, a, s, "plain"); break;
	case 1: hogl::post(r, a, s, "%u %s", (unsigned) g.below(100), rnd_str(g, g.below(60))); break;
	case 2: hogl::post(r, a, s, hogl::arg_gstr("%d %f global"), (int) g.next(), 1.5); break;
	case 3: { std::string d = rnd_bytes(g, 1 + g.below(100)); hogl::post(r, a, s, hogl::arg_xdump(d.data(), d.size())); break; }
	case 4: { std::string d = rnd_bytes(g, 1 + g.below(100)); hogl::post(r, a, s, hogl::arg_raw(d.data(), d.size())); break; }
	case 5: hogl::post(r, a, s); break;
	case 6: hogl::post(r, a, s, (uint64_t) g.next(), (int64_t) -1, (void *) &g, 'c', true, 2.0f); break;
	default: { std::vector<Val> v; do v = rnd_vals(g, 40); while (!v.empty() && (v[0].type == GSTR || v[0].type == CSTR)); Args x(v); post_args(r, a, s, x); x.scribble(); }
	}
}

struct world {
	hogl::engine *e; hogl::output_file *of = 0; std::string dir; hogl::area *base; RB *shared; unsigned id; bool dflt;
	std::atomic<bool> quit{false};
};

static void private_engine(rng &g, const std::string &file)
{
	reading_format f(mkfmt(g));
	std::unique_ptr<hogl::output> out;
	if (g.chance(30)) out.reset(new hogl::output_file(file, f, hogl::output_file::default_options)); else out.reset(new hogl::output_null(f));
	hogl::engine e(*out, engine_opts::make(g.pick((const unsigned[]) { 1, 8, 256 }), g.pick((const unsigned[]) { 10, 1000 }), g.chance(30) ? (unsigned) hogl::engine::DISABLE_TSO : 0, srcs[g.below(3)]));
	hogl::area *a = e.add_area("P", secs); unsigned n = g.below(40);
	RB::options o = { 16u << g.below(3), g.below(3) ? 0u : 5u, g.chance(50) ? (unsigned) RB::BLOCKING : 0, 100 };
	hogl::tls t("PRIV", o, &e);
	for (unsigned i = 0; i < n; i++) post_any(g, hogl::tls::ring(), a);
	if (g.chance(40)) hogl::flush(hogl::tls::ring(), 20000000);
}

// Flags of an area are a plain word: see tsan.supp
static __attribute__((noinline)) void flip_section(hogl::area *a, unsigned s, bool on, bool all) { if (on) a->enable(s); else a->disable(s); if (all) a->enable(); }

static void actor(world &w, uint64_t seed, unsigned steps)
{
	rng g(seed);
	std::vector<hogl::area *> areas = { w.base };
	for (unsigned i = 0; i < steps; i++) {
		tick();
		unsigned op = g.below(16); ops.c[op]++;
		hogl::area *a = g.pick(areas);
		switch (op) {
		case 0: for (unsigned k = g.below(8); k--; ) post_any(g, w.shared, a); break;
		case 1: {
			RB::options o = { 8u << g.below(4), g.chance(50) ? 0u : 10u, g.chance(40) ? (unsigned) RB::BLOCKING : 0, g.chance(50) ? 0u : 200u };
			hogl::tls t(sf("own-%llx", (unsigned long long) g.next()).c_str(), o, w.e);
			if (!t.valid()) { viol("scope", "a ring with a name of its own was refused"); break; }
			for (unsigned k = g.below(30); k--; ) post_any(g, hogl::tls::ring(), a);
			if (g.chance(30)) hogl::flush(hogl::tls::ring(), g.chance(50) ? 1000 : 20000000);
			break; }
		case 2: {
			RB::options o = { 32, 0, RB::SHARED | RB::REUSABLE, 0 };
			hogl::tls t(g.pick(names), o, w.e);
			if (t.valid()) for (unsigned k = g.below(10); k--; ) post_any(g, hogl::tls::ring(), a);
			break; }
		case 3: { hogl::area *x = w.e->add_area(sf("%s%u", g.pick(names), (unsigned) g.below(6)).c_str(), secs); if (x) { areas.push_back(x); post_any(g, w.shared, x); } break; }
		case 4: {
			hogl::mask m(".*:.*", g.chance(50) ? "!net.*:TRACE" : "!.*:DEBUG", "alpha.*:DEBUG", (char *) 0);
			if (g.chance(30)) { std::stringstream ss; ss << m; hogl::mask m2; ss >> m2; m = m2; }
			w.e->apply_mask(m); break; }
		case 5: hogl::change_timesource(w.shared, srcs[g.below(3)], g.chance(50) ? 1 : 20000000); break;
		case 6: hogl::flush(w.shared, g.chance(50) ? 1 : 20000000); break;
		case 7: { hogl::string_list l; w.e->list_rings(l); w.e->list_areas(l); break; }
		case 8: {
			std::string n = sf("r%u", (unsigned) g.below(5)); RB::options o = { 16, 0, RB::SHARED | (g.chance(50) ? (unsigned) RB::REUSABLE : 0u), 0 };
			RB *r = w.e->add_ring(n.c_str(), o);
			if (r) { for (unsigned k = g.below(6); k--; ) post_any(g, r, a); r->release(); }
			break; }
		case 9: { RB *r = w.e->find_ring(sf("r%u", (unsigned) g.below(5)).c_str()); if (r) { if (r->shared()) post_any(g, r, a); r->release(); } const hogl::area *x = w.e->find_area(sf("%s%u", g.pick(names), (unsigned) g.below(6)).c_str()); if (x && x->size() == 5) post_any(g, w.shared, x); break; }
		case 10: if (w.of && g.chance(30)) w.of->switch_name(w.dir + sf("/w%u-%u.#.log", w.id, (unsigned) g.below(3))); break;
		case 11: if (w.of) { std::string s(g.below(300), 'x'); s += '\n'; w.of->write(s.data(), s.size()); } break;
		case 12: if (g.chance(15)) private_engine(g, w.dir + sf("/p%llx.#", (unsigned long long) g.next())); break;
		case 13: { unsigned s = g.below(5); flip_section(a, s, g.chance(50), g.chance(10)); break; }
		case 14: if (w.dflt) { post_any(g, &hogl::default_ring, w.base); break; } ops.c[14]--; ops.c[0]++; post_any(g, w.shared, w.base); break;
		case 15: {
			RB::options o = { 64, 0, RB::BLOCKING, 0 };
			hogl::tls t(sf("burst-%llx", (unsigned long long) g.next()).c_str(), o, w.e);
			for (unsigned k = 0; k < 150; k++) hogl::post(w.base, hogl::area::INFO, "%u %p %s", k, (void *) &w, "tail");
			if (g.chance(30)) usleep(g.below(500));
			break; }
		}
	}
}

static void one_world(uint64_t seed, unsigned id, unsigned steps)
{
	rng g(seed); eval(); phase("world");
	std::string dir = scratch() + sf("/w%u", id); mkdir(dir.c_str(), 0755);
	pert().seed = seed; pert().level = g.chance(60) ? g.range(1, 20) : 0;
	usual_format = g.below(6);
	reading_format f(mkfmt(g)), f2(mkfmt(g));
	mem_dest md; uint64_t before[16]; for (unsigned i = 0; i < 16; i++) before[i] = ops.c[i];
	world w; w.dir = dir; w.id = id;
	hogl::output_file::options fo = hogl::output_file::default_options; fo.max_size = g.pick((const unsigned[]) { 200, 5000, 100000 }); fo.max_count = 4; fo.buffer_capacity = g.pick((const unsigned[]) { 0, 100, 8192 });
	std::unique_ptr<hogl::output> out, o1, o2;
	switch (g.below(4)) {
	case 0: out.reset(new mem_output(f, md)); break;
	case 1: out.reset(w.of = new hogl::output_file(dir + "/log.#.txt", f, fo)); break;
	case 2: out.reset(new hogl::output_null(f)); break;
	case 3: o1.reset(w.of = new hogl::output_file(dir + "/log.#.txt", f, fo)); o2.reset(new mem_output(f2, md)); out.reset(new hogl::output_tee(o1.get(), o2.get())); break;
	}
	hogl::schedparam sp;
	hogl::engine::options eo = engine_opts::make(g.pick((const unsigned[]) { 1, 4, 64, 1024 }), g.pick((const unsigned[]) { 10, 500, 5000 }), g.chance(25) ? (unsigned) hogl::engine::DISABLE_TSO : 0, srcs[0]);
	bool dflt = w.dflt = g.chance(50); uint64_t total = 0;
	if (dflt) { hogl::activate(*out, eo); w.e = hogl::default_engine; }
	else w.e = new hogl::engine(*out, eo);
	w.base = w.e->add_area("BASE", secs);
	RB::options so = { 64, 3, RB::SHARED | (g.chance(50) ? (unsigned) RB::BLOCKING : 0u), 120 };
	w.shared = w.e->add_ring("SHARED", so);
	unsigned nt = g.range(2, 6); std::vector<std::thread> ths;
	for (unsigned t = 0; t < nt; t++) ths.emplace_back([&w, seed, t, steps] { actor(w, mix(seed, t + 1), steps); });
	for (auto &t : ths) t.join();
	pert().level = 0;
	if (g.chance(30)) { std::ostringstream ss; ss << *w.e << w.e->get_options() << w.e->get_mask(); total += ss.str().size() ? 0 : 1; }
	w.shared->release();
	phase("shutdown");
	if (dflt) hogl::deactivate(); else delete w.e;
	out.reset(); o1.reset(); o2.reset();
	uint64_t h = nt; for (unsigned i = 0; i < 16; i++) { stat(opname[i], ops.c[i] - before[i]); h = mix(h, ops.c[i] - before[i]); }
	stat("records_read", f.count); stat("worlds");
	distinct(mix(h, f.sum));
	sample("world with %u threads of %u steps, %llu records read by the engine", nt, steps, (unsigned long long) f.count.load());
	std::string rm = "/bin/rm -rf '" + dir + "'"; if (system(rm.c_str())) stat("rm_failed");
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), n = argn(argc, argv, 2, 10), steps = argn(argc, argv, 3, 100);
	wd().start();
	rule("evaluation: one world of threads using everything at once, from start to clean shutdown. distinct: operations and records read");
	for (uint64_t i = 0; i < n && !violated(); i++) one_world(mix(seed, i), i, steps);
	return finish();
}
