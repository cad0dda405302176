// L11: listing and dumping an engine shows what is there and changes nothing.
#define VH_MAIN
#include "perturb.hpp"
#include "cap.hpp"
#include <sstream>
#include <iomanip>
using namespace vh;
typedef hogl::ringbuf RB;
typedef std::map<std::string, std::string> KV;

// key:value pairs of a "{ a:1, b:2 }" text
static KV parse_kv(const std::string &s)
{
	KV r; size_t i = 0; auto word = [](char c) { return isalnum((unsigned char) c) || c == '_' || c == '-'; };
	while (i < s.size()) {
		size_t c = s.find(':', i); if (c == s.npos) break;
		size_t b = c; while (b > i && word(s[b - 1])) b--;
		size_t e = c + 1; while (e < s.size() && s[e] != ',' && s[e] != ' ' && s[e] != '}' && s[e] != '\n') e++;
		if (b < c) r[s.substr(b, c - b)] = s.substr(c + 1, e - c - 1);
		i = e;
	}
	return r;
}
static std::string trim(const std::string &s) { size_t a = s.find_first_not_of(' '); return a == s.npos ? "" : s.substr(a); }
static std::map<std::string, std::vector<std::string>> sections(const std::string &d)
{
	std::map<std::string, std::vector<std::string>> r; std::string cur, l; std::istringstream is(d);
	static const std::set<std::string> heads = { "Options:", "Mask:", "Stats:", "Rings:", "Areas:" };
	while (std::getline(is, l)) {
		std::string t = l; while (!t.empty() && t.back() == ' ') t.pop_back();
		if (heads.count(t) && !r.count(t)) { cur = t; r[cur]; continue; }
		r[cur].push_back(trim(l));
	}
	return r;
}
static std::string num(uint64_t v) { return std::to_string(v); }
static bool check_kv(const char *what, const KV &kv, const char *k, const std::string &want)
{
	auto it = kv.find(k);
	if (it == kv.end()) { viol("dump", "%s: no %s shown", what, k); return false; }
	if (it->second != want) { viol("dump", "%s: %s is shown as '%s', it is '%s'", what, k, it->second.c_str(), want.c_str()); return false; }
	return true;
}
static void check_ring(const std::string &line, RB *r, unsigned extra)
{
	std::string w = std::string("ring '") + r->name() + "'", n = std::string(r->name()) + ":";
	if (line.compare(0, n.size(), n)) { viol("dump", "%s: shown as '%s'", w.c_str(), line.c_str()); return; }
	KV kv = parse_kv(line.substr(n.size()));
	check_kv(w.c_str(), kv, "prio", std::to_string(r->prio())); check_kv(w.c_str(), kv, "seqnum", num(r->seqnum())); check_kv(w.c_str(), kv, "dropcnt", num(r->dropcnt()));
	check_kv(w.c_str(), kv, "capacity", num(r->capacity())); check_kv(w.c_str(), kv, "size", num(r->size())); check_kv(w.c_str(), kv, "room", num(r->room()));
	check_kv(w.c_str(), kv, "record_size", num(r->record_size())); check_kv(w.c_str(), kv, "record_tailroom", num(r->record_tailroom()));
	check_kv(w.c_str(), kv, "timesource", r->timesource() ? r->timesource()->name() : "null");
	if (kv["refcnt"] != std::to_string(r->refcnt()) && kv["refcnt"] != std::to_string(r->refcnt() + extra)) viol("dump", "%s: shown with %s references, it has %d", w.c_str(), kv["refcnt"].c_str(), r->refcnt());
	eval();
}
static void check_stats(const KV &kv, const hogl::engine::stats &a, const hogl::engine::stats &b, const char *w)
{
	auto in = [&](const char *k, unsigned long lo, unsigned long hi) {
		auto it = kv.find(k); if (it == kv.end()) { viol("dump", "%s: no %s shown", w, k); return; }
		unsigned long v = strtoul(it->second.c_str(), 0, 10);
		if (v < lo || v > hi || it->second != num(v)) viol("dump", "%s: %s is shown as '%s', it was %lu before and %lu after", w, k, it->second.c_str(), lo, hi);
	};
	in("tso_full", a.tso_full, b.tso_full); in("recs_out", a.recs_out, b.recs_out); in("recs_dropped", a.recs_dropped, b.recs_dropped); in("loops", a.loops, b.loops);
	in("rings_indexed", a.rings_indexed, b.rings_indexed); in("areas_added", a.areas_added, b.areas_added); in("mask_changed", a.mask_changed, b.mask_changed); in("timesource_changed", a.timesource_changed, b.timesource_changed);
	eval();
}
static std::vector<std::string> mask_lines(const hogl::mask &m) { std::ostringstream s; s << m; std::istringstream i(s.str()); std::vector<std::string> r; std::string l; while (std::getline(i, l)) r.push_back(trim(l)); return r; }
static std::set<std::string> area_want(const hogl::area *a) { std::set<std::string> r; for (unsigned i = 0; i < a->size(); i++) r.insert(std::string(a->test(i) ? "" : "!") + a->name() + ":" + a->section_name(i)); return r; }

static std::string name_of(rng &g, unsigned i)
{
	static const char *const p[] = { "ring", "a b", "Main", "x.y*", "TID:1", "{ prio:9, ", "q", "very-long-name-very-long-name-very-long-name-very-long-name-very-long-name" };
	return std::string(g.pick(p)) + num(i);
}

static void still_case(uint64_t seed)
{
	rng g(seed); tick();
	hogl::timesource ts("ts-a", logical_cb), ts2("ts-b", logical_cb);
	cap_format f; hogl::output_null out(f); f.use_gate = true;
	hogl::schedparam sp(SCHED_OTHER, 0, 0, "0x1");
	hogl::engine::options o = engine_opts::make(1 + g.below(5000), g.below(300), g.below(2), g.chance(50) ? &ts : 0);
	std::vector<std::string> mask = { ".*:.*", "!HOGL:.*DEBUG.*" };
	while (g.chance(60)) { static const char *const p[] = { "A.*:INFO", "!.*:(WARN|S1)", "NET:", ":ERROR", "!S2", "A0:S.*", "[AB]0:DEBUG" }; mask.push_back(g.pick(p)); }
	o.default_mask.clear(); for (auto &m : mask) o.default_mask << m;
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, o));
	std::vector<hogl::area *> areas; std::set<std::string> anames; { hogl::string_list l; e->list_areas(l); anames.insert(l.begin(), l.end()); }
	static const char *s2[] = { "S0", "S1", "S2", 0 }; static const char *s70[71]; static std::vector<std::string> *keep = 0;
	if (!keep) { keep = new std::vector<std::string>; keep->reserve(70); for (unsigned i = 0; i < 70; i++) { keep->push_back("T" + num(i)); s70[i] = keep->back().c_str(); } s70[70] = 0; }
	unsigned na = g.below(8);
	for (unsigned i = 0; i < na; i++) { static const char *const p[] = { "A", "NET", "B", "a b", "!A" }; std::string n = g.pick(p) + num(i); hogl::area *a = e->add_area(n.c_str(), g.chance(50) ? 0 : g.chance(70) ? s2 : s70); if (!a) { viol("area", "area refused"); return; } areas.push_back(a); anames.insert(n); }
	hogl::area *gate_area = e->add_area("GATE"); anames.insert("GATE"); gate_area->enable();
	RB::options go = { 16, 0, 0, 0 }; RB *gr = e->add_ring("GATE", go);
	f.gate.close(); hogl::post(gr, gate_area, hogl::area::INFO, 1);
	if (!wait_for([&] { return f.gate.blocked(); })) { viol("not-delivered", "gate record not delivered"); flush_report(); _exit(3); }
	std::vector<RB *> rings; std::vector<unsigned> holds; unsigned nr = g.below(9);
	for (unsigned i = 0; i < nr; i++) {
		RB::options ro = { (unsigned) g.range(2, 300), (unsigned) g.below(1000), (g.chance(30) ? RB::SHARED : 0u) | (g.chance(30) ? RB::REUSABLE : 0u), (unsigned) g.below(500) };
		RB *r = e->add_ring(name_of(g, i).c_str(), ro); if (!r) { viol("ring", "ring refused"); flush_report(); _exit(3); }
		rings.push_back(r); unsigned c = 1; while (g.chance(30)) { r->hold(); c++; } holds.push_back(c);
	}
	std::string trace;
	for (unsigned rd = 0; rd < 6 && !violated(); rd++) {
		for (RB *r : rings) for (unsigned i = g.chance(50) ? g.below(20) : g.below(400); i; i--) hogl::post(r, gate_area, hogl::area::INFO, i);
		for (hogl::area *a : areas) if (g.chance(50)) a->set(g.below(a->size()), g.chance(50));
		if (g.chance(30)) { hogl::mask m; mask.clear(); unsigned k = g.below(5); static const char *const p[] = { "A.*:INFO", "!.*:(WARN|S1)", "NET:", ":ERROR", "!S2", "A0:S.*", "!.*", ".*:.*" }; for (unsigned i = 0; i < k; i++) { mask.push_back(g.pick(p)); m << mask.back(); } e->apply_mask(m); gate_area->enable(); }
		// what is there
		std::set<std::string> rn; for (RB *r : rings) rn.insert(r->name()); rn.insert("GATE");
		hogl::string_list rl, al; e->list_rings(rl); e->list_areas(al);
		if (std::multiset<std::string>(rl.begin(), rl.end()) != std::multiset<std::string>(rn.begin(), rn.end())) viol("listing", "%zu rings listed, %zu are there", rl.size(), rn.size());
		if (std::multiset<std::string>(al.begin(), al.end()) != std::multiset<std::string>(anames.begin(), anames.end())) viol("listing", "%zu areas listed, %zu are there", al.size(), anames.size());
		std::vector<int> rc; std::vector<uint64_t> sq; std::vector<unsigned> sz; for (RB *r : rings) { rc.push_back(r->refcnt()); sq.push_back(r->seqnum()); sz.push_back(r->size()); }
		std::vector<std::set<std::string>> aw; for (hogl::area *a : areas) aw.push_back(area_want(a));
		hogl::engine::stats st0 = e->get_stats();
		std::ostringstream s; 
		auto fl = s.flags();
		s << *e;
		hogl::engine::stats st1 = e->get_stats();
		if (s.flags() != fl) viol("stream", "dumping leaves the stream with other flags");
		for (unsigned i = 0; i < rings.size(); i++) if (rings[i]->refcnt() != rc[i] || rings[i]->seqnum() != sq[i] || rings[i]->size() != sz[i]) viol("changes", "dumping changes ring '%s': references %d -> %d", rings[i]->name(), rc[i], rings[i]->refcnt());
		for (unsigned i = 0; i < areas.size(); i++) if (area_want(areas[i]) != aw[i]) viol("changes", "dumping changes area '%s'", areas[i]->name());
		auto d = sections(s.str());
		for (auto h : { "Options:", "Mask:", "Stats:", "Rings:", "Areas:" }) if (!d.count(h)) viol("dump", "no %s in the dump", h);
		if (violated()) break;
		KV ko = parse_kv(d["Options:"].empty() ? "" : d["Options:"][0]);
		check_kv("options", ko, "polling_interval_usec", num(o.polling_interval_usec)); check_kv("options", ko, "tso_buffer_capacity", num(o.tso_buffer_capacity)); check_kv("options", ko, "features", sf("%x", o.features));
		check_kv("options", ko, "timesource", e->get_options().timesource ? e->get_options().timesource->name() : "null");
		if (d["Mask:"] != mask) { std::string a, b; for (auto &x : d["Mask:"]) a += x + " "; for (auto &x : mask) b += x + " "; viol("dump", "mask is shown as %s, it is %s", a.c_str(), b.c_str()); }
		if (mask_lines(e->get_mask()) != mask) viol("dump", "get_mask() shows another mask");
		check_stats(parse_kv(d["Stats:"].empty() ? "" : d["Stats:"][0]), st0, st1, "engine stats");
		if (d["Rings:"].size() != rn.size()) viol("dump", "%zu rings shown, %zu are there", d["Rings:"].size(), rn.size());
		for (RB *r : rings) {
			unsigned hit = 0; for (auto &l : d["Rings:"]) if (!l.compare(0, strlen(r->name()) + 1, std::string(r->name()) + ":")) { hit++; check_ring(l, r, 1); }
			if (hit != 1) viol("dump", "ring '%s' is shown %u times", r->name(), hit);
			std::ostringstream s1; s1 << *r; check_ring(s1.str().substr(0, s1.str().find('\n')), r, 0);
		}
		std::multiset<std::string> got(d["Areas:"].begin(), d["Areas:"].end()), want;
		for (auto &n : anames) { const hogl::area *a = e->find_area(n.c_str()); if (!a || n != a->name()) { viol("find", "area '%s' is not found", n.c_str()); break; } for (auto &x : area_want(a)) want.insert(x); }
		for (unsigned i = 0; i < areas.size(); i++) if (e->find_area(areas[i]->name()) != areas[i]) viol("find", "area '%s' is another one", areas[i]->name());
		if (got != want) { std::string x; for (auto &w : want) if (!got.count(w)) x += w + " "; x += "/ "; for (auto &w : got) if (!want.count(w)) x += w + " "; viol("dump", "areas: missing / too many: %s", x.c_str()); }
		for (hogl::area *a : areas) { std::ostringstream s1; s1 << *a; std::istringstream is(s1.str()); std::multiset<std::string> w2, g2; std::string l; while (std::getline(is, l)) g2.insert(l); for (auto &x : area_want(a)) w2.insert(x); if (g2 != w2) viol("dump", "area '%s' is shown wrong: %s", a->name(), s1.str().c_str());
			// an area's dump, taken as a mask, brings the state back (if the names are plain)
			if (!strchr(a->name(), '!') && g.chance(30)) { hogl::mask m; std::istringstream is2(s1.str()); is2 >> m; std::vector<bool> b; for (unsigned i = 0; i < a->size(); i++) b.push_back(a->test(i)); for (unsigned i = 0; i < a->size(); i++) a->set(i, g.chance(50)); m.apply(a); for (unsigned i = 0; i < a->size(); i++) if (a->test(i) != b[i]) { viol("area-as-mask", "the dump of area '%s' applied as a mask does not bring back section %s", a->name(), a->section_name(i)); break; } stat("dumps_as_masks"); } }
		stat("dumps"); eval(); trace += s.str();
		distinct(hash_str(s.str()));
		if (rd == 0) sample("%zu rings, %zu areas, mask of %zu: dump of %zu bytes", rings.size(), areas.size(), mask.size(), s.str().size());
	}
	f.gate.open();
	if (violated()) { flush_report(); _exit(3); }
	for (unsigned i = 0; i < rings.size(); i++) while (holds[i]--) rings[i]->release();
	gr->release();
	phase("drop");
	hogl::string_list l;
	if (!wait_for([&] { l.clear(); e->list_rings(l); return l.empty(); })) { viol("leaked-reference", "%zu rings stay registered after their owners and the dumps are done", l.size()); flush_report(); _exit(3); }
	phase("destroy"); e.reset();
	{ std::ostringstream s; hogl::schedparam p(g.below(3), g.below(90), 0, g.chance(50) ? "list:1,3" : "0xff"); auto fl = s.flags(); s << std::hex; s << std::dec; s << p; KV kv = parse_kv(s.str()); check_kv("schedparam", kv, "policy", std::to_string(p.policy)); check_kv("schedparam", kv, "priority", std::to_string(p.priority)); if (s.str().find(p.cpu_affinity) == std::string::npos) viol("dump", "schedparam: affinity not shown"); if (s.flags() != fl) viol("stream", "dumping a schedparam leaves other flags"); }
}

// Dumps while rings and areas come and go
static void busy_case(uint64_t seed, unsigned ops)
{
	rng g(seed); tick();
	hogl::timesource ts("ts-a", logical_cb);
	cap_format f; hogl::output_null out(f); std::atomic<uint64_t> got{0}; f.on = [&](const hogl::format::data &, const hogl::record &) { got++; };
	hogl::mask m(".*:.*", "!HOGL:.*DEBUG.*", 0);
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(1 + g.below(2000), g.below(100), g.below(2), &ts)));
	hogl::area *ar = e->add_area("AR"); ar->enable();
	RB::options so = { 64, 7, RB::SHARED, 0 }; RB *fixed = e->add_ring("fixed", so);
	pert().level = g.pick((const unsigned[]) { 0, 20, 60 });
	std::mutex mx; std::map<std::string, unsigned> alive; std::set<std::string> ever = { "fixed" }; std::set<std::string> everarea; { hogl::string_list l; e->list_areas(l); everarea.insert(l.begin(), l.end()); }
	std::atomic<unsigned> done{0}, stop{0}; std::atomic<uint64_t> cnt{0}, dumps{0}; unsigned nt = g.range(1, 4), nd = g.range(1, 2);
	std::vector<std::thread> th;
	for (unsigned t = 0; t < nt; t++) th.emplace_back([&, t] {
		rng h(mix(seed, t));
		for (unsigned i = 0; i < ops && !violated(); i++) {
			tick(); cnt++;
			std::string n = sf("n%u.%u", t, (unsigned) h.below(3));
			if (h.chance(10)) { std::string a = sf("X%u.%u", t, (unsigned) h.below(6)); { std::lock_guard<std::mutex> l(mx); everarea.insert(a); } hogl::area *x = e->add_area(a.c_str()); if (!x) viol("area", "area refused"); continue; }
			RB::options o = { (unsigned) h.range(2, 40), (unsigned) h.below(50), RB::REUSABLE, (unsigned) h.below(60) };
			{ std::lock_guard<std::mutex> l(mx); ever.insert(n); }
			RB *r = e->add_ring(n.c_str(), o);
			if (!r) continue;      // a dump may hold it right now
			{ std::lock_guard<std::mutex> l(mx); alive[n]++; }
			for (unsigned k = h.below(10); k; k--) hogl::post(r, ar, hogl::area::INFO, k);
			if (h.chance(20)) usleep(h.below(300));
			{ std::lock_guard<std::mutex> l(mx); alive[n]--; }
			r->release();
		}
		done++;
	});
	for (unsigned t = 0; t < nd; t++) th.emplace_back([&] {
		std::set<std::string> cand; hogl::engine::stats s0, s1;
		while (!stop && !violated()) {
			tick();
			std::map<std::string, unsigned> a0; { std::lock_guard<std::mutex> l(mx); a0 = alive; }
			s0 = e->get_stats();
			std::ostringstream s; s << *e;
			s1 = e->get_stats();
			auto d = sections(s.str());
			std::lock_guard<std::mutex> l(mx);
			std::map<std::string, unsigned> seen;
			for (auto &x : d["Rings:"]) { std::string n = x.substr(0, x.find(':')); if (!ever.count(n)) { viol("dump", "a ring that never was is shown: %s", x.c_str()); break; } if (seen[n]++) { viol("dump", "ring '%s' is shown twice", n.c_str()); break; }
				KV kv = parse_kv(x.substr(n.size() + 1)); unsigned c = strtoul(kv["capacity"].c_str(), 0, 10), z = strtoul(kv["size"].c_str(), 0, 10); if (!c || z >= c + 1 || kv["timesource"] != "ts-a") { viol("dump", "ring is shown as %s", x.c_str()); break; } }
			if (!seen.count("fixed")) viol("dump", "a registered ring is not shown");
			for (auto &x : d["Areas:"]) { std::string n = x.substr(x[0] == '!'); n = n.substr(0, n.find(':')); if (!everarea.count(n)) { viol("dump", "an area that never was is shown: %s", x.c_str()); break; } }
			check_stats(parse_kv(d["Stats:"].empty() ? "" : d["Stats:"][0]), s0, s1, "engine stats");
			dumps++; eval();
		}
	});
	phase("busy");
	if (!wait_for([&] { return done == nt || violated(); }, [&] { return cnt + got; })) viol("stuck", "registry operations do not finish");
	stop = 1;
	if (violated()) { flush_report(); _exit(3); }
	for (auto &t : th) t.join();
	pert().level = 0;
	hogl::string_list l;
	phase("drop");
	if (!wait_for([&] { l.clear(); e->list_rings(l); return l.size() == 1; }, [&] { return (uint64_t) got; })) { viol("leaked-reference", "%zu rings stay registered after their owners and the dumps are done", l.size()); flush_report(); _exit(3); }
	if (fixed->refcnt() != 2) viol("leaked-reference", "ring has %d references after the dumps", fixed->refcnt());
	fixed->release();
	e.reset();
	stat("busy_dumps", dumps); stat("busy_ops", cnt); distinct(mix(seed, mix(dumps, got)));
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), na = argn(argc, argv, 2, 30), nb = argn(argc, argv, 3, 8), ops = argn(argc, argv, 4, 300);
	rule("dumps of random engines compared item by item with what is registered, with the engine stalled; then dumps while rings and areas come and go; distinct by dump");
	pert().seed = seed; wd().start(60);
	for (uint64_t i = 0; i < na && !violated(); i++) still_case(mix(seed, i));
	for (uint64_t i = 0; i < nb && !violated(); i++) busy_case(mix(seed, 1000 + i), ops);
	return finish();
}
