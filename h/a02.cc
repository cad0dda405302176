// A02: every area always reflects the engine mask; the area registry is consistent.
#define VH_MAIN
#include "perturb.hpp"
#include "cap.hpp"
using namespace vh;

static const char *const defsec[] = { "INFO", "WARN", "ERROR", "FATAL", "DEBUG", "TRACE" };
struct M { hogl::area *a; std::vector<std::string> sec; std::vector<bool> st; };

// masks with an exact meaning that needs no regular expressions: (area, section, on); empty = all
struct X { std::string area, sect; bool on; };
static std::string text(const X &x) { return (x.on ? "" : "!") + (x.area.empty() ? ".*" : x.area) + ":" + (x.sect.empty() ? ".*" : x.sect); }
static void apply(const std::vector<X> &m, const std::string &name, M &a)
{
	for (auto &x : m) if (x.area.empty() || x.area == name)
		for (size_t i = 0; i < a.sec.size(); i++) if (x.sect.empty() || x.sect == a.sec[i]) a.st[i] = x.on;
}
static hogl::mask mk(const std::vector<X> &m) { hogl::mask r; for (auto &x : m) r << text(x); return r; }

static const char *const names[] = { "A", "B", "AB", "area", "AREA", "core-0", "core-1", "x y", "Z9" };
static const char *const secs[] = { "INFO", "WARN", "DEBUG", "S0", "S1", "S2", "LONG-SECTION" };
static std::vector<X> rnd_mask(rng &g)
{
	std::vector<X> m;
	for (unsigned n = g.range(1, 4); n; n--) m.push_back({ g.chance(40) ? "" : g.pick(names), g.chance(30) ? "" : g.pick(secs), g.chance(55) });
	return m;
}
static std::vector<std::string> rnd_secs(rng &g)
{
	std::vector<std::string> s;
	unsigned n = g.chance(10) ? g.range(60, 130) : g.range(0, 4);
	for (unsigned i = 0; i < n; i++) s.push_back(g.pick(secs));
	return s;
}
struct cstrs { std::vector<const char *> p; cstrs(const std::vector<std::string> &v) { for (auto &s : v) p.push_back(s.c_str()); p.push_back(0); } };

// ---- one thread, exact model
static void model_case(uint64_t seed)
{
	rng g(seed); tick();
	cap_format f; hogl::output_null out(f);
	hogl::engine::options o = engine_opts::make(64, 50, 0);
	std::vector<X> cur = rnd_mask(g);
	o.default_mask = mk(cur);
	hogl::engine e(out, o);
	std::map<std::string, M> model;
	std::string trace;
	// whatever engine uses inside
	std::set<std::string> builtin; { hogl::string_list l; e.list_areas(l); builtin.insert(l.begin(), l.end()); }
	{	// the engine's own area takes part
		hogl::area *a = const_cast<hogl::area *>(e.internal_area()); M m; m.a = a;
		for (unsigned i = 0; i < a->size(); i++) { m.sec.push_back(a->section_name(i)); m.st.push_back(a->test(i)); }
		model[a->name()] = m; builtin.erase(a->name());
	}
	auto check = [&](const char *op) {
		hogl::string_list l; e.list_areas(l);
		std::multiset<std::string> have(l.begin(), l.end()), want(builtin.begin(), builtin.end());
		for (auto &x : model) want.insert(x.first);
		if (have != want) viol("listing", "after %s: %zu areas listed, %zu expected. history %s", op, have.size(), want.size(), trace.c_str());
		for (auto &x : model) {
			M &a = x.second;
			if (e.find_area(x.first.c_str()) != a.a) viol("find", "find_area('%s') does not return the registered area", x.first.c_str());
			if (x.first != a.a->name() || a.a->size() != a.sec.size()) viol("area-changed", "area '%s' changed its name or size", x.first.c_str());
			for (size_t i = 0; i < a.sec.size(); i++) {
				if (a.sec[i] != a.a->section_name(i)) viol("area-changed", "section %zu of area '%s' changed its name", i, x.first.c_str());
				if (a.a->test(i) != a.st[i]) viol("mask-state", "after %s: area '%s' section %zu '%s' is %s. history %s", op, x.first.c_str(), i, a.sec[i].c_str(), a.st[i] ? "off, expected on" : "on, expected off", trace.c_str());
				eval();
			}
		}
	};
	unsigned ops = g.range(5, 40);
	for (unsigned i = 0; i < ops && !violated(); i++) {
		unsigned k = g.below(100);
		if (k < 55) {
			std::string n = g.pick(names);
			auto it = model.find(n);
			bool def = g.chance(30);
			std::vector<std::string> s = rnd_secs(g);
			if (it != model.end() && g.chance(60)) {
				s = it->second.sec;
				switch (g.below(8)) { case 0: if (!s.empty()) s.pop_back(); break; case 1: s.push_back("S9"); break; case 2: if (!s.empty()) s[g.below(s.size())] += "x"; break; case 3: if (s.size() > 1) std::swap(s[0], s[1]); break;
				case 4: if (!s.empty()) { std::string &z = s[g.below(s.size())]; for (char &c : z) if (isalpha((unsigned char) c)) { c ^= 0x20; break; } } break;
				case 5: if (!s.empty()) { std::string &z = s[g.below(s.size())]; if (z.size() > 1) z.pop_back(); } break; }
				def = false;
			}
			if (def) s.assign(defsec, defsec + 6);
			cstrs cs(s);
			trace += sf("add(%s,%zu) ", n.c_str(), s.size());
			hogl::area *a = e.add_area(n.c_str(), def ? 0 : cs.p.data());
			if (it == model.end()) {
				if (!a) { viol("add-refused", "adding new area '%s' failed", n.c_str()); break; }
				for (auto &x : model) if (x.second.a == a) viol("add-other", "two names for one area");
				M m; m.a = a; m.sec = s; m.st.assign(s.size(), false);
				apply(cur, n, m);
				model[n] = m; stat("areas_new");
			} else {
				bool same = it->second.sec == s;
				if ((a != 0) != same) viol(a ? "add-accepted" : "add-refused", "adding area '%s' again with %s sections %s", n.c_str(), same ? "identical" : "different", a ? "succeeded" : "failed");
				else if (a && a != it->second.a) viol("add-other", "adding area '%s' again returned another area", n.c_str());
				stat(same ? "areas_reused" : "areas_refused");
			}
			check("add");
		} else if (k < 75) {
			std::vector<X> m = rnd_mask(g); cur = m;
			trace += "mask{"; for (auto &x : m) trace += text(x) + " "; trace += "} ";
			{ hogl::mask t = mk(m); e.apply_mask(t); t.clear(); t << "!.*:.*"; }
			for (auto &x : model) apply(m, x.first, x.second);
			stat("masks");
			check("apply_mask");
		} else if (k < 85) {
			if (model.empty()) continue;
			auto it = model.begin(); std::advance(it, g.below(model.size()));
			if (it->second.sec.empty()) continue;
			size_t s = g.below(it->second.sec.size()); bool v = g.chance(50);
			trace += sf("set(%s,%zu,%d) ", it->first.c_str(), s, v);
			it->second.a->set(s, v); it->second.st[s] = v;
			check("set");
		} else {
			std::string n = g.chance(50) ? std::string(g.pick(names)) : std::string(g.pick(names)) + "x";
			if (model.count(n)) continue;
			if (e.find_area(n.c_str())) viol("find", "find_area('%s') found an area that was never added", n.c_str());
			stat("finds_miss");
		}
	}
	distinct(hash_str(trace));
	sample("history: %s", trace.c_str());
}

// ---- threads: areas are added while masks change
static void race_case(uint64_t seed)
{
	rng g(seed); tick(); phase("race");
	pert().level = g.pick((const unsigned[]) { 0, 20, 60 }); pert().maxus = g.pick((const unsigned[]) { 20, 200, 2000 }); pert().seed = g.next();
	cap_format f; hogl::output_null out(f);
	hogl::engine::options o = engine_opts::make(64, 500, 0);
	o.default_mask = hogl::mask("!.*:.*", "A.*:S0", (char *) 0);
	hogl::engine e(out, o);
	unsigned nt = g.range(2, 4), nm = g.range(1, 2), per = g.range(2, 12);
	bool incr = nm == 1 && g.chance(50);   // masks that only add, one at a time
	// each final mask switches everything off and one distinct set on
	struct mset { std::vector<X> m; unsigned bits; };
	std::atomic<int> go{0};
	static const char *const ss[] = { "S0", "S1", "S2", "S3", "S4", "S5", "S6", "S7", 0 };
	std::vector<std::thread> th;
	std::mutex mm; std::map<std::string, std::set<hogl::area *>> got; uint64_t refused = 0;
	std::vector<unsigned> lastbits(nm, 1);
	auto bits_of = [](const hogl::area *a) { unsigned b = 0; for (unsigned i = 0; i < 8; i++) b |= a->test(i) << i; return b; };
	for (unsigned t = 0; t < nt; t++) th.emplace_back([&, t] {
		rng r(mix(seed, 100 + t));
		while (!go) sched_yield();
		for (unsigned i = 0; i < per; i++) {
			std::string n = sf("A%u", (unsigned) (r.chance(50) ? r.below(per) : 1000 + t * 100 + i));
			hogl::area *a = e.add_area(n.c_str(), (const char **) ss);
			std::lock_guard<std::mutex> l(mm);
			if (!a) { refused++; viol("add-refused", "concurrent add of area '%s' with identical sections failed", n.c_str()); }
			else got[n].insert(a);
			const hogl::area *x = e.find_area(n.c_str());
			if (x != a) viol("find", "area '%s' that was just added is not found", n.c_str());
			tick();
		}
	});
	for (unsigned t = 0; t < nm; t++) th.emplace_back([&, t] {
		rng r(mix(seed, 200 + t));
		while (!go) sched_yield();
		unsigned k = r.range(1, 10), b = 1;
		for (unsigned i = 0; i < k; i++) {
			if (incr) { unsigned s = r.below(8); b = (1u << s); hogl::mask m(sf("!A.*:.*").c_str(), sf("A.*:S%u", s).c_str(), (char *) 0); e.apply_mask(m); }
			else {
				b = 0; hogl::mask m; m << "!A.*:.*";
				unsigned id = (t * 16 + i) % 256; unsigned want = mix(seed, id) & 0xff;
				for (unsigned s = 0; s < 8; s++) if (want >> s & 1) { m << sf("A.*:S%u", s); b |= 1u << s; }
				e.apply_mask(m);
			}
			if (r.chance(50)) usleep(r.below(300));
			tick();
		}
		lastbits[t] = b;
	});
	go = 1;
	for (auto &t : th) t.join();
	pert().level = 0;
	// what a mask applied last means is the same for all of them
	hogl::area *fresh = e.add_area("Afresh", (const char **) ss);
	unsigned fb = bits_of(fresh);
	bool ok = false; for (unsigned b : lastbits) if (b == fb) ok = true;
	if (!ok) viol("mask-state", "a new area does not have the latest mask (bits %02x)", fb);
	hogl::string_list l; e.list_areas(l);
	std::multiset<std::string> have(l.begin(), l.end());
	for (auto &x : got) {
		if (x.second.size() != 1) { viol("add-other", "concurrent adds of area '%s' got %zu different areas", x.first.c_str(), x.second.size()); continue; }
		unsigned b = bits_of(*x.second.begin());
		if (b != fb) viol("mask-lost", "area '%s' added while the mask changed has sections %02x, the engine mask selects %02x", x.first.c_str(), b, fb);
		if (have.count(x.first) != 1) viol("listing", "area '%s' listed %zu times", x.first.c_str(), have.count(x.first));
		eval();
	}
	if (have.size() != got.size() + 2) viol("listing", "%zu areas listed, %zu expected", have.size(), got.size() + 2);
	stat("race_cases"); stat("areas_raced", got.size());
	distinct(mix(fb, mix(got.size(), seed)));
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), n = argn(argc, argv, 2, 100), r = argn(argc, argv, 3, 100);
	wd().start();
	rule("evaluation: one section's (or raced area's) state compared with the model after an operation. distinct: histories and race outcomes");
	hogl::ringbuf::options ro = { 1024, 0, hogl::ringbuf::REUSABLE, 0 };
	{
	for (uint64_t i = 0; i < n && !violated(); i++) model_case(mix(seed, i));
	for (uint64_t i = 0; i < r && !violated(); i++) race_case(mix(seed, 7000000 + i));
	}
	return finish();
}
