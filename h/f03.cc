// F03: record headers.
#define VH_MAIN
#include "text.hpp"
#include <hogl/format-basic.hpp>
using namespace vh;
typedef hogl::ringbuf RB;

static hogl::format_basic *make_format(rng &g, unsigned &mask, std::string &desc)
{
	unsigned k = g.below(12);
	if (k == 0) { mask = H_TIMESTAMP | H_RING | H_SEQNUM | H_AREA | H_SECTION; desc = "none given"; return g.chance(50) ? new hogl::format_basic() : new hogl::format_basic((const char *) 0); }
	if (k == 1) { mask = H_TIMESTAMP | H_RING | H_SEQNUM | H_AREA | H_SECTION; desc = "default"; return new hogl::format_basic("default"); }
	if (k == 2) { mask = H_TIMESPEC | H_RING | H_SEQNUM | H_AREA | H_SECTION; desc = "fast0"; return new hogl::format_basic("fast0"); }
	if (k == 3) { mask = H_TIMESPEC | H_TIMEDELTA | H_RING | H_SEQNUM | H_AREA | H_SECTION; desc = "fast1"; return new hogl::format_basic("fast1"); }
	mask = g.below(128);
	if (g.chance(50)) { desc = sf("mask %x", mask); return new hogl::format_basic((uint32_t) mask); }
	desc = field_list(g, mask);
	return g.chance(50) ? new hogl::format_basic(desc) : new hogl::format_basic(desc.c_str());
}

static uint64_t next_time(rng &g, uint64_t t)
{
	const uint64_t S = 1000000000ull, D = 86400 * S;
	switch (g.below(16)) {
	case 0: return t;
	case 1: return t + 1;
	case 2: return t - t % S + g.below(S);                       // same second, any order
	case 3: return t - t % 10000 + g.below(10000);
	case 4: return t + g.below(10000);
	case 5: return t + g.below(S);
	case 6: return t + S;
	case 7: return t + g.below(100) * S + g.below(3) - 1;
	case 8: { uint64_t x = g.below(5 * S); return x > t ? t : t - x; }
	case 9: return g.below(3) * S + g.below(2);                  // around zero
	case 10: return g.below(~0ull);
	case 11: return ~0ull - g.below(3);
	case 12: return (t / D + g.below(3)) * D - g.below(2);       // around midnight
	case 13: return t - t % S + g.pick((const uint64_t[]) { 0, 1, 9, 10, 9999, 10000, 10001, 99999, 100000, 99999999, 100000000, 999989999, 999990000, 999999999 });
	case 14: { // edges of years, leap days, clock changes
		static const uint64_t secs[] = { 951782399, 951782400, 951868800, 4107542399ull, 4107542400ull, 1583020799, 1709164800, 1709251199, 1709251200, 1678604399, 1678604400, 1699163999, 1699164000, 1699167600, 1711846799, 1711846800, 1729990799, 1729994400, 946684799, 946684800, 2147483647, 2147483648ull, 4294967295ull, 4294967296ull, 9999999999ull, 10000000000ull, 18446744073ull };
		return g.pick(secs) * S + g.below(g.chance(50) ? 2 : 700000000); }
	default: return 1500000000 * S + g.below(1000000000) * S + g.below(S);
	}
}
static uint64_t rnd_seq(rng &g)
{
	uint64_t p = 1; for (unsigned i = g.below(16); i; i--) p *= 10;
	switch (g.below(4)) {
	case 0: return p - g.below(2);
	case 1: return g.below(100);
	case 2: return (1ull << 52) - 1 - g.below(3);
	default: return g.next() >> (12 + g.below(52));
	}
}
static std::string rnd_name(rng &g, bool first_alnum = false)
{
	unsigned n = g.chance(3) ? g.range(200, 5000) : g.range(1, 24);
	static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-%/.<>";
	std::string s; for (unsigned i = 0; i < n; i++) s += al[g.below(sizeof al - 1)];
	(void) first_alnum;
	return s;
}

static std::string diff(const std::string &got, const std::string &want)
{
	size_t p = 0; while (p < got.size() && p < want.size() && got[p] == want[p]) p++;
	size_t q = p > 30 ? p - 30 : 0;
	return sf("differs at %zu: got '%s' instead of '%s'", p, esc(got.substr(q, 90)).c_str(), esc(want.substr(q, 90)).c_str());
}

// Records made here, any field values; several formats fed in turns
static void direct_case(uint64_t seed, unsigned n)
{
	rng g(seed); tick();
	struct Area { std::string name; std::vector<std::string> sn; std::vector<const char *> sp; std::unique_ptr<hogl::area> a; };
	std::vector<std::unique_ptr<Area>> areas; std::vector<std::string> rings;
	for (unsigned i = 0; i < 4; i++) {
		std::unique_ptr<Area> a(new Area); a->name = rnd_name(g);
		std::set<std::string> u; unsigned c = g.range(1, 12); while (u.size() < c) u.insert(rnd_name(g));
		a->sn.assign(u.begin(), u.end()); for (auto &s : a->sn) a->sp.push_back(s.c_str()); a->sp.push_back(0);
		a->a.reset(new hogl::area(a->name.c_str(), a->sp.data()));
		areas.push_back(std::move(a)); rings.push_back(rnd_name(g));
	}
	struct F { std::unique_ptr<hogl::format_basic> f; unsigned mask; std::string desc; uint64_t prev = 0; };
	std::vector<F> fs(g.range(1, 3));
	for (F &f : fs) f.f.reset(make_format(g, f.mask, f.desc));
	mem_dest md; mem_ostrbuf sb(md, g.pick((const unsigned[]) { 1, 10, 64, 1000, 8192 }));
	std::unique_ptr<char[]> mem(new char[sizeof(hogl::record)]);
	uint64_t t = 1600000000000000000ull + g.below(1ull << 60), h = seed;
	for (unsigned i = 0; i < n && !violated(); i++) {
		F &f = fs[g.below(fs.size())];
		t = next_time(g, t);
		memset(mem.get(), 0, sizeof(hogl::record));
		hogl::record *r = (hogl::record *) mem.get();
		unsigned ai = g.below(areas.size()), si = g.below(areas[ai]->sn.size());
		std::string area = areas[ai]->name, sect = areas[ai]->sn[si], ring = g.pick(rings);
		uint64_t seq = rnd_seq(g);
		r->area = areas[ai]->a.get(); r->timestamp = hogl::timestamp(t); r->seqnum = seq; r->section = si;
		if (g.chance(2)) { r->area = 0; area = sect = "INVALID"; }
		else if (g.chance(3)) { r->section = g.chance(40) ? areas[ai]->sn.size() : g.range(areas[ai]->sn.size(), 4095); sect = "INVALID"; stat("unknown_sections"); }
		r->argtype = 0; r->set_arg_type(0, U32); r->set_arg_val32(0, i);
		hogl::format::data d; d.ring_name = ring.c_str(); d.record = r;
		md.data.clear(); f.f->process(sb, d); sb.flush();
		std::string want = header_text(f.mask, t, f.prev, ring, seq, area, sect) + sf("%u\n", i);
		if (md.data != want) viol("header", "fields %s, timestamp %llu after %llu: %s", f.desc.c_str(), (unsigned long long) t, (unsigned long long) f.prev, diff(md.data, want).c_str());
		if (f.mask & H_TIMEDELTA) { stat("deltas"); if (f.prev > t) stat("times_going_back"); }
		f.prev = t; eval();
		h = mix(h, hash_str(want));
	}
	distinct(h);
	sample("%u records through %zu formats (%s), names of up to %zu bytes", n, fs.size(), fs[0].desc.c_str(), areas[0]->name.size());
}

// Posted records: the header names what was posted
static void engine_case(uint64_t seed, unsigned n)
{
	rng g(seed); tick();
	hogl::timesource ts("vh", chosen_cb);
	unsigned mask; std::string desc; std::unique_ptr<hogl::format_basic> fb(make_format(g, mask, desc));
	cap_format f; hogl::output_null out(f);
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(256, 20, g.chance(50) ? (unsigned) hogl::engine::DISABLE_TSO : 0, &ts)));
	const hogl::area *internal = e->internal_area();
	struct Want { uint64_t t; std::string ring; uint64_t seq; std::string area, sect; };
	std::mutex m; std::map<unsigned, Want> want; uint64_t prev = 0; std::atomic<uint64_t> done{0}; bool prev_known = true;
	mem_dest md; mem_ostrbuf sb(md, 100);
	f.on = [&](const hogl::format::data &d, const hogl::record &r) {
		if (r.area == internal) return;
		std::lock_guard<std::mutex> l(m);
		md.data.clear(); fb->process(sb, d); sb.flush();
		auto it = want.find(r.get_arg_val32(0));
		if (it == want.end()) { viol("unknown-record", "record with argument %u was not posted", (unsigned) r.get_arg_val32(0)); return; }
		Want &w = it->second;
		std::string x = header_text(mask, w.t, prev_known ? prev : 0, w.ring, w.seq, w.area, w.sect) + sf("%u\n", it->first);
		if (md.data != x) viol("posted-header", "fields %s: %s", desc.c_str(), diff(md.data, x).c_str());
		prev = w.t; want.erase(it); done++; eval(); stat("posted_records");
	};
	std::vector<RB *> rings; std::vector<const hogl::area *> areas; std::vector<std::vector<std::string>> sects; std::vector<std::string> an, rn;
	for (unsigned i = 0; i < 3; i++) {
		RB::options o = { 256, (unsigned) i, 0, 64 }; rn.push_back(sf("%u", i) + rnd_name(g));
		rings.push_back(e->add_ring(rn.back().c_str(), o));
		an.push_back(sf("%u", i) + rnd_name(g)); sects.emplace_back();
		std::vector<const char *> p; unsigned c = g.range(1, 70);
		for (unsigned j = 0; j < c; j++) sects.back().push_back(sf("%u", j) + rnd_name(g));
		for (auto &s : sects.back()) p.push_back(s.c_str());
		p.push_back(0);
		hogl::area *a = e->add_area(an.back().c_str(), p.data()); a->enable(); areas.push_back(a);
	}
	uint64_t t = 1600000000000000000ull;
	for (unsigned i = 0; i < n && !violated(); i++) {
		t += g.chance(50) ? g.below(1000) : g.below(1ull << 40);
		unsigned ri = g.below(3), ai = g.below(3), si = g.below(sects[ai].size());
		RB *r = rings[ri];
		if (!wait_for([&] { return r->room() > 4; })) { viol("stuck", "ring is not drained"); break; }
		{ std::lock_guard<std::mutex> l(m); want[i] = { t, rn[ri], r->seqnum(), an[ai], sects[ai][si] }; }
		next_stamp() = t;
		if (g.chance(50)) hogl::post(r, areas[ai], si, (unsigned) i); else hogl::post_unlocked(r, areas[ai], si, (unsigned) i);
		// one at a time keeps the order of formatting known
		if (!wait_for([&] { return done.load() == i + 1; })) { viol("not-delivered", "record %u not formatted", i); break; }
	}
	for (RB *r : rings) r->release();
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), n = argn(argc, argv, 2, 10), k = argn(argc, argv, 3, 200);
	wd().start(); tzset();
	rule("evaluation: one record header compared. distinct: text of a case's headers");
	for (uint64_t i = 0; i < n && !violated(); i++) { direct_case(mix(seed, i), k); if (i % 16 == 0) engine_case(mix(seed + 7, i), 60); }
	return finish();
}
