// F04: data dumps.
#define VH_MAIN
#include "text.hpp"
#include <hogl/format-basic.hpp>
using namespace vh;
typedef hogl::ringbuf RB;

static Val rnd_dump(rng &g, unsigned tail)
{
	Val v; v.type = XDUMP;
	v.xt = g.chance(92) ? "Hxduf"[g.below(5)] : (char) g.range(33, 126);
	v.xbw = g.chance(75) ? g.pick((const uint8_t[]) { 1, 2, 4, 8 }) : g.below(16);
	if (v.xt == 'f' && g.chance(70)) v.xbw = g.chance(50) ? 4 : 8;
	v.xpr = g.below(16);
	v.xlw = g.chance(60) ? g.below(40) : g.below(256);
	v.xdl = g.chance(60) ? g.pick((const char[]) { ' ', ',', ';', '%', '\n' }) : (char) g.below(256);
	unsigned len;
	switch (g.below(8)) {
	case 0: len = g.below(20); break;
	case 1: len = v.xbw * g.below(40); break;
	case 2: len = v.xbw * (v.xlw * g.range(1, 3)) + g.range(-1, 1); if (len > 20000) len = 3; break;
	case 3: len = v.xbw * g.below(40) + g.below(8); break;
	case 4: len = tail > 24 ? tail - 24 + g.range(-12, 12) : 5; break;
	case 5: len = g.below(2000); break;
	default: len = g.below(300);
	}
	v.s = rnd_bytes(g, len);
	if (g.chance(40)) { // values worth printing
		for (unsigned i = 0; v.xbw && i + v.xbw <= len && v.xbw <= 8; i += v.xbw) {
			if (v.xt == 'f') {
				double d = g.chance(5) ? g.pick((const double[]) { INFINITY, -INFINITY, NAN, 1e300, -1e300, 0.0, -0.0, 5e-324 }) : sane_double(g, true);
				if (v.xbw == 4) { float f = d; memcpy(&v.s[i], &f, 4); } else if (v.xbw == 8) memcpy(&v.s[i], &d, 8);
			} else { uint64_t u = edge_int(g); memcpy(&v.s[i], &u, v.xbw); }
		}
	}
	return v;
}

static void one_case(uint64_t seed, unsigned n)
{
	rng g(seed); tick();
	hogl::timesource ts("vh", logical_cb);
	cap_format f; hogl::output_null out(f);
	hogl::format_basic fb(0u);
	mem_dest md; mem_ostrbuf sb(md, g.pick((const unsigned[]) { 1, 3, 16, 100, 8192 }));
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(64, 20, 0, &ts)));
	const hogl::area *internal = e->internal_area();
	hogl::area *ar = e->add_area("A"); ar->enable();
	RB::options o = { 32, 0, 0, g.pick((const unsigned[]) { 0, 128, 200, 500, 2500, 30000 }) };
	RB *r = e->add_ring("R", o);
	unsigned tail = r->record_tailroom();
	std::mutex m; std::map<uint64_t, std::vector<Val>> want; std::atomic<uint64_t> done{0};
	uint64_t h = tail;
	f.on = [&](const hogl::format::data &d, const hogl::record &rec) {
		if (rec.area == internal) return;
		std::vector<Val> v;
		{ std::lock_guard<std::mutex> l(m); auto it = want.find(rec.seqnum); if (it == want.end()) { viol("unknown-record", "record was not posted"); return; } v = it->second; want.erase(it); }
		std::vector<CArg> c = expect_args(v, tail);
		// formatted from a copy that ends with the data, at any alignment
		size_t used = v.size() * 8;
		for (unsigned i = 0; i < v.size(); i++) if (v[i].type == XDUMP || v[i].type == CSTR || v[i].type == RAW) {
			unsigned len; const uint8_t *p = rec.get_arg_data(i, len);
			if (len) used = std::max<size_t>(used, p + len + (v[i].type == CSTR) - (const uint8_t *) rec.argval);
		}
		size_t hdr = (const char *) rec.argval - (const char *) &rec, sz = hdr + used;
		char *mem = (char *) malloc(sz); memcpy(mem, &rec, sz);
		hogl::format::data cd; cd.ring_name = d.ring_name; cd.record = (const hogl::record *) mem;
		md.data.clear(); fb.process(sb, cd); sb.flush();
		std::string x = plain_text(v, c, [&](unsigned i) { unsigned len; return (const void *) cd.record->get_arg_data(i, len); });
		free(mem);
		if (md.data != x) {
			size_t p = 0; while (p < md.data.size() && p < x.size() && md.data[p] == x[p]) p++;
			size_t q = p > 30 ? p - 30 : 0; const Val &y = v[v[0].type == XDUMP ? 0 : 1];
			viol("dump", "type %c width %u precision %u line %u delimiter %02x, %zu bytes, record room %u: text differs at %zu: got '%s' instead of '%s'", y.xt, y.xbw, y.xpr, y.xlw, (unsigned char) y.xdl, y.s.size(), tail, p, esc(md.data.substr(q, 80)).c_str(), esc(x.substr(q, 80)).c_str());
		}
		h = mix(h, hash_str(x));
		stat("text_bytes", x.size()); done++;
	};
	uint64_t posted = 0;
	for (unsigned i = 0; i < n && !violated(); i++) {
		std::vector<Val> v;
		if (g.chance(40)) { Val s; s.type = CSTR; s.s = rnd_str(g, g.range(1, 30)); v.push_back(s); v.push_back(rnd_dump(g, tail)); }
		else v.push_back(rnd_dump(g, tail));
		while (g.chance(20) && v.size() < 6) {
			Val x; do x = g.chance(60) ? rnd_dump(g, tail / 3) : rnd_val(g, 30); while (x.type == RAW);
			if (x.type == DBL) { double d = 1.25; memcpy(&x.v, &d, 8); }
			v.push_back(x);
		}
		for (unsigned j = 0; j < v.size(); j++) if (v[j].type == XDUMP) {
			eval(); std::vector<CArg> c = expect_args(v, tail);
			stat(c[j].d.size() < 4 ? "dumps_without_data" : c[j].d.size() < 4 + v[j].s.size() ? "dumps_cut" : xdump_supported(v[j]) ? "dumps_whole" : "dumps_unsupported");
		}
		if (is_fmt_record(v)) continue;
		if (!wait_for([&] { return r->room() > 2; })) { viol("stuck", "ring is not drained"); break; }
		{ std::lock_guard<std::mutex> l(m); want[r->seqnum()] = v; }
		Args a(v); post_args_unlocked(r, ar, hogl::area::INFO, a); a.scribble(); posted++;
	}
	if (!wait_for([&] { return done.load() >= posted; })) viol("not-delivered", "%llu of %llu records formatted", (unsigned long long) done.load(), (unsigned long long) posted);
	distinct(h);
	sample("%u dumps from records with %u bytes of room", n, tail);
	r->release();
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), n = argn(argc, argv, 2, 10);
	wd().start();
	rule("evaluation: one dump argument rendered and compared. distinct: text of a case's records");
	for (uint64_t i = 0; i < n && !violated(); i++) one_case(mix(seed, i), 200);
	return finish();
}
