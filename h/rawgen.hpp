// The same records in raw and in text form, from one engine.
#pragma once
#include "text.hpp"
#include "plugfmt.hpp"
#include <hogl/format-basic.hpp>
#include <hogl/format-raw.hpp>
namespace vh {
typedef hogl::ringbuf RB;
// addresses of raw data differ between the processes
inline std::string mask(const std::string &s)
{
	std::string o; size_t p = 0, q;
	while ((q = s.find(" bytes @ 0x", p)) != s.npos) { q += 11; o.append(s, p, q - p); p = q; while (p < s.size() && isxdigit((unsigned char) s[p])) p++; }
	return o.append(s, p, s.npos);
}
inline std::string rnd_name(rng &g, char tag)
{
	unsigned n = g.chance(10) ? g.pick((const unsigned[]) { 1, 126, 127 }) : g.range(1, 20);
	return std::string(1, tag) + rnd_str(g, n);
}
inline Val rnd_arg(rng &g, unsigned big, unsigned small)
{
	Val v = rnd_val(g, g.chance(90) ? small : big);
	if (v.type == CSTR && !v.null) {
		if (g.chance(30)) v.s = rnd_bytes(g, v.s.size());
		for (char &c : v.s) if (!c) c = '#';
		if (v.s.size() > 65535) v.s.resize(65535 - g.below(2));
	}
	if (v.type == GSTR && g.chance(8)) { v.null = true; v.g = 0; }
	return v;
}

struct Made { std::string raw, text, plug, fields; uint64_t n = 0; std::vector<size_t> rend, tend; };

// Both forms of the same records, from one engine
inline Made make(rng &g, unsigned n, unsigned big, unsigned small = 40, hogl::format *also = 0)
{
	Made o;
	unsigned mask = g.below(128); hogl::format_basic *fb;
	switch (g.below(5)) {
	case 0: o.fields = "default"; break;
	case 1: o.fields = "fast0"; break;
	case 2: o.fields = "fast1"; break;
	default: o.fields = field_list(g, mask);
	}
	fb = new hogl::format_basic(o.fields);
	std::unique_ptr<hogl::format_basic> fbo(fb); hogl::format_raw fr;
	hogl::timesource ts("vh", chosen_cb);
	cap_format f; hogl::output_null out(f);
	mem_dest mr, mt, mp; mem_ostrbuf sp2(mp, 8192); mem_ostrbuf sr(mr, g.pick((const unsigned[]) { 1, 7, 100, 8192 })), st(mt, 8192);
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(256, 20, g.chance(50) ? (unsigned) hogl::engine::DISABLE_TSO : 0, &ts)));
	std::atomic<uint64_t> done{0}; const hogl::area *internal = e->internal_area(); std::atomic<bool> keep_internal{g.chance(20)};
	f.on = [&](const hogl::format::data &d, const hogl::record &r) {
		bool in = r.area == internal;
		if (in && !keep_internal) return;
		fr.process(sr, d); fb->process(st, d); if (also) { also->process(sp2, d); sp2.flush(); }
		sr.flush(); st.flush();
		o.rend.push_back(mr.size); o.tend.push_back(mt.size);
		o.n++; if (!in) done++;
	};
	std::vector<RB *> rings; std::vector<const hogl::area *> areas; std::vector<unsigned> ns;
	for (unsigned i = 0; i < 2; i++) {
		RB::options ro = { 64, (unsigned) i, 0, g.chance(85) ? 1000 : big + 1000 };
		rings.push_back(e->add_ring((rnd_name(g, 'R') + sf("%u", i)).substr(0, 128).c_str(), ro));
		std::vector<std::string> sn; std::vector<const char *> sp; unsigned c = g.range(1, 20);
		for (unsigned j = 0; j < c; j++) sn.push_back(sf("s%u", j) + rnd_name(g, 'S').substr(0, 124));
		for (auto &s : sn) sp.push_back(s.c_str());
		sp.push_back(0);
		hogl::area *a = e->add_area((sf("%u", i) + rnd_name(g, 'A')).substr(0, 128).c_str(), sp.data()); a->enable();
		areas.push_back(a); ns.push_back(c);
	}
	uint64_t t = 1600000000000000000ull, posted = 0;
	for (unsigned i = 0; i < n; i++) {
		RB *r = g.pick(rings); unsigned ai = g.below(2);
		std::vector<Val> v;
		if (g.chance(35)) { std::string x; rnd_format(g, v, x); }
		else { unsigned k = g.chance(10) ? 16 : g.chance(5) ? 0 : g.range(1, 6); for (unsigned j = 0; j < k; j++) v.push_back(rnd_arg(g, big, small)); 
		       if (is_fmt_record(v)) { Val x; x.type = U32; x.v = i; v[0] = x; } }
		t = g.chance(80) ? t + g.below(1ull << g.below(40)) : g.chance(50) ? t : t - g.below(1000);
		if (g.chance(1)) t = g.next();
		next_stamp() = t;
		if (!wait_for([&] { return r->room() > 2; })) { viol("stuck", "ring is not drained"); break; }
		Args a(v); post_args_unlocked(r, areas[ai], g.below(ns[ai]), a); posted++;
		if (!wait_for([&] { return done.load() == posted; })) { viol("not-delivered", "record not delivered"); break; }
	}
	keep_internal = false;
	for (RB *r : rings) r->release();
	e.reset();
	sr.flush(); st.flush();
	o.raw = mr.get(); o.text = mt.get(); o.plug = mp.get();
	return o;
}


} // namespace vh
