// F02: text of a record equals printf of its format string and arguments.
#define VH_MAIN
#include "text.hpp"
#include <hogl/format-basic.hpp>
using namespace vh;
typedef hogl::ringbuf RB;

struct Want {
	int kind;                  // 0 exact text, 1 plain rendering, 2 only well-formedness
	std::vector<Val> vals; std::vector<CArg> c;
	std::string text;
	std::string key;           // of a known difference: exact text, or the recorded one
	std::string known;
};

static std::string mangle(rng &g, const std::string &f)
{
	static const char al[] = "%%%%dsxlhjztL.*$0123456789-+ #pcfegiuoXEGaAn{}q";
	std::string s = f;
	if (g.chance(50)) { s.clear(); unsigned n = g.range(1, 30); for (unsigned i = 0; i < n; i++) s += al[g.below(sizeof al - 1)]; }
	else for (unsigned k = g.range(1, 4); k; k--) {
		unsigned p = g.below(s.size() + 1);
		switch (g.below(3)) {
		case 0: s.insert(p, 1, al[g.below(sizeof al - 1)]); break;
		case 1: if (p < s.size()) s.erase(p, g.range(1, 5)); break;
		case 2: if (p < s.size()) s[p] = al[g.below(sizeof al - 1)]; break;
		}
	}
	// keep numbers small or impossible
	std::string o; unsigned run = 0;
	for (char ch : s) { if (ch >= '0' && ch <= '9') { if (++run > 4) continue; } else run = 0; o += ch; }
	if (g.chance(5)) { size_t p = o.find('%'); if (p != o.npos) o.insert(p + 1, g.chance(50) ? "99999999999" : ".99999999999"); }
	return o.empty() ? "%" : o;
}

static void one_case(uint64_t seed, unsigned n)
{
	rng g(seed); tick();
	hogl::timesource ts("vh", logical_cb);
	cap_format f; hogl::output_null out(f);
	hogl::format_basic fb(0u);
	mem_dest md; mem_ostrbuf sb(md, g.pick((const unsigned[]) { 1, 2, 7, 16, 64, 500, 8192 }));
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(64, 20, 0, &ts)));
	const hogl::area *internal = e->internal_area();
	hogl::area *ar = e->add_area("A"); ar->enable();
	RB::options o = { 64, 0, 0, 8192 };
	RB *r = e->add_ring("R", o);
	unsigned tail = r->record_tailroom();
	std::mutex m; std::map<uint64_t, Want> want; std::atomic<uint64_t> done{0};
	uint64_t h = 0;
	f.on = [&](const hogl::format::data &d, const hogl::record &rec) {
		if (rec.area == internal) return;
		md.data.clear();
		fb.process(sb, d); sb.flush();
		std::string got = md.data;
		Want w;
		{ std::lock_guard<std::mutex> l(m);
		  auto it = want.find(rec.seqnum); if (it == want.end()) { viol("unknown-record", "record %llu was not posted", (unsigned long long) rec.seqnum); return; }
		  w = it->second; want.erase(it); }
		const std::string fs = w.vals.empty() ? "" : str_of(w.vals[0], w.c[0]);
		std::string shown = show_args(w.c);
		if (w.kind == 1) w.text = plain_text(w.vals, w.c, [&](unsigned i) { unsigned len; return (const void *) rec.get_arg_data(i, len); });
		if (w.kind < 2 && got != w.text) {
			if (!w.key.empty() && got == w.known) viol(w.key, "format '%s' gives '%s' instead of '%s'", fs.c_str(), got.c_str(), w.text.c_str());
			else {
				size_t p = 0; while (p < got.size() && p < w.text.size() && got[p] == w.text[p]) p++;
				size_t q = p > 20 ? p - 20 : 0;
				viol(w.kind ? "plain" : "printf", "text differs at %zu: got '%s' instead of '%s'; format '%s', arguments %s", p, esc(got.substr(q, 80)).c_str(), esc(w.text.substr(q, 80)).c_str(), esc(fs, 600).c_str(), shown.c_str());
			}
		}
		if (w.kind == 2) {
			// own line only, literal text in front, nothing that is not in the inputs
			std::set<char> ok; bool anyc = fs.find('c') != fs.npos; unsigned nl = 1;
			std::string all = fs; for (unsigned i = 1; i < w.c.size(); i++) if (w.vals[i].type == CSTR || w.vals[i].type == GSTR) all += str_of(w.vals[i], w.c[i]);
			for (char x : all) { ok.insert(x); if (x == '\n') nl++; }
			if (got.empty() || got.back() != '\n') viol("newline", "format '%s': the text '%s' does not end with a newline", fs.c_str(), got.c_str());
			// strings may be printed repeatedly through positions
			if (fs.find('$') == fs.npos && !anyc && (unsigned) std::count(got.begin(), got.end(), '\n') > nl) viol("newline", "format '%s': more newlines in '%s' than in the inputs", fs.c_str(), got.c_str());
			std::string lead = fs.substr(0, fs.find('%'));
			if (got.compare(0, lead.size(), lead)) viol("literal", "format '%s': the text '%s' does not start with the literal part", fs.c_str(), got.c_str());
			if (!anyc) for (char x : got) if ((unsigned char) x < 32 && x != '\n' && !ok.count(x)) { viol("unreadable", "format '%s': byte %02x in '%s'", fs.c_str(), (unsigned char) x, got.c_str()); break; }
			if (got.size() > 300000) viol("size", "format '%s': %zu bytes of text", fs.c_str(), got.size());
			stat("malformed_or_mismatched");
		}
		stat("text_bytes", got.size());
		eval(); done++;
		h = mix(h, hash_str(got));
	};
	uint64_t posted = 0;
	auto post = [&](Want w) {
		w.c = expect_args(w.vals, tail);
		if (!wait_for([&] { return r->room() > 2; })) { viol("stuck", "ring is not drained"); return; }
		{ std::lock_guard<std::mutex> l(m); want[r->seqnum()] = w; }
		Args a(w.vals); 
		post_args_unlocked(r, ar, hogl::area::INFO, a);
		a.scribble(); posted++;
	};
	std::set<std::string> kinds;
	auto str = [](const std::string &s) { Val v; v.type = CSTR; v.s = s; return v; };
	auto gen = [&](unsigned t, uint64_t x) { Val v; v.type = t; v.v = x; return v; };
	auto dbl = [](double d) { Val v; v.type = DBL; memcpy(&v.v, &d, 8); return v; };
	if (!n) {
		// known differences: the recorded inputs, with the recorded text
		struct { const char *key; std::vector<Val> v; std::string want, known; } probes[] = {
			{ "printf-zero-with-precision-0", { str("[%.0d]"), gen(I32, 0) }, "[]\n", "[0]\n" },
			{ "printf-zero-with-precision-0", { str("[%6.x]"), gen(U32, 0) }, "[      ]\n", "[     0]\n" },
			{ "printf-alt-g-keeps-no-zeros", { str("[%#g]"), dbl(0.1) }, "[0.100000]\n", "[0.1]\n" },
			{ "printf-zero-padded-nan", { str("[%08f]"), dbl(NAN) }, "[     nan]\n", "[nan00000]\n" },
			{ "printf-zero-padded-a", { str("[%010a]"), dbl(1.0) }, "[0x00001p+0]\n", "[00000x1p+0]\n" },
			{ "printf-width-counts-characters", { str("[%6s]"), str("h\xc3\xa9llo") }, "[h\xc3\xa9llo]\n", "[ h\xc3\xa9llo]\n" },
			{ "printf-empty-string", { str("[%s]"), str("") }, "[]\n", "[null]\n" },
		};
		for (auto &p : probes) {
			Want w; w.kind = 0; w.vals = p.v; w.text = p.want; w.known = p.known; w.key = p.key;
			post(w);
		}
	}
	for (unsigned i = 0; i < n && !violated(); i++) {
		Want w; unsigned k = g.below(100);
		if (k < 55) {
			w.kind = 0; rnd_format(g, w.vals, w.text, &kinds);
			if (g.chance(15)) { // the same format as a global string
				static std::vector<char *> &keep = *new std::vector<char *>; char *p = strdup(w.vals[0].s.c_str()); keep.push_back(p);
				w.vals[0].type = GSTR; w.vals[0].g = p;
			}
		} else if (k < 75) {
			w.kind = 1;
			do { w.vals = rnd_vals(g, 40); for (Val &v : w.vals) { if (v.type == XDUMP && !(v.xt == 'H')) v.xpr = 1 + v.xpr % 5, v.xt = "xduH"[g.below(4)];
				if (v.type == DBL) v = dbl(sane_double(g, true)); } } while (is_fmt_record(w.vals));
			if (g.chance(20)) { // message with dump
				Val x = rnd_val(g, 40); while (x.type != XDUMP) x = rnd_val(g, 40);
				x.xt = "xduH"[g.below(4)]; w.vals.assign(1, str(rnd_str(g, g.range(1, 60)))); w.vals.push_back(x);
			}
		} else {
			w.kind = 2; std::string t; rnd_format(g, w.vals, t);
			if (g.chance(60)) w.vals[0].s = mangle(g, w.vals[0].s);
			if (g.chance(60)) {   // missing, shuffled, other types, null
				if (g.chance(40)) w.vals.resize(std::max<size_t>(2, g.below(w.vals.size() + 1)));
				if (g.chance(30)) for (size_t j = w.vals.size(); j-- > 1;) std::swap(w.vals[j], w.vals[g.range(1, j)]);
				if (g.chance(40)) for (size_t j = 1; j < w.vals.size(); j++) if (g.chance(50)) w.vals[j] = rnd_val(g, 30);
				if (g.chance(5)) { w.vals[0].type = g.chance(50) ? GSTR : CSTR; w.vals[0].null = true; w.vals[0].s.clear(); w.vals[0].g = 0; }
			}
			// widths and precisions stay small
			if (w.vals[0].s.find('*') != std::string::npos) for (size_t j = 1; j < w.vals.size(); j++) if (w.vals[j].type <= I64 && w.vals[j].type) w.vals[j].v = g.chance(10) ? (w.vals[j].type == I32 || w.vals[j].type == I64 ? (uint64_t) -(int64_t) g.below(1000) : ~0ull) : g.below(1000);
			for (size_t j = 1; j < w.vals.size(); j++) if (w.vals[j].type == U32 || w.vals[j].type == I32) w.vals[j].v = (uint32_t) w.vals[j].v;
			if (!is_fmt_record(w.vals)) w.kind = 1;
			if (w.kind == 1) { Val v; v.type = U32; w.vals.insert(w.vals.begin() + 1, v); if (w.vals.size() > 16) w.vals.resize(16); w.kind = 2; }
		}
		if (w.kind == 0) stat("printf_records"); else if (w.kind == 1) stat("plain_records");
		post(w);
		// a neighbour that must stay intact
		if (g.chance(30)) { Want x; x.kind = 0; x.vals = { str("n %d %s"), gen(I32, i), str("end") }; x.text = sf("n %d end\n", (int) i); post(x); }
	}
	if (!wait_for([&] { return done.load() >= posted; })) viol("not-delivered", "%llu of %llu records formatted", (unsigned long long) done.load(), (unsigned long long) posted);
	for (auto &k : kinds) stat("conversion_" + k);
	distinct(h);
	sample("%u records through a text buffer of %u bytes", n, (unsigned) sb.capacity());
	r->release();
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), n = argn(argc, argv, 2, 10);
	wd().start();
	rule("evaluation: one record whose text was compared. distinct: text of a case's records");
	if (!n) one_case(seed, 0);
	for (uint64_t i = 0; i < n && !violated(); i++) one_case(mix(seed, i), 400);
	return finish();
}
