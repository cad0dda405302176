// F01: arguments are captured completely at post time.
#define VH_MAIN
#include "perturb.hpp"
#include "cap.hpp"
using namespace vh;
typedef hogl::ringbuf RB;

// ---- native C++ argument types, described independently of the library
static Val num(unsigned t, uint64_t v) { Val x; x.type = t; x.v = v; return x; }
static Val dblv(double d) { Val x; x.type = DBL; memcpy(&x.v, &d, 8); return x; }
static Val strv(const std::string &s) { Val x; x.type = CSTR; x.s = s; return x; }
static Val toval(bool v) { return num(U32, v); }
static Val toval(char v) { return num(I32, (uint32_t) (int) v); }
static Val toval(signed char v) { return num(I32, (uint32_t) (int) v); }
static Val toval(unsigned char v) { return num(U32, v); }
static Val toval(short v) { return num(I32, (uint32_t) (int) v); }
static Val toval(unsigned short v) { return num(U32, v); }
static Val toval(int v) { return num(I32, (uint32_t) v); }
static Val toval(unsigned v) { return num(U32, v); }
static Val toval(long v) { return num(I64, v); }
static Val toval(unsigned long v) { return num(U64, v); }
static Val toval(long long v) { return num(I64, v); }
static Val toval(unsigned long long v) { return num(U64, v); }
static Val toval(float v) { return dblv(v); }
static Val toval(double v) { return dblv(v); }
static Val toval(void *p) { return num(PTR, (uint64_t) p); }
static Val toval(int *p) { return num(PTR, (uint64_t) p); }
static Val toval(volatile uint8_t *p) { return num(PTR, (uint64_t) p); }
static Val toval(char *p) { if (!p) { Val x; x.type = CSTR; x.null = true; return x; } return strv(p); }
static Val toval(const char *p) { if (!p) { Val x; x.type = CSTR; x.null = true; return x; } return strv(p); }
static Val toval(const std::string &s) { return strv(s); }
static Val toval(const hogl::arg_gstr &g) { Val x; x.type = GSTR; x.g = g.str; return x; }
static Val toval(const hogl::arg_raw &r) { Val x; x.type = RAW; x.s.assign((const char *) r.ptr, r.len); return x; }
static Val toval(const hogl::arg_xdump &d) { Val x; x.type = XDUMP; x.s.assign((const char *) d.ptr, d.len); x.xt = d.fmt.type; x.xbw = d.fmt.byte_width; x.xpr = d.fmt.precision; x.xlw = d.fmt.line_width; x.xdl = d.fmt.delim; return x; }

struct poster {
	RB *r; const hogl::area *a; unsigned s; bool unl;
	std::vector<Val> vals;
	hogl::record *rec = 0; unsigned tailroom = 0; // fill this record instead of posting one
	template <typename... T> void operator()(const T &... x)
	{
		vals = { toval(x)... };
		if (rec) { if (unl) { hogl::argpack ap; ap.populate(x...); rec->set_args(tailroom, ap); } else rec->set_args(tailroom, x...); return; }
		if (unl) hogl::post_unlocked(r, a, s, x...); else hogl::post(r, a, s, x...);
	}
};
static unsigned native(rng &g, poster p, std::vector<Val> &out, unsigned maxlen)
{
	static char b1[4096], b2[4096]; static int ints[4];
	auto str = [&](char *b) { unsigned n = g.below(std::min(4000u, maxlen) + 1); std::string s = rnd_str(g, n); memcpy(b, s.c_str(), n + 1); return b; };
	char *s1 = str(b1), *s2 = str(b2);
	std::string ss = rnd_bytes(g, g.below(maxlen + 1));
	uint64_t v = g.chance(30) ? g.pick((const uint64_t[]) { 0, 1, ~0ull, 1ull << 63, 1ull << 31, 0x7fffffff, 0xffffffff, 127, 128, 255, 32768, 65535 }) : g.next();
	double d; uint64_t dv = g.next(); memcpy(&d, &dv, 8);
	const hogl::arg_gstr gs("a global string");
	hogl::arg_raw raw(s2, strlen(s2));
	hogl::arg_xdump xd(s1, strlen(s1), "Hxduf"[g.below(5)], g.below(16), g.below(16), g.below(256), (char) g.range(32, 126));
	enum small_enum { E0, E1 = 7 } en = E1;
	unsigned k = g.below(30);
	switch (k) {
	case 0: p(); break;
	case 1: p((bool) (v & 1), (char) v, (signed char) v, (unsigned char) v); break;
	case 2: p((short) v, (unsigned short) v, (int) v, (unsigned) v); break;
	case 3: p((long) v, (unsigned long) v, (long long) v, (unsigned long long) v); break;
	case 4: p((float) 1.5f, d, (double) 0.1, -0.0); break;
	case 5: p((void *) v, &ints[1], (volatile uint8_t *) v, (int) en); break;
	case 6: p(s1); break;
	case 7: p((const char *) s1, s2); break;
	case 8: p(ss); break;
	case 9: p(ss, s1, (unsigned char) v, gs); break;
	case 10: p(gs, (int) v); break;
	case 11: p(raw); break;
	case 12: p(xd); break;
	case 13: p(raw, xd, s1, ss); break;
	case 14: p((const char *) 0, (int) v, s2); break;
	case 15: p("literal %d %s", (int) v, s2); break;
	case 16: p(gs, (short) v, d, (char) v, (unsigned long) v, s1); break;
	case 17: p(1, 2u, 3l, 4ul, 5ll, 6ull, 7.0, (char) 8, (short) 9, true, (void *) 11, 12, 13, 14, 15, 16); break;
	case 18: p(s1, 2u, s2, 4ul, ss, 6ull, 7.0, raw, (short) 9, xd, (void *) 11, 12, gs, 14, 15, s1); break;
	case 19: p((char) v, (char) (v >> 8), (signed char) (v >> 16), (short) (v >> 24), (int) (v >> 32)); break;
	case 20: p((int) v, (int) (v >> 32), (long) v); break;
	case 21: p((bool) true, (bool) false); break;
	case 22: p(d, (int) v, d, (unsigned) v, (float) v, (unsigned long long) v, (long) -1); break;
	case 23: p(std::string("temporary ") + ss, std::string()); break;
	case 24: p((unsigned long) v, s1, (unsigned long) ~v); break;
	case 25: p("", s1, "", s2, ""); break;
	case 26: p(s1, raw, s2, raw); break;
	case 27: p(xd, s1, xd, (int) v); break;
	case 28: p(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, s1, s2); break;
	case 29: p(gs, gs, gs, gs, gs, gs, gs, gs, gs, gs, gs, gs, gs, gs, gs, gs); break;
	}
	// what the caller had is gone now
	memset(b1, 0xee, sizeof b1); memset(b2, 0xee, sizeof b2); ss.assign(ss.size(), (char) 0xee);
	memset((void *) &xd, 0xee, sizeof xd); memset((void *) &raw, 0xee, sizeof raw);
	out = p.vals;
	return k;
}
// values whose sizes sit on the edges of the remaining room
static std::vector<Val> edgy(rng &g, unsigned tailroom)
{
	unsigned n = g.chance(25) ? g.range(9, 16) : g.range(1, 6), used = n * 8;
	std::vector<Val> v;
	for (unsigned i = 0; i < n; i++) {
		Val x = rnd_val(g, 10);
		if (x.type == CSTR || x.type == RAW || x.type == XDUMP) {
			int room = tailroom > used ? tailroom - used : 0, l;
			switch (g.below(6)) {
			case 0: l = room + (int) g.range(-8, 8); break;
			case 1: l = room / 2 + (int) g.range(-2, 2); break;
			case 2: l = room * 2 + 40; break;
			case 3: l = g.below(6); break;
			default: l = g.below(room / 3 + 2);
			}
			if (l < 0) l = 0;
			if (l > 200000) l = 200000;
			if (!x.null) x.s = x.type == CSTR ? rnd_str(g, l) : rnd_bytes(g, l);
			unsigned take = x.null ? 0 : l + (x.type == CSTR) + (x.type == XDUMP ? 4 : 0);
			used += std::min<unsigned>(take, room);
		}
		v.push_back(x);
	}
	return v;
}

static std::string compare(const std::vector<CArg> &x, const std::vector<CArg> &y)
{
	std::string why;
	if (x.size() != y.size()) why = sf("%zu arguments instead of %zu", y.size(), x.size());
	for (size_t j = 0; j < x.size() && j < y.size() && why.empty(); j++) {
		if (x[j].type != y[j].type) why = sf("argument %zu has type %u instead of %u", j, y[j].type, x[j].type);
		else if (x[j].v != y[j].v) why = sf("argument %zu (type %u) has value %llx instead of %llx", j, x[j].type, (unsigned long long) y[j].v, (unsigned long long) x[j].v);
		else if (x[j].d != y[j].d) {
			size_t p = 0; while (p < x[j].d.size() && p < y[j].d.size() && x[j].d[p] == y[j].d[p]) p++;
			why = sf("argument %zu (type %u) has %zu bytes instead of %zu, first difference at %zu: '%s' instead of '%s'", j, x[j].type, y[j].d.size(), x[j].d.size(), p, esc(y[j].d.substr(p, 20)).c_str(), esc(x[j].d.substr(p, 20)).c_str());
		}
	}
	return why;
}

static void one_case(uint64_t seed, unsigned rounds)
{
	rng g(seed); tick();
	hogl::timesource ts("vh", logical_cb);
	cap_format f; hogl::output_null out(f);
	std::mutex m; const hogl::area *internal = 0; unsigned tailroom = 0;
	struct Got { uint64_t seq; std::vector<CArg> a; };
	std::vector<Got> got;
	f.on = [&](const hogl::format::data &d, const hogl::record &r) {
		if (r.area == internal) return;
		std::string bad; std::vector<CArg> a = capture_args(r, tailroom, &bad);
		if (!bad.empty()) viol("outside-record", "%s", bad.c_str());
		std::lock_guard<std::mutex> l(m); got.push_back({ r.seqnum, a });
	};
	static const unsigned tails[] = { 0, 1, 16, 64, 128, 129, 136, 160, 200, 300, 500, 1000, 5000 };
	unsigned tail = g.chance(3) ? 70000 + g.below(70000) : g.pick(tails);
	unsigned cap = tail > 10000 ? 4 : g.pick((const unsigned[]) { 2, 2, 4, 8, 32 });
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(g.range(2, 128), 20, g.chance(50) ? (unsigned) hogl::engine::DISABLE_TSO : 0, &ts)));
	internal = e->internal_area();
	hogl::area *ar = e->add_area("A"); ar->enable();
	RB::options o = { cap, 0, g.chance(30) ? (unsigned) RB::SHARED : 0, tail };
	RB *r = e->add_ring("R", o);
	tailroom = r->record_tailroom();
	if (tailroom < tail || tailroom < 128) viol("tailroom", "asked for %u bytes, the ring has %u", tail, tailroom);
	f.use_gate = true;
	uint64_t h = tailroom;
	for (unsigned rd = 0; rd < rounds && !violated(); rd++) {
		// a record is being formatted while the ring fills up around it
		std::vector<std::pair<uint64_t, std::vector<CArg>>> want; std::vector<std::string> desc;
		if (!wait_for([&] { return r->room() == r->capacity() - 1; })) { viol("not-freed", "slots of delivered records are not freed"); break; }
		f.gate.close();
		unsigned n = cap + g.below(4);
		for (unsigned i = 0; i < n; i++) {
			std::vector<Val> v; uint64_t q = r->seqnum(), d0 = r->dropcnt(); unsigned k = 99;
			bool unl = !r->shared() && g.chance(50);
			if (g.chance(35)) k = native(g, poster{ r, ar, hogl::area::WARN, unl, {} }, v, g.chance(30) ? tailroom * 2 : tailroom / 2);
			else {
				v = g.chance(70) ? edgy(g, tailroom) : rnd_vals(g, tailroom / 3);
				Args a(v);
				if (unl) post_args_unlocked(r, ar, hogl::area::INFO, a); else post_args(r, ar, hogl::area::INFO, a);
				a.scribble();
			}
			stat("posts");
			if (r->dropcnt() == d0) { want.push_back({ q, expect_args(v, tailroom) }); h = mix(h, hash_args(want.back().second)); desc.push_back(sf("form %u of %zu arguments", k, v.size())); }
			else stat("posts_dropped");
			if (!i && !wait_for([&] { return f.gate.blocked(); })) { viol("not-delivered", "record not delivered"); break; }
		}
		f.gate.open();
		if (!wait_for([&] { std::lock_guard<std::mutex> l(m); return got.size() >= want.size(); })) viol("not-delivered", "%zu of %zu records delivered", got.size(), want.size());
		std::lock_guard<std::mutex> l(m);
		for (size_t i = 0; i < want.size() && i < got.size(); i++) {
			const std::vector<CArg> &x = want[i].second, &y = got[i].a;
			if (want[i].first != got[i].seq) { viol("order", "seqnum %llu instead of %llu", (unsigned long long) got[i].seq, (unsigned long long) want[i].first); break; }
			std::string why = compare(x, y);
			if (!why.empty()) { viol("content", "tailroom %u capacity %u: %s: %s", tailroom, cap, desc[i].c_str(), why.c_str()); break; }
			for (auto &c : x) { eval(); if (c.type == CSTR && c.d.size() > 3 && c.d.compare(c.d.size() - 3, 3, ">>>") == 0) stat("strings_cut"); }
		}
		if (got.size() > want.size()) viol("extra", "%zu records delivered, %zu accepted", got.size(), want.size());
		got.clear();
	}
	f.gate.open();
	distinct(h);
	sample("ring of %u records with %u bytes of tailroom: %u rounds of posts around a record being formatted", cap, tailroom, rounds);
	r->release();
}

// Records filled without a ring, as the engine does for its own
static void record_case(uint64_t seed, unsigned n)
{
	rng g(seed); tick();
	uint64_t h = seed;
	for (unsigned i = 0; i < n && !violated(); i++) {
		unsigned tailroom = g.chance(60) ? 128 + g.below(80) : g.chance(50) ? 128 + g.below(6000) : 128, size = hogl::record::header_size() + tailroom, front = 8 * g.below(8);
		// exactly as much memory as the record has, behind it only what must not be touched
		std::unique_ptr<uint8_t[]> mem(new uint8_t[front + size]); memset(mem.get(), 0xa5, front + size);
		hogl::record *r = (hogl::record *) (mem.get() + front);
		std::vector<Val> v; bool pack = g.chance(40);
		unsigned k = native(g, poster{ 0, 0, 0, pack, {}, r, tailroom }, v, g.chance(50) ? tailroom * 2 : tailroom / 3);
		std::string bad, why; std::vector<CArg> y = capture_args(*r, tailroom, &bad), x = expect_args(v, tailroom);
		for (unsigned j = 0; j < front; j++) if (mem[j] != 0xa5) bad = "bytes in front of the record changed";
		if (!bad.empty()) viol("outside-record", "form %u, %s: %s", k, pack ? "packed" : "plain", bad.c_str());
		else if (!(why = compare(x, y)).empty()) viol("record-content", "form %u, %s, tailroom %u: %s", k, pack ? "packed" : "plain", tailroom, why.c_str());
		eval(); stat(pack ? "records_filled_from_packs" : "records_filled"); h = mix(h, hash_args(x));
	}
	distinct(h);
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), n = argn(argc, argv, 2, 100);
	wd().start();
	rule("evaluation: one delivered argument compared with the value given at the call. distinct: ring geometry and content of all its records");
	for (uint64_t i = 0; i < n && !violated(); i++) { one_case(mix(seed, i), 12); record_case(mix(seed + 99, i), 60); }
	return finish();
}
