// S07: timestamps convert, compare and compute exactly, in both representations.
#define VH_MAIN
#include "cap.hpp"
#include <hogl/format-basic.hpp>
#include <hogl/format-raw.hpp>
#include <algorithm>
using namespace vh;
typedef unsigned __int128 u128;
typedef hogl::timestamp T;

#ifdef HOGL_TIMESTAMP_USE_TIMESPEC_FORMAT
static const char *repr = "timespec";
static const u128 limit = (u128) 4294967296ull * 1000000000ull;          // 32 bits of seconds
#else
static const char *repr = "nanoseconds";
static const u128 limit = (u128) 1 << 64;
#endif
static const uint64_t top = (uint64_t) (limit - 1), G = 1000000000ull;

static uint64_t value(rng &g)
{
	static const uint64_t edge[] = { 0, 1, 999, 1000, 1001, 999999, 1000000, G - 1, G, G + 1, 4294967295ull, 4294967296ull, 4294967297ull, 4 * G, 5 * G - 1, 5 * G, 2147483647ull * G, 2147483648ull * G, 4294967295ull * G, 4294967295ull * G + G - 1, ~0ull, ~0ull - 1 };
	uint64_t v;
	switch (g.below(4)) {
	case 0: v = g.pick(edge); break;
	case 1: v = g.next() >> g.below(64); break;
	case 2: v = g.below(4000000000u) * G + (g.chance(50) ? g.below(3) : G - 1 - g.below(3)); break;
	default: v = 1700000000ull * G + g.below(100 * G); break;
	}
	return (u128) v < limit ? v : v % top;
}

#define EQ(what, have, want) do { uint64_t h_ = (uint64_t) (have), w_ = (uint64_t) (want); eval(); if (h_ != w_) viol(what, "%s representation: %s of %llu ns: %llu instead of %llu", repr, what, (unsigned long long) v, (unsigned long long) h_, (unsigned long long) w_); } while (0)

static void values(rng &g)
{
	uint64_t v = value(g), w = g.chance(30) ? v : g.chance(30) ? v ^ (1ull << g.below(64)) : g.chance(30) ? v % G + value(g) / G * G : value(g);
	w = (u128) w < limit ? w : w % top;
	T a(v), b; b.from_nsec(w);
	EQ("to_nsec", a.to_nsec(), v); EQ("conversion", (uint64_t) a, v);
	EQ("to_usec", a.to_usec(), v / 1000); EQ("to_msec", a.to_msec(), v / 1000000); EQ("to_sec", a.to_sec(), v / G);
	struct timespec ts = { -1, -1 }; a.to_timespec(ts);
	EQ("timespec-seconds", ts.tv_sec, v / G); EQ("timespec-nanoseconds", ts.tv_nsec, v % G);
	{ T c(ts), d; d.from_timespec(ts); EQ("from_timespec", c.to_nsec(), v); EQ("from_timespec", d.to_nsec(), v); if (!(c == a)) viol("equal", "%s representation: %llu ns made of a timespec differs from the same made of nanoseconds", repr, (unsigned long long) v); }
	{ T c; c.from_usec(v / 1000); EQ("from_usec", c.to_nsec(), v / 1000 * 1000); }
	{ T c; c.from_msec(v / 1000000); EQ("from_msec", c.to_nsec(), v / 1000000 * 1000000); }
	{ T c; c.from_sec(v / G); EQ("from_sec", c.to_nsec(), v / G * G); }
	{ T c(a), d; d = a; EQ("copy", c.to_nsec(), v); EQ("assignment", d.to_nsec(), v); EQ("default", T().to_nsec(), 0); }
	bool lt = a < b, gt = a > b, eq = a == b;
	eval();
	if (lt != (v < w) || gt != (v > w) || eq != (v == w)) viol("order", "%s representation: %llu ns compared with %llu ns: less %u greater %u equal %u", repr, (unsigned long long) v, (unsigned long long) w, lt, gt, eq);
	if ((u128) v + w < limit) { EQ("sum", (a + b).to_nsec(), v + w); EQ("sum", (a + (uint64_t) w).to_nsec(), v + w); T c(a); c += (uint64_t) w; EQ("add", c.to_nsec(), v + w); }
	if (w <= v) { EQ("difference", (a - b).to_nsec(), v - w); EQ("difference", (a - (uint64_t) w).to_nsec(), v - w); }
	int n = g.chance(50) ? g.below(2000) : g.below(2147483647u); if (g.chance(40)) n = -n;
	if ((__int128) v + n >= 0 && (u128) ((__int128) v + n) < limit) { EQ("sum-int", (a + n).to_nsec(), v + (int64_t) n); T c(a); c += n; EQ("add-int", c.to_nsec(), v + (int64_t) n); }
	if ((__int128) v - n >= 0 && (u128) ((__int128) v - n) < limit) EQ("difference-int", (a - n).to_nsec(), v - (int64_t) n);
	if ((u128) v + 1 < limit) { T c(a); EQ("increment", (++c).to_nsec(), v + 1); EQ("increment", c.to_nsec(), v + 1); }
	if (v) { T c(a); EQ("decrement", (--c).to_nsec(), v - 1); }
	EQ("operand", a.to_nsec(), v); EQ("operand", b.to_nsec(), w);
	distinct(mix(v, w)); stat("values");
}

// What the engine makes of them: order across rings, text of the header
static void engine_case(uint64_t seed)
{
	rng g(seed); tick();
	hogl::timesource src("vh", chosen_cb);
	cap_format f; hogl::output_null out(f); hogl::format_basic fb("timespec,timedelta"), fd("timestamp"); hogl::format_raw fr;
	struct M : public hogl::ostrbuf { std::string s; M() : hogl::ostrbuf(512) { } void do_flush(const uint8_t *p, size_t n) { s.append((char *) _data, _size); if (n) s.append((const char *) p, n); _size = 0; } } sb;
	std::mutex m; std::vector<std::pair<uint64_t, std::string>> got; std::atomic<uint64_t> n{0};
	const hogl::area *internal = 0, *gate = 0;
	f.on = [&](const hogl::format::data &d, const hogl::record &r) {
		if (r.area == internal || r.area == gate) return;
		fb.process(sb, d); sb.flush();
		// the date, and the time as it goes into a raw log
		uint64_t ns = r.timestamp.to_nsec(), raw = 0; time_t sec = ns / G; struct tm tm; gmtime_r(&sec, &tm);
		std::string text = sb.s; sb.s.clear(); fd.process(sb, d); sb.flush(); std::string date = sb.s; sb.s.clear();
		fr.process(sb, d); sb.flush(); if (sb.s.size() >= 8) memcpy(&raw, sb.s.data(), 8);
		sb.s = text; eval(2); stat("dates"); stat("raw_times");
		std::string wd = sf("%02u%02u%04u %02u:%02u:%02u.%09llu ", tm.tm_mon + 1, tm.tm_mday, tm.tm_year + 1900, tm.tm_hour, tm.tm_min, tm.tm_sec, (unsigned long long) (ns % G));
		if (date.compare(0, wd.size(), wd)) viol("date", "%s representation: %llu ns: date '%s', not '%s'", repr, (unsigned long long) ns, esc(date).c_str(), wd.c_str());
		if (raw != ns) viol("raw-time", "%s representation: %llu ns: raw log says %llu", repr, (unsigned long long) ns, (unsigned long long) raw);
		std::lock_guard<std::mutex> l(m); got.push_back({ r.timestamp.to_nsec(), sb.s }); sb.s.clear(); n++;
	};
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(4096, g.range(0, 300), 0, &src)));
	internal = e->internal_area();
	hogl::area *ar = e->add_area("A"), *ga = e->add_area("G"); ar->enable(); ga->enable(); gate = ga;
	std::vector<hogl::ringbuf *> r; std::vector<uint64_t> last;
	for (unsigned i = 0, k = g.range(2, 5); i < k; i++) { hogl::ringbuf::options o = { 128, (unsigned) g.below(6), 0, 0 }; r.push_back(e->add_ring(sf("r%u", i).c_str(), o)); }
	hogl::ringbuf::options go = { 8, 0, 0, 0 };
	hogl::ringbuf *gr = e->add_ring("GATE", go);
	last.resize(r.size());
	for (unsigned round = 0; round < 3 && !violated(); round++) {
		f.use_gate = true; f.gate.close();
		next_stamp() = 0; hogl::post(gr, ga, hogl::area::INFO, 1);
		phase("stall");
		if (!wait_for([&] { return f.gate.blocked(); })) { viol("not-delivered", "gate record not delivered"); break; }
		// increasing times on every ring; small steps, steps over full seconds, long ones
		uint64_t base = value(g) % (top / 2), posted = 0; { std::lock_guard<std::mutex> l(m); got.clear(); n = 0; }
		for (auto &x : last) x = base + g.below(3 * G);
		std::vector<uint64_t> all;
		for (unsigned i = g.range(10, 100); i; i--) {
			unsigned k = g.below(r.size());
			last[k] += 1 + (g.chance(40) ? g.below(1000) : g.chance(60) ? g.below(2 * G) : g.below(20 * G));
			all.push_back(last[k]); next_stamp() = last[k]; hogl::post(r[k], ar, hogl::area::INFO, 1u); posted++;
		}
		f.gate.open(); f.use_gate = false;
		if (!wait_for([&] { return n == posted; }, [&] { return (uint64_t) n; })) { viol("not-delivered", "%llu of %llu delivered", (unsigned long long) n, (unsigned long long) posted); break; }
		std::sort(all.begin(), all.end());
		std::lock_guard<std::mutex> l(m);
		for (size_t i = 0; i < got.size() && !violated(); i++) {
			eval();
			if (got[i].first != all[i]) viol("engine-order", "%s representation: record %zu of a batch has time %llu, in time order it is %llu", repr, i, (unsigned long long) got[i].first, (unsigned long long) all[i]);
			std::string want = sf("%llu.%09llu (%llu) ", (unsigned long long) (all[i] / G), (unsigned long long) (all[i] % G), (unsigned long long) (i ? all[i] - all[i - 1] : 0)), have = got[i].second;
			size_t z = have.find_first_not_of('0'); have = have.substr(z == have.npos ? 0 : z); if (have[0] == '.') have = "0" + have;
			if (i && have.compare(0, want.size(), want)) viol("header", "%s representation: time %llu ns, previous %llu ns: header '%s'", repr, (unsigned long long) all[i], (unsigned long long) all[i - 1], esc(got[i].second).c_str());
		}
		stat("records_through_engine", posted); distinct(mix(seed, base));
	}
	f.gate.open(); f.use_gate = false;
	if (violated()) { flush_report(); _exit(3); }
	for (auto *x : r) x->release();
	gr->release(); e.reset();
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), n = argn(argc, argv, 2, 1000), ne = argn(argc, argv, 3, 10);
	wd().start(60);
	rule("evaluation: one conversion, comparison or operation, or one record output by an engine. distinct: pair of values, batch");
	rng g(seed);
	for (uint64_t i = 0; i < n && !violated(); i++) { values(g); tick(); }
	for (uint64_t i = 0; i < ne && !violated(); i++) engine_case(mix(seed, i));
	sample("%s representation: conversions to and from all units, order, sums and differences of %llu pairs agree with integers", repr, (unsigned long long) n);
	return finish();
}
