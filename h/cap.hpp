// Capture side: argument model, capturing format, engine gate.
#pragma once
#include "vh.hpp"
#include <hogl/detail/compiler.hpp>
#include <hogl/detail/types.hpp>
#include <hogl/detail/internal.hpp>
#include <hogl/engine.hpp>
#include <hogl/area.hpp>
#include <hogl/mask.hpp>
#include <hogl/post.hpp>
#include <hogl/flush.hpp>
#include <hogl/ring.hpp>
#include <hogl/tls.hpp>
#include <hogl/timesource.hpp>
#include <hogl/output-null.hpp>
#include <hogl/output-plainfile.hpp>
#include <hogl/detail/format.hpp>

__HOGL_PRIV_NS_USING__;

namespace vh {

// ---------------------------------------------------------------- arguments
enum { NONE, U32, I32, U64, I64, PTR, DBL, CSTR, GSTR, XDUMP, RAW };   // same numbering as the record format
static_assert(U32 == hogl::arg::UINT32 && RAW == hogl::arg::RAW && GSTR == hogl::arg::GSTR && XDUMP == hogl::arg::XDUMP, "arg types");

struct Val {
	unsigned type = NONE;
	uint64_t v = 0;            // simple value
	std::string s;             // string / data
	bool null = false;         // null CSTR/GSTR
	const char *g = 0;         // GSTR pointer
	uint8_t xt = 'H', xbw = 1, xpr = 2, xlw = 20; char xdl = ' ';
};

inline std::string xhdr(const Val &v)
{
	hogl::arg_xdump::format f(v.xt, v.xbw, v.xpr, v.xlw, v.xdl);
	return std::string((const char *) &f, sizeof f);
}

// Builds hogl args out of values. Owns what the args point at while posting.
struct Args {
	hogl::arg a[16];
	std::vector<std::unique_ptr<hogl::arg_xdump>> xd;
	std::vector<std::string> copies;
	explicit Args(const std::vector<Val> &vals)
	{
		copies.reserve(vals.size());
		unsigned i = 0;
		for (const Val &v : vals) {
			switch (v.type) {
			case U32: a[i] = hogl::arg((unsigned int) v.v); break;
			case I32: a[i] = hogl::arg((int) v.v); break;
			case U64: a[i] = hogl::arg((unsigned long) v.v); break;
			case I64: a[i] = hogl::arg((long) v.v); break;
			case PTR: a[i] = hogl::arg((void *) v.v); break;
			case DBL: { double d; memcpy(&d, &v.v, 8); a[i] = hogl::arg(d); break; }
			case CSTR: copies.push_back(v.s);
				a[i] = v.null ? hogl::arg((const char *) 0) : hogl::arg(copies.back()); break;
			case GSTR: a[i] = hogl::arg(hogl::arg_gstr(v.null ? 0 : v.g)); break;
			case XDUMP: copies.push_back(v.s);
				xd.emplace_back(new hogl::arg_xdump(copies.back().data(), v.s.size(), v.xt, v.xbw, v.xpr, v.xlw, v.xdl));
				a[i] = hogl::arg(*xd.back()); break;
			case RAW: copies.push_back(v.s);
				a[i] = hogl::arg(hogl::arg_raw(copies.back().data(), v.s.size())); break;
			}
			i++;
		}
	}
	// what the caller does after a post: buffers change right away
	void scribble()
	{
		for (std::string &c : copies) if (!c.empty()) memset(&c[0], 0xdd, c.size());
		for (auto &x : xd) memset((void *) x.get(), 0xdd, sizeof(*x));
	}
};

#define VH_A16(a) a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]

__attribute__((noinline)) inline void post_args(hogl::ringbuf *r, const hogl::area *ar, unsigned s, Args &g) { hogl::post(r, ar, s, VH_A16(g.a)); }
__attribute__((noinline)) inline void post_args_unlocked(hogl::ringbuf *r, const hogl::area *ar, unsigned s, Args &g) { hogl::post_unlocked(r, ar, s, VH_A16(g.a)); }

// ---------------------------------------------------------------- captured form
struct CArg { unsigned type; uint64_t v; std::string d; };

// Model of the capture: what must be in the record.
inline std::vector<CArg> expect_args(const std::vector<Val> &vals, unsigned tailroom)
{
	std::vector<CArg> o;
	unsigned used = vals.size() * 8;
	for (const Val &v : vals) {
		CArg c; c.type = v.type; c.v = 0;
		unsigned room = tailroom > used ? tailroom - used : 0;
		switch (v.type) {
		case U32: case I32: c.v = (uint32_t) v.v; break;
		case GSTR: c.v = v.null ? 0 : (uint64_t) v.g; break;
		case CSTR: {
			if (v.null || v.s.empty() || !room) break;
			unsigned r = room - 1;
			if (v.s.size() <= r) c.d = v.s;
			else if (r > 3) c.d = v.s.substr(0, r - 3) + ">>>";
			else c.d = v.s.substr(0, r);
			used += c.d.size() + 1;
			break; }
		case RAW: c.d = v.s.substr(0, room); used += c.d.size(); break;
		case XDUMP: {
			std::string h = xhdr(v) + v.s;
			if (room < xhdr(v).size()) break;
			c.d = h.substr(0, room); used += c.d.size();
			break; }
		default: c.v = v.v;
		}
		o.push_back(c);
	}
	return o;
}

// What is in the record. Fills *bad if something sticks out of the record.
inline std::vector<CArg> capture_args(const hogl::record &r, unsigned tailroom, std::string *bad = 0)
{
	std::vector<CArg> o;
	unsigned n = 0;
	while (n < hogl::record::NARGS && r.get_arg_type(n) != NONE) n++;
	for (unsigned i = n; i < hogl::record::NARGS; i++)
		if (r.get_arg_type(i) != NONE && bad) *bad = sf("argument %u after the last one", i);
	for (unsigned i = 0; i < n; i++) {
		CArg c; c.type = r.get_arg_type(i); c.v = 0;
		switch (c.type) {
		case U32: case I32: c.v = r.get_arg_val32(i); break;
		case CSTR: case RAW: case XDUMP: {
			unsigned len; const uint8_t *p = r.get_arg_data(i, len);
			const uint8_t *b = (const uint8_t *) r.argval;
			unsigned need = len + (c.type == CSTR && len);
			if (len && tailroom && (p < b + n * 8 || p + need > b + tailroom)) {
				if (bad) *bad = sf("argument %u data outside the record: offset %ld len %u tailroom %u", i, (long) (p - b), len, tailroom);
				break;
			}
			c.d.assign((const char *) p, len);
			if (c.type == CSTR && len && p[len] != 0 && bad) *bad = sf("argument %u not terminated", i);
			break; }
		default: c.v = r.get_arg_val64(i);
		}
		o.push_back(c);
	}
	return o;
}

inline uint64_t hash_args(const std::vector<CArg> &a)
{
	uint64_t h = 17 + a.size();
	for (const CArg &c : a) {
		h = mix(h, c.type); h = mix(h, c.v);
		h = hash_str(c.d, mix(h, c.d.size()));
	}
	return h;
}
inline std::string show_args(const std::vector<CArg> &a)
{
	std::string s;
	for (const CArg &c : a) s += sf("%u:%llx:%u'%s' ", c.type, (unsigned long long) c.v, (unsigned) c.d.size(), esc(c.d, 60).c_str());
	return s;
}

extern const char *const gstrs[];
#ifdef VH_MAIN
const char *const gstrs[] = { "plain text", "%u", "x %d y %s", "", "%llu %p", "another global string", "%s%s%s", "fmt %5.2f" };
#endif

inline std::string rnd_str(rng &g, unsigned len)
{
	std::string s(len, 0);
	for (char &c : s) c = (char) g.range(32, 126);
	return s;
}
inline std::string rnd_bytes(rng &g, unsigned len)
{
	std::string s(len, 0);
	for (char &c : s) c = (char) g.below(256);
	return s;
}

inline Val rnd_val(rng &g, unsigned maxlen)
{
	Val v; v.type = g.range(U32, RAW);
	v.v = g.chance(30) ? g.below(4) - 1 : g.next() >> g.below(64);
	switch (v.type) {
	case U32: v.v = (uint32_t) v.v; break;
	case I32: v.v = (uint32_t) v.v; break;
	case DBL: { double d = g.chance(50) ? (double) g.range(-100000, 100000) / 7 : (double) (int64_t) g.next(); memcpy(&v.v, &d, 8); break; }
	case CSTR: v.null = g.chance(5); if (!v.null) v.s = rnd_str(g, g.below(maxlen + 1)); break;
	case GSTR: v.g = gstrs[g.below(8)]; break;
	case XDUMP: v.s = rnd_bytes(g, g.below(maxlen + 1)); v.xt = "Hxduf"[g.below(5)]; v.xbw = g.below(16); v.xpr = g.below(16); v.xlw = g.below(256); v.xdl = (char) g.range(32, 126); break;
	case RAW: v.s = rnd_bytes(g, g.below(maxlen + 1)); break;
	}
	return v;
}
inline std::vector<Val> rnd_vals(rng &g, unsigned maxlen)
{
	std::vector<Val> v;
	unsigned n = g.chance(15) ? 16 : g.chance(10) ? 0 : g.range(1, 7);
	for (unsigned i = 0; i < n; i++) v.push_back(rnd_val(g, maxlen));
	return v;
}

// ---------------------------------------------------------------- capturing format
// Gate: lets a test stall the engine thread inside format::process().
struct gate_t {
	std::mutex m; std::condition_variable cv;
	bool closed = false, inside = false;
	uint64_t passed = 0;
	void close() { std::lock_guard<std::mutex> l(m); closed = true; }
	void open() { std::lock_guard<std::mutex> l(m); closed = false; cv.notify_all(); }
	// engine side
	void pass()
	{
		std::unique_lock<std::mutex> l(m);
		passed++;
		if (!closed) return;
		inside = true; cv.notify_all();
		while (closed) cv.wait(l);
		inside = false;
	}
	bool blocked() { std::lock_guard<std::mutex> l(m); return inside; }
};

struct cap_format : public hogl::format {
	std::function<void(const data &, const hogl::record &)> on;
	std::atomic<uint64_t> count{0};       // records seen so far (all kinds)
	gate_t gate;
	std::atomic<bool> use_gate{false};
	std::function<void(hogl::ostrbuf &, const data &)> text;
	virtual void process(hogl::ostrbuf &sb, const data &d)
	{
		if (use_gate) gate.pass();
		if (on) on(d, *d.record);
		if (text) text(sb, d);
		count++;
		tick();
	}
};

// Output kept in memory: what has been flushed is visible, what sits in the buffer is not.
struct mem_dest { std::mutex m; std::string data; uint64_t flushes = 0; std::atomic<uint64_t> size{0};
	std::string get() { std::lock_guard<std::mutex> l(m); return data; } };
struct mem_ostrbuf : public hogl::ostrbuf {
	mem_dest &d;
	mem_ostrbuf(mem_dest &x, unsigned cap) : hogl::ostrbuf(cap), d(x) { }
	virtual void do_flush(const uint8_t *p, size_t n)
	{
		std::lock_guard<std::mutex> l(d.m);
		d.data.append((const char *) _data, _size);
		if (n) d.data.append((const char *) p, n);
		d.flushes++; d.size = d.data.size();
		_size = 0;
	}
};
struct mem_output : public hogl::output {
	mem_output(hogl::format &f, mem_dest &d, unsigned cap = 8192) : hogl::output(f) { init(new mem_ostrbuf(d, cap)); header("mem"); }
	virtual ~mem_output() { footer(); }
};

// Every record is formatted into the text stream as well (for tests that look at an output)
struct engine_opts {
	static hogl::engine::options make(unsigned tso, unsigned poll, unsigned feat, hogl::timesource *ts = 0)
	{
		hogl::engine::options o = hogl::engine::default_options;
		o.default_mask = hogl::mask(".*:.*", "!HOGL:.*DEBUG.*", 0);
		o.tso_buffer_capacity = tso;
		o.polling_interval_usec = poll;
		o.features = feat;
		o.timesource = ts;
		return o;
	}
};

// ---------------------------------------------------------------- time
// Strictly increasing logical clock; the poster can read back the stamp it got.
inline std::atomic<uint64_t> &lclock() { static std::atomic<uint64_t> c{1000000}; return c; }
inline uint64_t &last_stamp() { static thread_local uint64_t t; return t; }
inline hogl::timestamp logical_cb(const hogl::timesource *)
{
	last_stamp() = lclock().fetch_add(8) + 8;
	return last_stamp();
}
// Arbitrary stamps chosen by the poster.
inline uint64_t &next_stamp() { static thread_local uint64_t t; return t; }
inline hogl::timestamp chosen_cb(const hogl::timesource *) { return last_stamp() = next_stamp(); }

} // namespace vh
