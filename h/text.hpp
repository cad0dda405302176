// Independent model of the basic text format: what a record must look like.
#pragma once
#include "cap.hpp"
#include <math.h>
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
#pragma GCC diagnostic ignored "-Wformat-security"
namespace vh {

// snprintf of one conversion
template <typename... T> inline std::string cf(const std::string &f, T... v)
{
	int n = snprintf(0, 0, f.c_str(), v...);
	if (n < 0) harness_error("snprintf rejects %s", f.c_str());
	std::string s(n + 1, 0); snprintf(&s[0], n + 1, f.c_str(), v...); s.resize(n); return s;
}

// ---------------------------------------------------------------- data dumps
inline uint64_t le_val(const uint8_t *p, unsigned w) { uint64_t v = 0; for (unsigned i = 0; i < w; i++) v |= (uint64_t) p[i] << (8 * i); return v; }
inline std::string xdump_elem(const Val &v, const uint8_t *p)
{
	unsigned w = v.xbw; uint64_t u = le_val(p, w);
	switch (v.xt) {
	case 'x': return cf("%llx", (unsigned long long) u);
	case 'u': return cf("%llu", (unsigned long long) u);
	case 'd': return cf("%lld", (long long) (int64_t) (u << (64 - 8 * w)) >> (64 - 8 * w));
	case 'f': { double d; if (w == 4) { float f; memcpy(&f, p, 4); d = f; } else memcpy(&d, p, 8);
		return v.xpr >= 1 && v.xpr <= 5 ? cf("%.*f", (int) v.xpr, d) : cf("%f", d); }
	}
	return "";
}
inline bool xdump_supported(const Val &v)
{
	if (!v.xbw) return false;
	switch (v.xt) {
	case 'H': return true;
	case 'x': case 'd': case 'u': return v.xbw == 1 || v.xbw == 2 || v.xbw == 4 || v.xbw == 8;
	case 'f': return v.xbw == 4 || v.xbw == 8;
	}
	return false;
}
// text of a dump of the captured bytes (header included in the capture, not here)
inline std::string xdump_text(const Val &v, const std::string &data)
{
	if (!v.xbw) return "xdump byte width 0 not supported";
	if (!xdump_supported(v)) return std::string("xdump conversion type ") + (char) v.xt + " not supported";
	unsigned n = data.size() / v.xbw; const uint8_t *p = (const uint8_t *) data.data();
	std::string s;
	if (v.xt == 'H') {       // the classic dump shows bytes
		n = data.size();
		unsigned w = v.xlw ? v.xlw : n;
		for (unsigned o = 0; o < n; o += w) {
			s += cf("\n\t%03d: ", (int) o);
			for (unsigned i = 0; i < w; i++) s += o + i < n ? cf("%02x ", (unsigned) p[o + i]) : std::string("   ");
			s += "  ";
			for (unsigned i = 0; i < w && o + i < n; i++) s += p[o + i] >= 32 && p[o + i] < 127 ? (char) p[o + i] : '.';
		}
		return s;
	}
	for (unsigned i = 0; i < n; i++) {
		if (v.xlw && i % v.xlw == 0) s += "\n\t"; else if (i) s += v.xdl;
		s += xdump_elem(v, p + i * v.xbw);
	}
	return s;
}

// ---------------------------------------------------------------- arguments
// The string a CSTR/GSTR argument stands for. An empty C string is kept the same way as a null one.
inline std::string str_of(const Val &v, const CArg &c)
{
	if (v.type == CSTR) return c.d.empty() ? "null" : std::string(c.d.c_str());
	return v.null || !v.g ? "null" : v.g;
}
// rawptr(i): where the data of argument i is
inline std::string plain_arg(const Val &v, const CArg &c, const void *rawptr)
{
	double d;
	switch (v.type) {
	case U32: return cf("%u", (unsigned) v.v);
	case I32: return cf("%d", (int) v.v);
	case U64: return cf("%llu", (unsigned long long) v.v);
	case I64: return cf("%lld", (long long) v.v);
	case PTR: return cf("%p", (void *) v.v);
	case DBL: memcpy(&d, &v.v, 8); return cf("%f", d);
	case CSTR: case GSTR: return str_of(v, c);
	case XDUMP: return c.d.size() < 4 ? "null" : xdump_text(v, c.d.substr(4));
	case RAW: return cf("rawdata %u bytes @ ", (unsigned) c.d.size()) + cf("%p", rawptr);
	}
	return "?";
}
inline bool is_fmt_record(const std::vector<Val> &v)
{
	return v.size() > 1 && (v[0].type == CSTR || v[0].type == GSTR) && v[1].type != XDUMP && v[1].type != RAW;
}
inline std::string plain_text(const std::vector<Val> &v, const std::vector<CArg> &c, std::function<const void *(unsigned)> rawptr)
{
	std::string s;
	for (unsigned i = 0; i < v.size(); i++) {
		if (i) s += ' ';
		s += plain_arg(v[i], c[i], v[i].type == RAW ? rawptr(i) : 0);
		if (!i && v[0].type == RAW) break;      // a raw record shows its data only
	}
	return s + '\n';
}

// ---------------------------------------------------------------- headers
enum { H_TIMESPEC = 1, H_TIMESTAMP = 2, H_TIMEDELTA = 4, H_RING = 8, H_SEQNUM = 16, H_AREA = 32, H_SECTION = 64 };
inline std::string civil_utc(int64_t sec)      // MMDDYYYY HH:MM:SS
{
	// days to date, counting from March 1st of year 0
	int64_t days = sec >= 0 ? sec / 86400 : -((86399 - sec) / 86400), z = days + 719468; unsigned r = sec - days * 86400;
	int64_t era = z / 146097; unsigned doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
	unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
	long y = yoe + era * 400 + (m <= 2);
	return cf("%02u%02u%04ld %02u:%02u:%02u", m, d, y, r / 3600, r / 60 % 60, r % 60);
}
inline std::string local_time(uint64_t sec)
{
	const char *tz = getenv("TZ");
	if (!tz || !strcmp(tz, "UTC")) return civil_utc(sec);
	time_t t = sec; struct tm tm; localtime_r(&t, &tm);
	return civil_utc(sec + tm.tm_gmtoff);
}
inline std::string header_text(unsigned f, uint64_t t, uint64_t prev, const std::string &ring, uint64_t seq, const std::string &area, const std::string &sect)
{
	std::string s;
	unsigned long long sec = t / 1000000000, ns = t % 1000000000;
	if (f & H_TIMESPEC) s += cf("%011llu.%09llu ", sec, ns);
	if (f & H_TIMESTAMP) s += local_time(sec) + cf(".%09llu ", ns);
	if (f & H_TIMEDELTA) s += cf("(%llu) ", (unsigned long long) (prev && t > prev ? t - prev : 0));
	std::string q = cf("%llu", (unsigned long long) seq);
	if ((f & H_RING) && (f & H_SEQNUM)) s += ring + ":" + q + " "; else if (f & H_RING) s += ring + " "; else if (f & H_SEQNUM) s += q + " ";
	if ((f & H_AREA) && (f & H_SECTION)) s += area + ":" + sect + " "; else if (f & H_AREA) s += area + " "; else if (f & H_SECTION) s += sect + " ";
	return s;
}
static const char *const field_names[] = { "timespec", "timestamp", "timedelta", "ring", "seqnum", "area", "section" };
inline std::string field_list(rng &g, unsigned mask)
{
	std::vector<std::string> l; const char d = g.chance(50) ? ',' : '|';
	for (unsigned i = 0; i < 7; i++) if (mask >> i & 1) l.push_back(field_names[i]);
	if (g.chance(50)) for (size_t j = l.size(); j-- > 1;) std::swap(l[j], l[g.below(j + 1)]);
	if (!l.empty() && g.chance(20)) l.push_back(g.pick(l));
	std::string s; for (auto &x : l) s += (s.empty() ? "" : std::string(1, d)) + x;
	return s;
}

// ---------------------------------------------------------------- format strings
inline double sane_double(rng &g, bool fixed)
{
	switch (g.below(8)) {
	case 0: return g.pick((const double[]) { 0.0, -0.0, 1, -1, 0.5, 1.5, 2.5, 10, 100, 1e5, 1e6, 1e-4, 1e-5, 0.1, 999999.5, 9.5 });
	case 1: return (double) g.range(-1000000, 1000000) / 16;
	case 2: return (double) (int64_t) g.next() / 9.2e9;
	case 3: if (!fixed) { uint64_t b; double d; do { b = g.next(); memcpy(&d, &b, 8); } while (!std::isfinite(d)); return d; } // fallthrough
	case 4: return ldexp((double) g.below(1ull << 52), -(int) g.below(100));
	default: return (double) g.range(-100000, 100000) / (double) g.range(1, 1000);
	}
}
inline uint64_t edge_int(rng &g)
{
	return g.chance(40) ? g.pick((const uint64_t[]) { 0, 1, ~0ull, 2, 9, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 1ull << 32, 1ull << 63, ~0ull >> 1 }) : g.next() >> g.below(64);
}
inline std::string lit(rng &g)
{
	static const char al[] = "abcXYZ 0123456789.,:;-+_#*$()[]{}<>/\\\"'\t\n=!?&@~^|";
	std::string s; unsigned n = g.chance(20) ? 0 : g.chance(5) ? g.below(300) : g.below(12);
	for (unsigned i = 0; i < n; i++) s += g.chance(10) ? "%%" : std::string(1, al[g.below(sizeof al - 1)]);
	return s;
}
inline std::string unlit(const std::string &s) { std::string o; for (size_t i = 0; i < s.size(); i++) { o += s[i]; if (s[i] == '%') i++; } return o; }

// A conversion with the arguments it takes and the text libc makes of it.
struct Conv { std::string spec, text; std::vector<Val> args; std::string kind; };
inline Conv rnd_conv(rng &g, bool stars = true)
{
	Conv c; Val v;
	auto iarg = [&](int x) { Val a; a.type = I32; a.v = (uint32_t) x; c.args.push_back(a); };
	bool minus = g.chance(20), plus = g.chance(15), space = g.chance(10), zero = g.chance(20), alt = g.chance(15);
	bool hw = g.chance(40), hp = g.chance(35);
	int w = g.chance(90) ? g.below(30) : g.below(300), p = g.chance(85) ? g.below(13) : g.below(60);
	bool ws = stars && hw && g.chance(20), ps = stars && hp && g.chance(20);
	unsigned k = g.below(10);
	std::string len, conv; 
	enum { INT, FLT, STR, CHR, POINTER } cls = k < 5 ? INT : k < 7 ? FLT : k < 9 ? STR : g.chance(50) ? CHR : POINTER;
	std::string sv; double dv = 0; uint64_t iv = 0;
	switch (cls) {
	case INT: {
		bool sgn = g.chance(50); conv = sgn ? g.pick((const char *const[]) { "d", "i" }) : g.pick((const char *const[]) { "u", "x", "X", "o" });
		len = g.pick((const char *const[]) { "", "", "", "h", "hh", "l", "ll", "z", "j", "t" });
		bool wide = len == "l" || len == "ll" || len == "z" || len == "j" || len == "t";
		iv = edge_int(g); v.type = wide ? (sgn ? I64 : U64) : (sgn ? I32 : U32);
		if (!wide) iv = (uint32_t) iv;
		v.v = iv;
		if (!sgn) plus = space = false;
		if (sgn || conv == "u") alt = false;
		// a zero with precision 0 is a known finding
		uint64_t eff = len == "h" ? (uint16_t) iv : len == "hh" ? (uint8_t) iv : wide ? iv : (uint32_t) iv;
		if (!eff && p == 0) p = 1;
		break; }
	case FLT:
		conv = g.pick((const char *const[]) { "f", "f", "f", "F", "e", "E", "g", "G", "a", "A" });
		len = g.pick((const char *const[]) { "", "", "l" });
		dv = sane_double(g, false);
		if (g.chance(3)) { dv = g.pick((const double[]) { INFINITY, -INFINITY, NAN }); zero = false; }   // known finding
		v.type = DBL; memcpy(&v.v, &dv, 8);
		if (conv == "g" || conv == "G") { alt = false; }   // known finding
		if (conv == "a" || conv == "A") zero = false;                                           // known finding
		break;
	case STR: {
		conv = "s"; plus = space = zero = alt = false;
		v.type = g.chance(70) ? CSTR : GSTR; v.null = g.chance(4);
		if (v.null) sv = "null";
		else if (v.type == CSTR) { v.s = hw || hp ? rnd_str(g, g.range(1, 60)) : rnd_bytes(g, g.range(1, 60)); for (char &x : v.s) if (!x) x = '.'; sv = v.s; }
		else { v.g = gstrs[g.below(8)]; sv = v.g; }
		break; }
	case CHR: conv = "c"; plus = space = zero = alt = hp = false; v.type = g.chance(70) ? I32 : U32; iv = g.chance(80) ? g.range(32, 126) : g.below(256); v.v = iv; break;
	case POINTER: conv = "p"; plus = space = zero = alt = hp = false; v.type = PTR; iv = g.chance(20) ? 0 : edge_int(g); v.v = iv; break;
	}
	if (!hw) ws = false;
	if (!hp) ps = false;
	std::string fl; struct { bool on; char ch; } F[] = { { minus, '-' }, { plus, '+' }, { space, ' ' }, { zero, '0' }, { alt, '#' } };
	unsigned r = g.below(5); for (unsigned i = 0; i < 5; i++) if (F[(i + r) % 5].on) fl += F[(i + r) % 5].ch;
	if (hw && !ws && w == 0) hw = false;
	std::string of = "%" + fl, hf = of;
	if (hw) { if (ws) { int x = g.chance(25) ? -w : w; iarg(x); hf += "*"; of += (x < 0 ? "-" : "") + (x ? sf("%d", abs(x)) : std::string()); } else { hf += sf("%d", w); of += sf("%d", w); } }
	if (hp) {
		if (ps) { int x = g.chance(15) ? -1 - (int) g.below(5) : p; iarg(x); hf += ".*"; if (x >= 0) of += sf(".%d", x); else if (cls == FLT && (conv == "g" || conv == "G")) of += ""; }
		else { std::string t = p ? sf(".%d", p) : g.chance(50) ? "." : ".0"; hf += t; of += t; }
	}
	c.spec = hf + len + conv; of += len + conv;
	c.kind = len + conv; c.args.push_back(v);
	switch (cls) {
	case INT: c.text = v.type == I32 || v.type == U32 ? cf(of, (int) iv) : cf(of, (long) iv); break;
	case FLT: c.text = cf(of, dv); break;
	case STR: c.text = cf(of, sv.c_str()); break;
	case CHR: c.text = cf(of, (int) iv); break;
	case POINTER: c.text = cf(of, (void *) iv); break;
	}
	return c;
}

// A format string that fits its arguments. room: bytes for strings
inline void rnd_format(rng &g, std::vector<Val> &vals, std::string &text, std::set<std::string> *kinds = 0)
{
	std::string f; text.clear(); vals.assign(1, Val());
	if (g.chance(10)) {          // positional
		std::vector<Conv> cs; unsigned n = g.range(1, 6);
		for (unsigned i = 0; i < n; i++) { cs.push_back(rnd_conv(g, false)); vals.push_back(cs.back().args[0]); }
		unsigned m = g.range(1, 8);
		for (unsigned i = 0; i < m; i++) {
			std::string l = lit(g); f += l; text += unlit(l);
			unsigned k = g.below(n); f += sf("%%%u$", k + 1) + cs[k].spec.substr(1); text += cs[k].text;
		}
		if (kinds) kinds->insert("n$");
	} else {
		unsigned m = g.chance(10) ? 15 : g.range(1, 5);
		for (unsigned i = 0; i < m; i++) {
			std::string l = lit(g);
			Conv c = rnd_conv(g);
			if (vals.size() + c.args.size() > 16) break;
			f += l + c.spec; text += unlit(l) + c.text;
			for (Val &a : c.args) vals.push_back(a);
			if (kinds) kinds->insert(c.kind);
		}
		if (vals.size() == 1) { Val v; v.type = I32; v.v = 7; vals.push_back(v); }
		while (g.chance(10) && vals.size() < 16) vals.push_back(rnd_val(g, 20));    // more arguments than needed
		if (vals[1].type == XDUMP || vals[1].type == RAW) { vals.resize(1); Val v; v.type = U32; vals.push_back(v); }
	}
	std::string l = lit(g); f += l; text += unlit(l);
	// literal-only formats cannot be empty: an empty C string counts as null
	if (f.empty()) { f = "x"; text = "x"; }
	vals[0].type = CSTR; vals[0].s = f;
	text += '\n';
}

} // namespace vh
