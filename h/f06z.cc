// F06: coverage guided search for input bytes that the record parser of hogl-cook misreads. Every input is also read by
// a second, independent reader; the two must agree on each record, and the text of each record is made under ASan/UBSan.
#define VH_MAIN
#include "text.hpp"
#include <hogl/format-basic.hpp>
#include "tools/raw-parser.hpp"
#include "tools/rdbuf.hpp"
using namespace vh;
extern "C" size_t LLVMFuzzerMutate(uint8_t *, size_t, size_t);

struct mem_rdbuf : public hogl::rdbuf {
	const uint8_t *p; size_t n, at = 0;
	mem_rdbuf(const uint8_t *d, size_t s) : p(d), n(s) { }
	bool valid() const { return true; }
	bool fail() const { return false; }
	int error() const { return 0; }
	size_t count() const { return at; }
	void reset() { }
	bool read(void *dst, unsigned int len)
	{
		size_t k = std::min<size_t>(len, n - at);
		if (dst && k) memcpy(dst, p + at, k);
		at += k;
		return k == len;
	}
};

// The independent reader: what the format says is there
struct Rec { uint64_t ts, seq; std::string ring, area, sect; unsigned n = 0; unsigned type[16]; uint64_t val[16]; std::string str[16]; size_t end; };
struct Reader {
	const uint8_t *p; size_t n, at = 0; bool v1; size_t limit;
	bool num(uint64_t &v, unsigned w) { v = 0; if (n - at < w) return false; memcpy(&v, p + at, w); at += w; return true; }
	bool bytes(std::string &s, unsigned w, size_t room) { uint64_t l; if (!num(l, w) || l > room || n - at < l) return false; s.assign((const char *) p + at, l); at += l; return true; }
	bool name(std::string &s)
	{
		if (!bytes(s, 1, 255)) return false;
		s = s.c_str();                                                       // names end at a zero
		for (unsigned char c : s) if (c < 32 || c > 126) return false;
		return s.size() >= 2 && s.size() <= 128;
	}
	bool next(Rec &r)
	{
		uint64_t t;
		if (!num(r.ts, 8) || !num(r.seq, 8) || !name(r.ring) || !name(r.area) || !name(r.sect) || !num(t, 8)) return false;
		size_t used = 0;
		for (r.n = 0; r.n < 16; r.n++) {
			unsigned i = r.n, k = t >> (4 * i) & 15; r.type[i] = k; r.val[i] = 0; r.str[i].clear();
			if (k == NONE) break;
			switch (k) {
			case U32: case I32: if (!num(r.val[i], 4)) return false; break;
			case CSTR: case GSTR: if (used >= limit || !bytes(r.str[i], 2, limit - used - 1)) return false; used += r.str[i].size() + 1; break;
			case XDUMP: case RAW: if (used > limit || !bytes(r.str[i], v1 ? 2 : 4, limit - used)) return false; used += r.str[i].size(); break;
			default: if (!num(r.val[i], 8)) return false;
			}
		}
		r.end = at;
		return true;
	}
};

// Text that pads with millions of blanks is right, but of no use here
static bool slow(const Rec &r)
{
	for (unsigned i = 0; i < r.n; i++) {
		if (r.type[i] != CSTR && r.type[i] != GSTR) continue;
		unsigned digits = 0;
		for (char c : r.str[i]) { if (c == '*') return true; digits = isdigit((unsigned char) c) ? digits + 1 : 0; if (digits > 4) return true; }
	}
	return false;
}

struct sink : public hogl::ostrbuf {
	std::string s; size_t total = 0; char last = 0;
	sink() : hogl::ostrbuf(256) { }
	void add(const uint8_t *p, size_t n) { if (n) { total += n; last = p[n - 1]; if (s.size() < 4096) s.append((const char *) p, std::min<size_t>(n, 4096)); } }
	void do_flush(const uint8_t *p, size_t n) { add(_data, _size); add(p, n); _size = 0; }
};

static std::string fields;
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
	if (size < 2) return 0;
	bool v1 = data[0] & 1; size_t limit = (size_t[]) { 64, 300, 4096, 70000 }[data[0] >> 1 & 3]; unsigned f = data[1];
	static const char *const lists[] = { "default", "fast0", "fast1", "timespec,timedelta,ring,seqnum,area,section", "timestamp|ring", "seqnum,section" };
	data += 2; size -= 2;
	mem_rdbuf in(data, size); hogl::raw_parser parser(in, v1 ? hogl::raw_parser::V1 : hogl::raw_parser::V1_1, limit);
	Reader rd = { data, size, 0, v1, limit };
	hogl::format_basic fmt(lists[f % 6]);
	unsigned n = 0;
	for (;; n++) {
		Rec want; bool have = rd.next(want);
		const hogl::format::data *d = parser.next();
		eval();
		if (have != (d != 0)) { viol("reader", "record %u of %zu bytes (%s, limit %zu): %s, the parser %s", n, size, v1 ? "1.0" : "1.1", limit, have ? "whole and valid" : "cut or invalid", d ? "shows it" : parser.error().c_str()); break; }
		if (!d) break;
		const hogl::record &r = *d->record;
		if (in.count() != want.end) { viol("reader-length", "record %u ends at %zu, the parser stands at %zu", n, want.end, in.count()); break; }
		if (r.timestamp.to_nsec() != want.ts || r.seqnum != (want.seq & 0xfffffffffffffull) || want.ring != d->ring_name || want.area != r.area->name() || want.sect != r.area->section_name(r.section)) { viol("reader-header", "record %u: %llu %llu %s %s", n, (unsigned long long) r.timestamp.to_nsec(), (unsigned long long) r.seqnum, d->ring_name, r.area->name()); break; }
		for (unsigned i = 0; i <= want.n && i < 16; i++) {
			unsigned k = r.get_arg_type(i), len = 0, w = want.type[i];
			bool str = w == CSTR || w == GSTR;
			if (str ? k != CSTR && k != GSTR : k != w) { viol("reader-type", "record %u argument %u: type %u, in the log %u", n, i, k, w); break; }
			if (w == NONE) break;
			bool ok = true;
			if (k == CSTR) { const char *s = (const char *) r.get_arg_data(i, len); ok = want.str[i] == std::string(s, len) && !s[len]; }
			else if (k == GSTR) ok = want.str[i].empty() && r.get_arg_val64(i) && !*(const char *) r.get_arg_val64(i);
			else if (k == XDUMP || k == RAW) { const char *s = (const char *) r.get_arg_data(i, len); ok = want.str[i] == std::string(s, len); }
			else ok = (w == U32 || w == I32 ? r.get_arg_val32(i) : r.get_arg_val64(i)) == want.val[i];
			if (!ok) { viol("reader-value", "record %u argument %u of type %u", n, i, w); break; }
			stat("arguments");
		}
		if (violated()) break;
		if (slow(want)) { stat("wide_paddings_skipped"); continue; }
		sink sb; fmt.process(sb, *d); sb.flush();
		eval(); stat("records");
		if (!sb.total || sb.last != '\n') { viol("reader-text", "record %u: text does not end with a newline: '%s'", n, esc(sb.s).c_str()); break; }
		uint64_t h = want.n; for (unsigned i = 0; i < want.n; i++) h = mix(h, want.type[i] * 64 + std::min<size_t>(want.str[i].size(), 40));
		distinct(mix(h, f % 6 + 8 * v1));
	}
	stat("inputs"); stat(parser.failed() ? "inputs_refused" : "inputs_to_the_end");
	if (violated()) { flush_report(); _exit(3); }
	return 0;
}

static void put(std::string &o, uint64_t v, unsigned w) { o.append((const char *) &v, w); }
static std::string one(rng &g, bool v1)
{
	std::string o; put(o, g.next() >> g.below(64), 8); put(o, g.below(1000), 8);
	for (unsigned i = 0; i < 3; i++) { std::string s = rnd_str(g, g.range(2, 9)); put(o, s.size(), 1); o += s; }
	static const char *const fs[] = { "%d %s", "%x", "%-8s|%08.3f|%+d", "%%", "%p %llu", "%c%hhd", "%5$d", "%n", "%", "%s%s%s" };
	unsigned n = g.below(17); uint64_t t = 0; std::string a;
	for (unsigned i = 0; i < n; i++) {
		unsigned k = g.chance(95) ? g.range(1, 10) : g.range(11, 15);
		if (!i && g.chance(50)) k = g.chance(50) ? GSTR : CSTR;
		t |= (uint64_t) k << (4 * i);
		if (k == U32 || k == I32) put(a, g.next(), 4);
		else if (k == CSTR || k == GSTR) { std::string s = g.chance(60) ? std::string(fs[g.below(10)]) : rnd_bytes(g, g.below(30)); put(a, s.size(), 2); a += s; }
		else if (k == XDUMP || k == RAW) {
			std::string s = rnd_bytes(g, g.below(40));
			if (k == XDUMP && g.chance(80)) { Val v; v.xt = g.pick("Hxduf"); v.xbw = g.pick((const unsigned[]) { 1, 2, 4, 8, 0, 3 }); v.xpr = g.below(8); v.xlw = g.below(9); s = xhdr(v) + s; }
			put(a, s.size(), v1 ? 2 : 4); a += s;
		} else put(a, g.next() >> g.below(64), 8);
	}
	put(o, t, 8);
	return o + a;
}

extern "C" size_t LLVMFuzzerCustomMutator(uint8_t *data, size_t size, size_t max, unsigned int seed)
{
	rng g(seed);
	if (size < 2 || g.chance(60)) return LLVMFuzzerMutate(data, size, max);
	std::string s((const char *) data, size), r = one(g, data[0] & 1);
	if (g.chance(30)) r.resize(g.below(r.size() + 1));                          // cut
	if (g.chance(70)) s += r; else s.insert(2 + g.below(s.size() - 1), r);
	if (s.size() > max) s.resize(max);
	memcpy(data, s.data(), s.size());
	return s.size();
}

extern "C" int LLVMFuzzerInitialize(int *, char ***)
{
	rule("evaluation: one record of an input read by hogl-cook's parser and by an independent reader, or rendered. distinct: argument types and sizes of a record, header fields, version");
	atexit([] { flush_report(); });
	return 0;
}
