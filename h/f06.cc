// F06: hogl-cook on damaged input.
#define VH_MAIN
#undef main
#include "rawgen.hpp"
#include "proc.hpp"
using namespace vh;
int cook_main(int, char **);

static std::string show(const Made &m, const std::string &got, const std::string &want)
{
	size_t p = 0; while (p < got.size() && p < want.size() && got[p] == want[p]) p++;
	size_t q = p > 40 ? p - 40 : 0;
	return sf("%llu records, %zu raw bytes, fields '%s': output (%zu bytes) differs at %zu of %zu: '%s' instead of '%s'", (unsigned long long) m.n, m.raw.size(), m.fields.c_str(), got.size(), p, want.size(), esc(got.substr(q, 120)).c_str(), esc(want.substr(q, 120)).c_str());
}
static size_t whole(const Made &m, size_t off) { size_t k = 0; while (k < m.rend.size() && m.rend[k] <= off) k++; return k; }

// A damaged width or precision may ask for gigabytes of padding
static bool wide(const std::string &d)
{
	for (size_t p = d.find('%'); p != std::string::npos; p = d.find('%', p + 1)) {
		unsigned digits = 0;
		for (size_t q = p + 1; q < d.size() && strchr("0123456789.*-+ #'hlqjzt", d[q]); q++) { if (!d[q]) break; if (d[q] == '*') return true; if (isdigit((unsigned char) d[q])) digits++; }
		if (digits >= 5) return true;
	}
	return false;
}

static std::string path() { return scratch() + sf("/f06-%d.raw", (int) getpid()); }
static proc_result cook(rng &g, const std::string &data, const std::string &fields, bool pipe, std::vector<std::string> opts = {})
{
	std::vector<std::string> av = { "hogl-cook", "-f", fields };
	for (auto &o : opts) av.push_back(o);
	av.push_back(pipe ? "-" : path());
	if (!pipe) spill(path(), data);
	unsigned c = g.pick((const unsigned[]) { 1, 50, 4096, 100000 });
	if (c == 1 && data.size() > 5000) c = 50;
	proc_result r = run_main(cook_main, av, pipe ? &data : 0, [&] { return (size_t) g.range(1, c); }, 1u << 24, wide(data) ? 5 : 40);
	if (r.hung && !r.padding && wide(data)) r.padding = true;
	if (r.hung && getenv("VH_SAVE")) spill(getenv("VH_SAVE"), data);
	check_tool("cook", r);
	tick();
	return r;
}

static void truncation(uint64_t seed, unsigned max)
{
	rng g(seed);
	Made m = make(g, g.range(1, 8), 400, 12);
	std::string want = mask(m.text);
	std::vector<size_t> offs; 
	if (m.raw.size() <= max) for (size_t o = 0; o <= m.raw.size(); o++) offs.push_back(o);
	else {
		for (unsigned i = 0; i < max; i++) offs.push_back(g.below(m.raw.size() + 1));
		for (size_t e : m.rend) for (long d = -1; d <= 1; d++) if (e + d <= m.raw.size()) offs.push_back(e + d);
	}
	for (size_t o : offs) {
		size_t k = whole(m, o);
		bool pipe = g.chance(30);
		std::vector<std::string> opts; if (g.chance(20)) opts = { "-R", sf("%u", (unsigned) g.below(3)) };
		proc_result r = cook(g, m.raw.substr(0, o), m.fields, pipe, opts);
		if (violated()) return;
		std::string x = mask(m.text.substr(0, k ? m.tend[k - 1] : 0)), got = mask(r.out);
		if (got != x) { viol("truncated", "cut at %zu of %zu (%zu whole records): %s", o, m.raw.size(), k, show(m, got, x).c_str()); return; }
		eval(); stat("truncations"); distinct(mix(hash_str(m.raw), o));
	}
}

static void damage(uint64_t seed, unsigned tries)
{
	rng g(seed);
	Made m = make(g, g.range(1, 12), g.chance(10) ? 50000 : 400, 15);
	for (unsigned t = 0; t < tries && !violated(); t++) {
		std::string d = m.raw; size_t first = d.size();
		unsigned n = g.chance(70) ? 1 : g.range(2, 6);
		for (unsigned i = 0; i < n && !d.empty(); i++) {
			size_t p = g.below(d.size());
			if (g.chance(40)) { size_t k = g.below(m.rend.size()); p = (k ? m.rend[k - 1] : 0) + g.below(60); if (p >= d.size()) p = d.size() - 1; }   // headers, length fields
			first = std::min(first, p);
			switch (g.below(7)) {
			case 0: d[p] ^= 1 << g.below(8); break;
			case 1: d[p] = g.below(256); break;
			case 2: d[p] = g.chance(50) ? 0xff : 0; break;
			case 3: for (unsigned j = 0; j < 4 && p + j < d.size(); j++) d[p + j] = (char) 0xff; break;
			case 4: d.insert(p, rnd_bytes(g, g.range(1, 20))); break;
			case 5: d.erase(p, g.range(1, 20)); break;
			case 6: { static const unsigned long ls[] = { 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 10485760, 10485761, 65535, 65536, 1, 0 }; unsigned long l = g.pick(ls); for (unsigned j = 0; j < 4 && p + j < d.size(); j++) d[p + j] = (char) (l >> (8 * j)); break; }
			}
		}
		if (g.chance(15)) d.resize(g.below(d.size() + 1));
		first = std::min(first, d.size());
		// what was not touched at all: up to the first difference
		size_t p = 0; while (p < d.size() && p < m.raw.size() && d[p] == m.raw[p]) p++;
		size_t k = whole(m, p);
		std::vector<std::string> opts; unsigned o = g.below(10);
		unsigned enough = 4; if (o == 0) { enough = g.below(10); opts = { "-R", sf("%u", enough) }; }
		bool small = o == 1; if (small) opts = { "-M", sf("%u", (unsigned) g.range(1, 5000)) };
		bool old = o == 2; if (old) opts = { "-v", "1.0" };
		proc_result r = cook(g, d, m.fields, g.chance(30), opts);
		if (violated()) return;
		if (r.padding) continue;
		if (!small && !old) {
			std::string x = mask(m.text.substr(0, k ? m.tend[k - 1] : 0)), got = mask(r.out);
			if (got.compare(0, x.size(), x)) { viol("lost-before-damage", "first changed byte %zu (%zu whole records before it): %s", p, k, show(m, got.substr(0, x.size()), x).c_str()); return; }
			stat("records_before_damage", k);
			// enough good ones: what comes later is not searched for records, nothing is shown again
			if (enough && k >= enough) {
				std::string again = mask(m.text.substr(k > 1 ? m.tend[k - 2] : 0, m.tend[k - 1] - (k > 1 ? m.tend[k - 2] : 0)));
				if (again.size() > 30 && mask(m.text.substr(m.tend[k - 1])).find(again) == std::string::npos) {
					if (got.find(again, x.size()) != std::string::npos) { viol("repeated", "first changed byte %zu (%zu whole records before it): the last of them is shown again: %s", p, k, esc(again, 200).c_str()); return; }
					stat("not_shown_again");
				}
			}
		}
		eval(); stat("damaged_streams"); distinct(hash_str(d));
	}
}

static void garbage(uint64_t seed)
{
	rng g(seed);
	unsigned n = g.chance(70) ? g.below(300) : g.below(2500); std::string d = rnd_bytes(g, n);
	if (g.chance(40)) { // looks a bit like records
		d = rnd_bytes(g, 16);
		for (unsigned i = 0; i < 3; i++) { std::string s = rnd_str(g, g.below(20)); d += (char) s.size(); d += s; }
		uint64_t at = g.next(); d.append((char *) &at, 8);
		for (unsigned i = 0; i < 16; i++) { uint64_t l = g.chance(50) ? g.below(100) : g.next(); d.append((char *) &l, g.pick((const unsigned[]) { 2, 4, 8 })); d += rnd_bytes(g, g.below(40)); }
	}
	proc_result r = cook(g, d, "fast1", g.chance(40), g.chance(20) ? std::vector<std::string>{ "-v", "1.0" } : std::vector<std::string>());
	(void) r; eval(); stat("garbage_streams"); distinct(hash_str(d));
}

// The beginning is missing: cook looks for the first whole record
static bool like_header(const std::string &d, size_t off)
{
	size_t p = off + 16;
	for (unsigned i = 0; i < 3; i++) {
		if (p >= d.size()) return true;
		size_t n = (uint8_t) d[p++], k = 0;
		if (p + n > d.size()) return true;
		while (k < n && d[p + k]) { if ((uint8_t) d[p + k] < 32 || (uint8_t) d[p + k] > 126) return false; k++; }
		if (k < 2 || k > 128) return false;
		p += n;
	}
	return true;
}
static void headless(uint64_t seed, bool pipe = false)
{
	rng g(seed);
	Made m = make(g, g.range(12, 60), g.chance(80) ? 20 : 300, 20);
	if (violated() || m.rend.size() < 10) return;
	// keep enough after the cut for the search to succeed before the end
	size_t last = g.below(m.rend.size() - 9);
	size_t b = m.rend[last], from = last ? m.rend[last - 1] : 0, cut = from + 1 + g.below(b - from - 1);
	std::string d = m.raw.substr(cut); size_t skip = b - cut;
	if (g.chance(25)) { std::string junk = rnd_bytes(g, g.range(1, 200)); d = junk + m.raw.substr(b); skip = junk.size(); }
	for (size_t o = 0; o < skip; o++) if (like_header(d, o)) { stat("headless_ambiguous"); return; }
	std::vector<std::string> opts; if (g.chance(20)) opts = { "-R", sf("%u", (unsigned) g.below(6)) };
	proc_result r = cook(g, d, m.fields, pipe, opts);
	if (violated()) return;
	std::string x = mask(m.text.substr(m.tend[last])), got = mask(r.out);
	// the first delta has nothing to refer to
	if (got != x && got.size() && (m.fields.find("delta") != std::string::npos || m.fields.find("fast") == 0 || m.fields == "default")) {
		std::string tail = mask(m.text.substr(m.tend[last + 1]));
		if (got.size() > tail.size() && got.compare(got.size() - tail.size(), tail.size(), tail) == 0) got = x;
	}
	// from stdin every attempt goes on after what the one before took out of the pipe: all is lost up to some record
	bool later = pipe && got.empty();
	for (size_t j = last + 1; pipe && got != x && !later && j + 1 < m.tend.size(); j++) {
		std::string tail = mask(m.text.substr(m.tend[j + 1])); size_t own = mask(m.text.substr(m.tend[j], m.tend[j + 1] - m.tend[j])).size() + 24;
		later = got.size() > tail.size() && got.size() <= tail.size() + own && got.compare(got.size() - tail.size(), tail.size(), tail) == 0;
	}
	if (got != x) { viol(later ? "headless-stdin" : "headless", "the first %zu bytes are no record: %s", skip, show(m, got, x).c_str()); return; }
	eval(m.rend.size() - last - 1); stat("headless_streams"); stat("headless_skipped_bytes", skip); distinct(hash_str(d));
}

// Damaged input with a healthy tail: cook may look for records again, but must end
int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), n = argn(argc, argv, 2, 10), max = argn(argc, argv, 3, 300);
	// no watchdog thread: children are forked from here and must find no lock taken
	rule("evaluation: one damaged stream run through hogl-cook. distinct: the stream");
	for (uint64_t i = 0; i < n && !violated(); i++) {
		truncation(mix(seed, i), max);
		damage(mix(seed + 1, i), max / 2);
		for (unsigned j = 0; j < max / 8 && !violated(); j++) headless(mix(mix(seed + 3, i), j));
		for (unsigned j = 0; j < max / 4 && !violated(); j++) garbage(mix(mix(seed + 2, i), j));
	}
	for (uint64_t i = 0; i < 3 && !violated(); i++) headless(mix(seed + 4, i), true);   // known finding
	unlink(path().c_str());
	sample("streams of some records cut at every offset, bytes flipped, inserted, removed, length fields replaced, garbage");
	return finish();
}
