// A01: mask expressions select exactly the sections they describe.
#define VH_MAIN
#include "cap.hpp"
#include <sstream>
using namespace vh;

// ---- regular expressions as trees: rendered to POSIX extended syntax for the code, matched here by position sets
struct Re {
	enum K { CHR, ANY, SET, NSET, SEQ, ALT, REP } k;
	char c = 0; std::string set; std::string setsrc; int lo = 0, hi = 0;
	std::vector<std::shared_ptr<Re>> sub;
};
typedef std::shared_ptr<Re> P;
static std::string src(const P &r)
{
	switch (r->k) {
	case Re::CHR: if (strchr(".[]()*+?{}|^$\\", r->c)) return std::string("\\") + r->c; return std::string(1, r->c);
	case Re::ANY: return ".";
	case Re::SET: return "[" + r->setsrc + "]";
	case Re::NSET: return "[^" + r->setsrc + "]";
	case Re::SEQ: { std::string s; for (auto &x : r->sub) s += x->k == Re::ALT ? "(" + src(x) + ")" : src(x); return s; }
	case Re::ALT: { std::string s; for (auto &x : r->sub) { if (&x != &r->sub[0]) s += "|"; s += src(x); } return s; }
	case Re::REP: {
		std::string s = src(r->sub[0]);
		bool atom = r->sub[0]->k == Re::CHR || r->sub[0]->k == Re::ANY || r->sub[0]->k == Re::SET || r->sub[0]->k == Re::NSET;
		if (!atom) s = "(" + s + ")";
		if (r->lo == 0 && r->hi < 0) return s + "*";
		if (r->lo == 1 && r->hi < 0) return s + "+";
		if (r->lo == 0 && r->hi == 1) return s + "?";
		if (r->hi < 0) return s + sf("{%d,}", r->lo);
		if (r->hi == r->lo) return s + sf("{%d}", r->lo);
		return s + sf("{%d,%d}", r->lo, r->hi);
	}
	}
	return "";
}
typedef std::set<size_t> PS;
static PS match(const P &r, const std::string &s, const PS &from)
{
	PS to;
	switch (r->k) {
	case Re::CHR: for (size_t p : from) if (p < s.size() && s[p] == r->c) to.insert(p + 1); break;
	case Re::ANY: for (size_t p : from) if (p < s.size()) to.insert(p + 1); break;
	case Re::SET: for (size_t p : from) if (p < s.size() && r->set.find(s[p]) != r->set.npos) to.insert(p + 1); break;
	case Re::NSET: for (size_t p : from) if (p < s.size() && r->set.find(s[p]) == r->set.npos) to.insert(p + 1); break;
	case Re::SEQ: to = from; for (auto &x : r->sub) to = match(x, s, to); break;
	case Re::ALT: for (auto &x : r->sub) { PS t = match(x, s, from); to.insert(t.begin(), t.end()); } break;
	case Re::REP: {
		PS cur = from;
		if (r->lo == 0) to = cur;
		for (int i = 1; r->hi < 0 || i <= r->hi; i++) {
			PS n = match(r->sub[0], s, cur);
			if (i >= r->lo) { size_t b = to.size(); to.insert(n.begin(), n.end()); if (r->hi < 0 && to.size() == b && i > (int) s.size() + r->lo) break; }
			cur = n;
			if (cur.empty()) break;
		}
		break; }
	}
	return to;
}
static bool full(const P &r, const std::string &s) { return match(r, s, PS{0}).count(s.size()); }
static P mk(Re::K k) { P p(new Re); p->k = k; return p; }
static P chr(char c) { P p = mk(Re::CHR); p->c = c; return p; }
static P lit(const std::string &s) { P p = mk(Re::SEQ); for (char c : s) p->sub.push_back(chr(c)); return p; }
static P star() { P p = mk(Re::REP); p->lo = 0; p->hi = -1; p->sub.push_back(mk(Re::ANY)); return p; }

static const char alpha[] = "ABCDabcd012_-. /:|";
static P rnd_re(rng &g, int depth, bool colon)
{
	unsigned k = g.below(depth > 0 ? 10 : 5);
	if (k < 3) { char c; do c = alpha[g.below(sizeof alpha - 1)]; while (c == ':' && !colon); return chr(c); }
	if (k == 3) return mk(Re::ANY);
	if (k == 4) {
		P p = mk(g.chance(60) ? Re::SET : Re::NSET);
		switch (g.below(colon ? 4 : 3)) {
		case 0: p->setsrc = "A-D"; p->set = "ABCD"; break;
		case 1: p->setsrc = "a-c_"; p->set = "abc_"; break;
		case 2: p->setsrc = "0-9.-"; p->set = "0123456789.-"; break;
		case 3: p->setsrc = "[:upper:]"; p->set = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"; break;
		}
		return p;
	}
	if (k < 7) { P p = mk(Re::SEQ); for (unsigned i = g.range(1, 4); i; i--) p->sub.push_back(rnd_re(g, depth - 1, colon)); return p; }
	if (k < 8) { P p = mk(Re::ALT); for (unsigned i = g.range(2, 3); i; i--) p->sub.push_back(rnd_re(g, depth - 1, colon)); return p; }
	P p = mk(Re::REP);
	p->sub.push_back(rnd_re(g, 0, colon));
	if (g.chance(25)) { P in = mk(Re::SEQ); in->sub.push_back(p->sub[0]); in->sub.push_back(rnd_re(g, 0, colon)); p->sub[0] = in; }
	switch (g.below(5)) {
	case 0: p->lo = 0; p->hi = -1; break;
	case 1: p->lo = 1; p->hi = -1; break;
	case 2: p->lo = 0; p->hi = 1; break;
	case 3: p->lo = g.range(1, 2); p->hi = p->lo; break;
	case 4: p->lo = g.range(0, 1); p->hi = p->lo + g.range(1, 2); break;
	}
	return p;
}
// an expression derived from a name, so that something matches
static P near(rng &g, const std::string &name, bool colon)
{
	P p = mk(Re::SEQ);
	for (size_t i = 0; i < name.size(); i++) {
		if (name[i] == ':' && !colon) { p->sub.push_back(mk(Re::ANY)); continue; }
		switch (g.below(12)) {
		case 0: p->sub.push_back(mk(Re::ANY)); break;
		case 1: p->sub.push_back(star()); i = std::min(name.size() - 1, i + g.below(4)); break;
		case 2: { P r = mk(Re::REP); r->lo = 1; r->hi = -1; r->sub.push_back(chr(name[i])); p->sub.push_back(r); break; }
		case 3: { P r = mk(Re::ALT); r->sub.push_back(chr(name[i])); r->sub.push_back(rnd_re(g, 0, colon)); if (g.chance(50)) std::swap(r->sub[0], r->sub[1]); p->sub.push_back(r); break; }
		default: p->sub.push_back(chr(name[i]));
		}
	}
	if (g.chance(15) && !p->sub.empty()) p->sub.pop_back();              // a prefix only
	if (g.chance(10)) { P a = mk(Re::ALT); a->sub = { p, rnd_re(g, 1, colon) }; if (g.chance(50)) std::swap(a->sub[0], a->sub[1]); return a; }
	return p;
}

struct Expr { std::string text; P area, sect; bool on; };
struct Area { std::string name; std::vector<std::string> sec; hogl::area *a; std::vector<bool> st; };

static std::string rnd_name(rng &g)
{
	static const char *const fix[] = { "INFO", "WARN", "DEBUG", "ERROR", "TRACE", "A", "AA", "AREA", "AREA-1", "AREA.1", "ENGINE:DEBUG", "a b", "x|y", "INFO2", "DEBUG-INFO", "aaaa", "0", "!A", "NAME(1)", "[x]", "$", "^A", "a*" };
	if (g.chance(60)) return g.pick(fix);
	std::string s; for (unsigned n = g.range(g.chance(5) ? 0 : 1, 9); n; n--) s += alpha[g.below(sizeof alpha - 1)];
	return s;
}
static Expr rnd_expr(rng &g, const std::vector<Area> &as)
{
	Expr e; e.on = g.chance(60);
	const Area &t = as[g.below(as.size())];
	std::string a, s;
	bool colon = g.chance(70);
	if (colon) {
		unsigned k = g.below(10);
		if (k < 2) { e.area = star(); a = k ? ".*" : ""; }
		else if (k < 8) { e.area = g.chance(40) ? lit(t.name) : near(g, t.name, false); if (t.name.find(':') != t.name.npos) e.area = near(g, t.name, false); a = src(e.area); }
		else { e.area = rnd_re(g, 2, false); a = src(e.area); }
		if (a.empty()) e.area = star();
	} else e.area = star();
	unsigned k = g.below(10);
	if (k < 2) { e.sect = star(); s = k ? ".*" : ""; }
	else if (k < 8 && !t.sec.empty()) { const std::string &n = t.sec[g.below(t.sec.size())]; e.sect = g.chance(40) && (colon || n.find(':') == n.npos) ? lit(n) : near(g, n, colon); s = src(e.sect); }
	else { e.sect = rnd_re(g, 3, colon); s = src(e.sect); }
	if (s.empty()) e.sect = star();
	e.text = (e.on ? "" : "!") + (colon ? a + ":" + s : s);
	if (e.on && e.text[0] == '!') { e.text = "!" + e.text; e.on = false; }   // a name that begins with '!' is a negation
	if (!e.on && e.text.size() > 1 && e.text[0] != '!') e.on = true;
	return e;
}
static void apply_model(const std::vector<Expr> &ex, Area &a)
{
	for (const Expr &e : ex) {
		if (!full(e.area, a.name)) continue;
		for (size_t i = 0; i < a.sec.size(); i++) if (full(e.sect, a.sec[i])) a.st[i] = e.on;
	}
}

static const char *const bad[] = { "(a", "a(b", "[a", "x[^", "[z-a]", "a{3,1}", "a{2", "a\\", "(((", "[[:nope:", "a|(b" };

static void one_case(uint64_t seed)
{
	rng g(seed); tick();
	std::vector<Area> as;
	unsigned na = g.range(1, 6);
	for (unsigned i = 0; i < na; i++) {
		Area a; a.name = rnd_name(g);
		if (g.chance(25)) { a.a = new hogl::area(a.name.c_str()); a.sec = { "INFO", "WARN", "ERROR", "FATAL", "DEBUG", "TRACE" }; }
		else {
			unsigned n = g.chance(8) ? 0 : g.chance(10) ? g.range(60, 140) : g.range(1, 12);
			for (unsigned j = 0; j < n; j++) a.sec.push_back(rnd_name(g));
			std::vector<const char *> p; for (auto &s : a.sec) p.push_back(s.c_str()); p.push_back(0);
			a.a = new hogl::area(a.name.c_str(), p.data());
		}
		a.st.assign(a.sec.size(), false);
		for (size_t j = 0; j < a.sec.size(); j++) if (g.chance(50)) { a.a->enable(j); a.st[j] = true; }
		as.push_back(a);
	}
	// the same list of expressions, built in different ways
	std::vector<Expr> ex;
	unsigned ne = g.range(g.chance(5) ? 0 : 1, 6);
	for (unsigned i = 0; i < ne; i++) ex.push_back(rnd_expr(g, as));
	std::string all; for (auto &e : ex) all += "'" + e.text + "' ";
	std::unique_ptr<hogl::mask> m;
	unsigned how = g.below(9);
	bool hasempty = false; for (auto &e : ex) if (e.text.empty()) hasempty = true;
	if (hasempty && (how == 1 || how == 3 || how == 6)) how = 0;
	const char *hown = "";
	switch (how) {
	case 0: hown = "add"; m.reset(new hogl::mask()); for (auto &e : ex) m->add(e.text); break;
	case 1: { hown = "args"; const char *x[7] = { 0 }; for (unsigned i = 0; i < ne; i++) x[i] = ex[i].text.c_str();
		m.reset(new hogl::mask(x[0], x[1], x[2], x[3], x[4], x[5], x[6], (char *) 0)); break; }
	case 2: hown = "stream-op"; m.reset(new hogl::mask()); for (auto &e : ex) *m << e.text; break;
	case 3: { hown = "text"; std::string t; for (auto &e : ex) { t += e.text; t += g.chance(20) ? "\n\n" : "\n"; } if (!t.empty() && g.chance(40)) t.pop_back();
		std::istringstream is(t); m.reset(new hogl::mask()); is >> *m; break; }
	case 4: { hown = "copy"; hogl::mask a; for (auto &e : ex) a << e.text; const hogl::mask &ca = a; m.reset(g.chance(50) ? new hogl::mask(a) : new hogl::mask(ca)); a.clear(); a << "!.*:.*"; break; }
	case 5: { hown = "assign"; hogl::mask a; for (auto &e : ex) a << e.text; m.reset(new hogl::mask("A:B", "!.*", (char *) 0)); *m = a; if (g.chance(50)) *m = *m; a << "x"; break; }
	case 6: { hown = "print-read"; hogl::mask a; for (auto &e : ex) a << e.text; std::ostringstream o; if (g.chance(50)) o << a; else a >> o; std::istringstream is(o.str()); m.reset(new hogl::mask()); is >> *m; break; }
	case 7: hown = "clear"; m.reset(new hogl::mask("!.*:.*", ".*:A.*", (char *) 0)); m->clear(); for (auto &e : ex) *m << e.text; break;
	case 8: { hown = "mixed"; m.reset(new hogl::mask()); for (unsigned i = 0; i < ne; i++) { if (i & 1) m->add(ex[i].text); else *m << ex[i].text; if (g.chance(30)) { hogl::mask t(*m); *m = t; } } break; }
	}
	stat(std::string("built_") + hown);
	// malformed additions must be refused and change nothing
	for (unsigned i = g.below(3); i; i--) {
		std::string b = g.pick(bad);
		switch (g.below(4)) { case 0: if (b.find(':') == b.npos) break; /* fallthrough */ case 1: b = "A:" + b; break; case 2: if (b.find(':') == b.npos) b = b + ":A"; else b = ":" + b; break; case 3: b = "!A:" + b; break; }
		bool thrown = false;
		try { if (g.chance(50)) *m << b; else m->add(b); } catch (const std::exception &) { thrown = true; }
		if (!thrown) viol("malformed-accepted", "malformed expression '%s' accepted", b.c_str());
		stat("malformed");
	}
	std::ostringstream o; o << *m; std::string want; for (auto &e : ex) want += e.text + "\n";
	if (o.str() != want) viol("print", "mask built by %s prints '%s', '%s' expected", hown, o.str().c_str(), want.c_str());
	unsigned rounds = g.range(1, 2), on = 0, changed = 0;
	for (unsigned rd = 0; rd < rounds; rd++) {
		for (Area &a : as) {
			std::vector<bool> before = a.st;
			if (g.chance(50)) m->apply(*a.a); else m->apply(a.a);
			apply_model(ex, a);
			for (size_t j = 0; j < a.sec.size(); j++) {
				if (a.a->test(j) != a.st[j])
					viol(a.st[j] != before[j] ? "not-applied" : "wrongly-applied", "mask {%s} (%s) on area '%s' section %zu '%s' of %zu: %s, expected %s, before %s", all.c_str(), hown, a.name.c_str(), j, a.sec[j].c_str(), a.sec.size(), a.a->test(j) ? "enabled" : "disabled", a.st[j] ? "enabled" : "disabled", before[j] ? "enabled" : "disabled");
				on += a.st[j]; changed += a.st[j] != before[j]; eval();
			}
		}
		if (rd == 0 && g.chance(50)) for (Area &a : as) for (size_t j = 0; j < a.sec.size(); j++) if (g.chance(30)) { a.a->set(j, !a.st[j]); a.st[j] = !a.st[j]; }
	}
	// the printed area is a mask that recreates its state (names without special characters)
	for (Area &a : as) {
		bool plain = !a.sec.empty() && a.name.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcd0123456789_-") == a.name.npos && !a.name.empty();
		for (auto &s : a.sec) if (s.empty() || s.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcd0123456789_-") != s.npos) plain = false;
		std::map<std::string, bool> uniq; for (size_t j = 0; j < a.sec.size(); j++) { if (uniq.count(a.sec[j]) && uniq[a.sec[j]] != a.st[j]) plain = false; uniq[a.sec[j]] = a.st[j]; }
		if (!plain) continue;
		std::ostringstream ao; ao << *a.a; std::istringstream ai(ao.str()); hogl::mask am; ai >> am;
		for (size_t j = 0; j < a.sec.size(); j++) a.a->set(j, g.chance(50));
		am.apply(a.a);
		for (size_t j = 0; j < a.sec.size(); j++) if (a.a->test(j) != a.st[j]) viol("area-print", "printing area '%s' and reading it back changes section '%s'", a.name.c_str(), a.sec[j].c_str());
		stat("area_roundtrips");
	}
	stat("masks"); stat("sections_changed", changed);
	distinct(mix(hash_str(all), mix(on, changed)));
	sample("mask {%s} built by %s over %zu areas: %u sections on, %u changed", all.c_str(), hown, as.size(), on, changed);
	for (Area &a : as) delete a.a;
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), n = argn(argc, argv, 2, 100);
	wd().start();
	rule("evaluation: one section's state after applying a mask compared with an independent matcher of the expression trees. distinct: expression lists with their effect");
	for (uint64_t i = 0; i < n && !violated(); i++) one_case(mix(seed, i));
	return finish();
}
