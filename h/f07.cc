// F07: hogl-recover on core dumps of this very program.
#define VH_MAIN
#include "rawgen.hpp"
#include "proc.hpp"
#include <hogl/platform.hpp>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <dirent.h>
#include <sstream>
using namespace vh;

static const char *const sects_ro[] = { "RO-ONE", "ro.two", "three of them", 0 };
static bool g_gcore;       // core files are not written here: have gdb write them

// ---------------------------------------------------------------- the one that dies
// What it leaves for the parent to compare with
struct model {
	struct rec { uint64_t ts; std::string text, plug; };
	std::vector<rec> pending;                 // in rings, of all rings
	std::string out_text, out_file, bad, gone; // what went to the output so far
	std::string ring_list, area_list;         // rings and areas with pending records, as printed before dying
	bool has_out = false; unsigned rings = 0;
};
static void put(std::string &o, uint64_t v) { o.append((char *) &v, 8); }
static void put(std::string &o, const std::string &s) { put(o, (uint64_t) s.size()); o += s; }
static uint64_t getn(const std::string &s, size_t &p) { uint64_t v = 0; if (p + 8 > s.size()) harness_error("model file"); memcpy(&v, &s[p], 8); p += 8; return v; }
static std::string gets(const std::string &s, size_t &p) { uint64_t n = getn(s, p); if (p + n > s.size()) harness_error("model file"); p += n; return s.substr(p - n, n); }
static void save(const model &m)
{
	std::string o; put(o, m.pending.size());
	for (auto &r : m.pending) { put(o, r.ts); put(o, r.text); put(o, r.plug); }
	put(o, m.out_text); put(o, m.out_file); put(o, m.bad); put(o, m.gone); put(o, m.ring_list); put(o, m.area_list); put(o, (uint64_t) m.has_out); put(o, (uint64_t) m.rings);
	put(o, 0x600dULL);
	spill("model", o);
}
static model load()
{
	std::string s = slurp("model"); size_t p = 0; model m; if (s.empty()) harness_error("no model file");
	uint64_t n = getn(s, p);
	for (uint64_t i = 0; i < n; i++) { model::rec r; r.ts = getn(s, p); r.text = gets(s, p); r.plug = gets(s, p); m.pending.push_back(r); }
	m.out_text = gets(s, p); m.out_file = gets(s, p); m.bad = gets(s, p); m.gone = gets(s, p); m.ring_list = gets(s, p); m.area_list = gets(s, p); m.has_out = getn(s, p); m.rings = getn(s, p);
	if (getn(s, p) != 0x600d) harness_error("model file cut");
	return m;
}
[[noreturn]] static void die()
{
	if (g_gcore) { spill("ready", "1"); while (1) pause(); }
	abort();
}

enum { FIELDS_MASK = H_TIMESPEC | H_RING | H_SEQNUM | H_AREA | H_SECTION };
static std::string fields_of(uint64_t seed, unsigned &mask)
{
	rng g(mix(seed, 77)); mask = g.below(128) | H_TIMESPEC;
	if (g.chance(40)) mask = FIELDS_MASK;
	mask &= ~H_TIMEDELTA;
	return field_list(g, mask);
}

// An engine sets the timesource of its rings
static void adopt(const std::vector<RB *> &rings, hogl::timesource &ts)
{
	cap_format f; hogl::output_null out(f);
	hogl::engine::options eo = engine_opts::make(64, 20, 0, &ts); eo.default_mask = hogl::mask("!HOGL:.*", 0);
	hogl::engine e(out, eo);
	for (RB *r : rings) e.add_ring(r);
}

struct pend { uint64_t ts; std::string text, plug; unsigned area; };

// How a loaded format shows the record, up to the first binary data
static std::string plug_line(uint64_t ts, uint64_t seq, const std::string &ring, const std::string &area, const std::string &sect, const std::vector<Val> &v, const std::vector<CArg> &c)
{
	std::string s = sf("<plug> %llu %llu ", (unsigned long long) ts, (unsigned long long) seq) + ring + "|" + area + "|" + sect;
	for (size_t j = 0; j < v.size(); j++) {
		if (v[j].type == CSTR || v[j].type == GSTR) { std::string x = str_of(v[j], c[j]); s += " s"; plug_format::put(s, x.data(), x.size()); }
		else if (v[j].type == XDUMP || v[j].type == RAW) return s;
		else if (v[j].type == U32 || v[j].type == I32) s += sf(" %u=%x", (unsigned) v[j].type, (unsigned) c[j].v);
		else s += sf(" %u=%llx", (unsigned) v[j].type, (unsigned long long) c[j].v);
	}
	return s + "\n";
}

// Some dumps are to hold what is needed from the executable file, too
static bool verbose_of(uint64_t seed) { return mix(seed, 31) % 6 == 0; }

// A prepared state, everything at rest when the process dies
[[noreturn]] static void victim(uint64_t seed)
{
	if (verbose_of(seed) && !hogl::platform::enable_verbose_coredump()) { spill("quiet", "1"); }
	rng g(seed); model m; unsigned fm; fields_of(seed, fm);
	unsigned mode = g.below(4);       // 0 no engine, 1 stalled engine, 2 engine come and gone, 3 engine stalled with lots waiting
	hogl::timesource ts("vh", chosen_cb);
	hogl::format_basic fb("fast1"); cap_format f; std::atomic<uint64_t> seen{0}; std::string delivered;
	const hogl::area *internal = 0;
	std::vector<std::string> expect_out;
	f.on = [&](const hogl::format::data &, const hogl::record &r) { if (r.area != internal) seen++; };
	f.text = [&](hogl::ostrbuf &sb, const hogl::format::data &d) { std::string s = sf("text %llu of %s\n", (unsigned long long) d.record->seqnum, d.ring_name); sb.push_back(s); m.out_text += s; };
	std::unique_ptr<hogl::output> out; hogl::engine *e = 0;
	unsigned ocap = g.chance(50) ? g.range(64, 1000) : 8192;
	if (mode) {
		if (g.chance(30)) out.reset(new hogl::output_null(f));
		else { m.has_out = true; out.reset(new hogl::output_plainfile("out.txt", f, ocap)); }
		hogl::engine::options eo = engine_opts::make(g.pick((const unsigned[]) { 16, 64, 4096 }), 20, g.chance(30) ? (unsigned) hogl::engine::DISABLE_TSO : 0, &ts);
		eo.default_mask = hogl::mask("!HOGL:.*", 0);
		e = new hogl::engine(*out, eo);
		internal = e->internal_area();
	}
	unsigned nr = g.range(1, 6), na = g.range(1, 3);
	std::vector<hogl::area *> areas; std::vector<std::vector<std::string>> sn; std::vector<std::string> an;
	for (unsigned i = 0; i < na; i++) {
		std::vector<std::string> s; unsigned k = g.below(3); std::string name = sf("%u", i) + rnd_name(g, 'A');
		static std::vector<const char *> *keep[8]; keep[i] = new std::vector<const char *>;
		if (k == 0) s = { "INFO", "WARN", "ERROR", "FATAL", "DEBUG", "TRACE" };
		else if (k == 1) s = { sects_ro[0], sects_ro[1], sects_ro[2] };
		else { unsigned c = g.range(1, 40); for (unsigned j = 0; j < c; j++) s.push_back(sf("s%u", j) + rnd_name(g, 'S')); }
		const char *const *sp = 0;
		if (k == 1) sp = sects_ro;
		else if (k == 2) { for (auto &x : s) keep[i]->push_back(strdup(x.c_str())); keep[i]->push_back(0); sp = keep[i]->data(); }
		hogl::area *a;
		if (e && mode != 2) a = k ? e->add_area(name.c_str(), (const char **) sp) : e->add_area(name.c_str()); else a = k ? new hogl::area(name.c_str(), (const char **) sp) : new hogl::area(name.c_str());
		a->enable(); areas.push_back(a); an.push_back(name); sn.push_back(s);
	}
	std::vector<RB *> rings; std::vector<bool> blocking; std::vector<std::vector<pend>> posted(nr); std::vector<uint64_t> total(nr);
	for (unsigned i = 0; i < nr; i++) {
		RB::options ro = { (unsigned) (2 << g.below(g.chance(10) ? 12 : 6)), g.chance(30) ? g.pick((const unsigned[]) { 0, 1, hogl::ringbuf::PRIORITY_CEILING - 1, hogl::ringbuf::PRIORITY_CEILING, hogl::ringbuf::PRIORITY_CEILING + 1, 0x7fffffffu }) : (unsigned) g.below(hogl::ringbuf::PRIORITY_CEILING + 1), (unsigned) (RB::IMMORTAL | (g.chance(30) ? RB::SHARED : 0) | (g.chance(20) ? RB::BLOCKING : 0)), (unsigned) g.below(g.chance(20) ? 3000 : 300) };
		// records up to the largest size
		if (g.chance(4)) { ro.capacity = 4; ro.record_tailroom = g.chance(50) ? g.range(3000, 200000) : (1024 * 1024 - sizeof(hogl::record) - g.below(100)); }
		std::string n = sf("%u", i) + rnd_name(g, 'R');
		RB *r = new RB(n.c_str(), ro); if (mode) r->hold(); blocking.push_back(ro.flags & RB::BLOCKING);      // one that outlives an engine has no owner
		if (e && !e->add_ring(r)) m.bad += "add_ring refused; ";
		rings.push_back(r);
	}
	if (!e) adopt(rings, ts);
	uint64_t t = g.chance(20) ? 5 : 1500000000000000000ull + g.next() % 1000000000000ull, posts = 0; std::vector<uint64_t> last(nr);
	// stamps: unique between rings, equal ones within a ring
	auto post1 = [&](unsigned i) {
		RB *r = rings[i];
		if (g.chance(90) || !last[i] || last[i] != t) t += 1 + g.below(1ull << g.below(36));
		last[i] = t; next_stamp() = t;
		unsigned ai = g.below(na), si = g.below(sn[ai].size());
		std::vector<Val> v; std::string txt; bool fmtrec = false; unsigned tail = r->record_tailroom();
		if (g.chance(35)) { rnd_format(g, v, txt); fmtrec = true; }
		else { unsigned k = g.chance(10) ? 16 : g.below(7); for (unsigned j = 0; j < k; j++) v.push_back(rnd_arg(g, 2000, 40)); if (is_fmt_record(v)) { Val x; x.type = U32; x.v = 3; v[0] = x; } }
		std::vector<CArg> c = expect_args(v, tail);
		if (fmtrec) { for (size_t j = 0; j < v.size(); j++) if (v[j].type == CSTR && c[j].d != v[j].s) fmtrec = false; if (!fmtrec) { v.assign(1, Val()); v[0].type = U64; v[0].v = g.next(); c = expect_args(v, tail); } }
		if (!fmtrec) txt = plain_text(v, c, [](unsigned) { return (const void *) 0x1000; });
		uint64_t seq = r->seqnum(), dc = r->dropcnt(); unsigned full = !r->room();
		if (full && blocking[i]) return;      // would wait
		Args a(v); hogl::post_unlocked(r, areas[ai], si, VH_A16(a.a));
		if (r->dropcnt() != dc) return;
		posts++; total[i]++;
		posted[i].push_back({ t, header_text(fm, t, 0, std::string(r->name()), seq, an[ai], sn[ai][si]) + txt, plug_line(t, seq, std::string(r->name()), an[ai], sn[ai][si], v, c), ai });
	};
	auto settle = [&] { for (unsigned i = 0; i < 20000 && seen.load() < posts; i++) usleep(100); if (seen.load() != posts) m.bad += "not delivered; "; for (RB *r : rings) for (unsigned i = 0; i < 20000 && !r->empty(); i++) usleep(100); };
	if (e) {
		unsigned n = g.below(40);
		for (unsigned i = 0; i < n; i++) { post1(g.below(nr)); if (g.chance(30)) settle(); }
		settle();
		if (g.chance(60)) { // something in the output buffer: the engine stops after a few records of a batch
			f.gate.close(); f.use_gate = true;
			post1(0); for (unsigned i = 0; i < 20000 && !f.gate.blocked(); i++) usleep(100);
		}
	}
	// what is still to come
	unsigned n = g.chance(10) ? 0 : g.chance(30) ? g.range(1, 400) : g.range(1, 60);
	bool gated = e && f.use_gate;
	if (mode == 2 && e) { f.gate.open(); settle(); for (RB *r : rings) r->release(); delete e; e = 0; out.reset(); }
	else if (e && !gated) { f.gate.close(); f.use_gate = true; post1(g.below(nr)); for (unsigned i = 0; i < 20000 && !f.gate.blocked(); i++) usleep(100); }
	for (unsigned i = 0; i < n; i++) post1(g.chance(50) ? 0 : g.below(nr));
	if (e && g.chance(60)) {       // let the engine take a part of it
		uint64_t s0 = seen.load(); unsigned skip = g.below(30);
		f.gate.m.lock(); uint64_t p0 = f.gate.passed; f.gate.m.unlock();
		for (unsigned k = 0; k < skip && seen.load() < posts - 1; k++) {
			// one at a time: open until the next one is inside
			std::unique_lock<std::mutex> l(f.gate.m);
			uint64_t want = ++p0; (void) want;
			f.gate.closed = false; f.gate.cv.notify_all();
			while (f.gate.inside) { l.unlock(); sched_yield(); l.lock(); if (!f.gate.inside) break; if (f.gate.closed) break; }
			f.gate.closed = true;
			l.unlock();
			for (unsigned i = 0; i < 20000 && !f.gate.blocked() && seen.load() < posts; i++) usleep(100);
		}
		(void) s0;
		if (!f.gate.blocked()) for (unsigned i = 0; i < 3000 && !f.gate.blocked(); i++) usleep(100);
	}
	if (e && !f.gate.blocked()) settle();
	uint64_t und = posts - seen.load(), sz = 0; std::set<unsigned> with_pending;
	for (unsigned i = 0; i < nr; i++) {
		unsigned k = rings[i]->size(); sz += k;
		if (k > posted[i].size()) { m.bad += sf("ring %u holds %u of %zu; ", i, k, posted[i].size()); break; }
		for (size_t j = posted[i].size() - k; j < posted[i].size(); j++) m.pending.push_back({ posted[i][j].ts, posted[i][j].text, posted[i][j].plug }), with_pending.insert(posted[i][j].area);
	}
	if (und > sz) m.bad += sf("%llu records were not delivered, rings hold %llu; ", (unsigned long long) und, (unsigned long long) sz);
	if (m.has_out && e) m.out_file = slurp("out.txt"); else m.has_out = false;
	std::stable_sort(m.pending.begin(), m.pending.end(), [](const model::rec &a, const model::rec &b) { return a.ts < b.ts; });
	m.rings = nr;
	// lists: rings with their counters, areas with some sections switched off
	{
		std::ostringstream ro, ao;
		for (RB *r : rings) ro << *r;
		ro << *hogl::tls::ring();
		for (unsigned i = 0; i < na; i++) for (unsigned j = 0; j < sn[i].size(); j++) if (g.chance(30)) areas[i]->disable(j);
		for (unsigned i : with_pending) ao << *areas[i];
		m.ring_list = ro.str(); m.area_list = ao.str();
	}
	save(m);
	die();
}

// Threads posting while the process dies
struct shared { std::atomic<uint64_t> started[8], done[8], delivered[8]; std::atomic<uint64_t> up; };
[[noreturn]] static void victim_live(uint64_t seed, shared *sh)
{
	rng g(seed); unsigned nt = g.range(1, 6); bool eng = g.chance(60);
	hogl::timesource ts("vh", logical_cb);
	cap_format f; hogl::output_null out(f); hogl::engine *e = 0; const hogl::area *internal = 0;
	unsigned slow = g.below(3) ? g.below(60) : 0; rng eg(seed ^ 5);
	f.on = [&](const hogl::format::data &d, const hogl::record &r) {
		if (r.area == internal) return;
		unsigned i = r.get_arg_val64(0);
		if (slow && eg.below(100) < slow) usleep(eg.below(200));
		sh->delivered[i].store(r.get_arg_val64(1) + 1);
	};
	if (eng) {
		hogl::engine::options eo = engine_opts::make(g.pick((const unsigned[]) { 16, 64, 4096 }), 20, g.chance(30) ? (unsigned) hogl::engine::DISABLE_TSO : 0, &ts);
		eo.default_mask = hogl::mask("!HOGL:.*", 0);
		e = new hogl::engine(out, eo); internal = e->internal_area();
	}
	hogl::area *ar = new hogl::area("LIVE"); ar->enable();
	std::vector<std::thread> th; std::atomic<bool> go{false}; std::atomic<unsigned> full{0};
	for (unsigned i = 0; i < nt; i++) {
		RB::options ro = { (unsigned) (16 << g.below(8)), (unsigned) g.below(8), RB::IMMORTAL | (eng ? RB::BLOCKING : 0u), 0 };
		RB *r = new RB(sf("live%u", i).c_str(), ro); if (e) { r->hold(); e->add_ring(r); } else adopt({ r }, ts);
		uint64_t s = g.next();
		th.emplace_back([=, &go, &full] {
			rng t(s); prctl(PR_SET_NAME, "writer");
			while (!go) sched_yield();
			for (uint64_t k = 0;; k++) {
				if (!eng && !r->room()) { full++; while (1) pause(); }
				sh->started[i].store(k + 1);
				hogl::post_unlocked(r, ar, 0, (unsigned long) i, (unsigned long) k, "filler text of some length");
				sh->done[i].store(k + 1);
				sh->up++;
				if (t.chance(5)) usleep(t.below(50));
			}
		});
	}
	go = true;
	uint64_t stop = g.below(g.chance(50) ? 200 : 20000);
	for (unsigned i = 0; i < 100000 && sh->up.load() < stop && full.load() < nt; i++) usleep(g.below(30));
	die();
}

// ---------------------------------------------------------------- the parent
static std::string dir() { return scratch() + "/core-dir"; }
static void clean()
{
	DIR *d = opendir(dir().c_str()); if (!d) return;
	while (dirent *x = readdir(d)) if (x->d_name[0] != '.') unlink((dir() + "/" + x->d_name).c_str());
	closedir(d);
}
static std::string find_core()
{
	std::string c; DIR *d = opendir(dir().c_str());
	while (dirent *x = readdir(d)) if (!strncmp(x->d_name, "core", 4)) c = dir() + "/" + x->d_name;
	closedir(d); return c;
}
// Runs f in a child that is to die with a core file; returns its path
static std::string crash(std::function<void()> f)
{
	clean(); fflush(0);
	pid_t pid = fork();
	if (!pid) {
		if (chdir(dir().c_str())) _exit(126);
		rlimit rl = { RLIM_INFINITY, RLIM_INFINITY }; if (setrlimit(RLIMIT_CORE, &rl)) { getrlimit(RLIMIT_CORE, &rl); rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_CORE, &rl); }
		prctl(PR_SET_DUMPABLE, 1);
		f(); _exit(125);
	}
	int st = 0;
	if (g_gcore) {
		for (unsigned i = 0; i < 600000 && access((dir() + "/ready").c_str(), F_OK); i++) { if (waitpid(pid, &st, WNOHANG) == pid) return ""; usleep(100); }
		proc_result r = run_tool({ "/usr/bin/gcore", "-o", dir() + "/core", sf("%d", (int) pid) });
		kill(pid, SIGKILL); waitpid(pid, &st, 0);
		return find_core();
	}
	for (unsigned i = 0; waitpid(pid, &st, WNOHANG) != pid; i++) { if (i > 1200000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); harness_error("the victim does not die"); } usleep(100); }
	if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT) harness_error("the victim ended otherwise: %x", st);
	return find_core();
}
static std::string self()
{
	static char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); if (n < 0) harness_error("exe"); b[n] = 0; return b;
}
static bool g_alone;       // without the executable file
static proc_result recover(const std::string &core, std::vector<std::string> opts)
{
	std::vector<std::string> av = { tool("recover") }; for (auto &o : opts) av.push_back(o);
	av.push_back(core); if (!g_alone) av.push_back(self());
	proc_result r = run_tool(av); check_tool("recover", r);
	if (!violated() && r.code() != 0) viol("recover-exit", "hogl-recover ends with %s: %s", r.how().c_str(), esc(r.err, 300).c_str());
	return r;
}
static const char rechead[] = "#### #### #### ####\nDumping records from ring buffers:\n", rectail[] = "#### #### #### ####\n\n";
static bool records(const std::string &out, std::string &recs, std::string &bufs)
{
	size_t p = out.find(rechead), n = out.size();
	if (p == out.npos) { viol("no-records-part", "output of hogl-recover: %s", esc(out, 300).c_str()); return false; }
	bufs = out.substr(0, p); p += sizeof rechead - 1;
	if (n < p + sizeof rectail - 1 || out.compare(n - (sizeof rectail - 1), sizeof rectail - 1, rectail)) { viol("no-records-end", "output of hogl-recover ends with: %s", esc(out.substr(n > 200 ? n - 200 : 0), 300).c_str()); return false; }
	recs = out.substr(p, n - p - (sizeof rectail - 1)); return true;
}

static void one(uint64_t seed)
{
	std::string core = crash([&] { victim(seed); });
	if (core.empty()) harness_error("no core file");
	if (chdir(dir().c_str())) harness_error("chdir");
	model m = load();
	if (!m.bad.empty()) { viol("victim", "%s", m.bad.c_str()); return; }
	if (getenv("VH_KEEP")) { if (system(sf("cp %s %s/core.kept", core.c_str(), getenv("VH_KEEP")).c_str())) {} }
	g_alone = verbose_of(seed) && access("quiet", F_OK); if (g_alone) stat("cores_without_executable");
	unsigned fm; std::string fields = fields_of(seed, fm), recs, bufs;
	proc_result r = recover(core, { "-f", fields }); tick();
	if (violated() || !records(r.out, recs, bufs)) return;
	std::string want; for (auto &x : m.pending) want += x.text;
	std::string a = mask(recs), b = mask(want);
	if (a != b) {
		size_t p = 0; while (p < a.size() && p < b.size() && a[p] == b[p]) p++;
		size_t q = p > 60 ? p - 60 : 0;
		viol("records", "%zu pending records of %u rings: text (%zu bytes) differs at %zu of %zu: '%s' instead of '%s'", m.pending.size(), m.rings, a.size(), p, b.size(), esc(a.substr(q, 160)).c_str(), esc(b.substr(q, 160)).c_str());
		return;
	}
	if (m.has_out) {
		size_t p = bufs.find("Dumping output buffer: capacity "), e = p == bufs.npos ? p : bufs.find('\n', p);
		if (e == bufs.npos) { viol("no-buffer", "%zu bytes of text went to the output, %zu are in the file, no buffer is shown: '%s'", m.out_text.size(), m.out_file.size(), esc(bufs, 200).c_str()); return; }
		std::string rest = bufs.substr(e + 1); size_t z = rest.find("#### #### #### ####\n"); rest.resize(z == rest.npos ? rest.size() : z);
		if (m.out_file + rest != m.out_text) { viol("buffer", "%zu bytes of text went to the output, %zu are in the file, %zu are shown: '%s'", m.out_text.size(), m.out_file.size(), rest.size(), esc(rest, 300).c_str()); return; }
		if (!rest.empty()) stat("buffered_bytes", rest.size());
		if (bufs.find("Dumping output buffer", e) != bufs.npos) viol("buffer-twice", "%s", esc(bufs, 400).c_str());
	}
	// everything
	rng g(mix(seed, 5));
	if (g.chance(50)) {
		r = recover(core, { "-a", "-f", fields });
		if (violated() || !records(r.out, recs, bufs)) return;
		a = mask(recs);
		std::map<std::string, unsigned> mult; for (auto &x : m.pending) mult[mask(x.text)]++;
		size_t from = 0; std::string prev;
		for (auto &x : m.pending) { // in this order, other records between
			std::string t = mask(x.text); size_t p = a.find(t, from);
			if (p == a.npos) { viol("all", "--all shows no '%s' at its place (%zu pending)", esc(t, 200).c_str(), m.pending.size()); return; }
			from = p + t.size();
		}
		stat("all_runs");
	}
	if (g.chance(25)) {
		r = recover(core, { g.chance(50) ? "-p" : "--plugin", tool("plugin"), "-f", "plug" });
		if (violated() || !records(r.out, recs, bufs)) return;
		size_t p = 0; unsigned k = 0;
		for (auto &x : m.pending) {
			if (recs.compare(p, x.plug.size(), x.plug)) { viol("plugin", "record %u of %zu: the loaded format shows '%s' instead of '%s'", k, m.pending.size(), esc(recs.substr(p, 200)).c_str(), esc(x.plug, 200).c_str()); return; }
			p = recs.find('\n', p); p = p == recs.npos ? recs.size() : p + 1; k++;
		}
		if (p != recs.size()) viol("plugin", "more than %zu records for the loaded format: '%s'", m.pending.size(), esc(recs.substr(p), 200).c_str());
		stat("plugin_runs");
	}
	auto lines = [](const std::string &s) { std::vector<std::string> v; std::istringstream is(s); for (std::string l; std::getline(is, l); ) v.push_back(l); std::sort(v.begin(), v.end()); return v; };
	for (unsigned k = 0; k < 2; k++) {
		if (!g.chance(25)) continue;
		r = recover(core, { k ? g.chance(50) ? "-A" : "--dump-areas" : g.chance(50) ? "-R" : "--dump-rings" });
		if (violated()) return;
		std::vector<std::string> got = lines(r.out), exp = lines(k ? m.area_list : m.ring_list);
		if (got != exp) {
			std::vector<std::string> x, y; std::set_difference(got.begin(), got.end(), exp.begin(), exp.end(), std::back_inserter(x)); std::set_difference(exp.begin(), exp.end(), got.begin(), got.end(), std::back_inserter(y));
			viol(k ? "area-list" : "ring-list", "list of %zu lines, %zu expected: too much '%s', missing '%s'", got.size(), exp.size(), x.empty() ? "" : esc(x[0], 200).c_str(), y.empty() ? "" : esc(y[0], 200).c_str()); return;
		}
		stat(k ? "area_lists" : "ring_lists");
	}
	eval(); stat("pending_records", m.pending.size()); stat("cores"); distinct(hash_str(want, mix(m.out_text.size(), m.rings)));
}

static void live(uint64_t seed, shared *sh)
{
	memset((void *) sh, 0, sizeof *sh); g_alone = false;
	std::string core = crash([&] { victim_live(seed, sh); });
	if (core.empty()) harness_error("no core file");
	std::string recs, bufs; uint64_t sn = 0;
	proc_result r = recover(core, { "-f", "timespec,ring" }); tick();
	if (violated() || !records(r.out, recs, bufs)) return;
	uint64_t first[8], next[8], last[8] = { 0 }; for (unsigned i = 0; i < 8; i++) first[i] = ~0ull, next[i] = 0;
	std::string prev; size_t p = 0; uint64_t n = 0;
	while (p < recs.size()) {
		size_t e = recs.find('\n', p); if (e == recs.npos) e = recs.size();
		std::string l = recs.substr(p, e - p); p = e + 1;
		unsigned long long s, ns, i2, i, k; char tail[64] = "";
		if (sscanf(l.c_str(), "%llu.%llu live%llu %llu %llu %60[^\n]", &s, &ns, &i2, &i, &k, tail) != 6 || i != i2 || i >= 8 || strcmp(tail, "filler text of some length")) { viol("live-line", "not a record that was posted: %s", esc(l, 200).c_str()); return; }
		std::string stamp = l.substr(0, 21); if (stamp < prev) { viol("live-order", "%s after %s", stamp.c_str(), prev.c_str()); return; }
		prev = stamp;
		if (first[i] == ~0ull) first[i] = k; else if (k != next[i]) { viol("live-gap", "ring %llu: record %llu after %llu", i, k, (unsigned long long) next[i] - 1); return; }
		next[i] = k + 1; n++;
	}
	for (unsigned i = 0; i < 8; i++) {
		uint64_t st = sh->started[i], d = sh->done[i], del = sh->delivered[i], f = first[i] == ~0ull ? d : first[i], l = first[i] == ~0ull ? d : next[i];
		sn += d;
		if (f > del && d > del) viol("live-lost", "ring %u: %llu records posted, %llu delivered, recovered %llu..%llu", i, (unsigned long long) d, (unsigned long long) del, (unsigned long long) f, (unsigned long long) l);
		if (first[i] != ~0ull && (l < d || l > st)) viol("live-end", "ring %u: %llu records posted, %llu started, recovered up to %llu", i, (unsigned long long) d, (unsigned long long) st, (unsigned long long) l);
	}
	eval(); stat("live_cores"); stat("live_posted", sn); stat("live_recovered", n); distinct(hash_str(recs, sn));
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), n = argn(argc, argv, 2, 10), m = argn(argc, argv, 3, 10);
	rule("evaluation: one process that died with records in its rings. distinct: the pending records and the buffered text");
	mkdir(dir().c_str(), 0755);
	if (crash([] { abort(); }).empty()) { g_gcore = true; stat("cores_by_gdb"); }
	shared *sh = (shared *) mmap(0, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (uint64_t i = 0; i < n && !violated(); i++) one(mix(seed, i));
	for (uint64_t i = 0; i < m && !violated(); i++) live(mix(seed + 1, i), sh);
	clean(); if (chdir("/")) {} rmdir(dir().c_str());
	sample("aborted with 1 to 6 rings of all kinds, records of all argument types, a stalled or vanished engine, text in an output buffer; aborted while threads post");
	return finish();
}
