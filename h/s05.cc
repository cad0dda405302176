// S05: everything the C API offers, done once through C and once through C++, has the same observable result.
#define VH_MAIN
#define S05_NOCODE
#include "cap.hpp"
#include <hogl/format-basic.hpp>
#include <hogl/output-file.hpp>
#include <hogl/output-stdout.hpp>
#include <hogl/output-stderr.hpp>
#include <hogl/output-pipe.hpp>
#include <hogl/detail/schedparam.hpp>
#include <hogl/c-api/area.h>
#include <hogl/c-api/post.h>
#include <hogl/c-api/format.h>
#include <hogl/c-api/output.h>
#include <hogl/c-api/engine.h>
#include <hogl/c-api/mask.h>
#include <hogl/c-api/tls.h>
#include "s05.h"
#include "s05calls.inc"
#include <sched.h>
#include <signal.h>
#include <sys/uio.h>
#include <dirent.h>
using namespace vh;

// ---------------------------------------------------------------- what threads ask for, and what files are written with
static std::mutex rm_; static std::vector<std::string> reqs; static std::atomic<bool> sizes_on{false}; static std::string sizes;
static void req(const std::string &s) { std::lock_guard<std::mutex> l(rm_); reqs.push_back(s); }
static int aff(size_t n, const cpu_set_t *c) { std::string s = "cpus"; for (size_t i = 0; i < n * 8; i++) if (CPU_ISSET_S(i, n, c)) s += sf(" %zu", i); req(s); return 0; }
extern "C" int pthread_setaffinity_np(pthread_t, size_t n, const cpu_set_t *c) { return aff(n, c); }
extern "C" int sched_setaffinity(pid_t, size_t n, const cpu_set_t *c) { return aff(n, c); }
extern "C" int pthread_setschedparam(pthread_t, int pol, const struct sched_param *sp) { req(sf("policy %d priority %d", pol, sp->sched_priority)); return 0; }
static void wrote(int fd, size_t n) { if (sizes_on && fd > 2 && n) { struct stat st; if (!fstat(fd, &st) && (S_ISREG(st.st_mode) || S_ISFIFO(st.st_mode))) { std::lock_guard<std::mutex> l(rm_); sizes += sf(" %zu", n); } } }
#if defined(VH_INTERPOSE)
extern "C" ssize_t write(int fd, const void *p, size_t n) { wrote(fd, n); return syscall(SYS_write, fd, p, n); }
extern "C" ssize_t writev(int fd, const struct iovec *v, int c) { size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len; wrote(fd, n); return syscall(SYS_writev, fd, v, c); }
#endif

// ---------------------------------------------------------------- posts
static int target; static int *const ptrs[] = { &target, 0 };
struct Values {
	// the same addresses every time: some of them are posted
	static char fmtb[64], csb[256], msb[64]; static char store[sizeof(s05_vals)]; s05_vals &v;
	static s05_vals init(rng &g) { s05_vals x = { false, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, { 0 }, 0, { 0 }, (int) num(g), (unsigned) num(g), dbl(g), (long long) num(g), 0, 0 }; return x; }
	static uint64_t num(rng &g) { switch (g.below(5)) { case 0: return g.below(10); case 1: return 0 - g.below(10); case 2: return 1ull << g.below(64); case 3: return (1ull << g.below(64)) - 1; default: return g.next(); } }
	static double dbl(rng &g) { switch (g.below(4)) { case 0: return (double) g.range(-1000, 1000) / 8; case 1: return 0; case 2: return -1e300 * (double) g.range(1, 9); default: { double d; uint64_t x = g.next(); memcpy(&d, &x, 8); return d == d ? d : 1.5; } } }
	explicit Values(rng &g) : v(*new (store) s05_vals(init(g)))
	{
		std::string fmt, cs, ms;
		fmt = g.pick((const char *const[]) { "%d %d %d", "x", "%s and %s", "%u%% %x %p %s %s %d", "%f|%f|%g", "%llu %lld %i %c", "", "no conversions here", "%1$s", "%5.3d %-8s" });
		cs = rnd_str(g, g.chance(10) ? 150 : g.below(12) + 3); ms = rnd_str(g, g.below(20)); for (char &x : cs) if (x == '%') x = '_';
		v.b = g.chance(50); v.c = (char) num(g); v.sc = (signed char) num(g); v.uc = (unsigned char) num(g); v.s = (short) num(g); v.us = (unsigned short) num(g); v.i = (int) num(g); if (v.i == INT32_MAX || v.i == INT32_MIN) v.i = 5;
		v.u = (unsigned) num(g); v.l = (long) num(g); v.ul = num(g); v.ll = (long long) num(g); v.ull = num(g); v.f = (float) g.range(-100000, 100000) / 16; v.d = dbl(g); if (v.d > 1e300 || v.d < -1e299) v.d = -1e200;
		v.p = g.chance(20) ? 0 : &target; v.cp = g.chance(20) ? 0 : (const char *) &target + 1; v.ip = &target; v.cip = ptrs[g.below(2)]; v.vp = ptrs[g.below(2)]; v.ucp = (unsigned char *) (num(g) >> 17);
		v.i8 = (int8_t) num(g); v.u8 = (uint8_t) num(g); v.i16 = (int16_t) num(g); v.u16 = (uint16_t) num(g); v.i32 = (int32_t) num(g); v.u32 = (uint32_t) num(g); v.i64 = (int64_t) num(g); v.u64 = num(g); v.sz = num(g);
		strcpy(csb, cs.c_str()); strcpy(msb, ms.c_str()); set_fmt(fmt); v.cs = csb; v.ms = msb; snprintf(v.arr, sizeof v.arr, "arr %u", (unsigned) g.below(1000)); snprintf((char *) v.uarr, sizeof v.uarr, "uarr %u", (unsigned) g.below(1000)); v.nul = 0; v.n = g.below(5);
	}
	void set_fmt(const std::string &f) { strcpy(fmtb, f.c_str()); v.fmt = fmtb; }
};
char Values::fmtb[64], Values::csb[256], Values::msb[64]; alignas(16) char Values::store[sizeof(s05_vals)];

struct Rec { std::string area; unsigned sect; std::string ring, text; std::vector<CArg> a; };
struct rec_format : public hogl::format_basic {
	std::mutex m; std::vector<Rec> recs; unsigned tail = 0; std::atomic<uint64_t> n{0};
	explicit rec_format(const char *f) : hogl::format_basic(f) {}
	virtual void process(hogl::ostrbuf &, const data &d)
	{
		mem_dest md; Rec r;
		{ mem_ostrbuf b(md, 4096); hogl::format_basic::process(b, d); b.flush(); }
		hogl::record &rec = *(hogl::record *) d.record;
		if (rec.special() || (strcmp(rec.area->name(), "ONE") && strcmp(rec.area->name(), "TWO"))) { tick(); return; }
		if (!rec.special()) { r.area = rec.area->name(); r.sect = rec.section; r.a = capture_args(rec, tail); }
		r.text = md.data; r.ring = d.ring_name ? d.ring_name : "";
		std::lock_guard<std::mutex> l(m); recs.push_back(r); n++; tick();
	}
};
static bool same(const CArg &a, const CArg &b) { return a.type == b.type && a.v == b.v && a.d == b.d; }

static void posts(uint64_t seed, uint64_t n)
{
	rng g(seed); phase("posts");
	while (n && !violated()) {
		rec_format f("area,section,ring"); hogl::output_null out(f);
		hogl::activate(out, engine_opts::make(g.chance(50) ? 64 : 0, 100, g.chance(50) ? hogl::engine::DISABLE_TSO : 0));
		const char *secs[] = { "S0", "S1", "S2", "S3", 0 };
		hogl::area *ar[2] = { hogl::add_area("ONE", secs), hogl::add_area("TWO", secs) };
		for (hogl::area *a : ar) a->set();
		unsigned batch = g.range(20, 80);
		{
			hogl::ringbuf::options ro = { 1024, 0, hogl::ringbuf::BLOCKING, 0 }; ro.record_tailroom = f.tail = g.chance(30) ? g.range(128, 200) : g.range(200, 600);
			hogl::tls t("R", ro);
			for (; batch && n && !violated(); batch--, n--) {
				Values x(g); unsigned which = g.chance(10) ? S05_CALLS_N - 1 - g.below(3) : g.below(S05_CALLS_N), sect = g.below(4); hogl::area *a = ar[g.below(2)]; bool on = !g.chance(5);
				if (!on) a->reset(sect);
				f.recs.clear(); uint64_t base = f.n;
				unsigned c0 = s05_post_c(a, sect, &x.v, which);
				unsigned c1 = s05_post_cpp(a, sect, &x.v, which);
				unsigned c2 = s05_post_macro(a, sect, &x.v, which);
				hogl_flush();
				if (!on) a->set(sect);
				std::lock_guard<std::mutex> l(f.m);
				eval();
				if (f.n - base != (on ? 3 : 0)) { viol("count", "call %u, section %s: %zu records of posts from C, C++ and the macro in C++", which, on ? "enabled" : "disabled", f.recs.size()); continue; }
				(void) c1;
				if (!on) { stat("disabled_posts"); continue; }
				// side effects in arguments of an enabled post happen once
				if (c0 != c1) viol("effects", "call %u: side effects of the arguments: counter %u from C, %u from C++ (from %u)", which, c0, c1, x.v.n);
				if (c2 != c1) viol("effects", "call %u: side effects of the arguments: counter %u from the macro in C++, %u from C++", which, c2, c1);
				for (unsigned k = 0; k < 3; k++) {
					if (k == 1) continue;
					const char *who = k ? "the macro in C++" : "C"; const Rec &r = f.recs[k], &w = f.recs[1];
					if (r.area != w.area || r.sect != w.sect || r.ring != w.ring) viol("where", "call %u: %s posts to %s:%u in ring %s, C++ to %s:%u in ring %s", which, who, r.area.c_str(), r.sect, r.ring.c_str(), w.area.c_str(), w.sect, w.ring.c_str());
					if (r.a.size() != w.a.size()) viol("args", "call %u: %s records %zu arguments, C++ %zu: %s / %s", which, who, r.a.size(), w.a.size(), show_args(r.a).c_str(), show_args(w.a).c_str());
					else for (unsigned j = 0; j < r.a.size(); j++) if (!same(r.a[j], w.a[j])) { viol("args", "call %u argument %u: %s records %s, C++ %s", which, j, who, show_args({ r.a[j] }).c_str(), show_args({ w.a[j] }).c_str()); break; }
					if (r.text != w.text) viol("text", "call %u: %s prints '%s', C++ '%s'", which, who, esc(r.text, 300).c_str(), esc(w.text, 300).c_str());
				}
				stat("posts", 3); stat("arguments", f.recs[1].a.size());
				for (auto &q : f.recs[1].a) stat(sf("type_%u", q.type));
				distinct(mix(which, hash_args(f.recs[1].a)));
				sample("call %u: %s", which, esc(f.recs[0].text, 120).c_str());
			}
		}
		hogl::deactivate();
	}
}

// ---------------------------------------------------------------- worlds
static const char *const affs[] = { 0, "", "list:0", "0x3", "list:1,3-4", "2" };
struct World {
	bool c; std::vector<std::string> t; std::string dir;
	void add(const std::string &s) { t.push_back(s); }

	void *fmt = 0; void *out = 0;
	void new_format(const char *f) { if (c) fmt = hogl_new_format_basic(f); else fmt = (hogl::format *) (f ? new hogl::format_basic(f) : new hogl::format_basic()); }
	static hogl::schedparam *sched(const s05_opts &o) { return new hogl::schedparam(o.policy, o.prio, hogl::schedparam::DELETE_ON_EXIT, o.aff ? o.aff : ""); }
	void new_output(unsigned kind, const s05_opts *o)
	{
		hogl::format &f = *(hogl::format *) fmt; std::string n = dir + "/log", cmd = "cat > '" + dir + "/piped'";
		if (c) switch (kind) {
			case 0: out = hogl_new_output_plainfile(n.c_str(), fmt); break;
			case 1: out = s05_file((n + ".#.txt").c_str(), fmt, o); break;
			case 2: out = hogl_new_output_pipe(cmd.c_str(), fmt); break;
			case 3: out = hogl_new_output_stdout(fmt); break;
			default: out = hogl_new_output_stderr(fmt);
		} else {
			hogl::output *x;
			switch (kind) {
			case 0: x = new hogl::output_plainfile(n, f); break;
			case 1: {
				hogl::output_file::options fo = hogl::output_file::default_options;
				if (o) { fo.perms = o->perms; fo.max_size = o->max_size; fo.max_count = o->max_count; fo.buffer_capacity = o->buffer; fo.schedparam = sched(*o); }
				x = new hogl::output_file(n + ".#.txt", f, fo); break; }
			case 2: x = new hogl::output_pipe(cmd, f); break;
			case 3: x = new hogl::output_stdout(f); break;
			default: x = new hogl::output_stderr(f);
			}
			out = x;
		}
	}
	void delete_output() { if (c) hogl_delete_output(out); else delete (hogl::output *) out; out = 0; }
	void delete_format() { if (c) hogl_delete_format(fmt); else delete (hogl::format *) fmt; fmt = 0; }
	void *new_mask(const std::vector<std::string> &s)
	{
		const char *p[4] = { 0 }; for (unsigned i = 0; i < s.size(); i++) p[i] = s[i].c_str();
		if (c) return s05_mask(s.size(), p);
		hogl::mask *m = new hogl::mask(); for (auto &x : s) *m << x.c_str(); return m;
	}
	void mask_add(void *m, const char *s) { if (c) hogl_mask_add(m, s); else *(hogl::mask *) m << s; }
	void mask_clear(void *m) { if (c) hogl_mask_clear(m); else ((hogl::mask *) m)->clear(); }
	void mask_apply(void *m) { if (c) hogl_apply_mask(m); else hogl::apply_mask(*(hogl::mask *) m); }
	void mask_delete(void *m) { if (c) hogl_delete_mask(m); else delete (hogl::mask *) m; }
	void activate(const s05_opts *o)
	{
		if (c) { s05_activate(out, o); return; }
		hogl::engine::options e(hogl::engine::default_options);
		if (o) { e.features = o->features ? hogl::engine::DISABLE_TSO : 0; if (o->mask) e.default_mask = *(hogl::mask *) o->mask; e.polling_interval_usec = o->poll; e.tso_buffer_capacity = o->tso; e.schedparam = sched(*o); }
		hogl::activate(*(hogl::output *) out, e);
	}
	void deactivate() { if (c) hogl_deactivate(); else hogl::deactivate(); }
	void *add_area(const char *n, const char **s) { return c ? (void *) hogl_add_area(n, s) : (void *) hogl::add_area(n, s); }
	void area_op(void *a, unsigned op, unsigned s)
	{
		hogl::area *x = (hogl::area *) a;
		switch (op) {
		case 0: c ? hogl_area_set(a, s) : x->set(s); break;
		case 1: c ? hogl_area_set_all(a) : x->set(); break;
		case 2: c ? hogl_area_reset(a, s) : x->reset(s); break;
		case 3: c ? hogl_area_reset_all(a) : x->reset(); break;
		}
	}
	bool test(void *a, unsigned s)
	{
		bool r = ((hogl::area *) a)->test(s);
		if (c) { bool q = hogl_area_test(a, s); if (q != r) viol("test", "hogl_area_test says %d, area::test %d", q, r); }
		return r;
	}
	void *new_tls(const char *n, const s05_opts &o)
	{
		if (c) return s05_tls(n, &o);
		hogl::ringbuf::options r = { o.cap, o.rprio, 0, 0 }; r.record_tailroom = o.tail ? o.tail : 80;
		return new hogl::tls(n, r);
	}
	void delete_tls(void *t) { if (c) hogl_delete_tls(t); else delete (hogl::tls *) t; }
	void flush() { if (c) hogl_flush(); else hogl::flush(); }
	void post(void *a, unsigned s, s05_vals *v, unsigned which) { if (c) s05_post_c(a, s, v, which); else s05_post_cpp(a, s, v, which); }
};

static std::string options_of_engine()
{
	const hogl::engine::options &o = hogl::default_engine->get_options();
	return sf("features %x poll %u tso %u sched %d", o.features, o.polling_interval_usec, o.tso_buffer_capacity, !!o.schedparam);
}
static std::string fdread(const std::string &p) { struct stat st; return stat(p.c_str(), &st) ? "(absent)" : sf("%o:", (unsigned) st.st_mode & 07777) + slurp(p); }
static std::string listing(const std::string &dir)
{
	std::vector<std::string> n; DIR *d = opendir(dir.c_str()); if (!d) return "";
	while (dirent *e = readdir(d)) if (e->d_name[0] != '.') { struct stat st; std::string p = dir + "/" + e->d_name; lstat(p.c_str(), &st); n.push_back(std::string(e->d_name) + (S_ISLNK(st.st_mode) ? "@" : sf(":%o", (unsigned) st.st_mode & 07777))); }
	closedir(d); std::sort(n.begin(), n.end()); std::string s; for (auto &x : n) s += x + " "; return s;
}
static void wipe(const std::string &dir)
{
	DIR *d = opendir(dir.c_str()); if (!d) return;
	while (dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlink((dir + "/" + e->d_name).c_str());
	closedir(d); rmdir(dir.c_str());
}
static std::string link_target(const std::string &dir) { char b[500]; ssize_t n = readlink((dir + "/log.txt").c_str(), b, sizeof b); if (n <= 0) return "(none)"; std::string s(b, n); size_t p = s.rfind('/'); return p == s.npos ? s : s.substr(p + 1); }
// numbers that depend on the time
static std::string without_time(std::string s, bool on)
{
	// so do the addresses of scopes in the library's own messages
	for (size_t p = 0; (p = s.find("tls 0x", p)) != s.npos; p += 4) { size_t e = p + 6; while (e < s.size() && isxdigit((unsigned char) s[e])) e++; s.erase(p + 4, e - p - 4); }
	// the default ring goes on counting from world to world
	for (size_t p = 0; (p = s.find("DEFAULT:", p)) != s.npos; p += 8) { size_t e = p + 8; while (e < s.size() && isdigit((unsigned char) s[e])) e++; s.erase(p + 8, e - p - 8); }
	if (!on) return s;
	std::string o; bool lead = true;
	for (char x : s) { if (x == '\n') lead = true; else if (x == ' ' || isalpha((unsigned char) x)) { if (isalpha((unsigned char) x)) lead = false; } if (!(lead && (isdigit((unsigned char) x) || x == '.' || x == '(' || x == ')' || x == ' '))) o += x; }
	return o;
}

static void world(uint64_t seed, World &w, uint64_t n)
{
	rng g(seed);
	mkdir(w.dir.c_str(), 0755);
	{ std::lock_guard<std::mutex> l(rm_); reqs.clear(); sizes.clear(); }
	static const char *const fields[] = { "area,section", "ring,area,section", "ring,seqnum,area,section", "timestamp,ring,seqnum,area,section", "section", 0 };
	const char *f = fields[g.below(6)]; bool timed = !f || strstr(f, "time");
	unsigned kind = g.below(5); s05_opts fo; memset(&fo, 0, sizeof fo); bool has_fo = g.chance(60);
	unsigned um = g.pick((const unsigned[]) { 022, 0, 077, 027 }); mode_t oldm = umask(um);
	fo.perms = g.pick((const unsigned[]) { 0644, 0600, 0666, 0640, 0400, 0755 }); fo.max_size = 1u << 30; fo.max_count = g.pick((const unsigned[]) { 2, 9, 10, 11, 100, 128, 1000, 4096 }); fo.buffer = g.pick((const unsigned[]) { 128, 500, 1000, 4096, 8192, 65536 });
	fo.policy = g.pick((const int[]) { SCHED_OTHER, SCHED_FIFO, SCHED_RR }); fo.prio = g.below(60); fo.aff = affs[g.below(6)];
	int so = -1, se = -1;
	if (kind >= 3) { fflush(0); int fd = open((w.dir + "/std").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); so = fcntl(1, F_DUPFD_CLOEXEC, 100); se = fcntl(2, F_DUPFD_CLOEXEC, 100); dup2(fd, kind == 3 ? 1 : 2); close(fd); }
	w.new_format(f); w.new_output(kind, has_fo ? &fo : 0);
	w.add(sf("format %s output %u", f ? f : "default", kind));
	s05_opts eo; memset(&eo, 0, sizeof eo); bool has_eo = g.chance(75); std::vector<void *> masks;
	static const char *const regs[] = { "A.*:.*", ".*:S1", "!.*:S0", "!A1:.*", "S2", "A[01]:S[12]", ".*:(INFO|WARN|ERROR)", "!TWO:.*", "S[0-9]" };
	auto rmask = [&] { std::vector<std::string> m; for (unsigned i = g.below(5); i--; ) m.push_back(regs[g.below(9)]); return m; };
	eo.features = g.below(2); eo.poll = g.pick((const unsigned[]) { 50, 200, 1000, 2500 }); eo.tso = g.pick((const unsigned[]) { 16, 64, 1000, 4096 }); eo.policy = SCHED_OTHER; eo.prio = g.below(9); eo.aff = affs[g.below(6)];
	if (g.chance(70)) { eo.mask = w.new_mask(rmask()); masks.push_back(eo.mask); }
	w.activate(has_eo ? &eo : 0);
	w.add(options_of_engine());
	std::vector<std::pair<std::string, void *>> areas; std::vector<unsigned> nsec; std::vector<void *> tls; std::vector<std::string> rings;
	static const char *const s3[] = { "S0", "S1", "S2", "S3", 0 }, *const s1[] = { "S1", 0 };
	auto observe = [&] {
		std::string s;
		for (unsigned i = 0; i < areas.size(); i++) { s += areas[i].first + "="; for (unsigned k = 0; k < nsec[i]; k++) s += w.test(areas[i].second, k) ? '1' : '0'; s += ' '; }
		w.add(s);
	};
	unsigned unflushed = 0, ntls = 0;
	for (uint64_t i = 0; i < n; i++) {
		tick(); unsigned k = g.below(100);
		if (k < 12) {
			std::string nm = sf("A%u", (unsigned) g.below(6)); unsigned q = g.below(3); const char **s = (const char **) (q == 0 ? s3 : q == 1 ? s1 : 0);
			void *a = w.add_area(nm.c_str(), s); unsigned at = areas.size();
			for (unsigned j = 0; j < areas.size(); j++) if (areas[j].second == a) at = j;
			w.add(sf("add %s %u: %s %u of %zu", nm.c_str(), q, a ? "ok" : "refused", at, areas.size()));
			if (a && at == areas.size()) { areas.push_back({ nm, a }); nsec.push_back(((hogl::area *) a)->count()); std::string l; for (unsigned j = 0; j < nsec.back(); j++) l += std::string(((hogl::area *) a)->section_name(j)) + " "; w.add(((hogl::area *) a)->name() + std::string(": ") + l); observe(); }
		} else if (k < 27) { if (areas.size()) { unsigned j = g.below(areas.size()); w.area_op(areas[j].second, g.below(g.chance(30) ? 4 : 3), g.below(nsec[j])); observe(); } }
		else if (k < 33) { auto m = rmask(); masks.push_back(w.new_mask(m)); w.mask_apply(masks.back()); observe(); }
		else if (k < 40) { if (masks.size()) { void *m = masks[g.below(masks.size())]; unsigned q = g.below(4); if (q == 0) w.mask_clear(m); else if (q < 3) w.mask_add(m, regs[g.below(9)]); w.mask_apply(m); observe(); } }
		else if (k < 45) {
			if (tls.size() < 3) {
				s05_opts o; memset(&o, 0, sizeof o); o.cap = g.range(16, 200); o.rprio = g.below(300); o.tail = g.chance(30) ? 0 : g.range(40, 300);
				// order between rings is not promised, neither is the moment an unused ring is gone
				w.flush(); unflushed = 0;
				bool dup = rings.size() && g.chance(15); std::string nm = dup ? rings[g.below(rings.size())] : sf("T%u", ntls++); tls.push_back(w.new_tls(nm.c_str(), o)); rings.push_back(nm); w.flush();
				hogl::ringbuf *r = hogl::tls::ring();
				w.add(sf("ring %s cap %u prio %u tail %u room %u shared %d", r->name(), r->capacity(), r->prio(), r->record_tailroom(), r->room(), r->shared()));
			}
		} else if (k < 50) { if (tls.size()) { w.flush(); unflushed = 0; w.delete_tls(tls.back()); tls.pop_back(); rings.pop_back(); w.flush(); w.add(sf("back to ring %s", hogl::tls::ring()->name())); } }
		else if (k < 90) {
			if (areas.size()) {
				Values x(g); unsigned which = g.below(S05_CALLS_N - 3), j = g.below(areas.size());
				// addresses of the stack differ
				x.v.ucp = (unsigned char *) (uintptr_t) 0x1234;
				uint32_t seq = hogl::tls::ring()->seqnum();
				w.post(areas[j].second, g.below(nsec[j]), &x.v, which);
				if (hogl::tls::ring()->seqnum() != seq) unflushed++; 
				w.add(sf("post %u: %d", which, hogl::tls::ring()->seqnum() != seq));
				if (unflushed > 8) { w.flush(); unflushed = 0; }
				stat("world_posts");
			}
		} else if (k < 95) { w.flush(); unflushed = 0; fflush(stdout);
			// what a flush leaves in the file
			if (kind != 2) w.add("flushed: " + (without_time(kind == 0 ? fdread(w.dir + "/log") : kind == 1 ? fdread(w.dir + "/log.txt") : fdread(w.dir + "/std"), timed)));
			stat("flushes");
		} else if (areas.size()) {
			w.flush(); unflushed = 0;
			{ std::lock_guard<std::mutex> l(rm_); sizes.clear(); } sizes_on = true;
			w.area_op(areas[0].second, 0, 0); Values x(g); x.set_fmt(sf("%%%ud", (unsigned) g.pick((const unsigned[]) { 100, 700, 3000, 9000, 20000 }))); x.v.i = 4;
			w.post(areas[0].second, 0, &x.v, S05_FMT_I); w.flush(); sizes_on = false;
			if (timed || kind == 3 || (f && strstr(f, "seqnum"))) sizes = "";         // stdio, stamps and the number of the default ring
			{ std::lock_guard<std::mutex> l(rm_); w.add("sizes of writes:" + sizes); if (sizes.size()) stat("write_sizes"); }
		}
	}
	while (tls.size()) { w.flush(); w.delete_tls(tls.back()); tls.pop_back(); w.flush(); }
	w.deactivate(); w.delete_output(); w.delete_format();
	for (void *m : masks) w.mask_delete(m);
	w.add(sf("active: %d", !!hogl::default_engine));
	if (kind >= 3) { fflush(0); dup2(so, 1); dup2(se, 2); close(so); close(se); }
	w.add("left: " + listing(w.dir));
	for (const char *p : { "log", "log.txt", "piped", "std" }) { std::string s = fdread(w.dir + "/" + p); if (s != "(absent)") { stat("output_bytes", s.size()); w.add(std::string(p) + ": " + (without_time(s, timed))); } }
	w.add("link: " + link_target(w.dir));
	{ std::lock_guard<std::mutex> l(rm_); std::sort(reqs.begin(), reqs.end()); std::string s; for (auto &r : reqs) s += r + "; "; w.add("threads ask for: " + s); if (reqs.size()) stat("sched_requests", reqs.size()); }
	umask(oldm); wipe(w.dir);
}

// Rotation: names and sizes
static void rotation(uint64_t seed, World &w)
{
	rng g(seed); mkdir(w.dir.c_str(), 0755);
	s05_opts fo; memset(&fo, 0, sizeof fo); fo.perms = 0644; fo.max_size = g.range(1500, 9000); fo.max_count = g.pick((const unsigned[]) { 2, 3, 5, 12, 100 }); fo.buffer = 8192; fo.policy = SCHED_OTHER;
	w.new_format("area"); w.new_output(1, &fo); w.activate(0);
	void *a = w.add_area("R", 0); w.area_op(a, 1, 0);
	unsigned rot = std::min(fo.max_count + 2, 6u); w.add(sf("count %u: %s", fo.max_count, link_target(w.dir).c_str()));
	for (unsigned i = 0; i < rot && !violated(); i++) {
		std::string cur = link_target(w.dir), nxt = cur; Values x(g); x.set_fmt("%200d");
		for (unsigned k = 0; k < 100000 && nxt == cur; k++) { w.post(a, 0, &x.v, S05_FMT_I); w.flush(); if (k < 2000) tick(); usleep(k < 200 ? 100 : 1000); nxt = link_target(w.dir); }   // a stall ends it
		struct stat st; bool big = !stat((w.dir + "/" + cur).c_str(), &st) && (size_t) st.st_size >= fo.max_size;
		w.add(sf("%s -> %s, full %d", cur.c_str(), nxt.c_str(), big)); stat("rotations");
	}
	w.deactivate(); w.delete_output(); w.delete_format(); wipe(w.dir);
}

static void pairs(uint64_t seed, uint64_t n, bool rot)
{
	phase(rot ? "rotation" : "worlds");
	for (uint64_t i = 0; i < n && !violated(); i++) {
		uint64_t s = mix(seed, i + (rot ? 100000 : 0)); rng g(s); World c, x; c.c = true; x.c = false; c.dir = scratch() + "/wc"; x.dir = scratch() + "/wx"; unsigned len = g.range(20, 120);
		bool first = g.chance(50);
		for (int k = 0; k < 2; k++) { World &w = (k == 0) == first ? c : x; if (rot) rotation(s, w); else world(s, w, len); }
		eval(); stat(rot ? "rotation_pairs" : "world_pairs"); stat("observations", c.t.size());
		uint64_t h = 1;
		for (unsigned j = 0; j < std::max(c.t.size(), x.t.size()); j++) {
			std::string a = j < c.t.size() ? c.t[j] : "(nothing)", b = j < x.t.size() ? x.t[j] : "(nothing)"; h = mix(h, hash_str(a));
			if (a == b) continue;
			size_t p = 0; while (p < a.size() && p < b.size() && a[p] == b[p]) p++;
			size_t q = p > 60 ? p - 60 : 0;
			viol("parity", "world %llx step %u (%s), difference at %zu: through C '%s', through C++ '%s'", (unsigned long long) s, j, a.substr(0, 12).c_str(), p, esc(a.substr(q, 200)).c_str(), esc(b.substr(q, 200)).c_str()); break;
		}
		distinct(h);
		sample("%zu observations, last: %s", c.t.size(), esc(c.t.back(), 100).c_str());
	}
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), n = argn(argc, argv, 2, 1000), m = argn(argc, argv, 3, 20), r = argn(argc, argv, 4, 2);
	wd().start(); signal(SIGPIPE, SIG_IGN);
	rule("evaluation: one statement posted from C, C++ and the macro in C++, or one world of API calls made through C and through C++. distinct: records, and worlds by what was observed");
	posts(seed, n); pairs(seed, m, false); pairs(seed, r, true);
	return finish();
}
