// O04: every output delivers the whole stream; tees duplicate it.
#define VH_MAIN
#include "cap.hpp"
#include "rawgen.hpp"
#include <hogl/output-pipe.hpp>
#include <hogl/output-file.hpp>
#include <hogl/output-stdout.hpp>
#include <hogl/output-stderr.hpp>
#include <hogl/output-tee.hpp>
#include <hogl/format-basic.hpp>
#include <hogl/format-raw.hpp>
#include <dlfcn.h>
#include <signal.h>
using namespace vh;
typedef hogl::ringbuf RB;

// The format under the output and a twin of it that writes the reference text.
struct twin_format : public hogl::format {
	std::unique_ptr<hogl::format> a, b; mem_dest md; mem_ostrbuf ref; const hogl::area *internal = 0; std::atomic<uint64_t> count{0}; std::atomic<bool> over{false};
	std::string hd, ft; bool mark;
	twin_format(std::function<hogl::format *()> mk, bool mark) : a(mk()), b(mk()), ref(md, 4096), mark(mark) {}
	virtual void header(hogl::ostrbuf &sb, const char *n, bool first) { if (mark) sb.push_back(sf("<H %s %d>\n", n, first)); a->header(sb, n, first); }
	virtual void footer(hogl::ostrbuf &sb, const char *n) { a->footer(sb, n); if (mark) sb.push_back(sf("<F %s>\n", n ? n : "")); }
	std::string header_text(const char *n) { mem_dest d; { mem_ostrbuf s(d, 100); if (mark) s.push_back(sf("<H %s 1>\n", n)); b->header(s, n, true); s.flush(); } return d.data; }
	std::string footer_text() { mem_dest d; { mem_ostrbuf s(d, 100); b->footer(s, 0); if (mark) s.push_back("<F >\n"); s.flush(); } return d.data; }
	virtual void process(hogl::ostrbuf &sb, const data &d)
	{
		if (over) viol("late", "a record was handed to an output whose engine is gone");
		b->process(ref, d); a->process(sb, d);
		if (d.record->area != internal) count++;
		tick();
	}
	std::string text() { ref.flush(); return md.get(); }
};

struct leaf { std::string kind, name, path; std::unique_ptr<hogl::output> out; twin_format *fmt = 0; FILE *fp = 0; mem_dest md; bool slow = false; };
struct tree {
	rng &g; std::string dir; std::vector<std::unique_ptr<leaf>> leaves; std::vector<std::unique_ptr<hogl::output>> tees; unsigned n = 0;
	tree(rng &g, const std::string &d) : g(g), dir(d) {}
	unsigned cap() { return g.pick((const unsigned[]) { 0, 1, 50, 300, 8192, 40000 }); }
	hogl::output *make(unsigned depth, twin_format *f, twin_format *other)
	{
		if (depth && g.chance(60)) {
			hogl::output *a = make(depth - 1, f, other), *b = make(depth - 1, g.chance(50) ? f : other, other);
			hogl::output *t = g.chance(50) ? new hogl::output_tee(a, b) : new hogl::output_tee(a, b, cap()); tees.emplace_back(t); return t;
		}
		leaves.emplace_back(new leaf); leaf &l = *leaves.back(); l.fmt = f; l.path = dir + sf("/l%u", n++); unsigned c = cap();
		switch (g.below(7)) {
		case 0: l.kind = "plainfile"; l.name = l.path; l.out.reset(new hogl::output_plainfile(l.path.c_str(), *f, c)); break;
		case 1: { l.kind = "file"; hogl::output_file::options o = hogl::output_file::default_options; o.buffer_capacity = c; l.name = l.path + ".000"; l.out.reset(new hogl::output_file(l.path, *f, o)); break; }
		case 2: case 3: {
			l.kind = "pipe"; l.name = "pipe"; std::string cmd;
			switch (g.below(4)) {
			case 0: cmd = "cat > '" + l.path + "'"; break;
			case 1: cmd = "sleep 0.05; cat > '" + l.path + "'"; break;
			case 2: cmd = "cat > '" + l.path + "'; sleep 0.1; echo END >> '" + l.path + "'"; l.slow = true; break;
			case 3: cmd = "cat | tr -d '\\001' | cat > '" + l.path + ".t'; mv '" + l.path + ".t' '" + l.path + "'"; if (g.chance(0)) l.slow = true; cmd = "cat | cat > '" + l.path + ".t'; mv '" + l.path + ".t' '" + l.path + "'"; break;
			}
			l.out.reset(new hogl::output_pipe(cmd.c_str(), *f, c)); break; }
		case 4: case 5: {
			bool o = g.chance(50); l.kind = l.name = o ? "stdout" : "stderr"; l.fp = fopen(l.path.c_str(), "w"); if (!l.fp) harness_error("fopen");
			if (g.chance(50)) setvbuf(l.fp, 0, g.chance(50) ? _IONBF : _IOLBF, 0);
			if (o) { FILE *s = stdout; stdout = l.fp; l.out.reset(new hogl::output_stdout(*f, c)); stdout = s; }
			else { FILE *s = stderr; stderr = l.fp; l.out.reset(new hogl::output_stderr(*f, c)); stderr = s; }
			break; }
		case 6: l.kind = "own"; l.name = "mem"; l.out.reset(new mem_output(*f, l.md, c)); break;
		}
		return l.out.get();
	}
};

static void one_case(uint64_t seed, const std::string &top, unsigned id)
{
	rng g(seed); tick(); eval();
	std::string dir = top + sf("/c%u", id); mkdir(dir.c_str(), 0755);
	unsigned kind = g.below(3); bool mark = g.chance(70);
	uint32_t fields = (uint32_t) g.next();
	auto mk = [&]() -> hogl::format * { switch (kind) { case 0: return new hogl::format_raw(); case 1: return new hogl::format_basic("fast1"); default: return new hogl::format_basic("timespec,timedelta,ring,seqnum,area,section"); } };
	(void) fields;
	twin_format f(mk, mark), other(mk, !mark);
	tree t(g, dir); hogl::output *root = t.make(g.below(4), &f, &other);
	hogl::timesource ts("vh", logical_cb);
	uint64_t total = 0; std::string where;
	{
		std::unique_ptr<hogl::engine> e(new hogl::engine(*root, engine_opts::make(g.pick((const unsigned[]) { 16, 256 }), 20, g.chance(25) ? (unsigned) hogl::engine::DISABLE_TSO : 0, &ts)));
		f.internal = e->internal_area();
		hogl::area *ar = e->add_area("A"); ar->enable();
		unsigned nt = g.range(1, 3), n = g.range(0, 120); std::vector<std::thread> ths; std::atomic<uint64_t> posted{0};
		std::vector<RB *> rings; for (unsigned k = 0; k < nt; k++) { RB::options o = { 64, 0, RB::BLOCKING, 30000 }; rings.push_back(e->add_ring(sf("R%u", k).c_str(), o)); }
		for (unsigned k = 0; k < nt; k++) ths.emplace_back([&, k] {
			rng g2(mix(seed, 50 + k));
			for (unsigned i = 0; i < n; i++) {
				std::string s = rnd_str(g2, g2.chance(5) ? g2.below(25000) : g2.below(200));
				switch (g2.below(4)) {
				case 0: hogl::post_unlocked(rings[k], ar, hogl::area::INFO, s); break;
				case 1: hogl::post_unlocked(rings[k], ar, hogl::area::WARN, "%u %s", i, s); break;
				case 2: hogl::post_unlocked(rings[k], ar, hogl::area::ERROR, hogl::arg_gstr("global"), (uint64_t) i, 2.5, s); break;
				case 3: hogl::post_unlocked(rings[k], ar, hogl::area::DEBUG, hogl::arg_xdump(s.data(), s.size())); break;
				}
				posted++; if (g2.chance(3)) usleep(g2.below(300)); tick();
			}
		});
		for (auto &x : ths) x.join();
		total = posted;
		for (RB *r : rings) r->release();
		e.reset();
		f.over = other.over = true;
	}
	if (f.count != total) viol("count", "%llu of %llu records formatted", (unsigned long long) f.count.load(), (unsigned long long) total);
	if (other.count) viol("wrong-format", "a branch's format was given %llu records", (unsigned long long) other.count.load());
	std::string text = f.text();
	while (!t.tees.empty()) t.tees.pop_back();
	uint64_t h = hash_str(text);
	for (auto &l : t.leaves) {
		bool failed = l->out->failed(); std::string err = l->out->error();
		l->out.reset();       // complete from here on
		std::string got;
		if (l->fp) { fclose(l->fp); }
		if (l->kind == "own") got = l->md.get();
		else got = slurp(l->kind == "file" ? l->name : l->path);
		std::string want = l->fmt->header_text(l->name.c_str()) + text + l->fmt->footer_text();
		if (l->slow) want += "END\n";
		if (failed) viol("failed", "%s failed: %s", l->kind.c_str(), err.c_str());
		if (got != want) {
			size_t p = 0; while (p < got.size() && p < want.size() && got[p] == want[p]) p++;
			viol("bytes", "%s (one of %zu outputs): has %zu bytes instead of %zu; they differ at %zu: '%s' instead of '%s'", l->kind.c_str(), t.leaves.size(), got.size(), want.size(), p, esc(got.substr(p, 40)).c_str(), esc(want.substr(p, 40)).c_str());
		}
		stat("destinations_" + l->kind); stat("bytes", got.size()); h = mix(h, hash_str(l->kind)); where += l->kind + " ";
	}
	stat("records", total); distinct(h);
	sample("%s: %llu records, %zu bytes of text", where.c_str(), (unsigned long long) total, text.size());
	std::string rm = "/bin/rm -rf '" + dir + "'"; if (system(rm.c_str())) stat("rm_failed");
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), n = argn(argc, argv, 2, 30);
	wd().start();
	rule("evaluation: one history through a tree of outputs, every destination compared with the reference text. distinct: text and kinds of the destinations");
	for (uint64_t i = 0; i < n && !violated(); i++) one_case(mix(seed, i), scratch(), i);
	return finish();
}
