// O01: output string buffers.
#define VH_MAIN
#include "cap.hpp"
#include <hogl/detail/ostrbuf.hpp>
#include <hogl/detail/ostrbuf-fd.hpp>
#include <hogl/detail/ostrbuf-stdio.hpp>
#include <hogl/detail/ostrbuf-null.hpp>
#include <hogl/detail/ostrbuf-tee.hpp>
using namespace vh;

// One buffer of the tree under test together with what it must hold.
struct node {
	const char *kind = "";
	std::unique_ptr<hogl::ostrbuf> b;
	node *o0 = 0, *o1 = 0;          // tee
	std::string pending;            // written, not yet known to be flushed
	std::string out;                // must have arrived at the destination
	size_t via = 0;                 // end of what came through a tee
	std::function<std::string()> arrived;
	std::function<void()> finish_dest;
	mem_dest md;
	size_t cap = 0;
	std::string path; int fd = -1; FILE *fp = 0; std::thread reader; std::string got; std::mutex m; int rfd = -1;
};

struct tree {
	std::vector<std::unique_ptr<node>> all;
	rng &g; std::string dir; unsigned nfiles = 0;
	tree(rng &g, const std::string &dir) : g(g), dir(dir) {}
	~tree()
	{
		// tees first, they come last
		while (!all.empty()) all.pop_back();
	}
	size_t rnd_cap() { return g.chance(30) ? g.below(4) : g.chance(50) ? g.below(40) : g.chance(60) ? g.below(600) : g.chance(50) ? 1u << g.below(17) : 8192; }

	node *leaf()
	{
		all.emplace_back(new node); node *n = all.back().get(); n->cap = rnd_cap();
		switch (g.below(7)) {
		case 0: case 1:
			n->kind = "own"; n->b.reset(new mem_ostrbuf(n->md, n->cap));
			n->arrived = [n] { return n->md.data; };
			break;
		case 2:
			n->kind = "fd-file"; n->path = dir + sf("/f%u", nfiles++);
			n->fd = open(n->path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if (n->fd < 0) harness_error("open %s", n->path.c_str());
			n->b.reset(new hogl::ostrbuf_fd(n->fd, hogl::ostrbuf_fd::CLOSE_ON_DELETE, n->cap));
			n->arrived = [n] { return slurp(n->path); };
			break;
		case 3: {
			n->kind = "fd-pipe"; int p[2]; if (pipe(p)) harness_error("pipe");
			n->fd = p[1]; n->rfd = p[0];
			if (g.chance(50)) fcntl(p[1], F_SETPIPE_SZ, 4096);
			n->b.reset(new hogl::ostrbuf_fd(n->fd, 0, n->cap));
			n->reader = std::thread([n] { char b[5000]; ssize_t k; while ((k = read(n->rfd, b, sizeof b)) > 0) { std::lock_guard<std::mutex> l(n->m); n->got.append(b, k); tick(); } });
			n->finish_dest = [n] { close(n->fd); n->reader.join(); close(n->rfd); };
			n->arrived = nullptr;
			break; }
		case 4: case 5: {
			n->kind = "stdio"; n->path = dir + sf("/f%u", nfiles++);
			n->fp = fopen(n->path.c_str(), "w"); if (!n->fp) harness_error("open %s", n->path.c_str());
			if (g.chance(50)) setvbuf(n->fp, 0, g.chance(50) ? _IONBF : _IOLBF, 0);
			unsigned flags = g.chance(50) ? (unsigned) hogl::ostrbuf_stdio::CLOSE_ON_DELETE : 0;
			n->b.reset(new hogl::ostrbuf_stdio(n->fp, flags, n->cap));
			n->arrived = [n] { fflush(n->fp); return slurp(n->path); };
			if (flags) n->finish_dest = [n] { n->b.reset(); };
			else n->finish_dest = [n] { n->b.reset(); fclose(n->fp); };
			break; }
		case 6:
			n->kind = "null"; n->b.reset(new hogl::ostrbuf_null((unsigned) n->cap));
			break;
		}
		return n;
	}
	node *build(unsigned depth)
	{
		if (!depth || g.chance(45)) return leaf();
		node *a = build(depth - 1), *b = build(depth - 1);
		all.emplace_back(new node); node *n = all.back().get(); n->cap = rnd_cap();
		n->kind = "tee"; n->o0 = a; n->o1 = b;
		n->b.reset(new hogl::ostrbuf_tee(a->b.get(), b->b.get(), n->cap));
		return n;
	}
	// bytes that were put into a buffer, 'data' last; all of it but what the buffer holds went on
	void written(node *n, const std::string &data, bool all_out)
	{
		std::string s = n->pending + data; size_t keep = n->b->size();
		if (keep > n->b->capacity()) { viol("over-capacity", "%s holds %zu bytes with room for %zu", n->kind, keep, n->b->capacity()); return; }
		if (all_out && keep) { viol("kept-after-flush", "%s still holds %zu bytes after a flush", n->kind, keep); return; }
		if (keep > s.size()) { viol("too-much-held", "%s holds %zu bytes but only %zu are not flushed", n->kind, keep, s.size()); return; }
		if (keep && memcmp(n->b->head(), s.data() + s.size() - keep, keep)) { viol("held-bytes", "%s holds '%s' instead of the last bytes written '%s'", n->kind, esc(std::string((const char *) n->b->head(), keep), 80).c_str(), esc(s.substr(s.size() - keep), 80).c_str()); return; }
		std::string gone = s.substr(0, s.size() - keep);
		n->pending = s.substr(s.size() - keep);
		stat(gone.empty() ? "writes_buffered" : keep ? "writes_partly_flushed" : "writes_flushed");
		n->out += gone;
		if (n->o0) for (node *c : { n->o0, n->o1 }) {
			if (!gone.empty()) { written(c, gone, false); c->via = c->out.size() + c->pending.size(); }
			if (all_out) below(n, c);
		}
		if (n->b->failed()) viol("failed", "%s failed: %s", n->kind, n->b->error());
	}
	// a flush of a tee takes what went through it to the destinations
	void below(node *top, node *n)
	{
		if (n->out.size() < n->via) { viol("kept-below-tee", "%s below a flushed %s still holds %zu bytes that came through it", n->kind, top->kind, n->via - n->out.size()); return; }
		if (n->o0) { below(top, n->o0); below(top, n->o1); }
	}
	void check(node *n)
	{
		if (!n->arrived) return;
		std::string a = n->arrived();
		if (a != n->out) report(n, a);
		stat("destinations_compared");
	}
	void report(node *n, const std::string &a)
	{
		size_t p = 0; while (p < a.size() && p < n->out.size() && a[p] == n->out[p]) p++;
		viol("bytes", "%s with capacity %zu: destination has %zu bytes, %zu were written and flushed; they differ at %zu: '%s' instead of '%s'", n->kind, n->cap, a.size(), n->out.size(), p, esc(a.substr(p, 40)).c_str(), esc(n->out.substr(p, 40)).c_str());
	}
};

static void one_case(uint64_t seed, unsigned ops, const std::string &dir)
{
	rng g(seed);
	tree t(g, dir); node *root = t.build(g.below(4));
	uint64_t h = 0;
	for (auto &n : t.all) {
		if (n->b->capacity() != n->cap) viol("capacity", "%s: capacity %zu instead of %zu", n->kind, n->b->capacity(), n->cap);
		if (n->b->size() || n->b->failed()) viol("initial", "%s is not empty or failed at the start", n->kind);
		h = mix(h, hash_str(n->kind)); h = mix(h, n->cap);
	}
	bool big = g.chance(10);
	for (unsigned i = 0; i < ops && !violated(); i++) {
		tick(); eval();
		// mostly into the top buffer, sometimes right into one below it
		node *n = g.chance(85) ? root : t.all[g.below(t.all.size())].get();
		hogl::ostrbuf &b = *n->b; size_t room = b.capacity() - b.size();
		size_t len; switch (g.below(7)) {
		case 0: len = room; break;
		case 1: len = room + 1; break;
		case 2: len = room ? room - 1 : 0; break;
		case 3: len = n->cap + g.below(n->cap + 2); break;
		case 4: len = 0; break;
		default: len = g.below(60);
		}
		if (len > 70000) len = g.below(100);
		if (big && g.chance(3)) len = g.below(300000);
		std::string d = rnd_bytes(g, len);
		unsigned op = g.below(12); h = mix(h, op * 1000003 + len);
		switch (op) {
		case 0: case 1: b.push_back((const uint8_t *) d.data(), d.size()); t.written(n, d, false); break;
		case 2: b.push_back(d.data(), d.size()); t.written(n, d, false); break;
		case 3: for (char &c : d) if (!c) c = 'z'; b.push_back(d.c_str()); t.written(n, d, false); break;
		case 4: b.push_back(d); t.written(n, d, false); break;
		case 5: case 6: for (unsigned k = 0; k < 1 + len % 9; k++) { char c = (char) g.below(256); b.push_back(c); t.written(n, std::string(1, c), false); } break;
		case 7: b.flush(); t.written(n, "", true); break;
		case 8: b.flush((const uint8_t *) d.data(), d.size()); t.written(n, d, true); break;
		case 9: {
			for (char &c : d) if (!c || c == '%') c = 'q';
			unsigned u = (unsigned) g.next(); int s = (int) g.next(); unsigned long l = g.next(); double f = (double) g.range(-1000000, 1000000) / 16;
			std::string x; 
			switch (g.below(4)) {
			case 0: b.printf("%u:%d %s|%lx", u, s, d.c_str(), l); x = sf("%u:%d %s|%lx", u, s, d.c_str(), l); break;
			case 1: b.printf("%s", d.c_str()); x = d; break;
			case 2: b.printf("%10.3f %-8u%c%%", f, u, 'k'); x = sf("%10.3f %-8u%c%%", f, u, 'k'); break;
			case 3: b.printf("%-*d|%0*u|%.5s", (int) (len % 100), s, (int) (len % 50), u, d.c_str()); x = sf("%-*d|%0*u|%.5s", (int) (len % 100), s, (int) (len % 50), u, d.c_str()); break;
			}
			t.written(n, x, false); break; }
		case 10: if (g.chance(90)) break; b.reset(); n->pending.clear(); n->via = std::min(n->via, n->out.size()); if (b.size()) viol("reset", "%s: %zu bytes left after reset", n->kind, b.size()); break;
		case 11: t.check(n); break;
		}
	}
	// flush from the top down
	for (size_t i = t.all.size(); i-- && !violated(); ) { node *n = t.all[i].get(); n->b->flush(); t.written(n, "", true); }
	for (auto &n : t.all) { t.check(n.get()); stat("bytes", n->out.size()); distinct(mix(h, hash_str(n->out))); }
	// tees go first, then the destinations are closed
	for (size_t i = t.all.size(); i--; ) {
		node *n = t.all[i].get();
		if (n->finish_dest) n->finish_dest();
		n->b.reset();
		if (!n->path.empty()) { if (!violated()) { std::string a = slurp(n->path); if (a != n->out) t.report(n, a); } unlink(n->path.c_str()); }
		if (!strcmp(n->kind, "fd-pipe") && !violated() && n->got != n->out) t.report(n, n->got);
		stat(std::string("buffers_") + n->kind);
	}
	if (t.all.size() > 1) sample("%zu buffers under a %s, %u operations, %zu bytes at the top", t.all.size(), root->kind, ops, root->out.size());
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), n = argn(argc, argv, 2, 100), ops = argn(argc, argv, 3, 60);
	wd().start();
	rule("evaluation: one operation on a buffer with the held and passed-on bytes compared. distinct: destination stream with the operations that led to it");
	for (uint64_t i = 0; i < n && !violated(); i++) one_case(mix(seed, i), ops, scratch());
	return finish();
}
