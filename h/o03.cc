// O03: rotating files.
#define VH_MAIN
#include "chunks.hpp"
#include <dirent.h>
using namespace vh;
typedef hogl::ringbuf RB;

struct name_model { std::string pref, sufx, link; unsigned width, count; std::string file(unsigned i) const { return pref + sf("%0*u", (int) width, i) + sufx; } };
static name_model model(const std::string &dir, const std::string &pat, unsigned count)
{
	name_model n; n.count = count; n.width = 1; for (unsigned s = 10; s < count; s *= 10) n.width++;
	size_t p = pat.find('#');
	if (p == pat.npos) { n.pref = pat + "."; n.link = pat; }
	else {
		n.pref = pat.substr(0, p); n.sufx = pat.substr(p + 1);
		n.link = n.pref + n.sufx;
		if (p && p + 1 < pat.size() && pat[p - 1] == pat[p + 1]) n.link = n.pref.substr(0, p - 1) + n.sufx;
	}
	(void) dir;
	return n;
}
static std::string base(const std::string &p) { size_t s = p.rfind('/'); return s == p.npos ? p : p.substr(s + 1); }
static std::string show(const std::string &s) { return s.size() < 120 ? esc(s) : esc(s.substr(0, 50)) + " ... " + esc(s.substr(s.size() - 50)); }

// index of the chunk to start with
static unsigned link_index(const std::string &dir, const name_model &nm)
{
	std::string lk = nm.link[0] == '/' ? nm.link : dir + "/" + nm.link; char b[PATH_MAX]; ssize_t n = readlink(lk.c_str(), b, sizeof b);
	if (n > 0) { std::string t(b, n); for (unsigned i = 0; i < nm.count && i < 5000; i++) if (base(nm.file(i)) == base(t)) return (i + 1) % nm.count; }
	return 0;
}

struct watcher { // the link must resolve all the time
	std::atomic<bool> stop{false}; std::atomic<uint64_t> looks{0}, moves{0}; std::thread t; std::mutex m; std::string link, last;
	watcher(const std::string &l) : link(l) { t = std::thread([this] { run(); }); }
	void run()
	{
		while (!stop) {
			{ std::lock_guard<std::mutex> l(m); char b[PATH_MAX]; ssize_t n = readlink(link.c_str(), b, sizeof b); struct stat st;
			  if (n < 0) viol("link-missing", "link %s does not exist: %s", link.c_str(), strerror(errno));
			  else if (stat(link.c_str(), &st)) viol("link-dangling", "link %s -> %s does not resolve: %s", link.c_str(), std::string(b, n).c_str(), strerror(errno));
			  else { std::string s(b, n); if (s != last) { moves++; last = s; } } }
			looks++; usleep(30);
		}
	}
	~watcher() { stop = true; t.join(); vh::stat("link_looks", looks); vh::stat("link_moves_seen", moves); }
};

static unsigned count_fds() { unsigned n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }
// The sanitizer runtime opens a file for a moment now and then: what is open for good is open every time
static unsigned open_fds() { unsigned n = count_fds(); for (unsigned i = 0; i < 3; i++) { if (i) usleep(200); n = std::min(n, count_fds()); } return n; }

static void one_case(uint64_t seed, const std::string &top, unsigned id)
{
	rng g(seed); tick(); eval();
	std::string dir = top + sf("/c%u", id); mkdir(dir.c_str(), 0755);
	if (chdir(dir.c_str())) harness_error("chdir");
	for (const char *d : { "sub", "sub/deep", "d.#", "other" }) mkdir(d, 0755);
	bool rel = g.chance(50); unsigned fds = open_fds();
	static const char *const pats[] = { "log.#.txt", "log#", "pre.#", "sub/x.#.y", "log", "sub/plain", "#.log", "a##b", "n-#-n.txt", "sub/deep/q.#.tar", "0#9x" };
	auto name = [&](const char *p) { return (rel ? std::string() : dir + "/") + p; };
	std::string pat = name(g.pick(pats));
	unsigned count = g.pick((const unsigned[]) { 2, 2, 3, 5, 10, 11, 99, 128, 1000, 1 << 20 });
	fs_monitor &f = fsm(); f.reset(dir);
	std::string want, body_first; unsigned total_opens = 0;
	name_model nm = model(dir, pat, count);
	struct life { std::string want; size_t first_chunk; unsigned perms; bool heads, foots; std::vector<std::vector<std::string>> switches; std::map<std::string, int> blocks; };
	std::string link_target; unsigned lives = g.range(1, 4); uint64_t h = hash_str(pat, count);
	for (unsigned life = 0; life < lives && !violated(); life++) {
		chunk_format fmt; fmt.heads = g.chance(80); fmt.foots = g.chance(80);
		hogl::output_file::options o = hogl::output_file::default_options;
		o.max_count = count; o.max_size = g.pick((const unsigned[]) { 1, 50, 300, 2000, 20000 }); unsigned perms = 0666; if (g.chance(75)) o.perms = perms = g.pick((const unsigned[]) { 0666, 0600, 0644, 0620 });
		o.buffer_capacity = g.pick((const unsigned[]) { 0, 1, 64, 500, 8192 });
		hogl::timesource ts("vh", logical_cb);
		size_t first; { std::lock_guard<std::mutex> l(f.m); first = f.chunks.size(); }
		// where it must start
		std::string lk = nm.link[0] == '/' ? nm.link : dir + "/" + nm.link;
		unsigned start = link_index(dir, nm);
		bool faults = g.chance(30), switching = g.chance(40), direct = g.chance(40);
		struct sw { std::string pat; name_model nm; unsigned start; };   // start: index if the name was not in use in this life
		std::vector<sw> sws; std::vector<std::string> blocks; std::mutex bm;
		uint64_t of0 = f.open_faults, hf0 = f.head_faults;
		std::string last_link = lk;
		{
			std::unique_ptr<hogl::output_file> out(new hogl::output_file(pat, fmt, o));
			if (out->name() != nm.link) viol("name", "name() is %s instead of %s", out->name().c_str(), nm.link.c_str());
			if (out->index() >= count) viol("index", "index() is %u with %u chunks", out->index(), count);
			watcher w(lk);
			std::unique_ptr<hogl::engine> e(new hogl::engine(*out, engine_opts::make(64, 20, 0, &ts)));
			hogl::area *ar = e->add_area("A"); ar->enable(); fmt.only = ar;
			RB::options ro = { 64, 0, RB::BLOCKING, 64 };
			RB *r = e->add_ring("R", ro);
			// blocks written directly by the application
			std::atomic<bool> stop{false}; std::vector<std::thread> ths;
			if (direct) for (unsigned t = 0; t < 2; t++) ths.emplace_back([&, t] {
				rng g2(mix(seed, 77 + t + life * 10));
				for (unsigned i = 0; i < 60 && !stop; i++) {
					std::string s = sf("[W%u.%u.%u", life, t, i) + std::string(g2.below(200), 'W') + "]";
					ssize_t n = out->write(s.data(), s.size());
					if (n != (ssize_t) s.size()) viol("direct-write", "write of %zu bytes returned %zd", s.size(), n);
					{ std::lock_guard<std::mutex> l(bm); blocks.push_back(s); }
					usleep(g2.below(400)); tick();
				}
			});
			unsigned n = g.range(5, 120); 
			for (unsigned i = 0; i < n && !violated(); i++) {
				unsigned len = g.chance(5) ? g.below(5000) : g.below(200);
				hogl::post_unlocked(r, ar, hogl::area::INFO, len); tick();
				if (faults && g.chance(8)) f.fail_opens = g.range(1, (int) std::min(count, 6u) + 1);
				if (faults && fmt.heads && g.chance(8)) f.fail_heads = g.range(1, (int) std::min(count, 6u) + 1);
				if (switching && g.chance(6)) {
					// one after another: wait for the effect
					fmt.count.load();
					uint64_t before; { std::lock_guard<std::mutex> l(f.m); before = f.chunks.size(); }
					f.fail_opens = f.fail_heads = 0;
					static const char *const sp[] = { "other/s.#.x", "sub/x.#.y", "sub/new", "d.#/f.#", "z#" };
					std::string np; do np = g.chance(30) ? pat : name(g.pick(sp)); while (np.find("d.#") != np.npos);
					// a request for a rotation by size may be served first, so let the name be decided by what comes out
					sw s; s.pat = np; s.nm = model(dir, np, count); s.start = link_index(dir, s.nm);
					{ std::lock_guard<std::mutex> l(w.m);
					  sws.push_back(s);
					  if (!out->switch_name(np)) viol("switch", "switch_name(%s) refused", np.c_str());
					  std::string a = s.nm.link[0] == '/' ? s.nm.link : dir + "/" + s.nm.link;
					  std::string pre = s.nm.pref[0] == '/' ? s.nm.pref : dir + "/" + s.nm.pref;
					  // in effect once a chunk of that name is there and the link leads to it
					  if (!wait_for([&] { std::lock_guard<std::mutex> l(f.m); for (size_t k = before; k < f.chunks.size(); k++) if (f.chunks[k].path.compare(0, pre.size(), pre) == 0) return true; return false; }))
						viol("switch-lost", "no chunk named %s... was opened after switch_name", pre.c_str());
					  if (!wait_for([&] { char b[PATH_MAX]; ssize_t n = readlink(a.c_str(), b, sizeof b); if (n < 0) return false; std::string t(b, n); std::lock_guard<std::mutex> l(f.m); return base(f.chunks.back().path) == base(t); }))
						viol("switch-link", "link %s does not lead to the new chunk", a.c_str());
					  w.link = last_link = a; }
					stat("switches");
				}
				if (g.chance(10)) { if (!wait_for([&] { return r->empty(); })) { viol("stuck", "ring is not drained"); break; } usleep(g.below(500)); }
			}
			for (auto &t : ths) t.join();
			if (!wait_for([&] { return fmt.count >= n; }, [&] { return fmt.count.load(); })) viol("not-delivered", "%llu of %u records written; ring: next %llu, %llu dropped, %u waiting", (unsigned long long) fmt.count.load(), n, (unsigned long long) r->seqnum(), (unsigned long long) r->dropcnt(), (unsigned) (r->capacity() - r->room()));
			f.fail_opens = f.fail_heads = 0;
			// a chunk over its size is left for the next one when more is written
			if (g.chance(25) && !violated()) {
				size_t c0; { std::lock_guard<std::mutex> l(f.m); c0 = f.chunks.size(); }
				unsigned extra = 0;
				while (!violated()) {
					hogl::post_unlocked(r, ar, hogl::area::INFO, (unsigned) std::min<size_t>(o.max_size, 4000)); extra++;
					if (!wait_for([&] { return fmt.count >= n + extra; }, [&] { return fmt.count.load(); })) { viol("not-delivered", "%llu of %u records written", (unsigned long long) fmt.count.load(), n + extra); break; }
					usleep(2000);
					size_t c; { std::lock_guard<std::mutex> l(f.m); c = f.chunks.size(); }
					if (c > c0) break;
					// (the previous rotation may still be busy with the old file: then it is a later record that triggers the next one)
					if (extra > 5) usleep(20000);
					if (extra > 1500) { viol("no-rotation", "chunk grew by %u records of %u bytes (limit %zu) without a rotation", extra, (unsigned) std::min<size_t>(o.max_size, 4000), o.max_size); break; }
				}
				stat("forced_rotations");
			}
			r->release();
			e.reset();
			{ std::lock_guard<std::mutex> l(w.m); last_link = w.link; }
		}
		f.collect();
		if (violated()) break;
		// --- judge this life
		std::lock_guard<std::mutex> l(f.m);
		// files given up because of a failing header hold nothing
		for (size_t i = first; i < f.chunks.size(); ) if (f.chunks[i].aborted) { if (!f.chunks[i].content.empty()) viol("given-up", "a file whose header could not be written was used: %s", show(f.chunks[i].content).c_str()); f.chunks.erase(f.chunks.begin() + i); } else i++;
		std::string all; size_t nch = f.chunks.size() - first; total_opens += nch;
		if (!nch) harness_error("no chunk was seen being opened");
		mode_t um = umask(0); umask(um);
		auto abs = [&](const std::string &x) { return x[0] == '/' ? x : dir + "/" + x; };
		std::set<std::pair<size_t, size_t>> states = { { 0, 0 } };   // (name in use, requests served); names: 0 the first one, k+1 the one of request k
		auto name_of = [&](size_t k) -> const name_model & { return k ? sws[k - 1].nm : nm; };
		std::map<std::string, unsigned> cur_of;   // link -> index it leads to
		for (size_t i = 0; i < nch && !violated(); i++) {
			chunk &c = f.chunks[first + i]; bool lastc = i + 1 == nch;
			std::string full; unsigned idx = 0; std::string lnk;
			if (i) {
				// the next index under the same name, or the name that was asked for
				std::set<std::pair<size_t, size_t>> next;
				for (auto &st : states) {
					const name_model &m = name_of(st.first); unsigned nx = (cur_of[m.link] + 1) % count;
					if (c.path == abs(m.file(nx))) { next.insert(st); full = m.file(nx); idx = nx; lnk = m.link; }
					if (st.second < sws.size()) {
						const name_model &m2 = sws[st.second].nm; unsigned k = cur_of.count(m2.link) ? (cur_of[m2.link] + 1) % count : sws[st.second].start;
						if (c.path == abs(m2.file(k))) { next.insert({ st.second + 1, st.second + 1 }); full = m2.file(k); idx = k; lnk = m2.link; }
					}
				}
				if (next.empty()) { viol("chunk-name", "chunk %zu of life %u is %s after %s (pattern %s, %u chunks, %zu switches)", i, life, c.path.c_str(), f.chunks[first + i - 1].path.c_str(), pat.c_str(), count, sws.size()); break; }
				states = next;
			} else {
				full = nm.file(start); idx = start; lnk = nm.link;
				if (c.path != abs(full)) { viol("chunk-name", "first chunk of life %u is %s instead of %s", life, c.path.c_str(), full.c_str()); break; }
			}
			cur_of[lnk] = idx;
			if (c.fresh && c.mode != (perms & ~um)) viol("perms", "chunk has mode %o instead of %o", c.mode, perms & ~um);
			std::string b = c.content;
			if (fmt.heads) {
				std::string hd = sf("<H %s %d>\n", full.c_str(), i == 0);
				if (b.compare(0, hd.size(), hd)) { viol("header", "chunk %zu does not start with its header %s: %s", i, hd.c_str(), show(b).c_str()); break; }
				b.erase(0, hd.size());
			}
			size_t body = b.size();
			if (fmt.foots) {
				std::string nxt; if (!lastc) { nxt = f.chunks[first + i + 1].path; }
				size_t p = b.rfind("<F "); std::string ft = p == b.npos ? "" : b.substr(p);
				// names are given as configured: compare their last part
				if (p == b.npos || ft.size() < 5 || ft.compare(ft.size() - 2, 2, ">\n") || base(ft.substr(3, ft.size() - 5)) != base(nxt)) { viol("footer", "chunk %zu of %zu does not end with a footer naming '%s': %s", i, nch, nxt.c_str(), show(c.content).c_str()); break; }
				b.erase(p); body = b.size();
			}
			all += b; stat("chunks");
			// rotation only once the limit is reached, unless asked for
			if (!lastc && sws.empty()) {
				size_t sz = body + (i == 0 ? (fmt.heads ? sf("<H %s 1>\n", full.c_str()).size() : 0) : 0);
				if (sz < o.max_size) viol("early", "chunk %zu was closed with %zu bytes, limit %zu", i, sz, o.max_size);
			}
		}
		if (violated()) break;
		{ bool all_used = false; for (auto &st : states) all_used |= st.second == sws.size();
		  if (!all_used) viol("switch-missed", "not all of the %zu requested names were used", sws.size()); }
		// blocks of the application: each exactly once, then the records remain
		for (const std::string &s : blocks) { size_t p = all.find(s); if (p == all.npos) { viol("direct-lost", "block %s is missing", s.substr(0, 30).c_str()); break; } all.erase(p, s.size()); }
		std::string want = fmt.get();
		if (all != want && !violated()) {
			size_t p = 0; while (p < all.size() && p < want.size() && all[p] == want[p]) p++;
			viol("stream", "%zu chunks hold %zu bytes of records, %zu were written; they differ at %zu: %s instead of %s", nch, all.size(), want.size(), p, esc(all.substr(p, 40)).c_str(), esc(want.substr(p, 40)).c_str());
		}
		// the link leads to the last chunk
		{ char b[PATH_MAX]; if (!realpath(last_link.c_str(), b)) viol("link-final", "link %s does not resolve", last_link.c_str());
		  else { char b2[PATH_MAX]; if (realpath(f.chunks.back().path.c_str(), b2) && strcmp(b, b2)) viol("link-final", "link %s leads to %s instead of %s", last_link.c_str(), b, b2); } }
		stat("bytes", want.size()); stat("lives"); stat("open_faults", f.open_faults - of0); stat("header_faults", f.head_faults - hf0);
		h = mix(h, hash_str(want)); h = mix(h, nch); for (size_t i = 0; i < nch; i++) h = mix(h, f.chunks[first + i].content.size());
		if (nch > count) stat("lives_with_wrap");
		if (!sws.empty()) break;     // later lives would need the state of every name
	}
	if (!violated()) { unsigned n = open_fds(); for (unsigned i = 0; n > fds && i < 50; i++) { usleep(2000); n = std::min(n, open_fds()); } if (n != fds) viol("descriptors", "%u descriptors open after the outputs are gone, %u before (%u chunks made)", n, fds, total_opens); }
	distinct(h);
	sample("pattern %s, %u chunks at most, %u lives, %u chunks made", pat.c_str(), count, lives, total_opens);
	f.off();
	if (chdir("/")) harness_error("chdir");
	std::string rm = "/bin/rm -rf '" + dir + "'"; if (system(rm.c_str())) stat("rm_failed");
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), n = argn(argc, argv, 2, 10);
	wd().start();
	rule("evaluation: one history of a rotating file with restarts, all chunks compared with the record stream. distinct: stream and chunk boundaries");
	for (uint64_t i = 0; i < n && !violated(); i++) one_case(mix(seed, i), scratch(), i);
	return finish();
}
