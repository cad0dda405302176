// L04: concurrent writers of a shared ring never lose, mix or reorder records.
#define VH_MAIN
#include "perturb.hpp"
#include "cap.hpp"
using namespace vh;

// payload derived from (writer, n, kind)
static std::string payload(uint64_t w, uint64_t n, unsigned k)
{
	rng g(mix(w * 1000003 + n, k));
	std::string s(g.below(60) + 1, 0);
	for (char &c : s) c = (char) g.range(33, 126);
	return s;
}

static void one_case(uint64_t seed, unsigned total)
{
	rng g(seed);
	static const unsigned caps[] = { 2, 4, 8, 16, 64, 256, 1024 };
	unsigned cap = g.pick(caps), nw = g.range(2, 6);
	bool blocking = g.chance(30), notso = g.chance(40);
	static const unsigned tsos[] = { 1, 4, 64, 4096 };
	unsigned poll = g.chance(50) ? 0 : g.range(1, 300), tso = g.pick(tsos);
	hogl::timesource ts("vh", logical_cb), ts2("vh2", logical_cb);
	cap_format f; hogl::output_null out(f);
	struct D { uint64_t w, n, batch, seq, ts; };
	std::vector<D> got; std::atomic<uint64_t> ngot{0};
	const hogl::area *internal = 0; hogl::area *ar = 0;
	f.on = [&](const hogl::format::data &d, const hogl::record &r) {
		if (r.area == internal) return;
		if (r.area != ar || strcmp(d.ring_name, "SHARED")) { viol("mixed", "record of area %p ring %s", (void *) r.area, d.ring_name); return; }
		std::string bad; std::vector<CArg> a = capture_args(r, 0, &bad);
		if (a.size() < 3 || a[0].type != U64 || a[1].type != U64 || a[2].type != U64) { viol("torn", "arguments: %s", show_args(a).c_str()); return; }
		uint64_t w = a[0].v, n = a[1].v;
		// the shape of the record belongs to the writer and number it claims
		unsigned k = mix(w, n) % 4;
		std::string want = payload(w, n, k);
		bool ok = r.section == (n + w) % 6;
		switch (k) {
		case 0: ok = ok && a.size() == 3; break;
		case 1: ok = ok && a.size() == 4 && a[3].type == CSTR && a[3].d == want; break;
		case 2: ok = ok && a.size() == 6 && a[3].type == U32 && a[3].v == (uint32_t) (n * 3) && a[4].type == CSTR && a[4].d == want && a[5].type == U64 && a[5].v == w * n; break;
		case 3: ok = ok && a.size() == 16; for (unsigned i = 3; ok && i < 16; i++) ok = a[i].type == U64 && a[i].v == mix(w, n + i); break;
		}
		if (!ok) viol("torn", "record claims writer %llu #%llu kind %u, has %s", (unsigned long long) w, (unsigned long long) n, k, show_args(a).c_str());
		got.push_back({ w, n, a[2].v, r.seqnum, r.timestamp.to_nsec() });
		ngot++;
	};
	std::unique_ptr<hogl::engine> e(new hogl::engine(out, engine_opts::make(tso, poll, notso ? (unsigned) hogl::engine::DISABLE_TSO : 0, &ts)));
	internal = e->internal_area();
	ar = e->add_area("A"); ar->enable();
	static const unsigned lv[] = { 0, 0, 0, 2, 10 };
	pert().level = g.pick(lv);
	pert().maxus = g.range(5, 60);
	std::atomic<uint64_t> posted{0}, batches{0}, specials{0}, switches{0};
	std::atomic<unsigned> done{0};
	std::vector<std::thread> th;
	hogl::ringbuf::options ro = { cap, 0, (unsigned) hogl::ringbuf::SHARED | (blocking ? (unsigned) hogl::ringbuf::BLOCKING : 0), 512 };
	hogl::ringbuf *r = e->add_ring("SHARED", ro);
	for (unsigned i = 0; i < nw; i++) {
		uint64_t s = g.next();
		th.emplace_back([&, i, s] {
			rng t(s);
			hogl::ringbuf *mine = e->add_ring("SHARED", ro);
			if (mine != r) { viol("add-ring", "shared ring not shared"); done++; return; }
			uint64_t w = i, n = 0, bno = 0;
			auto put = [&](bool locked, uint64_t b) {
				unsigned k = mix(w, n) % 4, sect = (n + w) % 6;
				std::string p = payload(w, n, k);
				unsigned long W = w, N = n, B = b;
				#define M(x) (unsigned long) mix(w, n + x)
				switch (k) {
				case 0: if (locked) hogl::post(r, ar, sect, W, N, B); else hogl::post_unlocked(r, ar, sect, W, N, B); break;
				case 1: if (locked) hogl::post(r, ar, sect, W, N, B, p); else hogl::post_unlocked(r, ar, sect, W, N, B, p); break;
				case 2: if (locked) hogl::post(r, ar, sect, W, N, B, (unsigned) (n * 3), p, (unsigned long) (w * n)); else hogl::post_unlocked(r, ar, sect, W, N, B, (unsigned) (n * 3), p, (unsigned long) (w * n)); break;
				case 3: if (locked) hogl::post(r, ar, sect, W, N, B, M(3), M(4), M(5), M(6), M(7), M(8), M(9), M(10), M(11), M(12), M(13), M(14), M(15));
					else hogl::post_unlocked(r, ar, sect, W, N, B, M(3), M(4), M(5), M(6), M(7), M(8), M(9), M(10), M(11), M(12), M(13), M(14), M(15)); break;
				}
				n++; posted++;
			};
			while (n < total) {
				unsigned k = t.below(1000);
				if (k < 850) put(true, 0);
				else if (k < 940) {
					r->lock();
					bno++;
					for (unsigned b = t.range(2, 12); b; b--) { put(false, bno); if (t.chance(5)) sched_yield(); }
					r->unlock();
					batches++;
				} else if (k < 943) { if (!hogl::flush(r, 200000000)) viol("flush", "flush failed"); specials++; }
				else if (k < 945) { if (!hogl::change_timesource(r, t.chance(50) ? &ts : &ts2, 200000000)) viol("timesource", "change failed"); specials++; switches++; }
				else if (k < 960) usleep(t.below(100));
				else sched_yield();
			}
			posted += 0; done++;
			mine->release();
		});
	}
	phase("post");
	if (!wait_for([&] { return done == nw || violated(); }, [&] { return posted + ngot; })) viol("stuck", "writers do not finish");
	if (violated()) { flush_report(); _exit(3); }
	for (auto &t : th) t.join();
	uint64_t lost = r->dropcnt(), seq = r->seqnum();
	phase("drain");
	if (!wait_for([&] { return ngot + lost >= posted; }, [&] { return (uint64_t) ngot; })) viol("lost", "%llu posted, dropcnt %llu, only %llu delivered", (unsigned long long) posted, (unsigned long long) lost, (unsigned long long) ngot);
	if (violated()) { flush_report(); _exit(3); }
	if (seq != posted + specials) viol("seqnum", "sequence number %llu after %llu posts and %llu special records", (unsigned long long) seq, (unsigned long long) posted, (unsigned long long) specials);
	if (blocking && lost) viol("dropcnt", "blocking ring lost %llu", (unsigned long long) lost);
	r->release();
	e.reset();
	pert().level = 0;
	if (got.size() + lost != posted) viol(got.size() + lost < posted ? "lost" : "duplicate", "%llu posted, dropcnt %llu, %zu delivered", (unsigned long long) posted, (unsigned long long) lost, got.size());
	std::vector<uint64_t> next(nw, 0); uint64_t lseq = 0, lts = 0; bool first = true;
	std::map<std::pair<uint64_t, uint64_t>, std::pair<size_t, size_t>> span; // batch -> first, last
	uint64_t switches_w = 0;
	for (size_t i = 0; i < got.size(); i++) {
		const D &x = got[i];
		if (x.w >= nw) { viol("torn", "writer %llu", (unsigned long long) x.w); break; }
		if (x.n < next[x.w]) { viol("thread-order", "writer %llu: #%llu after #%llu", (unsigned long long) x.w, (unsigned long long) x.n, (unsigned long long) next[x.w] - 1); break; }
		if (blocking && x.n != next[x.w]) { viol("lost", "writer %llu: #%llu, expected #%llu", (unsigned long long) x.w, (unsigned long long) x.n, (unsigned long long) next[x.w]); break; }
		next[x.w] = x.n + 1;
		if (!first && x.seq <= lseq) { viol("seq-order", "seqnum %llu delivered after %llu", (unsigned long long) x.seq, (unsigned long long) lseq); break; }
		if (!first && x.ts <= lts) { viol("ts-order", "timestamp %llu delivered after %llu (seqnum %llu)", (unsigned long long) x.ts, (unsigned long long) lts, (unsigned long long) x.seq); break; }
		if (!first && got[i - 1].w != x.w) switches_w++;
		first = false; lseq = x.seq; lts = x.ts;
		if (x.batch) {
			auto k = std::make_pair(x.w, x.batch);
			auto it = span.find(k);
			if (it == span.end()) span[k] = { i, i }; else it->second.second = i;
		}
	}
	for (auto &s : span)
		for (size_t i = s.second.first; i <= s.second.second; i++)
			if (got[i].w != s.first.first || got[i].batch != s.first.second) { viol("batch", "record of writer %llu inside a locked batch of writer %llu", (unsigned long long) got[i].w, (unsigned long long) s.first.first); break; }
	eval(got.size()); stat("posted", posted); stat("dropped", lost); stat("batches", batches); stat("specials", specials); stat("timesource_switches", switches); stat("writer_alternations", switches_w);
	if (switches_w > 3) distinct(mix(seed, mix(switches_w, lost)));
	sample("cap %u%s, %u writers, tso %u%s: %llu posted, %llu dropped, %zu delivered in %llu alternations between writers, %llu batches, %llu flush/timesource requests", cap, blocking ? " blocking" : "", nw, tso, notso ? " off" : "",
		(unsigned long long) posted, (unsigned long long) lost, got.size(), (unsigned long long) switches_w, (unsigned long long) batches, (unsigned long long) specials);
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), cases = argn(argc, argv, 2, 10), total = argn(argc, argv, 3, 4000);
	rule("2..6 writers on one shared ring with single posts, locked batches, flushes and timesource changes; non-trivial: a case where delivery alternated between writers, distinct by (case, alternations, drops)");
	pert().seed = seed;
	wd().start(60);
	for (uint64_t i = 0; i < cases && !violated(); i++) one_case(mix(seed, i), total);
	return finish();
}
