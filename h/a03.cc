// A03: a record is posted if and only if its section is enabled.
#define VH_MAIN
#include "perturb.hpp"
#include "cap.hpp"
using namespace vh;
typedef hogl::ringbuf RB;
extern "C" void a03_c_post(void *area, unsigned s, unsigned n, const char *str);
extern "C" { bool hogl_area_test(void *, unsigned); void hogl_area_set(void *, unsigned); void hogl_area_set_all(void *); void hogl_area_reset(void *, unsigned); void hogl_area_reset_all(void *); }

// ---- every way to post
enum { RING_U, RING_L, TLS_L, TLS_U, CAPI };
template <typename F> static void fan(unsigned n, F f, const char *s)
{
	switch (n) {
	case 0: f(); break;
	case 1: f(1); break; case 2: f(s, 2); break; case 3: f(1, 2u, 3l); break; case 4: f(1, 2.5, 3, 4); break;
	case 5: f(s, 2, 3, 4, 5); break; case 6: f(1, 2, 3, 4, 5, 6); break; case 7: f(1, 2, 3, 4, 5, 6, s); break;
	case 8: f(1, 2, 3, 4, 5, 6, 7, 8); break; case 9: f(1, 2, 3, 4, 5, 6, 7, 8, 9); break; case 10: f(1, 2, 3, s, 5, 6, 7, 8, 9, 10); break;
	case 11: f(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); break; case 12: f(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); break;
	case 13: f(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, s); break; case 14: f(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); break;
	case 15: f(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); break;
	default: f(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); break;
	}
}
static std::atomic<uint64_t> reads{0};
static hogl::timestamp counting_cb(const hogl::timesource *) { return hogl::timestamp(1000000 + (++reads) * 16); }

static const unsigned sizes[] = { 1, 2, 6, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 512, 1000, 4094, 4095, 4096 };

static void one_case(uint64_t seed)
{
	rng g(seed); tick();
	hogl::timesource ts("count", counting_cb);
	cap_format f; hogl::output_null out(f);
	struct Got { const hogl::area *a; unsigned s, n; uint64_t ts; std::string ring; };
	std::mutex m; std::vector<Got> got; const hogl::area *internal = 0;
	f.on = [&](const hogl::format::data &d, const hogl::record &r) {
		if (r.area == internal) return;
		unsigned n = 0; while (n < 16 && r.get_arg_type(n)) n++;
		std::lock_guard<std::mutex> l(m); got.push_back({ r.area, (unsigned) r.section, n, (uint64_t) r.timestamp, d.ring_name });
	};
	hogl::engine e(out, engine_opts::make(256, 50, g.chance(50) ? (unsigned) hogl::engine::DISABLE_TSO : 0, &ts));
	internal = e.internal_area();
	{ hogl::mask none("!.*:.*", (char *) 0); e.apply_mask(none); }
	struct A { hogl::area *a; std::vector<bool> st; };
	std::vector<A> as;
	for (unsigned i = g.range(1, 3); i; i--) {
		A a; unsigned n;
		if (g.chance(20)) { n = 6; a.a = e.add_area(sf("D%u", i).c_str()); }
		else {
			n = g.pick(sizes);
			std::vector<std::string> s; std::vector<const char *> p;
			for (unsigned j = 0; j < n; j++) s.push_back(sf("S%u", j));
			for (auto &x : s) p.push_back(x.c_str());
			p.push_back(0);
			a.a = e.add_area(sf("C%u", i).c_str(), p.data());
		}
		if (!a.a || a.a->count() != n) { viol("area", "area with %u sections has %u", n, a.a ? a.a->count() : 0); return; }
		a.st.assign(n, false);
		as.push_back(a);
	}
	RB::options o = { 64, 0, 0, 256 }, os = { 64, 0, RB::SHARED, 256 };
	hogl::tls tls("T", o, &e);
	RB *sh = e.add_ring("SH", os), *pr = e.add_ring("PR", o);
	uint64_t expn = 0;
	auto check_all = [&](A &a, const char *op, unsigned s) {
		for (unsigned i = 0; i < a.st.size(); i++) if (a.a->test(i) != a.st[i] || hogl_area_test(a.a, i) != a.st[i]) { viol("section-state", "%s(%u) on an area with %zu sections: section %u is %s", op, s, a.st.size(), i, a.st[i] ? "off" : "on"); return; }
	};
	char str[] = "a string that changes";
	unsigned ops = g.range(20, 120);
	uint64_t h = 0;
	for (unsigned i = 0; i < ops && !violated(); i++) {
		A &a = as[g.below(as.size())];
		unsigned n = a.st.size(), s = g.chance(30) ? n - 1 : g.chance(20) ? (unsigned) g.below((n + 63) / 64) * 64 : g.below(n);
		if (g.chance(50)) {
			const char *op = "";
			switch (g.below(13)) {
			case 0: op = "set"; a.a->set(s); a.st[s] = true; break;
			case 1: { op = "set-val"; bool v = g.chance(50); a.a->set(s, v); a.st[s] = v; break; }
			case 2: op = "reset"; a.a->reset(s); a.st[s] = false; break;
			case 3: op = "enable"; a.a->enable(s); a.st[s] = true; break;
			case 4: { op = "enable-val"; bool v = g.chance(50); a.a->enable(s, v); a.st[s] = v; break; }
			case 5: op = "disable"; a.a->disable(s); a.st[s] = false; break;
			case 6: op = "set-all"; if (g.chance(50)) a.a->set(); else a.a->enable(); a.st.assign(n, true); break;
			case 7: op = "reset-all"; if (g.chance(50)) a.a->reset(); else a.a->disable(); a.st.assign(n, false); break;
			case 8: op = "c-set"; hogl_area_set(a.a, s); a.st[s] = true; break;
			case 9: op = "c-reset"; hogl_area_reset(a.a, s); a.st[s] = false; break;
			case 10: op = "c-set-all"; hogl_area_set_all(a.a); a.st.assign(n, true); break;
			case 11: op = "c-reset-all"; hogl_area_reset_all(a.a); a.st.assign(n, false); break;
			case 12: { op = "mask"; if (n > 300) break; bool v = g.chance(60); hogl::mask mk; mk << sf("%s%s:%s", v ? "" : "!", a.a->name(), a.a->section_name(s)); e.apply_mask(mk); a.st[s] = v; break; }
			}
			h = mix(h, s * 16 + n);
			check_all(a, op, s); stat("state_changes");
			continue;
		}
		unsigned how = g.below(5), na = g.below(17);
		RB *r = how == RING_U ? (g.chance(50) ? pr : hogl::tls::ring()) : how == RING_L ? (g.chance(50) ? sh : pr) : hogl::tls::ring();
		if (how == CAPI && !na) na = 1;
		bool on = a.st[s];
		uint64_t sq = r->seqnum(), dr = r->dropcnt(), rd = reads; unsigned sz = r->size();
		uint64_t others = sh->seqnum() + pr->seqnum() + hogl::tls::ring()->seqnum();
		hogl::area *ar = a.a;
		switch (how) {
		case RING_U: fan(na, [&](auto... x) { hogl::post_unlocked(r, ar, s, x...); }, str); break;
		case RING_L: fan(na, [&](auto... x) { hogl::post(r, ar, s, x...); }, str); break;
		case TLS_L: fan(na, [&](auto... x) { hogl::post(ar, s, x...); }, str); break;
		case TLS_U: fan(na, [&](auto... x) { hogl::post_unlocked(ar, s, x...); }, str); break;
		case CAPI: a03_c_post(ar, s, na, str); break;
		}
		uint64_t now = sh->seqnum() + pr->seqnum() + hogl::tls::ring()->seqnum();
		static const char *const hn[] = { "post_unlocked(ring)", "post(ring)", "post", "post_unlocked", "hogl_post" };
		if (!on) {
			if (now != others || r->dropcnt() != dr || r->size() > sz) viol("posted-disabled", "%s with %u arguments to disabled section %u of %u changed a ring", hn[how], na, s, n);
			if (reads != rd) viol("timestamp-read", "%s to disabled section %u of %u read the timesource", hn[how], s, n);
			stat("posts_disabled");
		} else {
			if (r->seqnum() != sq + 1 || now != others + 1) viol("not-posted", "%s with %u arguments to enabled section %u of %u added %llu records", hn[how], na, s, n, (unsigned long long) (now - others));
			if (r->dropcnt() != dr) viol("dropped", "%s dropped", hn[how]);
			expn++;
			if (!wait_for([&] { std::lock_guard<std::mutex> l(m); return got.size() >= expn; })) { viol("not-delivered", "%s with %u arguments to enabled section %u of %u not delivered", hn[how], na, s, n); break; }
			std::lock_guard<std::mutex> l(m);
			Got &x = got.back();
			if (got.size() != expn || x.a != ar || x.s != s || x.n != na || x.ring != r->name()) viol("wrong-record", "%s with %u arguments to section %u of %u: delivered section %u of %s with %u arguments on ring %s", hn[how], na, s, n, x.s, x.a ? x.a->name() : "?", x.n, x.ring.c_str());
			stat("posts_enabled");
		}
		h = mix(h, how * 64 + na * 2 + on);
		check_all(a, hn[how], s);
		eval();
	}
	distinct(h);
	sample("%zu areas (first with %zu sections), %u operations, %llu records", as.size(), as[0].st.size(), ops, (unsigned long long) expn);
	sh->release(); pr->release();
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), n = argn(argc, argv, 2, 100);
	wd().start();
	rule("evaluation: one post, its effect on every ring, the timesource and the output compared with the section's state. distinct: histories of state changes and posts");
	for (uint64_t i = 0; i < n && !violated(); i++) one_case(mix(seed, i));
	return finish();
}
