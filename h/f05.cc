// F05: raw output cooked later equals the text output.
#define VH_MAIN
#include "rawgen.hpp"
#include "proc.hpp"
#include <termios.h>
#include <dirent.h>
using namespace vh;
typedef hogl::ringbuf RB;

static void compare(const Made &m, const std::string &got, const char *how)
{
	std::string a = mask(got), b = mask(m.text);
	if (a == b) return;
	size_t p = 0; while (p < a.size() && p < b.size() && a[p] == b[p]) p++;
	size_t q = p > 60 ? p - 60 : 0;
	viol(std::string("cooked-") + how, "fields '%s', %llu records, %zu raw bytes: cooked text (%zu bytes) differs from the direct one (%zu bytes) at %zu: '%s' instead of '%s'", m.fields.c_str(), (unsigned long long) m.n, m.raw.size(), a.size(), b.size(), p, esc(a.substr(q, 140)).c_str(), esc(b.substr(q, 140)).c_str());
}

// The stream as earlier versions wrote it: 16 bit lengths of binary data
static std::string to_v1(const std::string &raw, bool &ok)
{
	std::string o; size_t p = 0; ok = true;
	auto copy = [&](size_t n) { if (p + n > raw.size()) { ok = false; n = raw.size() - p; } o.append(raw, p, n); p += n; };
	while (ok && p < raw.size()) {
		copy(16);
		for (unsigned i = 0; i < 3 && ok; i++) copy(1 + (uint8_t) raw[p]);
		hogl::record r; memset((void *) &r, 0, sizeof r); if (p + 8 > raw.size()) { ok = false; break; }
		memcpy(&r.argtype, raw.data() + p, 8); copy(8);
		for (unsigned i = 0; i < 16 && ok; i++) {
			unsigned t = r.get_arg_type(i); if (t == NONE) break;
			if (t == CSTR || t == GSTR) { uint16_t n = 0; memcpy(&n, raw.data() + p, 2); copy(2 + n); }
			else if (t == XDUMP || t == RAW) { uint32_t n = 0; memcpy(&n, raw.data() + p, 4); if (n > 65535) ok = false; uint16_t m = n; o.append((char *) &m, 2); p += 4; copy(n); }
			else copy(t == U32 || t == I32 ? 4 : 8);
		}
	}
	return o;
}

static void one_case(uint64_t seed, unsigned i)
{
	rng g(seed); tick();
	unsigned n = g.chance(60) ? g.range(1, 12) : g.range(12, 150), big = g.chance(15) ? 200000 : 3000;
	if (big > 10000) n = g.range(1, 8);
	Made m = make(g, n, big);
	std::string p = scratch() + sf("/f05-%d.raw", (int) getpid());
	std::vector<std::string> av = { tool("cook") };
	if (m.fields != "default" || g.chance(50)) { av.push_back(g.chance(50) ? "-f" : "--format"); av.push_back(m.fields); }
	else if (m.fields == "default") stat("default_fields");
	std::string in = m.raw;
	if (g.chance(15)) { bool ok; std::string o = to_v1(m.raw, ok); if (ok) { in = o; av.push_back(g.chance(50) ? "-v" : "--version"); av.push_back("1.0"); stat("version_1_0"); stat("version_1_0_differs", in != m.raw); } }
	else if (g.chance(10)) { av.push_back("-v"); av.push_back("1.1"); }
	if (g.chance(20)) { av.push_back("-M"); av.push_back(sf("%u", 4000000 + (unsigned) g.below(1000000))); }
	if (g.chance(60)) {
		spill(p, in); av.push_back(p);
		proc_result r = run_tool(av); check_tool("cook", r);
		if (!violated()) { compare(m, r.out, "file"); if (r.code() != 0) viol("cook-exit", "%s: %s", r.how().c_str(), esc(r.err).c_str()); }
		unlink(p.c_str()); stat("files");
	} else {
		av.push_back("-"); unsigned c = g.pick((const unsigned[]) { 1, 3, 100, 4096, 8192, 20000 });
		if (c < 4 && in.size() > 50000) c = 4096;
		proc_result r = run_tool(av, &in, [&] { return (size_t) (g.chance(50) ? g.range(1, c) : c); }); check_tool("cook", r);
		if (!violated()) { compare(m, r.out, "pipe"); if (r.code() != 0) viol("cook-exit", "%s: %s", r.how().c_str(), esc(r.err).c_str()); }
		stat("pipes");
	}
	eval(m.n); stat("raw_bytes", m.raw.size());
	distinct(hash_str(m.raw));
	if (!i) sample("%llu records, %zu raw bytes, fields '%s': cooked text equals the direct one (%zu bytes)", (unsigned long long) m.n, m.raw.size(), m.fields.c_str(), m.text.size());
}

// the records as a loaded format sees them
static void plugin_case(uint64_t seed)
{
	rng g(seed); tick();
	std::string so = tool("plugin"), str = g.chance(60) ? rnd_str(g, g.range(1, 30)) : "";
	plug_format pf(str.empty() ? 0 : str.c_str());
	Made m = make(g, g.range(1, 60), 3000, 40, &pf);
	std::string p = scratch() + sf("/f05p-%d.raw", (int) getpid()), lg = p + ".log";
	std::vector<std::string> av = { tool("cook"), g.chance(50) ? "-p" : "--plugin", so };
	if (!str.empty()) { av.push_back("-f"); av.push_back(str); }
	setenv("VH_PLUGIN_LOG", lg.c_str(), 1); unlink(lg.c_str());
	proc_result r; bool refuse = g.chance(8);
	if (refuse) { av = { tool("cook"), "-p", so, "-f", "refuse" }; }
	if (g.chance(60)) { spill(p, m.raw); av.push_back(p); r = run_tool(av); }
	else { av.push_back("-"); unsigned c = g.pick((const unsigned[]) { 7, 100, 4096, 8192 }); r = run_tool(av, &m.raw, [&] { return (size_t) c; }); }
	check_tool("cook", r);
	std::string l = slurp(lg); unlink(p.c_str()); unlink(lg.c_str());
	if (violated()) return;
	if (refuse) { if (r.code() == 0 || !r.out.empty() || l != "refused\n") viol("plugin-refuse", "a plugin that refuses: %s, %zu bytes of output, calls '%s'", r.how().c_str(), r.out.size(), esc(l).c_str()); stat("plugin_refused"); eval(); return; }
	if (r.out != m.plug) {
		size_t q = 0; while (q < r.out.size() && q < m.plug.size() && r.out[q] == m.plug[q]) q++;
		size_t b = q > 60 ? q - 60 : 0;
		viol("cooked-plugin", "%llu records, plugin string '%s': the plugin shows '%s' instead of '%s' at %zu", (unsigned long long) m.n, esc(str).c_str(), esc(r.out.substr(b, 200)).c_str(), esc(m.plug.substr(b, 200)).c_str(), q);
	}
	if (r.code() != 0) viol("cook-exit", "%s: %s", r.how().c_str(), esc(r.err).c_str());
	if (l != "create\nrelease\n") viol("plugin-calls", "calls of the plugin: '%s'", esc(l).c_str());
	eval(m.n); stat("plugin_streams"); distinct(hash_str(m.plug));
}

// a growing file
static void follow_case(uint64_t seed)
{
	rng g(seed); tick();
	Made m = make(g, g.range(5, 60), 2000);
	std::string p = scratch() + sf("/f05t-%d.raw", (int) getpid());
	Made old = make(g, g.below(5), 500);
	spill(p, old.raw);
	int mfd = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC);
	if (mfd < 0 || grantpt(mfd) || unlockpt(mfd)) { stat("no_pty"); return; }
	int sfd = open(ptsname(mfd), O_RDWR | O_NOCTTY | O_CLOEXEC);
	if (sfd < 0) { stat("no_pty"); close(mfd); return; }
	struct termios tt; tcgetattr(sfd, &tt); cfmakeraw(&tt); tcsetattr(sfd, TCSANOW, &tt);
	std::string exe = tool("cook"); fflush(0);
	pid_t pid = fork();
	if (!pid) {
		int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(sfd, 1); dup2(n, 2);
		execl(exe.c_str(), exe.c_str(), "-t", "-f", m.fields.c_str(), p.c_str(), (char *) 0); _exit(127);
	}
	// it follows as soon as it watches the file
	bool up = wait_for([&] {
		std::string d = sf("/proc/%d/fd", (int) pid); DIR *D = opendir(d.c_str()); bool yes = false; if (!D) return false;
		while (struct dirent *x = readdir(D)) { char b[300]; ssize_t k = readlink((d + "/" + x->d_name).c_str(), b, sizeof b - 1); if (k > 0) { b[k] = 0; if (strstr(b, "inotify")) yes = true; } }
		closedir(D); return yes; });
	std::string got; std::mutex gm; std::atomic<bool> stop{false};
	std::thread rd([&] { char b[4096]; fcntl(mfd, F_SETFL, O_NONBLOCK); while (!stop) { struct pollfd pf = { mfd, POLLIN, 0 }; poll(&pf, 1, 50); ssize_t k = read(mfd, b, sizeof b); if (k > 0) { std::lock_guard<std::mutex> l(gm); got.append(b, k); } } });
	if (!up) viol("follow", "the file is not watched");
	else {
		int fd = open(p.c_str(), O_WRONLY | O_APPEND | O_CLOEXEC); size_t off = 0;
		while (off < m.raw.size()) { size_t k = std::min<size_t>(g.range(1, g.chance(50) ? 20 : 5000), m.raw.size() - off); if (write(fd, m.raw.data() + off, k) != (ssize_t) k) break; off += k; if (g.chance(10)) usleep(g.below(300)); tick(); }
		close(fd);
		// the last line may stay in the stdio buffer only if it has no newline: every record ends with one
		wait_for([&] { std::lock_guard<std::mutex> l(gm); return got.size() >= m.text.size() && mask(got) == mask(m.text); }, [&] { std::lock_guard<std::mutex> l(gm); return (uint64_t) got.size(); }, 10);
		std::lock_guard<std::mutex> l(gm);
		compare(m, got, "follow"); eval(m.n); stat("followed_files");
	}
	kill(pid, SIGKILL); int st; waitpid(pid, &st, 0);
	stop = true; rd.join(); close(mfd); close(sfd); unlink(p.c_str());
}

int main(int argc, char **argv)
{
	uint64_t seed = argn(argc, argv, 1, 1), n = argn(argc, argv, 2, 10), fl = argn(argc, argv, 3, 0), pl = argn(argc, argv, 4, 0);
	wd().start();
	rule("evaluation: one record written in both forms. distinct: raw stream");
	for (uint64_t i = 0; i < n && !violated(); i++) one_case(mix(seed, i), i);
	for (uint64_t i = 0; i < fl && !violated(); i++) follow_case(mix(seed + 99, i));
	for (uint64_t i = 0; i < pl && !violated(); i++) plugin_case(mix(seed + 77, i));
	return finish();
}
