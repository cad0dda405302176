// Running a tool: input from memory in chunks, output and errors kept.
#pragma once
#include "vh.hpp"
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
namespace vh {

struct proc_result { int status = 0; bool hung = false, padding = false; std::string out, err; 
	bool exited() const { return !hung && WIFEXITED(status); }
	int code() const { return exited() ? WEXITSTATUS(status) : -1; }
	std::string how() const { return hung ? "did not end" : WIFEXITED(status) ? sf("exit %d", WEXITSTATUS(status)) : sf("signal %d", WTERMSIG(status)); }
	bool crashed() const { return !hung && (WIFSIGNALED(status) || err.find("Sanitizer") != std::string::npos || err.find("runtime error") != std::string::npos); }
};

inline std::string tool(const char *name)
{
	std::string v = "VH_TOOL_"; for (const char *p = name; *p; p++) v += toupper(*p);
	const char *e = getenv(v.c_str()); if (!e) harness_error("%s not set", v.c_str());
	return e;
}

// input: data for stdin in chunks of chunk() bytes; without it stdin is /dev/null.
// Gives up when nothing moves for a long time.
inline proc_result run_child(std::function<void()> child, const std::string *input = 0, std::function<size_t()> chunk = nullptr, const char *cwd = 0, size_t max_out = 1ull << 30, unsigned idle_secs = 40)
{
	proc_result r; int pi[2] = { -1, -1 }, po[2], pe[2];
	if (pipe2(po, O_CLOEXEC) || pipe2(pe, O_CLOEXEC) || (input && pipe2(pi, O_CLOEXEC))) harness_error("pipe: %s", strerror(errno));
	fflush(0);
	pid_t pid = fork();
	if (pid < 0) harness_error("fork: %s", strerror(errno));
	if (!pid) {
		int in = input ? pi[0] : open("/dev/null", O_RDONLY);
		dup2(in, 0); dup2(po[1], 1); dup2(pe[1], 2);
		for (int fd : { pi[0], pi[1], po[0], po[1], pe[0], pe[1] }) if (fd > 2) close(fd);
		if (cwd && chdir(cwd)) _exit(126);
		signal(SIGPIPE, SIG_DFL);
		child(); _exit(127);
	}
	close(po[1]); close(pe[1]); if (input) { close(pi[0]); fcntl(pi[1], F_SETFL, O_NONBLOCK); }
	size_t off = 0, left = 0; int in = input ? pi[1] : -1;
	struct sigaction sa, old; memset(&sa, 0, sizeof sa); sa.sa_handler = SIG_IGN; sigaction(SIGPIPE, &sa, &old);
	bool oo = true, eo = true; unsigned idle = 0; char b[65536];
	if (input && input->empty()) { close(in); in = -1; }
	while (oo || eo) {
		struct pollfd p[3] = { { oo ? po[0] : -1, POLLIN, 0 }, { eo ? pe[0] : -1, POLLIN, 0 }, { in, POLLOUT, 0 } };
		int n = poll(p, 3, 1000);
		tick();
		if (n == 0 && ++idle > idle_secs) { r.hung = true; break; }
		if (n > 0) idle = 0;
		if (p[0].revents) { ssize_t k = read(po[0], b, sizeof b); if (k > 0) r.out.append(b, k); else oo = false; }
		if (p[1].revents) { ssize_t k = read(pe[0], b, sizeof b); if (k > 0) { if (r.err.size() < 200000) r.err.append(b, k); } else eo = false; }
		if (r.out.size() > max_out) { r.padding = (size_t) std::count(r.out.begin(), r.out.end(), '\n') < r.out.size() / 20000; r.hung = true; break; }
		if (in >= 0 && p[2].revents) {
			if (!left) { left = chunk ? chunk() : 65536; if (!left) left = 1; }
			size_t k = std::min(left, input->size() - off);
			ssize_t w = write(in, input->data() + off, k);
			if (w > 0) { off += w; left -= w; }
			if ((w < 0 && errno != EAGAIN && errno != EINTR) || off >= input->size()) { close(in); in = -1; }
		}
	}
	if (r.hung) kill(pid, SIGKILL);
	while (waitpid(pid, &r.status, 0) < 0 && errno == EINTR) ;
	if (in >= 0) close(in);
	close(po[0]); close(pe[0]);
	sigaction(SIGPIPE, &old, 0);
	return r;
}

inline proc_result run_tool(const std::vector<std::string> &argv, const std::string *input = 0, std::function<size_t()> chunk = nullptr, const char *cwd = 0, size_t max_out = 1ull << 30, unsigned idle_secs = 40)
{
	std::vector<char *> av; for (auto &s : argv) av.push_back((char *) s.c_str());
	av.push_back(0);
	return run_child([&] {
		std::string ao = getenv("ASAN_OPTIONS") ? getenv("ASAN_OPTIONS") : "";      // tools leak a few strings on exit
		setenv("ASAN_OPTIONS", (ao + ":detect_leaks=0").c_str(), 1);
		execv(av[0], av.data());
	}, input, chunk, cwd, max_out, idle_secs);
}

// A main() linked into this program, in a child of its own
inline proc_result run_main(int (*m)(int, char **), const std::vector<std::string> &argv, const std::string *input = 0, std::function<size_t()> chunk = nullptr, size_t max_out = 1ull << 30, unsigned idle_secs = 40)
{
	std::vector<char *> av; for (auto &s : argv) av.push_back((char *) s.c_str());
	av.push_back(0);
	return run_child([&] {
		on_exit([](int rc, void *) { fflush(0); _exit(rc); }, 0);      // no leak check in tools
		int rc = m(av.size() - 1, av.data());
		fflush(0); _exit(rc);
	}, input, chunk, 0, max_out, idle_secs);
}

// A report of the sanitizer inside a tool is a report of this check
inline void check_tool(const char *what, const proc_result &r)
{
	if (r.padding) stat("huge_paddings");       // a damaged field width, kept to a bound here
	else if (r.hung) viol(std::string(what) + "-hang", "the tool did not end; stderr: %s", esc(r.err, 400).c_str());
	else if (r.crashed()) {
		size_t p = r.err.find("ERROR: "); if (p == std::string::npos) p = r.err.find("runtime error"); if (p == std::string::npos) p = 0;
		std::string frames; size_t q = p;
		for (unsigned i = 0; i < 6; i++) { size_t a = r.err.find(" in ", q); if (a == std::string::npos) break; size_t e = r.err.find('\n', a); frames += r.err.substr(a, e - a) + ";"; q = e; }
		viol(std::string(what) + "-crash", "the tool failed (%s): %s %s", r.how().c_str(), esc(r.err.substr(p, 200)).c_str(), frames.substr(0, 600).c_str());
	}
}

} // namespace vh
