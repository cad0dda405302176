// Rotating files: what was opened, in which order, with what left inside; faults on open and write.
#pragma once
#include "cap.hpp"
#include <hogl/output-file.hpp>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <limits.h>
namespace vh {

struct chunk { std::string path; bool live = true; std::string content; mode_t mode = 0; bool fresh = false, aborted = false; };
struct fs_monitor {
	std::mutex m;
	std::string dir;                       // only names below it are of interest; empty: off
	std::vector<chunk> chunks;             // in creation order
	std::atomic<uint64_t> opens{0}, open_faults{0}, write_faults{0}, shorts{0}, eintrs{0}, writes{0};
	std::atomic<int> fail_opens{0};        // next opens for writing fail
	std::atomic<int> fail_heads{0};        // next first writes into a file fail
	std::atomic<uint64_t> head_faults{0};
	std::function<ssize_t(int fd, size_t len)> on_write;   // >0: accept that many, -errno: fail, 0: no fault
	bool mine(const char *p) { return !dir.empty() && p[0] != '/' ? true : !dir.empty() && !strncmp(p, dir.c_str(), dir.size()); }
	std::string abs(const char *p) { return p[0] == '/' ? std::string(p) : dir + "/" + p; }
	void reset(const std::string &d) { std::lock_guard<std::mutex> l(m); dir = d; chunks.clear(); fail_opens = fail_heads = 0; on_write = nullptr; }
	void off() { std::lock_guard<std::mutex> l(m); dir.clear(); fail_opens = fail_heads = 0; on_write = nullptr; }
	// what is still on disk
	void collect() { std::lock_guard<std::mutex> l(m); for (chunk &c : chunks) if (c.live) c.content = slurp(c.path); }
	// does an opened descriptor belong to a file of interest
	bool mine_fd(int fd)
	{
		if (fd < 3 || dir.empty()) return false;
		char p[64], b[PATH_MAX]; snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
		ssize_t n = readlink(p, b, sizeof b - 1); if (n <= 0) return false; b[n] = 0;
		return !strncmp(b, dir.c_str(), dir.size());
	}
};
inline fs_monitor &fsm() { static fs_monitor *f = new fs_monitor; return *f; }

inline int opened(int dfd, const char *p, int flags, mode_t mode)
{
	fs_monitor &f = fsm();
	bool wr = (flags & O_ACCMODE) != O_RDONLY && (flags & O_CREAT) && (dfd == AT_FDCWD || p[0] == '/');
	std::unique_lock<std::mutex> l(f.m, std::defer_lock);
	if (wr) {
		l.lock(); wr = f.mine(p);
		if (wr && f.fail_opens > 0) { f.fail_opens--; f.open_faults++; errno = EMFILE; return -1; }
		if (wr && (flags & O_TRUNC)) {
			std::string a = f.abs(p);
			for (chunk &c : f.chunks) if (c.live && c.path == a) { c.content.clear(); int r = syscall(SYS_openat, AT_FDCWD, a.c_str(), O_RDONLY, 0); if (r >= 0) { char b[65536]; ssize_t n; while ((n = read(r, b, sizeof b)) > 0) c.content.append(b, n); close(r); c.live = false; } }
		}
	}
	struct stat st0; bool fresh = wr && stat(p, &st0) != 0;
	int fd = syscall(SYS_openat, dfd, p, flags, mode);
	if (wr && fd >= 0) {
		chunk c; c.path = f.abs(p); struct stat st; if (!fstat(fd, &st)) { c.mode = st.st_mode & 0777; c.fresh = fresh; }
		f.chunks.push_back(c); f.opens++;
	}
	return fd;
}
inline ssize_t faulty(int fd, size_t len, const std::function<ssize_t(size_t)> &real)
{
	fs_monitor &f = fsm();
	if (fd > 2 && f.fail_heads > 0 && f.mine_fd(fd)) {
		struct stat st;
		if (!fstat(fd, &st) && !st.st_size) {
			std::lock_guard<std::mutex> l(f.m); f.fail_heads--; f.head_faults++;
			if (!f.chunks.empty()) f.chunks.back().aborted = true;
			errno = ENOSPC; return -1;
		}
	}
	std::function<ssize_t(int, size_t)> w;
	if (fd > 2) { std::lock_guard<std::mutex> l(f.m); if (f.on_write) w = f.on_write; }
	if (!w || !f.mine_fd(fd)) return real(len);
	f.writes++;
	ssize_t k; { static std::mutex wm; std::lock_guard<std::mutex> l(wm); k = w(fd, len); }
	if (k < 0) { if (k == -EINTR) f.eintrs++; else f.write_faults++; errno = -k; return -1; }
	if (k > 0 && (size_t) k < len) { f.shorts++; return real(k); }
	return real(len);
}
} // namespace vh

#ifdef VH_MAIN
extern "C" {
int open(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap); return vh::opened(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap); return vh::opened(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap); return vh::opened(d, p, flags, m); }
int creat(const char *p, mode_t m) { return vh::opened(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t write(int fd, const void *b, size_t n) { return vh::faulty(fd, n, [=](size_t k) { return (ssize_t) syscall(SYS_write, fd, b, k); }); }
ssize_t writev(int fd, const struct iovec *iov, int cnt)
{
	size_t n = 0; for (int i = 0; i < cnt; i++) n += iov[i].iov_len;
	return vh::faulty(fd, n, [=](size_t k) {
		if (k == n) return (ssize_t) syscall(SYS_writev, fd, iov, cnt);
		std::vector<struct iovec> v; for (int i = 0; i < cnt && k; i++) { struct iovec x = iov[i]; x.iov_len = std::min(x.iov_len, k); k -= x.iov_len; v.push_back(x); }
		return (ssize_t) syscall(SYS_writev, fd, v.data(), (int) v.size());
	});
}
}
#endif

namespace vh {
// Text with recognisable header, footer and records
struct chunk_format : public hogl::format {
	bool heads = true, foots = true;
	const hogl::area *only = 0;
	std::mutex m; std::string stream; std::atomic<uint64_t> count{0};   // records as handed out by the engine
	std::function<void()> each;
	virtual void header(hogl::ostrbuf &sb, const char *n, bool first) { if (heads) sb.push_back(sf("<H %s %d>\n", n, first)); }
	virtual void footer(hogl::ostrbuf &sb, const char *n) { if (foots) sb.push_back(sf("<F %s>\n", n ? n : "")); }
	virtual void process(hogl::ostrbuf &sb, const data &d)
	{
		const hogl::record &r = *d.record;
		if (only && r.area != only) return;
		unsigned len = r.get_arg_type(0) == hogl::arg::UINT32 ? r.get_arg_val32(0) : 0;
		rng g(r.seqnum); std::string s = sf("%llu:", (unsigned long long) r.seqnum); while (s.size() < len) s += (char) ('a' + g.below(26)); s += '\n';
		{ std::lock_guard<std::mutex> l(m); stream += s; }
		for (size_t i = 0; i < s.size(); ) { size_t k = std::min<size_t>(s.size() - i, 1 + g.below(len + 1)); sb.push_back(s.data() + i, k); i += k; }
		if (each) each();
		count++; tick();
	}
	std::string get() { std::lock_guard<std::mutex> l(m); return stream; }
};
} // namespace vh
