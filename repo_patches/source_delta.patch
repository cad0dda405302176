From c23af281935a8d3b8915ff133cb86bf4524915c3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:25:57 +0000
Subject: [PATCH 01/60] fix: writer of a blocking ring can miss its wakeup and
 sleep forever

---
 include/hogl/detail/ringbuf.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/hogl/detail/ringbuf.hpp b/include/hogl/detail/ringbuf.hpp
index 37c9067..92d2073 100644
--- a/include/hogl/detail/ringbuf.hpp
+++ b/include/hogl/detail/ringbuf.hpp
@@ -397,12 +397,20 @@ public:
 
 	/**
 	 * Block on full ring buffer. Writer's interface.
+	 * Returns right away if the reader made some room in the meantime.
 	 */
 	void block()
 	{
 		pthread_mutex_lock(&_block_mutex);
 		_block_active = true;
-		pthread_cond_wait(&_block_cond, &_block_mutex);
+
+		// The reader may have moved the head (and missed the flag) after
+		// we found the ring full. The flag must be visible to the reader
+		// before we check again, otherwise the wakeup can be lost.
+		barrier::memrw();
+		if (!room())
+			pthread_cond_wait(&_block_cond, &_block_mutex);
+
 		pthread_mutex_unlock(&_block_mutex);
 	}
 
@@ -411,6 +419,9 @@ public:
 	 */
 	void unblock()
 	{
+		// The head must be visible to the writer before we check the flag.
+		barrier::memrw();
+
 		if (hogl_unlikely(_block_active)) {
 			pthread_mutex_lock(&_block_mutex);
 			pthread_cond_signal(&_block_cond);
-- 
2.43.0


From 5343c3a82264b8e1f029ea70f240b43a7d65410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:57 +0000
Subject: [PATCH 02/60] fix: engine may drop an orphan ring that has just been
 reacquired

---
 src/engine.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/engine.cc b/src/engine.cc
index 99ec9e1..53023de 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -272,6 +272,13 @@ void engine::kill_orphan(unsigned int i, ringbuf *ring)
 	// This is not critical. We don't want to stall the engine 
 	// thread just to cleanup an orphan.
 	if (!pthread_mutex_trylock(&_ring_mutex)) {
+		// Somebody may have picked up this ring (add_ring, find_ring) before we
+		// got the lock. Nobody can do that from this point on, so check again.
+		if (!ring->orphan() || !ring->empty()) {
+			pthread_mutex_unlock(&_ring_mutex);
+			return;
+		}
+
 		_ring_map.erase(ring->name());
 
 		// Invalidate index. It will be rebuilt next time we
-- 
2.43.0


From ab753ccec431217cfc6e069a982955a0c923c9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:57 +0000
Subject: [PATCH 03/60] fix: add_area() applies the mask without the lock and
 races with apply_mask()

---
 src/engine.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/engine.cc b/src/engine.cc
index 53023de..5409d1d 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -620,13 +620,15 @@ area *engine::add_area(const char *name, const char **sections)
 	s = _area_map.insert(area_map::value_type(name, na));
 	a = s.first->second;
 	_stats.areas_added++;
-	pthread_mutex_unlock(&_area_mutex);
 
-	if (s.second != false) {
-		// New area.
-		// Apply current mask before returning the area to the caller.
+	// New area.
+	// Apply current mask before the area becomes visible to others.
+	// This must be done under the lock because the mask may be changing.
+	if (s.second != false)
 		_mask.apply(a);
+	pthread_mutex_unlock(&_area_mutex);
 
+	if (s.second != false) {
 		hogl::post(internal_area(), internal::AREA_DEBUG,
 			"new area %s(%p): number-of-sections %u", a->name(), a, a->count());
 
-- 
2.43.0


From 4658fa530f94b267972a94c2220a3ab38905ac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:57 +0000
Subject: [PATCH 04/60] fix: a ring added during a timesource change keeps the
 old timesource

---
 src/engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.cc b/src/engine.cc
index 5409d1d..15c0270 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -659,9 +659,9 @@ ringbuf *engine::add_ring(const char *name, const ringbuf::options &opts)
 
 	ringbuf *nr = new ringbuf(name, opts);
 	nr->hold();
-	nr->timesource(_timesource);
 
 	pthread_mutex_lock(&_ring_mutex);
+	nr->timesource(_timesource);
 	s = _ring_map.insert(ring_map::value_type(name, nr));
 	s.first->second->hold();
 	pthread_mutex_unlock(&_ring_mutex);
-- 
2.43.0


From 3f9b4d7c24fbf960ba5174b556f409a49ad2dd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:16 +0000
Subject: [PATCH 05/60] fix: mask self-assignment uses freed memory

---
 src/mask.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mask.cc b/src/mask.cc
index eb43b80..42b88d2 100644
--- a/src/mask.cc
+++ b/src/mask.cc
@@ -183,8 +183,9 @@ mask::mask(mask &m)
 
 void mask::operator=(const mask &m)
 {
+	data_list *l = new data_list(*m._list);
 	delete _list;
-	_list = new data_list(*m._list);
+	_list = l;
 }
 
 mask::~mask()
-- 
2.43.0


From 47ed5271625c624d7b4b51c2de4e4a431a1d4f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:16 +0000
Subject: [PATCH 06/60] fix: reading a mask from a stream stops after the first
 line and enables everything

---
 src/mask.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/mask.cc b/src/mask.cc
index 42b88d2..8eea01b 100644
--- a/src/mask.cc
+++ b/src/mask.cc
@@ -115,13 +115,14 @@ mask& mask::operator<< (const std::string &str)
 
 std::istream& operator>> (std::istream &s, mask &m)
 {
-	std::stringbuf sb;
-
-	// Read lines from the stream and feed them into the mask
-	while (s.good()) {
-		sb.str("");
-		s.get(sb);
-		m << sb.str();
+	std::string line;
+
+	// Read lines from the stream and feed them into the mask.
+	// Empty lines are skipped (an empty mask string matches everything).
+	while (s.good() && s.peek() != std::istream::traits_type::eof()) {
+		std::getline(s, line);
+		if (!line.empty())
+			m << line;
 	}
 
 	return s;
-- 
2.43.0


From c732dbf0810a3cfe7aed30d55d1f84fd05431990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:31 +0000
Subject: [PATCH 07/60] fix: flush() returns before the records reach the
 output

---
 src/engine.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/engine.cc b/src/engine.cc
index 15c0270..e5fd666 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -304,6 +304,11 @@ void engine::flush_record(unsigned int i, record *r)
 			break;
 
 		case internal::SPR_FLUSH:
+			// Everything posted before this record must actually reach
+			// the output (file, pipe, ...) before we ack.
+			_output.flush();
+			break;
+
 		default:
 			break;
 		};
-- 
2.43.0


From 0c55908d24ec3434782b1bb361c9f5538c0e3478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:31 +0000
Subject: [PATCH 08/60] fix: flush and timesource change that time out are
 reported as dropped records

---
 src/flush.cc      | 3 +--
 src/timesource.cc | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/flush.cc b/src/flush.cc
index c593adb..38d3aeb 100644
--- a/src/flush.cc
+++ b/src/flush.cc
@@ -55,7 +55,6 @@ bool timeout(uint64_t &to, uint64_t usec)
 // records out of this ring will ack the flush record.
 static bool do_flush(ringbuf *ring, uint64_t to_usec)
 {
-	uint64_t seq = ring->inc_seqnum();
 	uint64_t to = 0;
 
 	// Wait for some room in the ringbuf
@@ -67,7 +66,7 @@ static bool do_flush(ringbuf *ring, uint64_t to_usec)
 	// Push the flush reccord
 	record *r = ring->push_begin();
 	r->timestamp = ring->timestamp();
-	r->seqnum    = seq;
+	r->seqnum    = ring->inc_seqnum();
 	r->special(internal::SPR_FLUSH);
 	ring->push_commit(r);
 
diff --git a/src/timesource.cc b/src/timesource.cc
index 9cd84cd..f3b17db 100644
--- a/src/timesource.cc
+++ b/src/timesource.cc
@@ -57,7 +57,6 @@ extern bool timeout(uint64_t &to, uint64_t usec);
 // records out of this ring will ack the ts change record.
 static bool do_change_timesource(ringbuf *ring, timesource *ts, uint64_t to_usec)
 {
-	uint64_t seq = ring->inc_seqnum();
 	uint64_t to = 0;
 
 	// Wait for some room in the ringbuf
@@ -69,7 +68,7 @@ static bool do_change_timesource(ringbuf *ring, timesource *ts, uint64_t to_usec
 	// Push the timesource change reccord
 	record *r = ring->push_begin();
 	r->timestamp = ring->timestamp();
-	r->seqnum    = seq;
+	r->seqnum    = ring->inc_seqnum();
 	r->special(internal::SPR_TIMESOURCE_CHANGE, (uint64_t) ts);
 	ring->push_commit(r);
 
-- 
2.43.0


From e925598e4ac10afafef34f0f796bb88fbe85d889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 09/60] fix: output data is lost on short and interrupted
 writes

---
 include/hogl/detail/ostrbuf-fd.hpp | 14 +++++++++
 src/ostrbuf-fd.cc                  | 47 ++++++++++++++++++++++++++++--
 src/output-file.cc                 | 10 ++++---
 3 files changed, 65 insertions(+), 6 deletions(-)

diff --git a/include/hogl/detail/ostrbuf-fd.hpp b/include/hogl/detail/ostrbuf-fd.hpp
index 8fd80dd..630485c 100644
--- a/include/hogl/detail/ostrbuf-fd.hpp
+++ b/include/hogl/detail/ostrbuf-fd.hpp
@@ -32,6 +32,9 @@
 #ifndef HOGL_DETAIL_OSTRBUF_FD_HPP
 #define HOGL_DETAIL_OSTRBUF_FD_HPP
 
+#include <sys/types.h>
+#include <sys/uio.h>
+
 #include <hogl/detail/ostrbuf.hpp>
 
 __HOGL_PRIV_NS_OPEN__
@@ -59,6 +62,17 @@ public:
 	// Explicitly close the file descriptor
 	void close(); 
 
+	/**
+	 * Write all data described by the iovec.
+	 * Same as ::writev() but continues after short and interrupted writes.
+	 * @param fd file descriptor
+	 * @param iov pointer to the iovec
+	 * @param iovcnt number of entries in the iovec
+	 * @param [out] size number of bytes that were actually written
+	 * @return true if everything was written, false otherwise (see errno)
+	 */
+	static bool writev(int fd, const struct iovec *iov, int iovcnt, size_t &size);
+
 	/**
 	 * Constructor.
 	 * @param fd file descriptor
diff --git a/src/ostrbuf-fd.cc b/src/ostrbuf-fd.cc
index bf8737f..7152866 100644
--- a/src/ostrbuf-fd.cc
+++ b/src/ostrbuf-fd.cc
@@ -40,6 +40,49 @@
 __HOGL_PRIV_NS_OPEN__
 namespace hogl {
 
+bool ostrbuf_fd::writev(int fd, const struct iovec *iov, int iovcnt, size_t &size)
+{
+	size = 0;
+
+	// Normally everything gets written in one shot
+	ssize_t n;
+	do {
+		n = ::writev(fd, iov, iovcnt);
+	} while (n < 0 && errno == EINTR);
+	if (n < 0)
+		return false;
+	size = n;
+
+	// Write out the rest
+	size_t skip = n;
+	for (int i = 0; i < iovcnt; i++) {
+		if (skip >= iov[i].iov_len) {
+			skip -= iov[i].iov_len;
+			continue;
+		}
+
+		const uint8_t *data = (const uint8_t *) iov[i].iov_base + skip;
+		size_t         len  = iov[i].iov_len - skip;
+		skip = 0;
+
+		while (len) {
+			n = ::write(fd, data, len);
+			if (n < 0 && errno == EINTR)
+				continue;
+			if (n <= 0) {
+				if (!n)
+					errno = EIO;
+				return false;
+			}
+			data += n;
+			len  -= n;
+			size += n;
+		}
+	}
+
+	return true;
+}
+
 void ostrbuf_fd::do_flush(const uint8_t *data, size_t len)
 {
 	if (failed())
@@ -63,8 +106,8 @@ void ostrbuf_fd::do_flush(const uint8_t *data, size_t len)
 	}
 
 	if (i) {
-		int r = ::writev(_fd, iov, i);
-		if (r < 0)
+		size_t n;
+		if (!writev(_fd, iov, i, n))
 			ostrbuf::failure(strerror(errno));
 	}
 
diff --git a/src/output-file.cc b/src/output-file.cc
index 0eea4de..67fe795 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -75,7 +75,7 @@ private:
 		}
 
 		if (i) {
-			int r = _of.writev(iov, i);
+			ssize_t r = _of.writev(iov, i);
 			if (r < 0)
 				ostrbuf::failure(strerror(errno));
 		}
@@ -310,9 +310,11 @@ ssize_t output_file::writev(const struct iovec *iov, int iovcnt)
 
 	pthread_mutex_lock(&_write_mutex);
 
-	n = ::writev(_fd, iov, iovcnt);
-	if (n > 0) {
-		_size += n;
+	size_t wr;
+	bool ok = ostrbuf_fd::writev(_fd, iov, iovcnt, wr);
+	n = ok ? (ssize_t) wr : -1;
+	if (wr > 0) {
+		_size += wr;
 		if (_size >= _max_size && !_rotate_pending) {
 			// Try to wakeup rotation thread.
 			// If we can't lock the mutex that means the rotation thread 
-- 
2.43.0


From dfba001357b5f67c7ba4739c23a4228b5de2e4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 10/60] fix: output_file may hang on delete or stop rotating if
 the helper thread misses the signal

---
 src/output-file.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index 67fe795..a1d6976 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -422,15 +422,16 @@ void output_file::thread_loop()
 
 	pthread_mutex_lock(&_rotate_mutex);
 
-	while (1) {
-		pthread_cond_wait(&_rotate_cond, &_rotate_mutex);
-		if (_killed)
-			break;
-
-		if (_rotate_pending) {
-			do_rotate();
-			_rotate_pending = false;
+	// Requests may come in while we're starting up, rotating, etc.
+	// So the state must be checked before going to sleep.
+	while (!_killed) {
+		if (!_rotate_pending) {
+			pthread_cond_wait(&_rotate_cond, &_rotate_mutex);
+			continue;
 		}
+
+		do_rotate();
+		_rotate_pending = false;
 	}
 
 	pthread_mutex_unlock(&_rotate_mutex);
-- 
2.43.0


From 023a3600d586b369d0952c03904a694a86c08cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 11/60] fix: output_file helper thread uses an object that is
 not constructed yet

---
 src/output-file.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index a1d6976..4dae238 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -254,13 +254,6 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 	pthread_mutex_init(&_rotate_mutex, NULL);
 	pthread_cond_init(&_rotate_cond, NULL);
 
-	// Start helper thread
-	int err = pthread_create(&_rotate_thread, NULL, thread_entry, (void *) this);
-	if (err) {
-		fmt::fprintf(stderr, "hogl::output_file: failed to start helper thread. %d\n", err);
-		throw std::runtime_error("hogl::output_file: failed to start helper thread.");
-	}
-
 	init_name(filename);
 
 	_fd = open(_name.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, _mode);
@@ -276,6 +269,16 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 	output::header(_name.c_str());
 
 	update_link();
+
+	// Start helper thread.
+	// This must be the last step because the thread uses most of the state initialized above,
+	// and must not be left behind if something above throws.
+	int err = pthread_create(&_rotate_thread, NULL, thread_entry, (void *) this);
+	if (err) {
+		fmt::fprintf(stderr, "hogl::output_file: failed to start helper thread. %d\n", err);
+		close(_fd);
+		throw std::runtime_error("hogl::output_file: failed to start helper thread.");
+	}
 }
 
 output_file::~output_file()
-- 
2.43.0


From 9ba85ce2bb028e8fe9360b02a6fddcb680ed615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:48 +0000
Subject: [PATCH 12/60] fix: output_file symlink is dangling if the file name
 is relative and has a directory

---
 src/output-file.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index 4dae238..90f4af0 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -122,6 +122,16 @@ void output_file::update_name()
 	_name = ss.str();
 }
 
+// Symlink target is resolved relative to the directory of the symlink itself.
+// Chunks live in the same directory, so strip it off the relative names.
+static std::string link_target(const std::string &name)
+{
+	size_t slash = name.rfind('/');
+	if (slash == name.npos || name[0] == '/')
+		return name;
+	return name.substr(slash + 1);
+}
+
 // Update symlink.
 // Creates a temp symlink that points to the new file and renames it
 // on top of the old symlink.
@@ -130,7 +140,7 @@ void output_file::update_link()
 	std::string link = _symlink + "$";
 	remove(link.c_str());
 
-	int err = symlink(_name.c_str(), link.c_str());
+	int err = symlink(link_target(_name).c_str(), link.c_str());
 	if (err < 0)
 		fmt::fprintf(stderr, "hogl::output_file: failed to create symlink %s -> %s. %s(%d)\n",
 			_name.c_str(), _symlink.c_str(), strerror(errno), errno);
@@ -155,19 +165,20 @@ unsigned int output_file::read_link()
 		return 0;
 	}
 
-	std::string str(cstr, rlen);
+	std::string str = link_target(std::string(cstr, rlen));
+	std::string pref = link_target(_name_pref);
 
 	size_t pos;
 
 	// Validate and strip prefix
-	pos = str.find(_name_pref);
+	pos = str.find(pref);
 	if (pos != 0) {
 		// Prefix does not match.
 		// Looks like the link is pointing to something else.
 		// Ignore, we'll fix it during update.
 		return 0;
 	}
-	str = str.substr(_name_pref.size());
+	str = str.substr(pref.size());
 
 	// Validate and strip suffix
 	if (_name_sufx.size()) {
-- 
2.43.0


From 49358df22afe42f2b5e9a3a979c5f165215a24ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 13/60] fix: engine crashes or hangs on xdump that did not fit,
 zero byte width and zero line width

---
 src/format-basic.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/format-basic.cc b/src/format-basic.cc
index b6dc737..b538e4e 100644
--- a/src/format-basic.cc
+++ b/src/format-basic.cc
@@ -68,19 +68,21 @@ format_basic::format_basic(const char *fields) :
 
 static void do_hexdump(hogl::ostrbuf &sb, const uint8_t *data, uint32_t n, const hogl::arg_xdump::format& xf)
 {
+	const unsigned int width = xf.line_width ? xf.line_width : n; // zero means single line
+
 	unsigned int offset;
-	for (offset = 0; offset < n; offset += xf.line_width) {
+	for (offset = 0; offset < n; offset += width) {
 		sb.printf("\n\t%03d: ", offset);
 
 		unsigned int i;
-		for (i = 0; i < xf.line_width; i++) {
+		for (i = 0; i < width; i++) {
 			if ((i + offset) < n)
 				sb.printf("%02x ", data[offset + i]);
 			else
 				sb.push_back("   ");
 		}
 		sb.push_back("  ");
-		for (i = 0; i < xf.line_width && ((i + offset) < n); i++) {
+		for (i = 0; i < width && ((i + offset) < n); i++) {
 			uint8_t b = data[offset + i];
 			sb.push_back(isprint(b) ? b : '.');
 		}
@@ -147,9 +149,19 @@ static const char* __dbl_fmt(unsigned int pr)
 
 static void do_xdump(hogl::ostrbuf &sb, const uint8_t *data, uint32_t len)
 {
+	// There is no data if it did not fit into the record
+	if (len < sizeof(arg_xdump::format)) {
+		sb.push_back("null");
+		return;
+	}
+
 	const arg_xdump::format& xf = *(const arg_xdump::format *) data;
 
 	const uint8_t *ptr = data + sizeof(arg_xdump::format);
+	if (!xf.byte_width) {
+		sb.printf("xdump byte width %u not supported", 0U);
+		return;
+	}
 	len = (len - sizeof(arg_xdump::format)) / xf.byte_width;
 
 	switch (xf.type) {
-- 
2.43.0


From ac4b40ca4fdb7767ef61bcd188dd1b0640ef37ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 14/60] fix: null global string terminates the process from the
 engine thread

---
 src/format-basic.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/format-basic.cc b/src/format-basic.cc
index b538e4e..6b127c9 100644
--- a/src/format-basic.cc
+++ b/src/format-basic.cc
@@ -528,6 +528,8 @@ static const char* get_arg_str(const record& r, unsigned int type, unsigned int
 		ptr = r.get_arg_val32(i);
 	else
 		ptr = r.get_arg_val64(i);
+	if (!ptr)
+		return "null";
 	return (const char *) ptr;
 }
 
-- 
2.43.0


From 26f57c6124bf2bd0d1264a995134cfaa4eaef034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:37 +0000
Subject: [PATCH 15/60] fix: cpu affinity masks and lists select wrong cpus

---
 src/schedparam.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/schedparam.cc b/src/schedparam.cc
index 3f15ad3..7977470 100644
--- a/src/schedparam.cc
+++ b/src/schedparam.cc
@@ -151,7 +151,7 @@ struct cpumask {
 static int parse_cpulist(const std::string& str, cpumask& mask)
 {
 	const char *p = str.c_str();
-	unsigned int a, b;
+	unsigned long a, b;
 	do {
 		if (!isdigit(*p)) return EINVAL;
 
@@ -185,8 +185,11 @@ static int parse_cpumask(const std::string& str, cpumask& mask)
 		return errno;
 	if (eptr != sptr + str.size())
 		return EINVAL;
-	for (unsigned int i=0; i < mask.ncpus; i++)
-		if (m & (1<<i)) mask.set(i);
+	for (unsigned int i=0; i < 64 && (m >> i); i++) {
+		if (!(m & (1ULL << i))) continue;
+		if (i >= mask.ncpus) return ERANGE;
+		mask.set(i);
+	}
 	return 0;
 }
 
-- 
2.43.0


From 285f0c431bfb70528e132a46946cb6a2aa7d4f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:37 +0000
Subject: [PATCH 16/60] fix: activate() accepts default ring that is not shared
 or not immortal

---
 src/default-engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/default-engine.cc b/src/default-engine.cc
index 336be86..d0561aa 100644
--- a/src/default-engine.cc
+++ b/src/default-engine.cc
@@ -64,7 +64,7 @@ void activate(output &out, const engine::options &engine_opts)
 
 	// Default ringbuf must be shared and immortal.
 	// We check here because user app is allowed to replace default options.
-	if (!default_ring.immortal() && !default_ring.shared())
+	if (!default_ring.immortal() || !default_ring.shared())
 		throw std::logic_error("hogl::activate default ring properties not valid");
 
 	// Initialize default engine
-- 
2.43.0


From ffd53d2c5585bc70f6577be5c1b01bd62cb92731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 17/60] fix: C API silently loses arguments of some types (long
 long, char, bool, typed pointers)

---
 include/hogl/c-api/post.h | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/hogl/c-api/post.h b/include/hogl/c-api/post.h
index c10119b..c7737e8 100644
--- a/include/hogl/c-api/post.h
+++ b/include/hogl/c-api/post.h
@@ -59,7 +59,7 @@
 static inline void __hogl_strarg(struct hogl_arg *arg, const char *str)
 {
 	arg->type = HOGL_ARG_CSTR;
-	arg->len  = strlen(str);
+	arg->len  = str ? strlen(str) : 0;
 	arg->val  = (unsigned long) str;
 }
 
@@ -124,7 +124,31 @@ do {									\
 			un.s64 = *(int8_t *)__hogl_p;					\
 			args[i].type = HOGL_ARG_INT32;				\
 		} else								\
-		if (__builtin_types_compatible_p (typeof(__hogl_x), void *)) {	\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), unsigned long long)) {\
+			un.u64 = *(unsigned long long *)__hogl_p;		\
+			args[i].type = HOGL_ARG_UINT64;				\
+		} else								\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), long long)) {	\
+			un.s64 = *(long long *)__hogl_p;			\
+			args[i].type = HOGL_ARG_INT64;				\
+		} else								\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), unsigned long)) {\
+			un.u64 = *(unsigned long *)__hogl_p;			\
+			args[i].type = sizeof(long) == 8 ? HOGL_ARG_UINT64 : HOGL_ARG_UINT32;\
+		} else								\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), long)) {	\
+			un.s64 = *(long *)__hogl_p;				\
+			args[i].type = sizeof(long) == 8 ? HOGL_ARG_INT64 : HOGL_ARG_INT32;\
+		} else								\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), char)) {	\
+			un.s64 = *(char *)__hogl_p;				\
+			args[i].type = HOGL_ARG_INT32;				\
+		} else								\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), _Bool)) {	\
+			un.u64 = *(_Bool *)__hogl_p;				\
+			args[i].type = HOGL_ARG_UINT32;				\
+		} else								\
+		if (__builtin_classify_type(__hogl_x) == 5 /* any pointer */) {	\
 			un.u64 = (unsigned long) __hogl_x;			\
 			args[i].type = HOGL_ARG_POINTER;			\
 		} else {							\
-- 
2.43.0


From bb4496cf576f93f784bbe5a402ee9866b70c1321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 18/60] fix: null global string crashes raw format

---
 src/format-raw.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/format-raw.cc b/src/format-raw.cc
index 7b7e2b9..d1c422e 100644
--- a/src/format-raw.cc
+++ b/src/format-raw.cc
@@ -60,6 +60,8 @@ private:
 	template <typename T>
 	void add_str(const char *str)
 	{
+		if (!str)
+			str = "null";
 		add_str<T>(str, strlen(str));
 	}
 
-- 
2.43.0


From 0704c986740bc650f188bff9ffcdd1e394bab72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 19/60] fix: hogl-cook overruns the record buffer on large or
 malformed records

---
 tools/raw-parser.cc  | 19 ++++++++++++-------
 tools/raw-parser.hpp | 23 +++++++++++++++++++----
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/tools/raw-parser.cc b/tools/raw-parser.cc
index dda1b62..87ba9cf 100644
--- a/tools/raw-parser.cc
+++ b/tools/raw-parser.cc
@@ -67,7 +67,8 @@ void raw_parser::read_args(hogl::record &r)
 {
 	if (_failed) return;
 
-	unsigned long offset = 16 * 8;
+	const unsigned long argsize = hogl::record::argval_size();
+	unsigned long offset = argsize;
 
 	r.argtype = read_uint<uint64_t>("argtype");
 
@@ -77,6 +78,9 @@ void raw_parser::read_args(hogl::record &r)
 		unsigned int type = r.get_arg_type(i);
 		unsigned long n;
 
+		// Room left in the record buffer
+		const unsigned long room = _max_data - (offset - argsize);
+
 		switch (type) {
 		case arg::NONE:
 			return;
@@ -88,7 +92,8 @@ void raw_parser::read_args(hogl::record &r)
 			r.set_arg_type(i, hogl::arg::CSTR);
 			// fall through
 		case arg::CSTR:
-			n = read_str<uint16_t>((char *) r.argval + offset, "cstr-arg");
+			n = read_str<uint16_t>((char *) r.argval + offset, room, "cstr-arg");
+			if (_failed) return;
 			r.set_arg_data(i, offset, n - 1);
 			offset += n;
 			break;
@@ -96,9 +101,9 @@ void raw_parser::read_args(hogl::record &r)
 		case arg::XDUMP:
 		case arg::RAW:
 			if (_ver == V1)
-				n = read_blob<uint16_t>((char *) r.argval + offset, "raw-arg");
+				n = read_blob<uint16_t>((char *) r.argval + offset, room, "raw-arg");
 			else
-				n = read_blob<uint32_t>((char *) r.argval + offset, "raw-arg");
+				n = read_blob<uint32_t>((char *) r.argval + offset, room, "raw-arg");
 
 			r.set_arg_data(i, offset, n);
 			offset += n;
@@ -115,13 +120,13 @@ void raw_parser::read_args(hogl::record &r)
 }
 
 raw_parser::raw_parser(hogl::rdbuf &in, unsigned int ver, unsigned int max_record_size) :
-	_in(in), _ver(ver)
+	_in(in), _ver(ver), _max_data(max_record_size)
 {
 	reset();
 
 	// Allocate nicely aligned buffer for the dummy record 
 	// we're going to populate with data read from the file.
-	int err = posix_memalign((void **)&_record, 64, max_record_size);
+	int err = posix_memalign((void **)&_record, 64, sizeof(hogl::record) + (size_t) max_record_size);
 	if (err) {
 		_error << "init: failed to allocate record buffer. "
 			<< strerror(errno) << "(" <<  errno << ")";
@@ -171,7 +176,7 @@ static bool valid_name(const char *str)
 
 void raw_parser::read_name(char *str, const char *stage)
 {
-	read_str<uint8_t>(str, stage);
+	read_str<uint8_t>(str, _area.MAX_NAME_LEN, stage);
 
 	if (_failed) return;
 
diff --git a/tools/raw-parser.hpp b/tools/raw-parser.hpp
index 1177e8b..77efbe0 100644
--- a/tools/raw-parser.hpp
+++ b/tools/raw-parser.hpp
@@ -70,6 +70,7 @@ private:
 	char              *_ring_name;   // ringbuffer name for last record
 
 	unsigned int       _ver;
+	unsigned long      _max_data;    // max number of bytes for strings, blobs, etc
 
 	// Read uint from the input stream
 	template <typename T>
@@ -84,9 +85,10 @@ private:
 		return v;
 	}
 
-	// Read a blob from the input stream
+	// Read a blob from the input stream.
+	// Fails if the blob does not fit into the buffer.
 	template <typename T>
-	unsigned long read_blob(char *data, const char *stage = "")
+	unsigned long read_blob(char *data, unsigned long room, const char *stage = "")
 	{
 		if (_failed) return 0;
 
@@ -94,6 +96,12 @@ private:
 		if (_failed || !len)
 			return 0;
 
+		if (len > room) {
+			_error << "format: not enough room for blob @ " << stage;
+			_failed = true;
+			return 0;
+		}
+
 		_failed = ! _in.read(data, len);
 		if (_failed) {
 			_error << "input: failed to read blob @ " << stage;
@@ -106,11 +114,18 @@ private:
 	// Strings are guarantied to be null-terminated
 	// Returns string length including the null-terminator.
 	template <typename T>
-	unsigned long read_str(char *str, const char *stage = "")
+	unsigned long read_str(char *str, unsigned long room, const char *stage = "")
 	{
 		if (_failed) return 0;
 
-		unsigned long len = read_blob<T>(str, stage);
+		// Save room for null-terminator
+		if (!room) {
+			_error << "format: not enough room for string @ " << stage;
+			_failed = true;
+			return 0;
+		}
+
+		unsigned long len = read_blob<T>(str, room - 1, stage);
 
 		if (_failed) return 0;
 
-- 
2.43.0


From 25666422ddbbf91924f1a9fbda446e1934c34b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 20/60] fix: hogl-cook shows empty global strings as null

---
 tools/raw-parser.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tools/raw-parser.cc b/tools/raw-parser.cc
index 87ba9cf..286b2f6 100644
--- a/tools/raw-parser.cc
+++ b/tools/raw-parser.cc
@@ -96,6 +96,14 @@ void raw_parser::read_args(hogl::record &r)
 			if (_failed) return;
 			r.set_arg_data(i, offset, n - 1);
 			offset += n;
+
+			// Empty CSTR means null string.
+			// GSTR that is not null must remain empty.
+			if (type == arg::GSTR && n == 1) {
+				r.clear_arg_type(i);
+				r.set_arg_type(i, hogl::arg::GSTR);
+				r.set_arg_val64(i, (uint64_t) (unsigned long) "");
+			}
 			break;
 
 		case arg::XDUMP:
-- 
2.43.0


From 29f65adb4c0ab91d206155a30cbcc642318871aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:52 +0000
Subject: [PATCH 21/60] fix: first record of a ring that was used before
 registration is reported as a drop

---
 include/hogl/detail/engine.hpp |  1 +
 src/engine.cc                  | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/include/hogl/detail/engine.hpp b/include/hogl/detail/engine.hpp
index da357ae..d194ad6 100644
--- a/include/hogl/detail/engine.hpp
+++ b/include/hogl/detail/engine.hpp
@@ -94,6 +94,7 @@ public:
 			ringbuf::pop_iterator pit;
 			record   *lastrec;
 			uint64_t  seqnum;
+			bool      fresh;   // No records from this ring yet, expected seqnum is not known
 		};
 
 		entry         *entries;
diff --git a/src/engine.cc b/src/engine.cc
index e5fd666..62597f3 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -219,10 +219,12 @@ void engine::rebuild_ring_index()
 		ni(i)->pit.ring(ring);
 		ni(i)->lastrec = 0;
 		ni(i)->seqnum    = 0;
+		ni(i)->fresh     = true;
 
 		ring_index::entry *re = oi(ring);
 		if (re) {
 			ni(i)->seqnum = re->seqnum;
+			ni(i)->fresh  = re->fresh;
 		}
 	}
 
@@ -374,6 +376,14 @@ void engine::do_flush_tso(unsigned int size)
 
 		const ringbuf *ring = _ring_index(i)->pit.ring();
 
+		// The ring may have been used before it was registered with this engine
+		// (another engine, default ring after re-activation, etc). Its first record
+		// is where the sequence starts for us.
+		if (hogl_unlikely(_ring_index(i)->fresh)) {
+			_ring_index(i)->seqnum = r->seqnum;
+			_ring_index(i)->fresh  = false;
+		}
+
 		// Check for dropped records by comparing sequence numbers
 		if (r->seqnum != _ring_index(i)->seqnum) {
 			// Detected a drop
-- 
2.43.0


From e7a1a236442a8c2cd87fb2c0e2eeeccc911c7d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 22/60] fix: hogl-recover crashes on global strings in
 arguments past the eighth

---
 tools/recovery-engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 7eef43e..2328982 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -311,7 +311,7 @@ void recovery_engine::fixup_records(ringbuf *ring)
 		r->area = fixup_area(r->area);
 
 		unsigned int i;
-		for (i=0; i < 8; i++) {
+		for (i=0; i < record::NARGS; i++) {
 			unsigned int type = r->get_arg_type(i);
 			switch (type) {
 			case arg::GSTR:
-- 
2.43.0


From 94fa4f23fc6b502c345f5ef1afb3d8cced0bbdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 23/60] fix: hogl-recover loses records with equal timestamps

---
 tools/recovery-engine.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/recovery-engine.hpp b/tools/recovery-engine.hpp
index dc049ec..426dbfa 100644
--- a/tools/recovery-engine.hpp
+++ b/tools/recovery-engine.hpp
@@ -59,7 +59,8 @@ private:
 		}
 	};
 
-	typedef std::set<record_entry, record_sorter> record_set;
+	// Records from different rings may have equal timestamps
+	typedef std::multiset<record_entry, record_sorter> record_set;
 	typedef std::map<uint64_t, area*> area_map;
 	typedef std::map<uint64_t, timesource*> timesource_map;
 	typedef std::map<uint64_t, ostrbuf *>   ostrbuf_map;
-- 
2.43.0


From b3ecced1b446abac5c64239f52bef7391f871c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 24/60] fix: hogl-recover --all skips pending records at the
 edges of the ring

---
 tools/recovery-engine.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 2328982..8b9763f 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -166,9 +166,8 @@ public:
 			return false;
 
 		if (reset) {
-			// Reset head/tail for dumping the entire ring
-			r->_head = 0;
-			r->_tail = r->_capacity;
+			// Reset head for dumping the entire ring (full ring, ends at the current tail)
+			r->_head = r->_tail;
 		}
 
 		return true;
-- 
2.43.0


From 94b351599df4c6a8607565f2dba01c022e013f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 25/60] fix: hogl-recover passes buffer size as ostrbuf flags

---
 tools/recovery-engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 8b9763f..906363a 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -431,7 +431,7 @@ void recovery_engine::dump_records()
 
 	// Iterate over sorted record set, format the records
 	// and pipe them to stdout
-	ostrbuf_stdio sb(stdout, 64*1024);
+	ostrbuf_stdio sb(stdout, 0, 64*1024);
 
 	record_set::const_iterator rec_it;
 	for (rec_it = _records.begin(); rec_it != _records.end(); ++rec_it) {
-- 
2.43.0


From bc890ae2f7839d58e5f8271352232ae53e5219b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 26/60] fix: ostrbuf-stdio.hpp and ostrbuf-fd.hpp share the
 include guard

---
 include/hogl/detail/ostrbuf-stdio.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/hogl/detail/ostrbuf-stdio.hpp b/include/hogl/detail/ostrbuf-stdio.hpp
index 15e87eb..b9b58e3 100644
--- a/include/hogl/detail/ostrbuf-stdio.hpp
+++ b/include/hogl/detail/ostrbuf-stdio.hpp
@@ -29,8 +29,8 @@
  * String buffer with output to a file descriptor
  */
 
-#ifndef HOGL_DETAIL_OSTRBUF_FD_HPP
-#define HOGL_DETAIL_OSTRBUF_FD_HPP
+#ifndef HOGL_DETAIL_OSTRBUF_STDIO_HPP
+#define HOGL_DETAIL_OSTRBUF_STDIO_HPP
 
 #include <stdio.h>
 
@@ -80,4 +80,4 @@ public:
 __HOGL_PRIV_NS_CLOSE__
 
 
-#endif // HOGL_DETAIL_OSTRBUF_FD_HPP
+#endif // HOGL_DETAIL_OSTRBUF_STDIO_HPP
-- 
2.43.0


From 2196702459202f89ef067303859da32372dbabd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:20 +0000
Subject: [PATCH 27/60] fix: engine overruns the tso buffer if its capacity is
 1

---
 src/engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.cc b/src/engine.cc
index 62597f3..f6cb35d 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -408,7 +408,7 @@ void engine::do_flush_tso(unsigned int size)
 // We only flush half of it to avoid flushing records out-of-order.
 void engine::flush_full_tso()
 {
-	unsigned int size  = _tso.size() / 2;
+	unsigned int size  = (_tso.size() + 1) / 2;
 
 	if (_internal_area->test(internal::TSOFULLMARK)) {
 		tsobuf::entry te = {};
-- 
2.43.0


From 4fdb77df46d74c091a4656a1884a149c7f9c1063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:56 +0000
Subject: [PATCH 28/60] verification hooks: observable barriers and ring
 indexes (HOGL_VERIF builds only)

---
 include/hogl/detail/barrier.hpp | 19 +++++++++++++++++++
 include/hogl/detail/ringbuf.hpp |  6 ++++++
 2 files changed, 25 insertions(+)

diff --git a/include/hogl/detail/barrier.hpp b/include/hogl/detail/barrier.hpp
index 1372555..888c8be 100644
--- a/include/hogl/detail/barrier.hpp
+++ b/include/hogl/detail/barrier.hpp
@@ -46,6 +46,14 @@ namespace barrier {
  */
 static hogl_force_inline void compiler() { asm volatile("": : :"memory"); }
 
+#ifdef HOGL_VERIF
+// Verification builds only: the arch specific barriers below get renamed and
+// wrapped so that test tools can see (and delay) them.
+#define memrw hogl_verif_arch_memrw
+#define memr  hogl_verif_arch_memr
+#define memw  hogl_verif_arch_memw
+#endif
+
 #if (defined(__i386__) || defined(__x86_64__))
 #include <hogl/detail/barrier-x86.hpp>
 #elif (defined(__ARM_ARCH_7A__)) || (defined(__aarch64__))
@@ -57,6 +65,17 @@ static hogl_force_inline void compiler() { asm volatile("": : :"memory"); }
 #error Unsupported CPU
 #endif
 
+#ifdef HOGL_VERIF
+#undef memrw
+#undef memr
+#undef memw
+enum { VERIF_MEMRW, VERIF_MEMR, VERIF_MEMW };
+extern "C" void hogl_verif_barrier(int kind) __attribute__((weak));
+static hogl_force_inline void memrw() { if (hogl_verif_barrier) hogl_verif_barrier(VERIF_MEMRW); hogl_verif_arch_memrw(); }
+static hogl_force_inline void memr()  { if (hogl_verif_barrier) hogl_verif_barrier(VERIF_MEMR);  hogl_verif_arch_memr(); }
+static hogl_force_inline void memw()  { if (hogl_verif_barrier) hogl_verif_barrier(VERIF_MEMW);  hogl_verif_arch_memw(); }
+#endif
+
 } // namespace barrier
 } // namespace hogl
 __HOGL_PRIV_NS_CLOSE__
diff --git a/include/hogl/detail/ringbuf.hpp b/include/hogl/detail/ringbuf.hpp
index 92d2073..13f3516 100644
--- a/include/hogl/detail/ringbuf.hpp
+++ b/include/hogl/detail/ringbuf.hpp
@@ -68,7 +68,13 @@ protected:
 	friend class engine;
 	friend class recovery_engine;
 
+#if defined(HOGL_VERIF) && defined(HOGL_VERIF_INDEX)
+	// Verification builds only: index type that tells race detectors about
+	// the fence based publication of the records.
+	typedef HOGL_VERIF_INDEX vo_uint;
+#else
 	typedef volatile unsigned int vo_uint;
+#endif
 
 	// Magic number
 	magic           _magic;
-- 
2.43.0


From dc4a0b3ffc6c6f1aaf11c16c22bb5debd381938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:56 +0000
Subject: [PATCH 29/60] fix: rings of 4GB and more overrun their record buffers

---
 include/hogl/detail/ringbuf.hpp | 2 +-
 src/ringbuf.cc                  | 6 ++++--
 tools/recovery-engine.cc        | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/hogl/detail/ringbuf.hpp b/include/hogl/detail/ringbuf.hpp
index 13f3516..cfae071 100644
--- a/include/hogl/detail/ringbuf.hpp
+++ b/include/hogl/detail/ringbuf.hpp
@@ -122,7 +122,7 @@ protected:
  	 */
 	record* get_record(unsigned int i)
 	{
-		return (record *) (_rec_top + (i << _rec_shift));
+		return (record *) (_rec_top + ((size_t) i << _rec_shift));
 	}
 
 	/**
diff --git a/src/ringbuf.cc b/src/ringbuf.cc
index 2590974..ee62705 100644
--- a/src/ringbuf.cc
+++ b/src/ringbuf.cc
@@ -115,12 +115,14 @@ ringbuf::ringbuf(const char *name, const options &opts) :
 
 	// Allocate record buffers
 	_rec_top = 0;
-	err = posix_memalign((void **) &_rec_top, sysconf(_SC_PAGESIZE), capacity() * record_size());
+	// (size_t, large rings do not fit into 32 bits)
+	const size_t size = (size_t) capacity() * record_size();
+	err = posix_memalign((void **) &_rec_top, sysconf(_SC_PAGESIZE), size);
 	if (err && !_rec_top) {
 		_capacity = 0;
 		return;
 	}
-	memset(_rec_top, 0, capacity() * record_size());
+	memset(_rec_top, 0, size);
 
 	// Init ringbuf mutex.
 	// Enable priority inherintance.
diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 906363a..8d9a976 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -160,7 +160,7 @@ public:
 			return false;
 
 		r->_name    = (char *)    core.remap(r->_name);
-		r->_rec_top = (uint8_t *) core.remap(r->_rec_top, r->record_size() * r->capacity());
+		r->_rec_top = (uint8_t *) core.remap(r->_rec_top, (size_t) r->record_size() * r->capacity());
 
 		if (!r->_name || !r->_rec_top)
 			return false;
-- 
2.43.0


From 4b4f1537de66094921e622b6bc9484bb2fc5377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:13 +0000
Subject: [PATCH 30/60] fix: '-' flag is ignored by %c

---
 include/hogl/fmt/printf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hogl/fmt/printf.h b/include/hogl/fmt/printf.h
index a790228..06d781b 100644
--- a/include/hogl/fmt/printf.h
+++ b/include/hogl/fmt/printf.h
@@ -246,7 +246,7 @@ class printf_arg_formatter : public internal::arg_formatter_base<Range> {
         return (*this)(static_cast<int>(value));
       fmt_specs.sign = sign::none;
       fmt_specs.alt = false;
-      fmt_specs.align = align::right;
+      if (fmt_specs.align != align::left) fmt_specs.align = align::right;
       return base::operator()(value);
     } else {
       return base::operator()(value);
-- 
2.43.0


From 2f2e62d73b9297a2b7001f8f80ad1aa477cabfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:13 +0000
Subject: [PATCH 31/60] fix: ' ' flag overrides '+' in format strings

---
 include/hogl/fmt/printf.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/hogl/fmt/printf.h b/include/hogl/fmt/printf.h
index 06d781b..2f91246 100644
--- a/include/hogl/fmt/printf.h
+++ b/include/hogl/fmt/printf.h
@@ -389,7 +389,8 @@ void basic_printf_context<OutputIt, Char>::parse_flags(format_specs& specs,
       specs.fill[0] = '0';
       break;
     case ' ':
-      specs.sign = sign::space;
+      // The '+' flag takes precedence.
+      if (specs.sign != sign::plus) specs.sign = sign::space;
       break;
     case '#':
       specs.alt = true;
-- 
2.43.0


From e7dd4d1409f1ed33d532cf8839ec82c9c6ed105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:13 +0000
Subject: [PATCH 32/60] fix: '0' flag overrides '-' and integer precision in
 format strings

---
 include/hogl/fmt/printf.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/hogl/fmt/printf.h b/include/hogl/fmt/printf.h
index 2f91246..a0471ec 100644
--- a/include/hogl/fmt/printf.h
+++ b/include/hogl/fmt/printf.h
@@ -494,10 +494,13 @@ OutputIt basic_printf_context<OutputIt, Char>::format() {
     if (specs.alt && visit_format_arg(internal::is_zero_int(), arg))
       specs.alt = false;
     if (specs.fill[0] == '0') {
-      if (arg.is_arithmetic())
+      // Ignore '0' flag for non-numeric types, if the '-' flag is present,
+      // and if precision is specified for an integer.
+      if (arg.is_arithmetic() && specs.align != align::left &&
+          !(arg.is_integral() && specs.precision >= 0))
         specs.align = align::numeric;
       else
-        specs.fill[0] = ' ';  // Ignore '0' flag for non-numeric types.
+        specs.fill[0] = ' ';
     }
 
     // Parse length and convert the argument to the required type.
-- 
2.43.0


From 0b430caa927c1bd6ddf4e3d0bf30f4eb350bcd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:13 +0000
Subject: [PATCH 33/60] fix: negative precision argument is taken as zero

---
 include/hogl/fmt/printf.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/hogl/fmt/printf.h b/include/hogl/fmt/printf.h
index a0471ec..e6a2a2e 100644
--- a/include/hogl/fmt/printf.h
+++ b/include/hogl/fmt/printf.h
@@ -40,7 +40,8 @@ class printf_precision_handler {
   int operator()(T value) {
     if (!int_checker<std::numeric_limits<T>::is_signed>::fits_in_int(value))
       FMT_THROW(format_error("number is too big"));
-    return (std::max)(static_cast<int>(value), 0);
+    // Negative precision is taken as if it was omitted.
+    return (std::max)(static_cast<int>(value), -1);
   }
 
   template <typename T, FMT_ENABLE_IF(!std::is_integral<T>::value)>
-- 
2.43.0


From c039e2f1197c2e9ac4932377cd3ae1c780c589ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:33 +0000
Subject: [PATCH 34/60] fix: alternate form of values that become zero by the
 length modifier

---
 include/hogl/fmt/printf.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/hogl/fmt/printf.h b/include/hogl/fmt/printf.h
index e6a2a2e..99eee80 100644
--- a/include/hogl/fmt/printf.h
+++ b/include/hogl/fmt/printf.h
@@ -492,8 +492,6 @@ OutputIt basic_printf_context<OutputIt, Char>::format() {
     }
 
     format_arg arg = get_arg(arg_index);
-    if (specs.alt && visit_format_arg(internal::is_zero_int(), arg))
-      specs.alt = false;
     if (specs.fill[0] == '0') {
       // Ignore '0' flag for non-numeric types, if the '-' flag is present,
       // and if precision is specified for an integer.
@@ -545,6 +543,9 @@ OutputIt basic_printf_context<OutputIt, Char>::format() {
       convert_arg<void>(arg, c);
     }
 
+    if (specs.alt && visit_format_arg(internal::is_zero_int(), arg))
+      specs.alt = false;
+
     // Parse type.
     if (it == end) FMT_THROW(format_error("invalid format string"));
     specs.type = static_cast<char>(*it++);
-- 
2.43.0


From db3e6404d3baa5c475d0dd4778e1b12b4796388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:32 +0000
Subject: [PATCH 35/60] fix: %f prints wrong digits past the 17th significant
 one

---
 include/hogl/fmt/format-inl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hogl/fmt/format-inl.h b/include/hogl/fmt/format-inl.h
index f632714..f757adb 100644
--- a/include/hogl/fmt/format-inl.h
+++ b/include/hogl/fmt/format-inl.h
@@ -874,6 +874,8 @@ struct fixed_handler {
     // Adjust fixed precision by exponent because it is relative to decimal
     // point.
     precision += exp + exp10;
+    // Errors of the digits past this point overflow and go undetected.
+    if (precision > 17) return digits::error;
     // Check if precision is satisfied just by leading zeros, e.g.
     // format("{:.2f}", 0.001) gives "0.00" without generating any digits.
     if (precision > 0) return digits::more;
-- 
2.43.0


From 4131ec0cd4caa22bf85eeef0d523fe7988f55857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:32 +0000
Subject: [PATCH 36/60] fix: %g with zero precision prints all the integral
 digits

---
 include/hogl/fmt/format.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hogl/fmt/format.h b/include/hogl/fmt/format.h
index 4e96539..8083ec0 100644
--- a/include/hogl/fmt/format.h
+++ b/include/hogl/fmt/format.h
@@ -1755,6 +1755,8 @@ template <typename Range> class basic_writer {
       return;
     }
     int precision = specs.precision >= 0 || !specs.type ? specs.precision : 6;
+    // Zero precision is taken as one in the general format.
+    if (fspecs.format == float_format::general && precision == 0) precision = 1;
     if (fspecs.format == float_format::exp) {
       if (precision == max_value<int>())
         FMT_THROW(format_error("number is too big"));
-- 
2.43.0


From 334ddbecf3a3b16ccf2a7109f3c2522df3f35071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:16 +0000
Subject: [PATCH 37/60] fix: timestamps going backwards give a wrapped
 timedelta

---
 src/format-basic.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format-basic.cc b/src/format-basic.cc
index 6b127c9..9fd444a 100644
--- a/src/format-basic.cc
+++ b/src/format-basic.cc
@@ -421,7 +421,7 @@ void format_basic::fast1_header(ostrbuf& sb, record_data& d)
 	const hogl::record &r = *d.record;
 
 	timestamp delta = r.timestamp - _last_timestamp;
-	if (hogl_unlikely(_last_timestamp == timestamp(0)))
+	if (hogl_unlikely(_last_timestamp == timestamp(0) || r.timestamp < _last_timestamp))
 		delta = 0;
 
 	_last_timestamp = r.timestamp;
@@ -482,7 +482,7 @@ void format_basic::flexi_header(ostrbuf& sb, record_data& d)
 
 	if (_fields & TIMEDELTA) {
 		timestamp delta = r.timestamp - _last_timestamp;
-		if (hogl_unlikely(_last_timestamp == timestamp(0)))
+		if (hogl_unlikely(_last_timestamp == timestamp(0) || r.timestamp < _last_timestamp))
 			delta = 0;
 		sb.printf("(%llu) ", delta.to_nsec());
 		_last_timestamp = r.timestamp;
-- 
2.43.0


From be4bfc35ebe7f81c3b875bf9d3bd5f04725c4321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:07 +0000
Subject: [PATCH 38/60] fix: hexdump skips most of the data if byte width is
 not one

---
 src/format-basic.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/format-basic.cc b/src/format-basic.cc
index 9fd444a..37049f6 100644
--- a/src/format-basic.cc
+++ b/src/format-basic.cc
@@ -162,11 +162,12 @@ static void do_xdump(hogl::ostrbuf &sb, const uint8_t *data, uint32_t len)
 		sb.printf("xdump byte width %u not supported", 0U);
 		return;
 	}
-	len = (len - sizeof(arg_xdump::format)) / xf.byte_width;
+	const uint32_t size = len - sizeof(arg_xdump::format);
+	len = size / xf.byte_width;
 
 	switch (xf.type) {
 	case 'H':
-		return do_hexdump(sb, ptr, len, xf);
+		return do_hexdump(sb, ptr, size, xf); // always shows bytes
 
 	case 'x':
 		switch (xf.byte_width) {
-- 
2.43.0


From 113378cc9f2215f1a89fd86cf4f135f7b2e087d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:32 +0000
Subject: [PATCH 39/60] fix: recover takes memory that was not dumped for
 zeros, hiding the content of the executable file

---
 tools/coredump.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/coredump.cc b/tools/coredump.cc
index 51e78ab..59fa170 100644
--- a/tools/coredump.cc
+++ b/tools/coredump.cc
@@ -58,7 +58,8 @@ coredump::section::~section()
 
 static bfd_boolean bfd_match_vma(bfd *b, asection *sect, void *vma)
 {
-	return (uint64_t) vma == sect->vma;
+	// Sections without content may start at the same address (ie .tbss)
+	return (uint64_t) vma == sect->vma && sect->size && (sect->flags & SEC_HAS_CONTENTS);
 }
 
 static asection *bfd_get_section_by_vma(bfd *b, uint64_t vma)
@@ -173,7 +174,8 @@ void coredump::add_section(bfd *abfd, asection *sect, void *_self)
 	unsigned long size = sect->size;
 
 	// Skip sections with no data
-	if (!vma || !size)
+	// (memory that was not dumped, its content may come from the executable file)
+	if (!vma || !size || !(sect->flags & SEC_HAS_CONTENTS))
 		return;
 
 	coredump::section *s = new coredump::section(vma, size, abfd);
-- 
2.43.0


From 5dc0d55a5cb84a6378e3a735f69b01e44f7f2ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:32 +0000
Subject: [PATCH 40/60] fix: recover loses names of default sections if more
 than one area uses them

---
 tools/recovery-engine.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 8d9a976..65d4fce 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -89,13 +89,17 @@ public:
 			return 0;
 
 		// Fixup section names
-		a->_section = (const char **) core.remap(a->_section, sizeof(char *) * a->count());
-		if (!a->_section)
+		const char **section = (const char **) core.remap(a->_section, sizeof(char *) * a->count());
+		if (!section)
 			return 0;
 
+		// Areas that use default sections share the array of names.
+		// Leave the original alone and use a copy.
+		a->_section = new const char* [a->count()];
+
 		unsigned int i;
 		for (i=0; i < a->count(); ++i) {
-			a->_section[i] = (const char *) core.remap((void *) a->_section[i]);
+			a->_section[i] = (const char *) core.remap((void *) section[i]);
 			if (a->_section[i]) continue;
 
 			// Section name not found, likely because it was set to default (ie mmaped from hogl.so)
@@ -103,6 +107,7 @@ public:
 			// Otherwise set to a dummy string to avoid segfaults in the optimized header formats.
 
 			if (i == 0 && a->count() == 6) {
+				delete [] a->_section;
 				a->_section = default_section_names;
 				break;
 			}
-- 
2.43.0


From 412442d7b3706ce07735643ef4c2edd2d62254fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:26 +0000
Subject: [PATCH 41/60] fix: empty write into an unbuffered ostrbuf passes a
 null pointer to memcpy

---
 include/hogl/detail/ostrbuf.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/hogl/detail/ostrbuf.hpp b/include/hogl/detail/ostrbuf.hpp
index 67c7ed2..0a3a827 100644
--- a/include/hogl/detail/ostrbuf.hpp
+++ b/include/hogl/detail/ostrbuf.hpp
@@ -70,7 +70,8 @@ protected:
 	// Caller must check for room.
 	void do_copy(const uint8_t* data, size_t n)
 	{
-		memcpy(tail(), data, n);
+		if (n)
+			memcpy(tail(), data, n);
 		_size += n;
 	}
 
-- 
2.43.0


From 625a1fe42862ba250b5aab51b7fd694d3474eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:56 +0000
Subject: [PATCH 42/60] fix: switch_name skips a file index, truncating the
 current chunk if it comes next

---
 src/output-file.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/output-file.cc b/src/output-file.cc
index 90f4af0..2d1fcd1 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -464,6 +464,10 @@ bool output_file::switch_name(const char *filename)
 	// Reinit filename bits (sufx, etc)
 	init_name(filename);
 
+	// Rotation moves on to the next index first. Step back so that the new location
+	// starts (or continues) with the same index as when it is opened by the constructor.
+	_name_index = (_name_index ? _name_index : _max_count) - 1;
+
 	// Trigger rotation
 	_rotate_pending = true;
 	pthread_cond_signal(&_rotate_cond);
-- 
2.43.0


From aba1e6e3f5e2cdc19b70616071af4eacc3449d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:56 +0000
Subject: [PATCH 43/60] fix: failed rotation skips file indexes, and may end up
 truncating the current chunk

---
 src/output-file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/output-file.cc b/src/output-file.cc
index 2d1fcd1..b73fdbc 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -358,6 +358,7 @@ ssize_t output_file::write(const void *data, size_t size)
 void output_file::do_rotate()
 {
 	int ofd = _fd;
+	unsigned int oindex = _name_index;
 
 	_name_index++;
 	if (_name_index >= _max_count)
@@ -368,6 +369,7 @@ void output_file::do_rotate()
 	int nfd = open(_name.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, _mode);
 	if (nfd < 0) {
 		// Retry later. Let the writer thread wake us up again.
+		_name_index = oindex;
 		return;
 	}
 
@@ -379,6 +381,7 @@ void output_file::do_rotate()
 	nsb.flush();
 	if (nsb.failed()) {
 		// Failed to write. Retry later.
+		_name_index = oindex;
 		close(nfd);
 		return;
 	}
-- 
2.43.0


From fc531f8fd67c582b929502974d8407c485fd99b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:57 +0000
Subject: [PATCH 44/60] fix: header of the first file ends up in the next one
 if rotated before the first flush

---
 src/output-file.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index b73fdbc..9ad260c 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -276,8 +276,10 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 
 	output::init(new ostrbuf_file(*this, opts.buffer_capacity));
 
-	// Write format header
+	// Write format header.
+	// Make sure that it ends up in the first file even if we get rotated right away.
 	output::header(_name.c_str());
+	output::flush();
 
 	update_link();
 
-- 
2.43.0


From 4fd031c50915c94c2f29049f7e10a73bf2789206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:27 +0000
Subject: [PATCH 45/60] fix: interrupted write turns pipe and stderr outputs
 into a failed state

---
 src/ostrbuf-stdio.cc | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/ostrbuf-stdio.cc b/src/ostrbuf-stdio.cc
index 8a73c90..93a9d09 100644
--- a/src/ostrbuf-stdio.cc
+++ b/src/ostrbuf-stdio.cc
@@ -31,6 +31,10 @@
 #include <unistd.h>
 #include <errno.h>
 
+#if defined(__linux__)
+#include <stdio_ext.h>
+#endif
+
 #include <string>
 
 #include "hogl/detail/ostrbuf-stdio.hpp"
@@ -38,20 +42,52 @@
 __HOGL_PRIV_NS_OPEN__
 namespace hogl {
 
+// Check if the stream is known to be unbuffered
+static bool unbuffered(FILE *file)
+{
+#if defined(__linux__)
+	return __fbufsize(file) <= 1;
+#else
+	(void) file;
+	return false;
+#endif
+}
+
+// Write out all data.
+// Interrupted writes of unbuffered streams (pipe, stderr, etc) are continued.
+// Buffered streams drop what they hold when interrupted, so there is nothing to continue from.
+static bool write_all(FILE *file, const uint8_t *data, size_t len)
+{
+	while (1) {
+		size_t n = fwrite(data, 1, len, file);
+		if (n == len)
+			return true;
+
+		if (errno != EINTR || !unbuffered(file))
+			return false;
+
+		clearerr(file);
+		data += n;
+		len  -= n;
+	}
+}
+
 void ostrbuf_stdio::do_flush(const uint8_t *data, size_t len)
 {
 	if (failed())
 		return;
 
+	bool ok = true;
+
 	// Flush buffered data
 	if (_size)
-		fwrite(_data, 1, _size, _file);
+		ok = write_all(_file, _data, _size);
 
 	// Flush un-buffered data
-	if (len)
-		fwrite(data, 1, len, _file);
+	if (ok && len)
+		ok = write_all(_file, data, len);
 
-	if (ferror(_file))
+	if (!ok || ferror(_file))
 		ostrbuf::failure(strerror(errno));
 
 	this->reset();
-- 
2.43.0


From d041868d996e8e4cc5b1f3a6ed89d32cc8a22977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:31 +0000
Subject: [PATCH 46/60] fix: records of internal areas outlive the engine when
 posted into a ring of another engine

---
 src/engine.cc | 48 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/src/engine.cc b/src/engine.cc
index f6cb35d..e64f5bf 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -63,6 +63,45 @@ engine::options engine::default_options = {
 	.timesource = 0,                          // timesource for this engine (0 means default timesource)
 };
 
+/**
+ * Internal areas of the destroyed engines, to be reused by the new ones.
+ * Engines post internal records into the ring of the calling thread, which may belong to another
+ * engine (or to none of them). Such records get processed after the engine that posted them is gone,
+ * which means that internal areas cannot be freed.
+ */
+struct retired_area {
+	area *a;
+	retired_area *next;
+};
+
+static retired_area *retired_areas;
+static pthread_mutex_t retired_mutex = PTHREAD_MUTEX_INITIALIZER;
+
+static void retire_internal_area(area *a)
+{
+	retired_area *r = new retired_area;
+	r->a = a;
+	a->disable();
+
+	pthread_mutex_lock(&retired_mutex);
+	r->next = retired_areas;
+	retired_areas = r;
+	pthread_mutex_unlock(&retired_mutex);
+}
+
+static area *reuse_internal_area()
+{
+	pthread_mutex_lock(&retired_mutex);
+	retired_area *r = retired_areas;
+	if (r)
+		retired_areas = r->next;
+	pthread_mutex_unlock(&retired_mutex);
+
+	area *a = r ? r->a : 0;
+	delete r;
+	return a;
+}
+
 /**
  * Add internal area.
  * Called from constructor.
@@ -76,7 +115,9 @@ void engine::add_internal_area()
 	// logs things in the caller's context and we're not ready to process 
 	// log records yet.
 
-	_internal_area = new area(name, internal::section_names);
+	_internal_area = reuse_internal_area();
+	if (!_internal_area)
+		_internal_area = new area(name, internal::section_names);
 
 	_internal_area->enable(internal::INFO);
 	_internal_area->enable(internal::WARN);
@@ -147,7 +188,10 @@ engine::~engine()
 	// Release all registered areas
 	for (area_map::iterator it = _area_map.begin(); it != _area_map.end(); ++it) {
 		area *a = it->second;
-		delete a;
+		if (a == _internal_area)
+			retire_internal_area(a);
+		else
+			delete a;
 	}
 
 	delete [] _ring_index.entries;
-- 
2.43.0


From b7b011db6609b4a8fdd27525fc80c9ffe0a4b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:34 +0000
Subject: [PATCH 47/60] fix: C posting macro loses the value of a variable
 named 'un'

---
 include/hogl/c-api/post.h | 40 +++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/hogl/c-api/post.h b/include/hogl/c-api/post.h
index c7737e8..8cdcb13 100644
--- a/include/hogl/c-api/post.h
+++ b/include/hogl/c-api/post.h
@@ -81,81 +81,81 @@ do {									\
 			int16_t  s16;						\
 			double   dbl;						\
 			float    flt;						\
-		} un;								\
+		} __hogl_un;								\
 		typeof (a) __hogl_x = (a);					\
 		const uint8_t *__hogl_p = (const uint8_t *) &__hogl_x;			\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), float)) {	\
-			un.dbl = *(float *)__hogl_p;					\
+			__hogl_un.dbl = *(float *)__hogl_p;					\
 			args[i].type = HOGL_ARG_DOUBLE;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), double)) {	\
-			un.dbl = *(double *)__hogl_p;					\
+			__hogl_un.dbl = *(double *)__hogl_p;					\
 			args[i].type = HOGL_ARG_DOUBLE;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), uint64_t)) {\
-			un.u64 = *(uint64_t *)__hogl_p;				\
+			__hogl_un.u64 = *(uint64_t *)__hogl_p;				\
 			args[i].type = HOGL_ARG_UINT64;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), int64_t)) {	\
-			un.s64 = *(int64_t *)__hogl_p;					\
+			__hogl_un.s64 = *(int64_t *)__hogl_p;					\
 			args[i].type = HOGL_ARG_INT64;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), uint32_t)) {\
-			un.u64 = *(uint32_t *)__hogl_p;				\
+			__hogl_un.u64 = *(uint32_t *)__hogl_p;				\
 			args[i].type = HOGL_ARG_UINT32;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), int32_t)) {	\
-			un.s64 = *(int32_t *)__hogl_p;					\
+			__hogl_un.s64 = *(int32_t *)__hogl_p;					\
 			args[i].type = HOGL_ARG_INT32;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), uint16_t)) {\
-			un.u64 = *(uint16_t *)__hogl_p;				\
+			__hogl_un.u64 = *(uint16_t *)__hogl_p;				\
 			args[i].type = HOGL_ARG_UINT32;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), int16_t)) {	\
-			un.s64 = *(int16_t *)__hogl_p;					\
+			__hogl_un.s64 = *(int16_t *)__hogl_p;					\
 			args[i].type = HOGL_ARG_INT32;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), uint8_t)) {	\
-			un.u64 = *(uint8_t *)__hogl_p;					\
+			__hogl_un.u64 = *(uint8_t *)__hogl_p;					\
 			args[i].type = HOGL_ARG_UINT32;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), int8_t)) {	\
-			un.s64 = *(int8_t *)__hogl_p;					\
+			__hogl_un.s64 = *(int8_t *)__hogl_p;					\
 			args[i].type = HOGL_ARG_INT32;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), unsigned long long)) {\
-			un.u64 = *(unsigned long long *)__hogl_p;		\
+			__hogl_un.u64 = *(unsigned long long *)__hogl_p;		\
 			args[i].type = HOGL_ARG_UINT64;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), long long)) {	\
-			un.s64 = *(long long *)__hogl_p;			\
+			__hogl_un.s64 = *(long long *)__hogl_p;			\
 			args[i].type = HOGL_ARG_INT64;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), unsigned long)) {\
-			un.u64 = *(unsigned long *)__hogl_p;			\
+			__hogl_un.u64 = *(unsigned long *)__hogl_p;			\
 			args[i].type = sizeof(long) == 8 ? HOGL_ARG_UINT64 : HOGL_ARG_UINT32;\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), long)) {	\
-			un.s64 = *(long *)__hogl_p;				\
+			__hogl_un.s64 = *(long *)__hogl_p;				\
 			args[i].type = sizeof(long) == 8 ? HOGL_ARG_INT64 : HOGL_ARG_INT32;\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), char)) {	\
-			un.s64 = *(char *)__hogl_p;				\
+			__hogl_un.s64 = *(char *)__hogl_p;				\
 			args[i].type = HOGL_ARG_INT32;				\
 		} else								\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), _Bool)) {	\
-			un.u64 = *(_Bool *)__hogl_p;				\
+			__hogl_un.u64 = *(_Bool *)__hogl_p;				\
 			args[i].type = HOGL_ARG_UINT32;				\
 		} else								\
 		if (__builtin_classify_type(__hogl_x) == 5 /* any pointer */) {	\
-			un.u64 = (unsigned long) __hogl_x;			\
+			__hogl_un.u64 = (unsigned long) __hogl_x;			\
 			args[i].type = HOGL_ARG_POINTER;			\
 		} else {							\
-			un.u64 = 0;						\
+			__hogl_un.u64 = 0;						\
 			args[i].type = HOGL_ARG_NONE;				\
 		}								\
-		args[i].val = un.u64;						\
+		args[i].val = __hogl_un.u64;						\
 	}									\
 } while(0)
 
-- 
2.43.0


From 113cdbe068c03123dc5fd99d80d6d85d1f074fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:34 +0000
Subject: [PATCH 48/60] fix: pointers to const data are logged as bool

---
 include/hogl/detail/args.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hogl/detail/args.hpp b/include/hogl/detail/args.hpp
index f705086..dceb3d4 100644
--- a/include/hogl/detail/args.hpp
+++ b/include/hogl/detail/args.hpp
@@ -143,6 +143,8 @@ struct arg {
 	hogl_force_inline arg(uint16_t i)      : type(UINT32),  val(i) {}
 	hogl_force_inline arg(void *ptr)       : type(POINTER), val((unsigned long) ptr) {}
 	hogl_force_inline arg(volatile void *ptr) : type(POINTER), val((unsigned long) ptr) {}
+	hogl_force_inline arg(const void *ptr) : type(POINTER), val((unsigned long) ptr) {}
+	hogl_force_inline arg(const volatile void *ptr) : type(POINTER), val((unsigned long) ptr) {}
 	hogl_force_inline arg(unsigned int i)  : type(UINT32), val(i) {}
 	hogl_force_inline arg(int i)           : type(INT32),  val(i) {}
 	hogl_force_inline arg(unsigned long long u) : type(UINT64), val(u) {}
-- 
2.43.0


From 45c7ea5bb067d1c7363c9535d1395d26fd29f120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:34 +0000
Subject: [PATCH 49/60] fix: C posting macro evaluates area and section twice

---
 include/hogl/c-api/post.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hogl/c-api/post.h b/include/hogl/c-api/post.h
index 8cdcb13..ccdd3f2 100644
--- a/include/hogl/c-api/post.h
+++ b/include/hogl/c-api/post.h
@@ -171,11 +171,13 @@ do {									\
  */
 #define hogl_post(area, sect, ...)						\
 do {										\
-	if (hogl_area_test(area, sect)) {					\
+	const hogl_area_t __hogl_area = (area);					\
+	unsigned int __hogl_sect = (sect);					\
+	if (hogl_area_test(__hogl_area, __hogl_sect)) {				\
 		struct hogl_arg __hogl_args[HOGL_PP_NARGS(__VA_ARGS__)];	\
 		unsigned int __hogl_i = 0;					\
 		HOGL_PP_FOR_EACH(hogl_setarg_, __VA_ARGS__);			\
-		hogl_post_(HOGL_PP_NARGS(__VA_ARGS__), area, sect, __hogl_args);\
+		hogl_post_(HOGL_PP_NARGS(__VA_ARGS__), __hogl_area, __hogl_sect, __hogl_args);\
 	}									\
 } while(0)
 
-- 
2.43.0


From 6790c1a56a1efed44699cb88f9e9904877ced13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:55 +0000
Subject: [PATCH 50/60] fix: hogl-grep: deltas are off by hundreds of
 nanoseconds

Timestamps went through floating point, which cannot hold them, and a record at zero
was taken for no record at all.
---
 tools/hogl-grep | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tools/hogl-grep b/tools/hogl-grep
index cb3ad45..96e99d6 100755
--- a/tools/hogl-grep
+++ b/tools/hogl-grep
@@ -40,10 +40,10 @@ import sys, argparse, subprocess, re
 # (257) is a delta nanoseconds
 
 ts_fmt = [
-    re.compile('^([0-9]*.[0-9]*) \([0-9]*\) (.*)'),
-    re.compile('^([0-9]*\.[0-9]*) (.*)') ]
+    re.compile('^([0-9]+)\.([0-9]{9}) \(-?[0-9]*\) (.*)'),
+    re.compile('^([0-9]+)\.([0-9]{9}) (.*)') ]
 
-ts_last = 0
+ts_last = None
 
 def process_rec(rec, out):
     global ts_last
@@ -56,11 +56,12 @@ def process_rec(rec, out):
         print('invalid timestamp [ {} ]'.format(rec))
         sys.exit(1)
 
-    ts = int(float(m.group(1)) * 1000000000) # to nsec
-    if ts_last == 0:
+    # Convert to nsec (floating point is not precise enough)
+    ts = int(m.group(1)) * 1000000000 + int(m.group(2))
+    if ts_last is None:
         ts_last = ts
 
-    out.write('{} ({}) {}\n'.format(m.group(1), ts - ts_last, m.group(2)))
+    out.write('{}.{} ({}) {}\n'.format(m.group(1), m.group(2), ts - ts_last, m.group(3)))
     ts_last = ts
     return True
 
-- 
2.43.0


From 90f2cc786e4de0d6399b80406d777047e53dc260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:55 +0000
Subject: [PATCH 51/60] fix: hogl-grep: the output file option always fails

The file was opened in binary mode and text was written to it.
---
 tools/hogl-grep | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/hogl-grep b/tools/hogl-grep
index 96e99d6..272d213 100755
--- a/tools/hogl-grep
+++ b/tools/hogl-grep
@@ -82,7 +82,7 @@ if __name__=='__main__':
     # Open log output file
     out = sys.stdout
     if args.output:
-        out = open(args.output, 'wb')
+        out = open(args.output, 'w')
 
     # Filter log file using external grep.
     # 'grep' is much faster at this.
-- 
2.43.0


From 38e4f343f69794c448c6fe44b63462c06e8e2ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:55 +0000
Subject: [PATCH 52/60] fix: hogl-grep: several log files are rejected

grep puts the file name in front of each record when there is more than one file.
---
 tools/hogl-grep | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/hogl-grep b/tools/hogl-grep
index 272d213..e25317e 100755
--- a/tools/hogl-grep
+++ b/tools/hogl-grep
@@ -89,13 +89,13 @@ if __name__=='__main__':
     # Iterate over log records (one line at a time)
 
     if (sys.version_info.major, sys.version_info.minor) > (3,6):
-       grep = subprocess.Popen([args.grep] + args.input, stdin=None, text=True, stdout=subprocess.PIPE, bufsize=1)
+       grep = subprocess.Popen([args.grep, '-h'] + args.input, stdin=None, text=True, stdout=subprocess.PIPE, bufsize=1)
        while True:
            rec = grep.stdout.readline()
            if rec == '': break
            process_rec(rec, out)
     else:
-       grep = subprocess.Popen([args.grep] + args.input, stdin=None, stdout=subprocess.PIPE, bufsize=1)
+       grep = subprocess.Popen([args.grep, '-h'] + args.input, stdin=None, stdout=subprocess.PIPE, bufsize=1)
        while True:
            rec = grep.stdout.readline().decode()
            if rec == '': break
-- 
2.43.0


From 4f47578b5a92caa1392bb18d523b8b0d86331bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:30 +0000
Subject: [PATCH 53/60] fix: hogl-grep: records with carriage returns or
 invalid UTF-8 are rejected

Records were read as text: a carriage return ended the record, bytes that are not
valid UTF-8 stopped the tool, and made grep report a binary file.
---
 tools/hogl-grep | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/tools/hogl-grep b/tools/hogl-grep
index e25317e..2885170 100755
--- a/tools/hogl-grep
+++ b/tools/hogl-grep
@@ -40,8 +40,8 @@ import sys, argparse, subprocess, re
 # (257) is a delta nanoseconds
 
 ts_fmt = [
-    re.compile('^([0-9]+)\.([0-9]{9}) \(-?[0-9]*\) (.*)'),
-    re.compile('^([0-9]+)\.([0-9]{9}) (.*)') ]
+    re.compile(rb'^([0-9]+)\.([0-9]{9}) \(-?[0-9]*\) (.*)'),
+    re.compile(rb'^([0-9]+)\.([0-9]{9}) (.*)') ]
 
 ts_last = None
 
@@ -53,7 +53,7 @@ def process_rec(rec, out):
         if m: break
 
     if m is None:
-        print('invalid timestamp [ {} ]'.format(rec))
+        print('invalid timestamp [ {} ]'.format(rec.decode(errors='replace')))
         sys.exit(1)
 
     # Convert to nsec (floating point is not precise enough)
@@ -61,7 +61,8 @@ def process_rec(rec, out):
     if ts_last is None:
         ts_last = ts
 
-    out.write('{}.{} ({}) {}\n'.format(m.group(1), m.group(2), ts - ts_last, m.group(3)))
+    out.write(b'%s.%s (%d) %s\n' % (m.group(1), m.group(2), ts - ts_last, m.group(3)))
+    if out.isatty(): out.flush()
     ts_last = ts
     return True
 
@@ -80,25 +81,17 @@ if __name__=='__main__':
         sys.exit(1)
 
     # Open log output file
-    out = sys.stdout
+    out = sys.stdout.buffer
     if args.output:
-        out = open(args.output, 'w')
+        out = open(args.output, 'wb')
 
     # Filter log file using external grep.
     # 'grep' is much faster at this.
     # Iterate over log records (one line at a time)
 
-    if (sys.version_info.major, sys.version_info.minor) > (3,6):
-       grep = subprocess.Popen([args.grep, '-h'] + args.input, stdin=None, text=True, stdout=subprocess.PIPE, bufsize=1)
-       while True:
-           rec = grep.stdout.readline()
-           if rec == '': break
-           process_rec(rec, out)
-    else:
-       grep = subprocess.Popen([args.grep, '-h'] + args.input, stdin=None, stdout=subprocess.PIPE, bufsize=1)
-       while True:
-           rec = grep.stdout.readline().decode()
-           if rec == '': break
-           process_rec(rec, out)
+    # Records may have any bytes in them, not just valid text.
+    grep = subprocess.Popen([args.grep, '-ah'] + args.input, stdin=None, stdout=subprocess.PIPE)
+    for rec in grep.stdout:
+        process_rec(rec, out)
 
     sys.exit(0)
-- 
2.43.0


From 1d1bf73045d14c8dbf2fd5b3f21a2d9526aa3db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:30 +0000
Subject: [PATCH 54/60] fix: hogl-trace: warnings end up in the middle of the
 trace

The trace goes to stdout unless an output file is given, and so did the warnings.
---
 tools/hogl-trace | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/hogl-trace b/tools/hogl-trace
index 3f9af0f..6c6db3c 100755
--- a/tools/hogl-trace
+++ b/tools/hogl-trace
@@ -100,7 +100,7 @@ def process_rec(rec, out):
     try:
         event = convert_rec(rec)
     except Exception as e:
-        print('warn: unsupported record format:\n\t{}\n\t{}'.format(rec[:-1], e))
+        print('warn: unsupported record format:\n\t{}\n\t{}'.format(rec[:-1], e), file=sys.stderr)
         return
 
     out.write(out.sep); out.sep = ','
-- 
2.43.0


From c75763398f79f9f783d5b50d7a3305945ed7879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:30 +0000
Subject: [PATCH 55/60] fix: hogl-trace: several log files give an empty trace

grep puts the file name in front of each record when there is more than one file.
---
 tools/hogl-trace | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/hogl-trace b/tools/hogl-trace
index 6c6db3c..a7fc5fe 100755
--- a/tools/hogl-trace
+++ b/tools/hogl-trace
@@ -135,13 +135,13 @@ if __name__=='__main__':
     # Iterate over log records (one line at a time)
 
     if (sys.version_info.major, sys.version_info.minor) > (3,6):
-       grep = subprocess.Popen([args.grep, args.regex] + args.input, stdin=None, text=True, stdout=subprocess.PIPE, bufsize=1)
+       grep = subprocess.Popen([args.grep, '-h', args.regex] + args.input, stdin=None, text=True, stdout=subprocess.PIPE, bufsize=1)
        while True:
            rec = grep.stdout.readline()
            if rec == '': break
            process_rec(rec, out)
     else:
-       grep = subprocess.Popen([args.grep, args.regex] + args.input, stdin=None, stdout=subprocess.PIPE, bufsize=1)
+       grep = subprocess.Popen([args.grep, '-h', args.regex] + args.input, stdin=None, stdout=subprocess.PIPE, bufsize=1)
        while True:
            rec = grep.stdout.readline().decode()
            if rec == '': break
-- 
2.43.0


From 5eb4fe69141c2931ffd352b7e04b1f70bea18575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:31 +0000
Subject: [PATCH 56/60] fix: hogl-trace: timestamps are off by a microsecond

They went through floating point, which cannot hold them.
---
 tools/hogl-trace | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/hogl-trace b/tools/hogl-trace
index a7fc5fe..bebb4c0 100755
--- a/tools/hogl-trace
+++ b/tools/hogl-trace
@@ -42,7 +42,11 @@ def convert_rec(rec):
     # ['00000028363.625193560', '(197)', 'TID:2749', 'AREA:TRACE', 'category', 'name', 'PID']
 
     ## Timestamp is always first (and must be timespec)
-    ts_trace = int(float(evt[0]) * 1000000) # convert timestamp into usec
+    # Convert timestamp into usec (floating point is not precise enough)
+    m = re.match(r'([0-9]+)\.([0-9]{9})$', evt[0])
+    if m is None:
+        raise Exception('failed to parse timestamp {}'.format(evt[0]))
+    ts_trace = int(m.group(1)) * 1000000 + int(m.group(2)) // 1000
 
     # Generate event skeleton
     # See Chrome Trace Event Format for detailed description of the fields
-- 
2.43.0


From fe0e282c90d466bcca94bdb719a3aa5511c5af97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:31 +0000
Subject: [PATCH 57/60] fix: hogl-trace: values are cut at a colon

---
 tools/hogl-trace | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/hogl-trace b/tools/hogl-trace
index bebb4c0..438b7f7 100755
--- a/tools/hogl-trace
+++ b/tools/hogl-trace
@@ -86,14 +86,14 @@ def convert_rec(rec):
     # Add / override attrs (if any)
     try:
         for a in attr:
-            s = a.split(':'); event[s[0]] = s[1]
+            s = a.split(':', 1); event[s[0]] = s[1]
     except Exception as e:
         raise Exception('failed to parse event attrs {}\n\texpected space-separated attr:value pairs'.format(attr))
 
     # Add args (if any)
     try:
         for a in args:
-            s = a.split(':'); event['args'][s[0]] = s[1]
+            s = a.split(':', 1); event['args'][s[0]] = s[1]
     except Exception as e:
         raise Exception('failed to parse event args {}\n\texpected space-separated arg:value pairs'.format(args))
 
-- 
2.43.0


From 5900afe829d025b9121bde1b4ec3a089864318d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:01 +0000
Subject: [PATCH 58/60] fix: hogl-trace: carriage returns and invalid UTF-8
 stop the conversion

Records were read as text: a carriage return ended the record, bytes that are not
valid UTF-8 stopped the tool, and made grep report a binary file.
---
 tools/hogl-trace | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/tools/hogl-trace b/tools/hogl-trace
index 438b7f7..9fe8915 100755
--- a/tools/hogl-trace
+++ b/tools/hogl-trace
@@ -138,18 +138,10 @@ if __name__=='__main__':
     # 'grep' is much faster at this.
     # Iterate over log records (one line at a time)
 
-    if (sys.version_info.major, sys.version_info.minor) > (3,6):
-       grep = subprocess.Popen([args.grep, '-h', args.regex] + args.input, stdin=None, text=True, stdout=subprocess.PIPE, bufsize=1)
-       while True:
-           rec = grep.stdout.readline()
-           if rec == '': break
-           process_rec(rec, out)
-    else:
-       grep = subprocess.Popen([args.grep, '-h', args.regex] + args.input, stdin=None, stdout=subprocess.PIPE, bufsize=1)
-       while True:
-           rec = grep.stdout.readline().decode()
-           if rec == '': break
-           process_rec(rec, out)
+    # Records may have any bytes in them, not just valid text.
+    grep = subprocess.Popen([args.grep, '-ah', args.regex] + args.input, stdin=None, stdout=subprocess.PIPE)
+    for rec in grep.stdout:
+        process_rec(rec.decode(errors='replace'), out)
 
     # Write out the footer and close it up
     out.write('], "displayTimeUnit": "ns", "otherData": { "version": "hogl trace v0.0.1" } }')
-- 
2.43.0


From 3e70f34fc1554be2ecbedb42f1a7a5a2a62cb32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:03 +0000
Subject: [PATCH 59/60] fix: hogl-trace: ring names are cut at a colon

---
 tools/hogl-trace | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/hogl-trace b/tools/hogl-trace
index 9fe8915..5be1040 100755
--- a/tools/hogl-trace
+++ b/tools/hogl-trace
@@ -71,12 +71,12 @@ def convert_rec(rec):
         event['cat']  = evt[3]
         event['name'] = evt[4]
         event['pid']  = evt[5]
-        event['tid']  = evt[1].split(':')[0]
+        event['tid']  = evt[1].rsplit(':', 1)[0]
     elif len(evt) == 7:
         event['cat']  = evt[4]
         event['name'] = evt[5]
         event['pid']  = evt[6]
-        event['tid']  = evt[2].split(':')[0]
+        event['tid']  = evt[2].rsplit(':', 1)[0]
     else:
         raise Exception('failed to parse common fields: cat,name,pid,tid')
 
-- 
2.43.0


From fe09225f36f167e8265b700c699f66f14d50cbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:37 +0000
Subject: [PATCH 60/60] fix: timespec format of timestamps: order ignores
 seconds, nanoseconds wrap after 4 seconds

---
 include/hogl/detail/timestamp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/hogl/detail/timestamp.hpp b/include/hogl/detail/timestamp.hpp
index 9a36536..8055fc4 100644
--- a/include/hogl/detail/timestamp.hpp
+++ b/include/hogl/detail/timestamp.hpp
@@ -54,11 +54,11 @@ private:
 		uint64_t u64;
 		struct {
 		#if __BYTE_ORDER == __LITTLE_ENDIAN
-			uint32_t sec;
 			uint32_t nsec;
+			uint32_t sec;
 		#else
-			uint32_t nsec;
 			uint32_t sec;
+			uint32_t nsec;
 		#endif
 		} u32;
 	} _v;
@@ -117,7 +117,7 @@ public:
 
 	uint64_t to_nsec() const
 	{
-		return _v.u32.sec * nsec_per_sec + _v.u32.nsec;
+		return (uint64_t) _v.u32.sec * nsec_per_sec + _v.u32.nsec;
 	}
 #else
 	// This version stores timestamp in nanoseconds which means 
-- 
2.43.0

