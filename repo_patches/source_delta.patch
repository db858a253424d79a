From 52c52f3a8bb09104159be9c3d2b0e278739d0366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 01/27] fix: shr_writev refuses an empty message anywhere in
 the iovec

Only a leading empty element was refused; a later one reached
assert(bsz > 0) (or, in drop mode, evicted messages first). The sum of
lengths could also wrap around size_t.
---
 src/shr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shr.c b/src/shr.c
index fe081c0..f252cfa 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -886,10 +886,10 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
   mv = (struct msg*)(r->d + r->n + r->pad_len);
 
   for(i=0; i < niov; i++) {
+    if (iov[i].iov_len == 0) goto done;
+    if (iov[i].iov_len > s->n - len) goto done;
     len += iov[i].iov_len;
-    if (len == 0) goto done;
     if (len > SSIZE_MAX) goto done;
-    if (len > s->n) goto done;
     if (niov > s->mm) goto done;
   }
   if (len == 0) goto done;
-- 
2.43.0


From 2f12d3e80b2488d970cd43febc697bb254c73062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 02/27] fix: shr_appdata copies only the app data into a larger
 buffer

With a caller buffer larger than the app data, it copied *sz bytes and so
read past the end of the app region (and of the mapping).
---
 src/shr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index f252cfa..d00c64b 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -1060,7 +1060,7 @@ int shr_appdata(shr *s, void **get, void *set, size_t *sz) {
 
   if ((get != NULL) && (*get != NULL) && (set == NULL)) {
     if (*sz < r->app_len) goto done;
-    memcpy(*get, ad, *sz);
+    memcpy(*get, ad, r->app_len);
     *sz = r->app_len;
   }
 
-- 
2.43.0


From d1cace1a66dacc99bdefabd9a9a2af0cc5517c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 03/27] fix: record SHR_APPDATA among the ring attributes

shr_stat reports the ring attributes from gflags and shr-tool status
prints "appdata" from it, but shr_init never set the flag.
---
 src/shr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shr.c b/src/shr.c
index d00c64b..485ea82 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -286,6 +286,7 @@ int shr_init(char *file, size_t data_sz, unsigned flags, ...) {
   if (flags & SHR_FARM)      r->gflags |= (SHR_FARM | SHR_DROP);
   if (flags & SHR_MLOCK)     r->gflags |=  SHR_MLOCK;
   if (flags & SHR_APPDATA) {
+    r->gflags |= SHR_APPDATA;
     memcpy(r->d + r->n + r->pad_len + r->mv_len, appdata, appsize);
   }
 
-- 
2.43.0


From 593dce6d58258fa3c1ee321c408d3703e05d1a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 04/27] fix: wake readers before, not after, committing a write

A writer killed while sending wakeups had already put its messages in the
ring: readers whose wakeup was not sent yet slept on although messages
were available, and the statistics never counted those messages. If a
wakeup failed, shr_writev returned -1 although the messages (and in drop
mode the evictions) had taken effect. The lock is held throughout, so a
woken reader still sees the messages.
---
 src/shr.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/shr.c b/src/shr.c
index 485ea82..4923fd9 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -930,10 +930,8 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
     if ((r->n - r->u >= len) && 
         (r->mm - r->m >= niov)) break;
 
-    if (r->gflags & SHR_DROP) {
-      drop_unread(s, len, niov);
-      break;
-    }
+    /* drop mode makes its own space (below) */
+    if (r->gflags & SHR_DROP) break;
 
     if (s->flags & SHR_NONBLOCK) {
       rc = 0;
@@ -946,6 +944,16 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
     if (sc) return sc;
   }
 
+  /* wake the readers. since we hold the lock, they see the ring after
+   * we are finished. doing this before changing the ring means that if
+   * it fails, or if we get killed in it, the ring is left as it was */
+  sc = bw_wake(s->w2r);
+  if (sc) goto done;
+
+  /* in drop mode, make space if we need it */
+  if ((r->n - r->u < len) || (r->mm - r->m < niov))
+    drop_unread(s, len, niov);
+
   /* sufficient free space has been made available. */
   assert(r->n - r->u >= len);
   assert(r->m + niov <= r->mm);
@@ -1002,8 +1010,6 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
   r->mp += niov;
   r->m += niov;
 
-  sc = bw_wake(s->w2r);
-  if (sc) goto done;
   r->stat.bw += len;
   r->stat.mw += niov;
   if (shr_sync(s) < 0) goto done;
-- 
2.43.0


From 27335ad8dc0ca4defa5a2f7d5601b9a383092065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 05/27] fix: wake writers before, not after, consuming messages

A reader killed while sending wakeups, or unable to send them, had freed
space in the ring without any writer blocked on that space being told, so
the writer slept on with the ring empty.
---
 src/shr.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/shr.c b/src/shr.c
index 4923fd9..210616d 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -819,7 +819,12 @@ shr_readv(shr *s, char *buf, size_t len, struct iovec *iov, size_t *niov) {
     }
   }
 
-  /* reached when data is available */
+  /* reached when data is available. if we can take it, wake
+   * the writers awaiting space first. they need the lock which
+   * we hold, so they see the space once we are finished. should
+   * the wakeup fail, or we get killed in it, nothing is consumed */
+  if ((l1+l2 <= len) && (bw_wake(s->r2w) < 0)) goto done;
+
   while (msg_ready) {
     if (*niov == 0)  break; /* caller iov exhausted */
     if (l1+l2 > len) break; /* caller buf exhausted */
@@ -847,7 +852,6 @@ shr_readv(shr *s, char *buf, size_t len, struct iovec *iov, size_t *niov) {
 
   r->stat.br += nr;
   r->stat.mr += mc;
-  if (nr > 0) bw_wake(s->r2w);
   rc = (mc > 0) ? 0 : -2;
   bw_force(s->w2r, msg_ready);
   if (shr_sync(s) < 0) goto done;
-- 
2.43.0


From d059ba423385a94f714f9ff06c530e86752988e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 06/27] fix: has_socket_name skips unnamed sockets instead of
 failing

Most sockets in /proc/net/unix have no name. If one of them is listed
before the sought name, has_pid_socket answered "indeterminate", so the
slot of a dead process whose pid is in use again was never released, and
every shr_write failed because it could not connect to the dead socket.
---
 lib/ux.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/ux.c b/lib/ux.c
index b55e902..2653981 100644
--- a/lib/ux.c
+++ b/lib/ux.c
@@ -271,10 +271,9 @@ static int has_socket_name(size_t *inodes, size_t n_inodes, char *sockname) {
 
     /* name is after inode */
     name = get_col(8, &len, line, sz-(line-buf));
-    if (name == NULL) goto done;
 
-    /* does name match? */
-    if ((len == namelen) && (memcmp(name, sockname, len) == 0)) {
+    /* does name match? (an unnamed socket has no name column) */
+    if (name && (len == namelen) && (memcmp(name, sockname, len) == 0)) {
       
       /* name matches. is inode in list? */
       for(n=0; n < n_inodes; n++) {
@@ -287,7 +286,7 @@ static int has_socket_name(size_t *inodes, size_t n_inodes, char *sockname) {
     }
 
     /* advance to next line */
-    b = name+len;
+    b = inode;
     while ((b < buf+sz) && (*b != '\n')) b++;
     line = b+1;
   }
-- 
2.43.0


From da97895526bdd8af62fb54d9783382a30058483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 07/27] fix: get_socket_inodes closes the directory on error

---
 lib/ux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ux.c b/lib/ux.c
index 2653981..163badb 100644
--- a/lib/ux.c
+++ b/lib/ux.c
@@ -117,10 +117,10 @@ static int get_socket_inodes(pid_t pid, size_t *inodes,
     (*n_inodes)++;
   }
 
-  closedir(d);
   rc = 0;
 
  done:
+  if (d) closedir(d);
   return rc;
 }
 
-- 
2.43.0


From 233ee63aaa34f0a0dbd7b0a63e5f3bb64acd1463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 08/27] fix: a transient sendmsg failure does not unregister a
 live waiter

On ENOBUFS/ENOMEM bw_wake released the waiter's slot as if the waiter had
gone, so it was never woken again, and its slot could be given to another
waiter which it then unregistered on close. Report the error instead.
---
 lib/bw.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lib/bw.c b/lib/bw.c
index bb21a13..0bcb018 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -596,9 +596,14 @@ int bw_wait_ul(bw_t *w) {
 /*
  * send wake up byte one waiting socket
  * if it errors out for anything but ewouldblock/eagain
- * disconnect from that socket and zero its slot
+ * or a transient condition at our end (which says nothing
+ * about the waiter), disconnect from that socket and zero
+ * its slot
+ *
+ * returns 0 on success
+ *        -1 on error (transient condition)
  */
-static void wake_one(bw_t *w, int n) {
+static int wake_one(bw_t *w, int n) {
   ssize_t nr;
 
   if (w->flags & BW_TRACE) {
@@ -606,8 +611,12 @@ static void wake_one(bw_t *w, int n) {
   }
 
   nr = sendmsg(w->fd[n], &w->hdr, MSG_DONTWAIT);
-  if (nr >= 0) return;
-  if ((errno == EWOULDBLOCK) || (errno == EAGAIN)) return;
+  if (nr >= 0) return 0;
+  if ((errno == EWOULDBLOCK) || (errno == EAGAIN)) return 0;
+  if ((errno == ENOBUFS) || (errno == ENOMEM)) {
+    bw_log("sendmsg: %s\n", strerror(errno));
+    return -1;
+  }
 
   if (w->flags & BW_TRACE) {
     bw_log("purge %s: %s\n", w->name[n], strerror(errno));
@@ -616,6 +625,7 @@ static void wake_one(bw_t *w, int n) {
   w->fd[n] = -1;
   w->h->seqno++;
   w->h->wr[n].pid = 0;
+  return 0;
 }
 
 /*
@@ -637,7 +647,7 @@ int bw_wake(bw_t *w) {
 
   for(n = 0; n < BW_WAITMAX; n++) {
     if (w->fd[n] == -1) continue;
-    wake_one(w,n);
+    if (wake_one(w,n) < 0) goto done;
   }
 
   rc = 0;
-- 
2.43.0


From a9146bd5d97fb38b8dd9e2f3706951d379bf2a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 09/27] fix: shr_open releases wait/wake handles and cache when
 it fails late

If allocating the cache or the final sync failed, the sockets, the memory
and the registration as a waiter stayed behind.
---
 src/shr.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/shr.c b/src/shr.c
index 210616d..8a3c0c0 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -613,6 +613,13 @@ struct shr *shr_open(const char *file, unsigned flags, ...) {
   rc = 0;
 
  done:
+  if (s && rc) {
+    /* release bw handles, if opened, under lock */
+    if (s->w2r) bw_close(s->w2r);
+    if (s->r2w) bw_close(s->r2w);
+    if (s->c.buf) free(s->c.buf);
+    if (s->c.iov) free(s->c.iov);
+  }
   if (s && (s->ring_fd != -1)) unlock(s->ring_fd);
   if (s && rc) {
     if (s->ring_fd != -1) close(s->ring_fd);
-- 
2.43.0


From f781b00a3612df9706107886f3ca06ec0c341a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 10/27] fix: shr_init rejects dimensions whose total size is
 not representable

---
 src/shr.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/shr.c b/src/shr.c
index 8a3c0c0..89ea3ee 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -200,6 +200,7 @@ static int shr_sync(shr *s) {
  *
  */
 int shr_init(char *file, size_t data_sz, unsigned flags, ...) {
+  const size_t ring_max = SSIZE_MAX - sizeof(shr_ctrl) - sizeof(void*);
   size_t appsize=0, sz=0, mv_bytes, max_msgs=0, pad, m;
   int rc = -1, fd = -1, exists, sc;
   char *appdata=NULL, *buf=NULL;
@@ -225,6 +226,15 @@ int shr_init(char *file, size_t data_sz, unsigned flags, ...) {
     max_msgs = va_arg(ap, size_t);
   if (max_msgs == 0)
     max_msgs = (100 + data_sz / 100);
+
+  /* reject dimensions whose total exceeds the range of
+   * a file size, before disturbing any existing ring */
+  if ((max_msgs > ring_max / sizeof(struct msg)) ||
+      (data_sz  > ring_max - max_msgs * sizeof(struct msg)) ||
+      (appsize  > ring_max - max_msgs * sizeof(struct msg) - data_sz)) {
+    shr_log("shr_init: size out of range\n");
+    goto done;
+  }
   mv_bytes = max_msgs * sizeof(struct msg);
 
   exists = (access(file, F_OK) == 0) ? 1 : 0;
-- 
2.43.0


From d64ccded33c6f2269480266ef2e5742c8ec9369e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 11/27] fix: bw_open closes the sockets it connected when it
 fails midway

---
 lib/bw.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/bw.c b/lib/bw.c
index 0bcb018..b854a09 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -422,6 +422,9 @@ bw_t * bw_open(int flags, bw_handle *h, ...) {
   if (rc && w) {
     if (w->slotno != -1)
       w->h->wr[ w->slotno ].pid = 0;
+    for(n=0; n < BW_WAITMAX; n++) {
+      if (w->fd[n] != -1) close(w->fd[n]);
+    }
     if (w->listenfd != -1) close(w->listenfd);
     if (w->selffd != -1) close(w->selffd);
     if (w->epollfd != -1) close(w->epollfd);
-- 
2.43.0


From 9719f0d660c72dc44b269c4b48f90cd970b5b1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 12/27] fix: reject flags that combine the two mutually
 exclusive modes

---
 lib/bw.c  | 2 +-
 src/shr.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bw.c b/lib/bw.c
index b854a09..2bedf7c 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -345,7 +345,7 @@ bw_t * bw_open(int flags, bw_handle *h, ...) {
   va_list ap;
   va_start(ap, h);
 
-  if (((flags & BW_WAKE) ^ (flags & BW_WAIT)) == 0) {
+  if (!(flags & BW_WAKE) == !(flags & BW_WAIT)) {
     bw_log("bw_open: invalid mode\n");
     goto done;
   }
diff --git a/src/shr.c b/src/shr.c
index 89ea3ee..c1ad19e 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -486,7 +486,7 @@ static int open_blockwake(struct shr *s, int flags) {
 
 static int validate_flags(int flags) {
 
-  if (((flags & SHR_RDONLY) ^ (flags & SHR_WRONLY)) == 0)
+  if (!(flags & SHR_RDONLY) == !(flags & SHR_WRONLY))
     return -1; 
 
   if (flags & (SHR_OPEN_FENCE-1))
-- 
2.43.0


From a9d24c2ee5a31c1b5383d54e39626f4e62c2bdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 13/27] fix: a waiter with the recycled socket name of its
 predecessor is woken, not purged

---
 lib/bw.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/bw.c b/lib/bw.c
index 2bedf7c..cad30be 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -607,6 +607,8 @@ int bw_wait_ul(bw_t *w) {
  *        -1 on error (transient condition)
  */
 static int wake_one(bw_t *w, int n) {
+  struct sockaddr_un addr;
+  socklen_t len;
   ssize_t nr;
 
   if (w->flags & BW_TRACE) {
@@ -614,6 +616,16 @@ static int wake_one(bw_t *w, int n) {
   }
 
   nr = sendmsg(w->fd[n], &w->hdr, MSG_DONTWAIT);
+
+  /* our peer is gone, but the slot may have been taken since
+   * by a new waiter whose autobind name is the recycled name
+   * of its predecessor; bw_sync sees no change in that case */
+  if ((nr < 0) && (errno == ECONNREFUSED)) {
+    asc2sock(w->name[n], &addr, &len);
+    if (connect(w->fd[n], (struct sockaddr*)&addr, len) == 0)
+      nr = sendmsg(w->fd[n], &w->hdr, MSG_DONTWAIT);
+  }
+
   if (nr >= 0) return 0;
   if ((errno == EWOULDBLOCK) || (errno == EAGAIN)) return 0;
   if ((errno == ENOBUFS) || (errno == ENOMEM)) {
-- 
2.43.0


From ed3110d985dd593447e85adf6081541cca2dc514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:27 +0000
Subject: [PATCH 14/27] fix: shr-tool read resumes a partial write where it
 stopped and ends on a write error

---
 util/shr-tool.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 3264aa1..5f08f6d 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -186,6 +186,23 @@ void hexdump(char *buf, size_t len) {
   }
 }
 
+/* write the whole buffer, in as many
+ * partial writes as it takes.
+ * returns 0 on success, -1 on error */
+int write_all(int fd, char *buf, size_t len) {
+  ssize_t nr;
+
+  while (len > 0) {
+    nr = write(fd, buf, len);
+    if ((nr < 0) && (errno == EINTR)) continue;
+    if (nr < 0) return -1;
+    buf += nr;
+    len -= nr;
+  }
+
+  return 0;
+}
+
 /* unhexer, overwrites input space;
  * returns number of bytes or -1 */
 int unhex(char *h) {
@@ -684,16 +701,10 @@ int handle_io(void) {
       /* data to print */
       assert(nr > 0);
       if (cfg.mode == mode_read_hex) hexdump(cfg.buf,nr);
-      else do {
-        out = cfg.buf;
-        nw = write(STDOUT_FILENO, out, nr);
-        if (nw < 0) {
-          fprintf(stderr, "write: %s\n", strerror(errno));
-          goto done;
-        }
-        nr -= nw;
-        out += nw;
-      } while (nr > 0);
+      else if (write_all(STDOUT_FILENO, cfg.buf, nr) < 0) {
+        fprintf(stderr, "write: %s\n", strerror(errno));
+        goto done;
+      }
       fflush(stdout);
       cfg.nread++;
       if ((cfg.max_msgs > 0) && (cfg.nread >= cfg.max_msgs)) {
-- 
2.43.0


From 53972d2323259c5d6eb9a029fa27e46dcf158a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:27 +0000
Subject: [PATCH 15/27] fix: shr-tool pub completes a partially written frame
 length

---
 util/shr-tool.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 5f08f6d..cf972b9 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -671,9 +671,9 @@ int handle_signal(void) {
  */
 int handle_io(void) {
   int rc = -1, sc, fl;
-  ssize_t nr, np;
+  ssize_t nr;
   uint32_t len32;
-  size_t len, nw;
+  size_t len;
   char *out;
 
   nr = shr_read(cfg.shr, cfg.buf, BUFLEN);
@@ -726,13 +726,11 @@ int handle_io(void) {
           goto done;
         }
         len32 = (uint32_t)nr;
-        np = write(cfg.pub_fd, &len32, sizeof(len32));
-        if (np < 0) {
+        if (write_all(cfg.pub_fd, (char*)&len32, sizeof(len32)) < 0) {
           fprintf(stderr, "write: %s\n", strerror(errno));
           if (close_client() < 0) goto done;
           break;
         }
-        assert(np == sizeof(len32));
       }
 
       /* write frame proper */
-- 
2.43.0


From 33f0cad55dd366c93b79b046e84d03ff955b0877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:27 +0000
Subject: [PATCH 16/27] fix: a client that resets its connection does not end
 shr-tool pub

---
 util/shr-tool.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index cf972b9..5897ccd 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -580,15 +580,14 @@ int handle_client(void) {
 
   nr = recv(cfg.pub_fd, buf, sizeof(buf), MSG_DONTWAIT);
   if (nr < 0) {
+    if ((errno == EAGAIN) || (errno == EWOULDBLOCK) || (errno == EINTR)) return 0;
     fprintf(stderr, "recv: %s\n", strerror(errno) );
-    close_client();
-    return -1;
+    return close_client();
   }
 
   if (nr == 0) {
     fprintf(stderr, "client disconnected\n");
-    close_client();
-    return 0;
+    return close_client();
   }
 
   assert(nr > 0);
-- 
2.43.0


From c6588055c09bf6286c4cd68ddab962076d3c0be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:27 +0000
Subject: [PATCH 17/27] fix: shr-tool sub rejects a frame that does not fit its
 buffer instead of aborting

---
 util/shr-tool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 5897ccd..176b1e6 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -476,7 +476,7 @@ int decode_frames(void) {
   while(1) {
     if (c + sizeof(uint32_t) > eob) break;
     memcpy(&blen, c, sizeof(uint32_t));
-    if (blen > MAX_FRAME) {
+    if ((blen > MAX_FRAME) || (blen > BUFLEN - sizeof(uint32_t))) {
       fprintf(stderr,"discarding overlong frame\n");
       goto done;
     }
-- 
2.43.0


From 680840a86eb0a2c7270db9681fadb46baafc1426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 18/27] fix: shr-tool sub stores every complete frame however
 its reads are cut

---
 util/shr-tool.c | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 176b1e6..d8841f9 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -464,13 +464,17 @@ char *map(char *file, size_t *len) {
  */
 int decode_frames(void) {
   char *c, *body, *eob;
-  size_t iov_used=0;
+  size_t iov_used=0, nbytes=0;
+  struct shr_stat stat;
   uint32_t blen;
-  int rc = -1;
+  int rc = -1, bad = 0;
   ssize_t nr;
 
   assert( cfg.mode == mode_sub );
 
+  /* one shr_writev can carry at most what the ring can hold */
+  if (shr_stat(cfg.shr, &stat, NULL) < 0) goto done;
+
   eob = cfg.buf + cfg.sub_buf_used;
   c = cfg.buf;
   while(1) {
@@ -478,27 +482,38 @@ int decode_frames(void) {
     memcpy(&blen, c, sizeof(uint32_t));
     if ((blen > MAX_FRAME) || (blen > BUFLEN - sizeof(uint32_t))) {
       fprintf(stderr,"discarding overlong frame\n");
-      goto done;
+      bad = 1;
+      break;
     }
     body = c + sizeof(uint32_t);
     if (body + blen > eob) break;
+    if ((iov_used > 0) && ((iov_used == stat.mm) || (blen == 0) ||
+        (nbytes + blen > stat.bn))) {
+      nr = shr_writev(cfg.shr, cfg.sub_iov, iov_used);
+      if (nr < 0) {
+        fprintf(stderr,"shr_writev: error (%zd)\n", nr);
+        goto done;
+      }
+      iov_used = 0;
+      nbytes = 0;
+    }
     cfg.sub_iov[ iov_used ].iov_base = body;
     cfg.sub_iov[ iov_used ].iov_len  = blen;
     iov_used++;
-    if (iov_used == NUMIOV) break;
+    nbytes += blen;
     c += sizeof(uint32_t) + blen;
+    if (iov_used == NUMIOV) break;
   }
 
-  if (iov_used == 0) {
-    rc = 0;
-    goto done;
+  if (iov_used > 0) {
+    nr = shr_writev(cfg.shr, cfg.sub_iov, iov_used);
+    if (nr < 0) {
+      fprintf(stderr,"shr_writev: error (%zd)\n", nr);
+      goto done;
+    }
   }
 
-  nr = shr_writev(cfg.shr, cfg.sub_iov, iov_used);
-  if (nr < 0) {
-    fprintf(stderr,"shr_writev: error (%zd)\n", nr);
-    goto done;
-  }
+  if (bad) goto done;
 
   /* if buffer ends with partial frame, save it */
   if (c < eob) memmove(cfg.buf, c, eob - c);
-- 
2.43.0


From 5335b336d408a5411b4ea18b6d42d78d52767403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 19/27] fix: shr-tool writehex accepts only hex digits

---
 util/shr-tool.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index d8841f9..eb373c5 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -211,6 +211,8 @@ int unhex(char *h) {
   unsigned u;
   size_t i, len = strlen(h);
 
+  if (strspn(h, "0123456789abcdefABCDEF") != len) goto done;
+
   if (len == 0) goto done;
   if (len &  1) goto done; /* odd number of digits */
   for(i=0; i < len; i += 2) {
-- 
2.43.0


From eb068836c0d729998555a1f64d2900fbcb87fd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 20/27] fix: shr-tool write keeps long lines and embedded NULs
 intact

---
 util/shr-tool.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index eb373c5..f8fc3a3 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -932,11 +932,11 @@ int try_delegate(int argc, char *argv[]) {
 
 int main(int argc, char *argv[]) {
   int n, one_shot=0, opt, rc=-1, sc, mode, fd, epoll_mode, tmo, ec;
-  char unit, *c, *app_data, *cmd, line[1000], opts[100],
+  char unit, *c, *app_data, *cmd, *line=NULL, opts[100],
     *ring1=NULL, *ring2=NULL, *data, *sub;
   struct epoll_event ev;
   struct shr_stat stat;
-  size_t app_len = 0;
+  size_t app_len = 0, line_sz = 0;
   cfg.prog = argv[0];
   struct statfs sf;
   struct stat sb;
@@ -1187,9 +1187,8 @@ int main(int argc, char *argv[]) {
       one_shot=1;
       cfg.shr = shr_open(cfg.ring, SHR_WRONLY);
       if (cfg.shr == NULL) goto done;
-      while (fgets(line, sizeof(line), stdin)) {
-        nr = strlen(line);
-        if ((nr > 0) && (line[nr-1] == '\n')) line[nr--] = '\0';
+      while ((nr = getline(&line, &line_sz, stdin)) > 0) {
+        if (line[nr-1] == '\n') line[--nr] = '\0';
         if (shr_write(cfg.shr, line, nr) < 0) {
           fprintf(stderr, "shr_write: error\n");
           goto done;
@@ -1341,6 +1340,7 @@ int main(int argc, char *argv[]) {
   if (cfg.wfile_buf) munmap(cfg.wfile_buf, cfg.wfile_len);
   if (cfg.wfile) free(cfg.wfile);
   if (cfg.addr_spec) free(cfg.addr_spec);
+  if (line) free(line);
   return rc;
 }
 
-- 
2.43.0


From 8a08bb56d9632ab38347d03e2e7b79f7818439fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 21/27] fix: shr-tool readhex ends when its output fails

---
 util/shr-tool.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index f8fc3a3..3637976 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -721,7 +721,10 @@ int handle_io(void) {
         fprintf(stderr, "write: %s\n", strerror(errno));
         goto done;
       }
-      fflush(stdout);
+      if ((fflush(stdout) == EOF) || ferror(stdout)) {
+        fprintf(stderr, "write: %s\n", strerror(errno));
+        goto done;
+      }
       cfg.nread++;
       if ((cfg.max_msgs > 0) && (cfg.nread >= cfg.max_msgs)) {
         goto done;
-- 
2.43.0


From 2e4c5148d44054139e0739789632f7759b5acc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 22/27] fix: shr-tool status copies the app-data out completely
 or fails

---
 util/shr-tool.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 3637976..b67a90e 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -1162,8 +1162,8 @@ int main(int argc, char *argv[]) {
           if (fd < 0) {
             fprintf(stderr, "open %s: %s\n", cfg.wfile, strerror(errno));
           } else { 
-            nr = write(fd, app_data, app_len);
-            if (nr < 0) {
+            if (write_all(fd, app_data, app_len) < 0) {
+              rc = -1;
               fprintf(stderr, "write: %s\n", strerror(errno));
               goto done;
             }
-- 
2.43.0


From 36f8d5013fbf0c3d4b292482a93bc5ae387786df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 23/27] fix: shr-tool mount -H does not also set -N

---
 util/shr-tool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index b67a90e..9e83487 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -1001,6 +1001,7 @@ int main(int argc, char *argv[]) {
       case 'u': cfg.mount_mode = mnt_unmount; break;
       case 'q': cfg.mount_mode = mnt_query; break;
       case 'H': cfg.nr_hugepages = atoi(optarg);
+                break;
       case 'N': cfg.flags |= SHR_MAXMSGS_2;
                 cfg.max_msgs = atoi(optarg);
                 break;
-- 
2.43.0


From 1d54a0438acaad470921fa8821ccdbd55a872cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:27 +0000
Subject: [PATCH 24/27] fix: treat a refused wakeup connection as proof that
 the waiter is gone

When a killed waiter had not yet been reaped (or its pid had passed to
another user's process), /proc/<pid>/fd is not readable to an unprivileged
user, has_pid_socket() is indeterminate, and every attempt to open the ring
for writing failed with 'connect: Connection refused'.
---
 lib/bw.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/bw.c b/lib/bw.c
index cad30be..2382402 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -153,8 +153,13 @@ static int open_socket(bw_t *w, int n) {
   errtmp = errno;
   close(fd);
 
-  /* release slot if socket owner exited; success */
-  sc = has_pid_socket(h->wr[n].pid, w->name[n]); 
+  /* release slot if socket owner exited; success.
+   * a refused connection means that no socket has
+   * this name, even if /proc can't confirm it (the
+   * owner may be an unreaped, killed process, or its
+   * pid may have passed to another user's process) */
+  sc = (errtmp == ECONNREFUSED) ? 0 :
+       has_pid_socket(h->wr[n].pid, w->name[n]); 
   if (sc == 0) {
     h->wr[n].pid = 0;
     h->seqno++;
-- 
2.43.0


From 9969d48033867a4db8113bbec967b0fd4f1c1fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:53 +0000
Subject: [PATCH 25/27] fix: shr-tool mount -q reports a tmpfs without a size
 limit

---
 util/shr-tool.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 9e83487..f1d7f06 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -406,6 +406,12 @@ int query_ramdisk(char *ramdisk) {
     return 0;
   }
 
+  /* a tmpfs mounted without a size limit has no block count */
+  if (sf.f_blocks == 0) {
+    printf("%s: tmpfs (unbounded size)\n", ramdisk);
+    return 0;
+  }
+
   char szb[100];
   long bytes = sf.f_bsize*sf.f_blocks;
   if (bytes < KB) snprintf(szb, sizeof(szb), "%ld bytes", bytes);
-- 
2.43.0


From 8a249c2c27a0a8ab6d415d4c15603a1bcd953f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:13 +0000
Subject: [PATCH 26/27] fix: retry the ring lock when a signal interrupts the
 wait for it

---
 src/shr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index c1ad19e..9f0aedf 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -114,7 +114,12 @@ static int lock(int fd) {
     .l_whence = SEEK_SET
   };
 
-  sc = fcntl(fd, F_SETLKW, &f);
+  /* the lock is only held briefly; a signal must not fail
+   * a caller that cannot try again, such as shr_close */
+  do {
+    sc = fcntl(fd, F_SETLKW, &f);
+  } while ((sc < 0) && (errno == EINTR));
+
   if (sc < 0) {
     shr_log("fcntl lock: %s\n", strerror(errno));
     goto done;
-- 
2.43.0


From 95919ea6c85d186f84a4f7fc6062e031d39275a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:22 +0000
Subject: [PATCH 27/27] fix: shr-tool refuses a port that is not a number from
 1 to 65535

---
 util/shr-tool.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index f1d7f06..f268976 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -280,9 +280,10 @@ int new_epoll(int events, int fd) {
  *
  */
 int parse_spec(char *spec, struct sockaddr_in *sa) {
-  char *colon=NULL, *p, *h;
+  char *colon=NULL, *p, *h, *end;
   struct hostent *e;
-  int rc = -1, port;
+  int rc = -1;
+  long port;
   uint32_t s_addr;
 
   memset(sa, 0, sizeof(*sa));
@@ -298,8 +299,8 @@ int parse_spec(char *spec, struct sockaddr_in *sa) {
     goto done;
   }
 
-  port = atoi(p);
-  if ((port <= 0) || (port > 65535)) {
+  port = strtol(p, &end, 10);
+  if ((*p == '\0') || *end || (port <= 0) || (port > 65535)) {
     fprintf(stderr, "%s: not a port number\n", p);
     goto done;
   }
@@ -310,7 +311,7 @@ int parse_spec(char *spec, struct sockaddr_in *sa) {
   if (h) memcpy(&sa->sin_addr.s_addr, e->h_addr, e->h_length);
 
   if (cfg.verbose) {
-    fprintf(stderr, "%s -> IP %s port %d\n",
+    fprintf(stderr, "%s -> IP %s port %ld\n",
       spec, inet_ntoa(sa->sin_addr), port);
   }
 
-- 
2.43.0

