From 2e8cb625872138a701baeb1e8e76421aee118d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:18 +0000
Subject: [PATCH 001/100] fix: freepipe leaked the pipe structure

---
 lib/os/threads.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/os/threads.c b/lib/os/threads.c
index 9de1b7c..a2aefaf 100644
--- a/lib/os/threads.c
+++ b/lib/os/threads.c
@@ -133,6 +133,7 @@ pub void freepipe(pipe_t *p) {
 	cnd_free(p->sig_read);
 	mtx_free(p->lock);
 	free(p->items);
+	free(p);
 }
 
 // Reads one entry from the pipe into out.
-- 
2.43.0


From 3444ab515c39ddf973fb2f3e500ecbcf5ca78309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:29 +0000
Subject: [PATCH 002/100] fix: freeing a descriptor reader or writer left the
 descriptor open

A spawned process never saw the end of its input and every spawn leaked
three descriptors.
---
 lib/reader.c | 9 ++++++++-
 lib/writer.c | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index 3480feb..f792c54 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -113,9 +113,16 @@ int fd_read(void *ctx, uint8_t *buf, size_t n) {
 	return OS.read(state->fd, buf, n);
 }
 
+void fd_free(void *ctx) {
+	fd_t *state = ctx;
+	OS.close(state->fd);
+	OS.free(state);
+}
+
 // Returns a reader for file descriptor f.
+// The descriptor is closed when the reader is freed.
 pub t *fd(int f) {
 	fd_t *state = calloc!(1, sizeof(fd_t));
 	state->fd = f;
-	return new(state, fd_read, OS.free);
+	return new(state, fd_read, fd_free);
 }
diff --git a/lib/writer.c b/lib/writer.c
index 86bbe95..e421acb 100644
--- a/lib/writer.c
+++ b/lib/writer.c
@@ -104,10 +104,17 @@ int mem_write(void *ctx, const uint8_t *data, size_t n) {
 typedef { int fd; } fd_t;
 
 // Returns a writer writing to the file descriptor f.
+// The descriptor is closed when the writer is freed.
 pub t *fd(int f) {
 	fd_t *state = calloc!(1, sizeof(fd_t));
 	state->fd = f;
-	return new(state, fd_write, OS.free);
+	return new(state, fd_write, fd_free);
+}
+
+void fd_free(void *ctx) {
+	fd_t *state = ctx;
+	OS.close(state->fd);
+	OS.free(state);
 }
 
 int fd_write(void *ctx, const uint8_t *data, size_t n) {
-- 
2.43.0


From 962f12511bf1013ea6109b4bf558d30690203e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:29 +0000
Subject: [PATCH 003/100] fix: a spawned process kept pipe ends of other
 spawned processes open

The first process did not see the end of its input until the others ended.
---
 lib/os/proc.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/os/proc.c b/lib/os/proc.c
index 6279ad0..a436b5e 100644
--- a/lib/os/proc.c
+++ b/lib/os/proc.c
@@ -1,3 +1,4 @@
+#include <fcntl.h>
 #include <sys/types.h>
 #include <unistd.h>
 #include <sys/wait.h>
@@ -40,6 +41,11 @@ pub proc_t *spawn(char *argv[], *env[]) {
         return NULL;
     }
 
+    // Other processes started meanwhile must not keep our ends open.
+    OS.fcntl(in[1], OS.F_SETFD, OS.FD_CLOEXEC);
+    OS.fcntl(out[0], OS.F_SETFD, OS.FD_CLOEXEC);
+    OS.fcntl(err[0], OS.F_SETFD, OS.FD_CLOEXEC);
+
     int pid = OS.fork();
     if (pid < 0) {
         OS.close(in[0]); OS.close(in[1]);
@@ -73,6 +79,9 @@ pub proc_t *spawn(char *argv[], *env[]) {
         if (OS.dup2(err[1], OS.STDERR_FILENO) < 0) {
             panic("dup2 failed");
         }
+        if (in[0] > 2) OS.close(in[0]);
+        if (out[1] > 2) OS.close(out[1]);
+        if (err[1] > 2) OS.close(err[1]);
         OS.execve(argv[0], argv, env);
         // Shouldn't reach here.
         panic("execve '%s' failed: %s\n", argv[0], strerror(errno));
-- 
2.43.0


From 8488e952f8adeffa52a153c24c784bb8a25b7d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:29 +0000
Subject: [PATCH 004/100] fix: output pending at a fork was written by the
 child processes too

---
 lib/os/proc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/os/proc.c b/lib/os/proc.c
index a436b5e..10f3f3c 100644
--- a/lib/os/proc.c
+++ b/lib/os/proc.c
@@ -46,6 +46,8 @@ pub proc_t *spawn(char *argv[], *env[]) {
     OS.fcntl(out[0], OS.F_SETFD, OS.FD_CLOEXEC);
     OS.fcntl(err[0], OS.F_SETFD, OS.FD_CLOEXEC);
 
+    // What is still in the stdio buffers must not be written by the child too.
+    fflush(NULL);
     int pid = OS.fork();
     if (pid < 0) {
         OS.close(in[0]); OS.close(in[1]);
@@ -123,6 +125,8 @@ pub void parallel(workerfunc_t f, void **jobs) {
 }
 
 void spawnp(workerfunc_t f, void *job) {
+    // What is still in the stdio buffers must not be written by the child too.
+    fflush(NULL);
     int pid = OS.fork();
     if (pid < 0) panic("fork failed");
     if (pid > 0) return;
-- 
2.43.0


From ef468232c0ddf50d2913648bb1445efaff8e7059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:09 +0000
Subject: [PATCH 005/100] fix: a failed connect or listen left its socket open

---
 lib/os/net.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/os/net.c b/lib/os/net.c
index 451e605..954a137 100644
--- a/lib/os/net.c
+++ b/lib/os/net.c
@@ -92,7 +92,9 @@ pub net_t *connect(const char *proto, const char *addr) {
 	net_t *c = newconn(proto, addr);
 	if (!c) return NULL;
 	if (OS.connect(c->fd, &(c->ai_addr), c->addrlen) < 0) {
-		free(c);
+		int err = errno;
+		close(c);
+		errno = err;
 		return NULL;
 	}
 	return c;
@@ -107,8 +109,10 @@ pub net_t *connect_nonblock(const char *proto, *addr) {
 	if (flags < 0) panic("fcntl failed");
 	if (OS.fcntl(c->fd, OS.F_SETFL, flags | OS.O_NONBLOCK) < 0) panic("fcntl failed");
 	if (OS.connect(c->fd, &(c->ai_addr), c->addrlen) < 0) {
-		if (errno == OS.EINPROGRESS) return c;
-		free(c);
+		int err = errno;
+		if (err == OS.EINPROGRESS) return c;
+		close(c);
+		errno = err;
 		return NULL;
 	}
 	return c;
@@ -134,18 +138,18 @@ pub net_t *net_listen(const char *proto, const char *addr) {
 	int yes = 1;
 	if (OS.setsockopt(c->fd, OS.SOL_SOCKET, OS.SO_REUSEADDR, &yes, sizeof(int)) != 0) {
 		error = "setsockopt failed";
-		free(c);
+		close(c);
 		return NULL;
 	}
 	if (OS.bind(c->fd, &(c->ai_addr), c->addrlen) != 0) {
 		error = "bind failed";
-		free(c);
+		close(c);
 		return NULL;
 	}
 	int backlog = 16;
 	if (OS.listen(c->fd, backlog) != 0) {
 		error = "listen failed";
-		free(c);
+		close(c);
 		return NULL;
 	}
 	return c;
-- 
2.43.0


From 18eb0999bb43d7c2e89a6d00322daec3ee329fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:09 +0000
Subject: [PATCH 006/100] fix: net_puts and net_printf dropped the rest of the
 text after a short send

---
 lib/os/net.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/os/net.c b/lib/os/net.c
index 954a137..4724e2b 100644
--- a/lib/os/net.c
+++ b/lib/os/net.c
@@ -287,15 +287,19 @@ bool format_address(sockaddr_t *a, char *buf, size_t n) {
  */
 int net_puts(const char *s, net_t *c) {
 	size_t len = strlen(s);
-	int r = write(c, s, len);
+	size_t sent = 0;
+	while (sent < len) {
+		int r = write(c, s + sent, len - sent);
 
-	// return EOF if a write error occurs
-	if (r < 0 || (size_t) r < len) {
-		return EOF;
+		// return EOF if a write error occurs
+		if (r <= 0) {
+			return EOF;
+		}
+		sent += (size_t) r;
 	}
 
 	// return a non-negative value on success
-	return r;
+	return (int) len;
 }
 
 /*
-- 
2.43.0


From 3ea6ee2e6db9d9d2eef3a8385e54d604092fad4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:00 +0000
Subject: [PATCH 007/100] fix: dir_next returned "." when the directory lists
 ".." first

---
 lib/os/fs.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/os/fs.c b/lib/os/fs.c
index e87d1b9..d02fd43 100644
--- a/lib/os/fs.c
+++ b/lib/os/fs.c
@@ -27,11 +27,8 @@ pub dir_t *dir_open(const char *path) {
 // Reads one entry from the directory iterator and returns the file name.
 pub const char *dir_next(dir_t *d) {
 	dirent_t *e = OS.readdir(d->d);
-	// Skip "." and "..".
-	if (e != NULL && strcmp(e->d_name, ".") == 0) {
-		e = OS.readdir(d->d);
-	}
-	if (e != NULL && strcmp(e->d_name, "..") == 0) {
+	// Skip "." and "..", which may come in any order.
+	while (e != NULL && (strcmp(e->d_name, ".") == 0 || strcmp(e->d_name, "..") == 0)) {
 		e = OS.readdir(d->d);
 	}
 	if (e == NULL) {
-- 
2.43.0


From f031434b519c99244ae70895c3fb4e2d448960fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:00 +0000
Subject: [PATCH 008/100] fix: readfile ended the program on a read error
 instead of returning NULL

---
 lib/os/fs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/os/fs.c b/lib/os/fs.c
index d02fd43..2d24475 100644
--- a/lib/os/fs.c
+++ b/lib/os/fs.c
@@ -114,7 +114,9 @@ pub char *readfile(const char *path, size_t *size) {
 	for (size_t i = 0; i < len; i++) {
 		int c = fgetc(f);
 		if (c == EOF) {
-			panic("unexpected end of file");
+			fclose(f);
+			free(data);
+			return NULL;
 		}
 		*p = c;
 		p++;
-- 
2.43.0


From b0ce9caff2b60c3a6c679af4eb23d24c8f5fa316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:59 +0000
Subject: [PATCH 009/100] fix: tokenizer missed a literal that arrived in
 several pieces

---
 lib/tokenizer.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/lib/tokenizer.c b/lib/tokenizer.c
index 7770316..0c4de89 100644
--- a/lib/tokenizer.c
+++ b/lib/tokenizer.c
@@ -250,19 +250,14 @@ pub bool skip_literal(t *b, const char *literal) {
 
 // Returns true if the given literal is next in the buffer.
 pub bool literal_follows(t *b, const char *literal) {
-	_prefetch(b, strlen(literal));
-	if (b->cachesize < strlen(literal)) {
-		return false;
-	}
-
-	const uint8_t *p1 = b->cache;
-	const uint8_t *p2 = (void *) literal;
-	while (*p2) {
-		if (!*p1 || *p1 != *p2) {
+	const uint8_t *p = (void *) literal;
+	size_t n = strlen(literal);
+	for (size_t i = 0; i < n; i++) {
+		// The reader may give fewer bytes than asked for.
+		_prefetch(b, i + 1);
+		if (b->cachesize <= i || b->cache[i] != p[i]) {
 			return false;
 		}
-		p1++;
-		p2++;
 	}
 	return true;
 }
-- 
2.43.0


From 19ab68aaa6af35d9245390c7386f9820a495ab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:59 +0000
Subject: [PATCH 010/100] fix: endian readers took uninitialised bytes for data
 after a short read

---
 lib/enc/endian.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/lib/enc/endian.c b/lib/enc/endian.c
index ede160b..3e3a996 100644
--- a/lib/enc/endian.c
+++ b/lib/enc/endian.c
@@ -1,13 +1,25 @@
 #import writer
 #import reader
 
+// Reads exactly n bytes into buf, which may take several reads.
+// Returns n or the value returned by the read that gave nothing.
+int readn(reader.t *r, uint8_t *buf, size_t n) {
+	size_t have = 0;
+	while (have < n) {
+		int k = reader.read(r, buf + have, n - have);
+		if (k <= 0) return k;
+		have += (size_t) k;
+	}
+	return (int) n;
+}
+
 pub int read1(reader.t *r, uint8_t *v) {
 	return reader.read(r, v, 1);
 }
 
 pub int read2le(reader.t *r, uint16_t *v) {
 	uint8_t buf[2];
-	if (reader.read(r, buf, 2) != 2) {
+	if (readn(r, buf, 2) != 2) {
 		return -1;
 	}
 	*v = buf[0] + 256 * buf[1];
@@ -18,7 +30,7 @@ pub int read2le(reader.t *r, uint16_t *v) {
 // Returns false on error.
 pub bool read2be(reader.t *r, uint16_t *v) {
 	uint8_t buf[2];
-	if (reader.read(r, buf, 2) != 2) {
+	if (readn(r, buf, 2) != 2) {
 		return false;
 	}
 	*v = buf[0] * 256 + buf[1];
@@ -29,7 +41,8 @@ pub bool read2be(reader.t *r, uint16_t *v) {
 // Returns the number of bytes read (3) or one of the error values.
 pub int read3le(reader.t *r, uint32_t *v) {
 	uint8_t buf[3];
-	int n = reader.read(r, buf, 3);
+	int n = readn(r, buf, 3);
+	if (n != 3) return n;
 	uint32_t x = 0;
 	x = x * 256 + buf[2];
 	x = x * 256 + buf[1];
@@ -42,7 +55,8 @@ pub int read3le(reader.t *r, uint32_t *v) {
 // Returns the number of bytes read (4) or one of the error values.
 pub int read4be(reader.t *r, uint32_t *v) {
 	uint8_t buf[4];
-	int n = reader.read(r, buf, 4);
+	int n = readn(r, buf, 4);
+	if (n != 4) return n;
 	uint32_t x = 0;
 	x = x * 256 + buf[0];
 	x = x * 256 + buf[1];
@@ -56,7 +70,8 @@ pub int read4be(reader.t *r, uint32_t *v) {
 // Returns the number of bytes read or one of the error values.
 pub int read4le(reader.t *r, uint32_t *v) {
 	uint8_t buf[4];
-	int n = reader.read(r, buf, 4);
+	int n = readn(r, buf, 4);
+	if (n != 4) return n;
 	uint32_t x = 0;
 	x = x * 256 + buf[3];
 	x = x * 256 + buf[2];
-- 
2.43.0


From f1488fc877c5689c014324273397b34476e16f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:59 +0000
Subject: [PATCH 011/100] fix: linereader took byte 0xFF for the end of the
 file

---
 lib/linereader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/linereader.c b/lib/linereader.c
index 204df28..737534b 100644
--- a/lib/linereader.c
+++ b/lib/linereader.c
@@ -22,7 +22,7 @@ pub bool read(t *b) {
 	}
 	size_t len = 0;
 	while (true) {
-		char c = fgetc(b->f);
+		int c = fgetc(b->f);
 		if (c == EOF) {
 			b->ended = true;
 			break;
-- 
2.43.0


From 54fe319ee0146e6d63ce52117e351ec904ea3b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:49 +0000
Subject: [PATCH 012/100] fix: a compiler message that is not UTF-8 made a
 successful build fail

---
 src/build.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/build.rs b/src/build.rs
index 26489bb..86a5c58 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -81,8 +81,9 @@ pub fn build_prog(source_path: &String, output_name: &str) -> Result<(), Vec<Bui
     let mut proc = cmd.spawn().unwrap();
     let out = proc.stderr.as_mut().unwrap();
     let reader = std::io::BufReader::new(out);
-    for liner in reader.lines() {
-        let mut line = liner.unwrap();
+    // The compiler may quote source bytes that aren't valid UTF-8.
+    for liner in reader.split(b'\n') {
+        let mut line = String::from_utf8_lossy(&liner.unwrap()).to_string();
         for p in &pathsmap {
             line = line.replace(&p.path, &format!("{} -> {}", &p.id, &p.path));
         }
-- 
2.43.0


From 51f9e570db0adc25ffca86d2188822d6b8e345c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:41 +0000
Subject: [PATCH 013/100] fix: builds running at the same time overwrote each
 other's generated files

---
 src/build.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/build.rs b/src/build.rs
index 86a5c58..98d1de5 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -32,12 +32,15 @@ pub struct PathId {
 pub fn build_prog(source_path: &String, output_name: &str) -> Result<(), Vec<BuildError>> {
     // Decide where we'll stash all generated C code.
     let tmp_dir_path = format!("{}/tmp", resolve::homepath());
-    if fs::metadata(&tmp_dir_path).is_err() {
-        fs::create_dir(&tmp_dir_path).unwrap();
-    }
+    fs::create_dir_all(&tmp_dir_path).unwrap();
 
     let proj = parse_project(source_path)?;
 
+    // The generated files are named after the source paths, so a build running
+    // at the same time would overwrite them: only one may use the directory.
+    let lock = fs::File::create(format!("{}/lock", tmp_dir_path)).unwrap();
+    lock.lock().unwrap();
+
     // translate(&mut proj).map_err(|e| vec![e])?;
     let pathsmap = write_c99(&proj, &tmp_dir_path).unwrap();
 
-- 
2.43.0


From d47aed86d7c080b7e16d2320e6bdf17c223e25cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:41 +0000
Subject: [PATCH 014/100] fix: che run could execute the program of another che
 run

---
 src/main_run.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main_run.rs b/src/main_run.rs
index c625c12..f88972f 100644
--- a/src/main_run.rs
+++ b/src/main_run.rs
@@ -10,7 +10,9 @@ pub fn run(args: &[String]) -> i32 {
     }
     let src = &args[0];
     let run_args = &args[1..];
-    match build::build_prog(src, "/tmp/chebuild") {
+    // Other che processes may be doing the same at this moment.
+    let exe_path = format!("/tmp/chebuild-{}", std::process::id());
+    match build::build_prog(src, &exe_path) {
         Ok(()) => {}
         Err(errors) => {
             for err in errors {
@@ -19,7 +21,7 @@ pub fn run(args: &[String]) -> i32 {
             return 1;
         }
     }
-    let mut cmd = Command::new("/tmp/chebuild");
+    let mut cmd = Command::new(&exe_path);
     cmd.args(run_args);
     let err = cmd.exec();
     eprintln!("exec failed: {}", err.to_string());
-- 
2.43.0


From c27b05cf1a11256aba4595948d5ee9b637ee2161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:43 +0000
Subject: [PATCH 015/100] fix: che reported success for an unknown command

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index b3ce8e3..6f3c928 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -53,7 +53,10 @@ fn main() {
     let cmd = args[1].as_str();
     match SUBCOMMANDS.iter().find(|(name, _, _)| *name == cmd) {
         Some((_, _, func)) => exit(func(&args[2..])),
-        None => usage(),
+        None => {
+            usage();
+            exit(1);
+        }
     };
 }
 
-- 
2.43.0


From 63bf40b375c21b32acd570c872b2e6ba7c05864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:04 +0000
Subject: [PATCH 016/100] fix: che test exited with 0 when 256 tests failed

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6f3c928..39a88d5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -52,7 +52,8 @@ fn main() {
     }
     let cmd = args[1].as_str();
     match SUBCOMMANDS.iter().find(|(name, _, _)| *name == cmd) {
-        Some((_, _, func)) => exit(func(&args[2..])),
+        // Exit codes are cut to 8 bits, and 256 (failed tests) would look like success.
+        Some((_, _, func)) => exit(func(&args[2..]).min(255)),
         None => {
             usage();
             exit(1);
-- 
2.43.0


From 7e50db5328d917773227f58550f8d92f6a386649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:15 +0000
Subject: [PATCH 017/100] fix: http headers overflowed their buffers

---
 lib/protocols/http.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/protocols/http.c b/lib/protocols/http.c
index 50e5aa2..1a7efd3 100644
--- a/lib/protocols/http.c
+++ b/lib/protocols/http.c
@@ -239,6 +239,11 @@ pub bool parse_response(reader.t *re, response_t *r) {
 		if (tokenizer.skip_literal(b, "\r\n")) {
 			break;
 		}
+		// No space for more headers.
+		if (r->nheaders == nelem(r->headers)) {
+			tokenizer.free(b);
+			return false;
+		}
 		header_t *h = &r->headers[r->nheaders++];
 		if (!read_header(b, h)) {
 			tokenizer.free(b);
@@ -318,18 +323,16 @@ bool read_status_line(tokenizer.t *b, response_t *r) {
 }
 
 bool read_header(tokenizer.t *b, header_t *h) {
-	char *tmp = h->name;
-	while (tokenizer.more(b) && tokenizer.peek(b) != ':') {
-		*tmp++ = tokenizer.get(b);
+	if (!tokenizer.read_until(b, ':', h->name, sizeof(h->name))) {
+		return false;
 	}
 	// : space
 	if (!tokenizer.skip_literal(b, ": ")) {
 		return false;
 	}
 	// value
-	tmp = h->value;
-	while (tokenizer.more(b) && tokenizer.peek(b) != '\r') {
-		*tmp++ = tokenizer.get(b);
+	if (!tokenizer.read_until(b, '\r', h->value, sizeof(h->value))) {
+		return false;
 	}
 	// eol
 	if (!tokenizer.skip_literal(b, "\r\n")) {
@@ -359,6 +362,11 @@ pub bool read_request(reader.t *br, request_t *r) {
 		// Empty line terminates the headers list.
 		if (tokenizer.skip_literal(b, "\r\n")) break;
 
+		// No space for more headers.
+		if (r->nheaders == nelem(r->headers)) {
+			ok = false;
+			break;
+		}
 		header_t *h = &r->headers[r->nheaders];
 		ok = true
 			&& tokenizer.read_until(b, ':', h->name, sizeof(h->name))
-- 
2.43.0


From cade3702244077eb391096a3498895fe9d0771c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:39 +0000
Subject: [PATCH 018/100] fix: http.parse_response overflowed, crashed or
 accepted truncated responses

---
 lib/protocols/http.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/protocols/http.c b/lib/protocols/http.c
index 1a7efd3..b07c2d4 100644
--- a/lib/protocols/http.c
+++ b/lib/protocols/http.c
@@ -235,8 +235,10 @@ pub bool parse_response(reader.t *re, response_t *r) {
 		tokenizer.free(b);
 		return false;
 	}
+	bool ended = false;
 	while (tokenizer.more(b)) {
 		if (tokenizer.skip_literal(b, "\r\n")) {
+			ended = true;
 			break;
 		}
 		// No space for more headers.
@@ -250,7 +252,8 @@ pub bool parse_response(reader.t *re, response_t *r) {
 			return false;
 		}
 	}
-	bool ok = read_body(b, r);
+	// The input may end before the headers do.
+	bool ok = ended && read_body(b, r);
 	tokenizer.free(b);
     return ok;
 }
@@ -259,8 +262,12 @@ bool read_body(tokenizer.t *b, response_t *r) {
 	const char *tmp = get_res_header(r, "Content-Length");
 	if (tmp) {
 		r->content_length = atoi(tmp);
+		// One byte is left for the terminating zero.
+		if (r->content_length < 0 || (size_t) r->content_length >= sizeof(r->body)) {
+			return false;
+		}
 		for (int i = 0; i < r->content_length; i++) {
-			char c = tokenizer.get(b);
+			int c = tokenizer.get(b);
 			if (c == EOF) {
 				return false;
 			}
@@ -271,17 +278,17 @@ bool read_body(tokenizer.t *b, response_t *r) {
 
 	// Connection: close implies that the rest of the data is body.
 	tmp = get_res_header(r, "Connection");
-	if (!strcmp(tmp, "close")) {
+	if (tmp && !strcmp(tmp, "close")) {
 		size_t i = 0;
 		while (tokenizer.more(b)) {
 			if (i + 1 == sizeof(r->body)) {
-				panic("body buffer too small");
+				return false;
 			}
 			r->body[i++] = tokenizer.get(b);
 		}
 		return true;
 	}
-	panic("unknown response body format");
+	// Unknown response body format.
 	return false;
 }
 
-- 
2.43.0


From 7ee49eb266f4010d774c47c8de6addca632835c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:58 +0000
Subject: [PATCH 019/100] fix: http.write_request truncated long parameters and
 gave up on short writes

---
 lib/protocols/http.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/protocols/http.c b/lib/protocols/http.c
index b07c2d4..42569a4 100644
--- a/lib/protocols/http.c
+++ b/lib/protocols/http.c
@@ -143,7 +143,8 @@ pub int write_request(writer.t *w, request_t *r) {
 		strbuilder.adds(sb, param->name);
 		strbuilder.adds(sb, "=");
 
-		uint8_t tmp[1000] = {};
+		// An encoded byte takes up to three characters.
+		uint8_t tmp[3 * sizeof(param->value) + 1] = {};
 		writer.t *w2 = writer.static_buffer(tmp, sizeof(tmp));
 		urlencode.write(w2, param->value, param->valuelen);
 		writer.free(w2);
@@ -167,10 +168,16 @@ pub int write_request(writer.t *w, request_t *r) {
     strbuilder.adds(sb, "\r\n");
 
 	const char *s = strbuilder.str_raw(sb);
-	int len = writer.write(w, (uint8_t *)s, strlen(s));
-	bool ok = (len == (int)strlen(s));
+	int len = (int) strlen(s);
+	int sent = 0;
+	while (sent < len) {
+		// The writer may take only a part.
+		int n = writer.write(w, (uint8_t *)s + sent, (size_t) (len - sent));
+		if (n <= 0) break;
+		sent += n;
+	}
     strbuilder.free(sb);
-    if (!ok) return -1;
+    if (sent != len) return -1;
 	return len;
 }
 
-- 
2.43.0


From 96cecb55356cd224c3121d237185696acf7f4824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:05 +0000
Subject: [PATCH 020/100] fix: strbuilder.addf cut the text at 999 bytes

---
 lib/strbuilder.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/strbuilder.c b/lib/strbuilder.c
index 4bd9705..77f6d1b 100644
--- a/lib/strbuilder.c
+++ b/lib/strbuilder.c
@@ -57,12 +57,19 @@ pub bool adds(str *b, const char *s) {
 
 pub bool addf(str *b, const char *format, ...) {
 	if (b->err) return false;
-	char buf[1000] = {};
 	va_list l = {0};
 	va_start(l, format);
-	vsnprintf(buf, sizeof(buf), format, l);
+	int len = vsnprintf(NULL, 0, format, l);
 	va_end(l);
-	return adds(b, buf);
+	if (len < 0) return false;
+
+	char *buf = calloc!(len + 1, 1);
+	va_start(l, format);
+	vsnprintf(buf, len + 1, format, l);
+	va_end(l);
+	bool ok = adds(b, buf);
+	OS.free(buf);
+	return ok;
 }
 
 pub char *str_raw(str *s)
-- 
2.43.0


From 46ef4c596242c0825e644c35db9c96fb2adaa172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:30 +0000
Subject: [PATCH 021/100] fix: http error responses had a body one byte longer
 than announced

---
 lib/protocols/http.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lib/protocols/http.c b/lib/protocols/http.c
index 42569a4..5f75f97 100644
--- a/lib/protocols/http.c
+++ b/lib/protocols/http.c
@@ -401,7 +401,6 @@ pub void write_404(request_t *req, net.net_t *conn) {
         "Content-Length: %ld\n"
         "Content-Type: text/plain\n"
         "\n"
-        "\n"
         "%s",
         req->version,
         strlen(msg),
@@ -421,7 +420,6 @@ pub void write_405(request_t *req, net.net_t *conn) {
         "Content-Length: %ld\n"
         "Content-Type: text/plain\n"
         "\n"
-        "\n"
         "%s",
         req->version,
         strlen(msg),
@@ -441,7 +439,6 @@ pub void write_501(request_t *req, net.net_t *conn) {
         "Content-Length: %ld\n"
         "Content-Type: text/plain\n"
         "\n"
-        "\n"
         "%s",
         req->version,
         strlen(msg),
-- 
2.43.0


From f3f3aeee0b8c4248e9efe795ca33bc0e5a618a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:51 +0000
Subject: [PATCH 022/100] fix: webserver ended when a client went away or a
 file could not be read

---
 lib/protocols/http.c       | 74 +++++++++++++++++++-------------------
 prog/webserver/webserver.c | 16 +++++----
 2 files changed, 46 insertions(+), 44 deletions(-)

diff --git a/lib/protocols/http.c b/lib/protocols/http.c
index 5f75f97..b2cdf37 100644
--- a/lib/protocols/http.c
+++ b/lib/protocols/http.c
@@ -393,7 +393,9 @@ pub bool read_request(reader.t *br, request_t *r) {
     return ok;
 }
 
-pub void write_404(request_t *req, net.net_t *conn) {
+// Writes the whole response to the connection.
+// Returns false if it could not be sent.
+pub bool write_404(request_t *req, net.net_t *conn) {
     const char *msg = "The file was not found on the server.";
 	char buf[1000] = {};
 	sprintf(buf,
@@ -406,13 +408,10 @@ pub void write_404(request_t *req, net.net_t *conn) {
         strlen(msg),
         msg
     );
-    int r = net.write(conn, buf, strlen(buf));
-	if (r < 0) {
-		panic("net write failed");
-	}
+    return send_all(conn, buf, strlen(buf));
 }
 
-pub void write_405(request_t *req, net.net_t *conn) {
+pub bool write_405(request_t *req, net.net_t *conn) {
     const char *msg = "This method is not allowed for this path.";
 	char buf[1000] = {};
     sprintf(buf,
@@ -425,13 +424,10 @@ pub void write_405(request_t *req, net.net_t *conn) {
         strlen(msg),
         msg
     );
-    int r = net.write(conn, buf, strlen(buf));
-	if (r < 0) {
-		panic("net write failed");
-	}
+    return send_all(conn, buf, strlen(buf));
 }
 
-pub void write_501(request_t *req, net.net_t *conn) {
+pub bool write_501(request_t *req, net.net_t *conn) {
     const char *msg = "method not implemented\n";
 	char buf[1000] = {};
     sprintf(buf,
@@ -444,13 +440,10 @@ pub void write_501(request_t *req, net.net_t *conn) {
         strlen(msg),
         msg
     );
-    int r = net.write(conn, buf, strlen(buf));
-	if (r < 0) {
-		panic("net write failed");
-	}
+    return send_all(conn, buf, strlen(buf));
 }
 
-pub void serve_text(request_t *req, net.net_t *conn, const char *s, *content_type) {
+pub bool serve_text(request_t *req, net.net_t *conn, const char *s, *content_type) {
 	char buf[1000] = {};
 	sprintf(buf, "%s 200 OK\n"
 		"Content-Length: %ld\n"
@@ -459,23 +452,22 @@ pub void serve_text(request_t *req, net.net_t *conn, const char *s, *content_typ
 		req->version,
 		strlen(s),
 		content_type);
-	if (net.write(conn, buf, strlen(buf)) < 0) {
-		panic("net write failed");
-	}
-	if (net.write(conn, s, strlen(s)) < 0) {
-		panic("net write failed");
-	}
+	return send_all(conn, buf, strlen(buf)) && send_all(conn, s, strlen(s));
 }
 
-pub void servefile(request_t *req, net.net_t *conn, const char *filepath) {
+pub bool servefile(request_t *req, net.net_t *conn, const char *filepath) {
 	const char *ext = fs.fileext(filepath);
 	const char *content_type = mime.lookup(ext);
 	if (content_type == NULL) {
 		content_type = "text/plain";
 	}
 	size_t filesize = 0;
-	if (!fs.filesize(filepath, &filesize)) {
-		panic("failed to get file size");
+	if (fs.is_dir(filepath) || !fs.filesize(filepath, &filesize)) {
+		return write_404(req, conn);
+	}
+	FILE *f = fopen(filepath, "rb");
+	if (!f) {
+		return write_404(req, conn);
 	}
 	char buf[1000] = {};
 	sprintf(buf, "%s 200 OK\n"
@@ -485,21 +477,27 @@ pub void servefile(request_t *req, net.net_t *conn, const char *filepath) {
 		req->version,
 		filesize,
 		content_type);
-	if (net.write(conn, buf, strlen(buf)) < 0) {
-		panic("net write failed");
-	}
+	bool ok = send_all(conn, buf, strlen(buf));
 
-	FILE *f = fopen(filepath, "rb");
-	if (!f) {
-		panic("oops");
-	}
-
-	while (true) {
+	// Exactly the announced number of bytes, or the response has failed.
+	while (ok && filesize > 0) {
 		char tmp[4096];
-		size_t n = fread(tmp, 1, 4096, f);
-		if (n == 0) break;
-		int r = net.write(conn, tmp, n);
-		if (r < 0) panic("net write failed");
+		size_t max = sizeof(tmp);
+		if (filesize < max) max = filesize;
+		size_t n = fread(tmp, 1, max, f);
+		ok = n > 0 && send_all(conn, tmp, n);
+		filesize -= n;
 	}
 	fclose(f);
+	return ok;
+}
+
+bool send_all(net.net_t *conn, const char *data, size_t n) {
+	size_t sent = 0;
+	while (sent < n) {
+		int r = net.write(conn, data + sent, n - sent);
+		if (r <= 0) return false;
+		sent += (size_t) r;
+	}
+	return true;
 }
diff --git a/prog/webserver/webserver.c b/prog/webserver/webserver.c
index cf6a9d5..08042c9 100644
--- a/prog/webserver/webserver.c
+++ b/prog/webserver/webserver.c
@@ -60,9 +60,8 @@ void *client_routine(void *arg) {
 
 	http.request_t req = {};
 	while (true) {
-		if (!http.read_request(re, &req)) {
-			panic("failed to read request: %s", strerror(errno));
-		}
+		// The client is gone or has sent something else than a request.
+		if (!http.read_request(re, &req)) break;
 		log_info("%s %s", req.method, req.path);
 
 		if (strcmp(req.path, "/") == 0) {
@@ -75,25 +74,30 @@ void *client_routine(void *arg) {
 				strbuilder.addf(b, "<a href=\"%s\">%s</a><br>", name, name);
 			}
 			fs.dir_close(d);
-			http.serve_text(&req, conn, strbuilder.str_raw(b), "text/html");
+			bool ok = http.serve_text(&req, conn, strbuilder.str_raw(b), "text/html");
 			strbuilder.free(b);
+			if (!ok) break;
 			continue;
 		}
 
 		char *filepath = resolve_path(s->homedir, req.path);
 		if (!filepath) {
 			log_info("404 \"%s\" was not found", req.path);
-			http.write_404(&req, conn);
+			if (!http.write_404(&req, conn)) break;
 			continue;
 		}
 		log_info("%s is %s", req.path, filepath);
 
+		bool ok = true;
 		if (strings.starts_with(req.path, "/cgi-bin/")) {
 			srvcgi.cgi(filepath, &req, conn);
 		} else {
-			http.servefile(&req, conn, filepath);
+			ok = http.servefile(&req, conn, filepath);
 		}
+		free(filepath);
+		if (!ok) break;
 	}
+	log_info("%s disconnected", net.net_addr(conn));
 	reader.free(re);
 	net.close(conn);
 	return NULL;
-- 
2.43.0


From 8a9497c119057597812a950a64c68d52f93fb316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:51 +0000
Subject: [PATCH 023/100] fix: webserver allocated too little per connection
 and freed nothing

---
 prog/webserver/webserver.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prog/webserver/webserver.c b/prog/webserver/webserver.c
index 08042c9..818bdc3 100644
--- a/prog/webserver/webserver.c
+++ b/prog/webserver/webserver.c
@@ -44,10 +44,10 @@ int main(int argc, char *argv[]) {
 
 		log_info("%s connected", net.net_addr(conn));
 
-		ctx_t *ctx = calloc!(1, sizeof(ctx));
+		ctx_t *ctx = calloc!(1, sizeof(ctx_t));
 		ctx->s = &SERVER;
 		ctx->conn = conn;
-		threads.start(client_routine, ctx);
+		threads.thr_detach(threads.start(client_routine, ctx));
 	}
     panic("unreachable");
 }
@@ -100,6 +100,7 @@ void *client_routine(void *arg) {
 	log_info("%s disconnected", net.net_addr(conn));
 	reader.free(re);
 	net.close(conn);
+	free(ctx);
 	return NULL;
 }
 
-- 
2.43.0


From 896fd5699251fe98a2a7d2d7b3082cb4b82f65ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:51 +0000
Subject: [PATCH 024/100] fix: webserver ended when accepting a connection
 failed

---
 prog/webserver/webserver.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prog/webserver/webserver.c b/prog/webserver/webserver.c
index 818bdc3..838ea8d 100644
--- a/prog/webserver/webserver.c
+++ b/prog/webserver/webserver.c
@@ -40,7 +40,10 @@ int main(int argc, char *argv[]) {
 
 	while (true) {
 		net.net_t *conn = net.net_accept(ln);
-		if (!conn) panic("accept failed");
+		if (!conn) {
+			log_error("accept failed: %s", strerror(errno));
+			continue;
+		}
 
 		log_info("%s connected", net.net_addr(conn));
 
-- 
2.43.0


From 6f68c283700802efd1953882cac4fd32f594100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:36 +0000
Subject: [PATCH 025/100] fix: webserver served files of directories next to
 its home directory

---
 prog/webserver/webserver.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/prog/webserver/webserver.c b/prog/webserver/webserver.c
index 838ea8d..d488228 100644
--- a/prog/webserver/webserver.c
+++ b/prog/webserver/webserver.c
@@ -124,13 +124,21 @@ char *resolve_path(const char *homedir, *reqpath) {
     if (!fs.realpath(naive_path, realpath, sizeof(realpath))) {
         return NULL;
     }
-    if (!strings.starts_with(realpath, homedir)) {
+    if (!is_inside(realpath, homedir)) {
         printf("resolved path \"%s\" doesn't start with homedir=\"%s\"\n", realpath, homedir);
         return NULL;
     }
     return strings.newstr("%s", realpath);
 }
 
+// Returns true if path is dir or is below dir.
+bool is_inside(const char *path, *dir) {
+	if (!strings.starts_with(path, dir)) return false;
+	size_t n = strlen(dir);
+	// "/www-private" is not below "/www"; the root directory ends with the slash.
+	return path[n] == '\0' || path[n] == '/' || (n > 0 && dir[n-1] == '/');
+}
+
 void log_info(const char *f, ...) {
 	char buf[4096] = {};
 
-- 
2.43.0


From 6f03398531acd759c5f484498aef0dfb3436351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:36 +0000
Subject: [PATCH 026/100] fix: webserver crashed when its home directory could
 not be listed

---
 prog/webserver/webserver.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prog/webserver/webserver.c b/prog/webserver/webserver.c
index d488228..c0dc443 100644
--- a/prog/webserver/webserver.c
+++ b/prog/webserver/webserver.c
@@ -68,9 +68,13 @@ void *client_routine(void *arg) {
 		log_info("%s %s", req.method, req.path);
 
 		if (strcmp(req.path, "/") == 0) {
+			fs.dir_t *d = fs.dir_open(".");
+			if (!d) {
+				if (!http.write_404(&req, conn)) break;
+				continue;
+			}
 			strbuilder.str *b = strbuilder.new();
 			strbuilder.adds(b, "<a href=/>home</a><br><br>");
-			fs.dir_t *d = fs.dir_open(".");
 			while (true) {
 				const char *name = fs.dir_next(d);
 				if (!name) break;
-- 
2.43.0


From 48bd1d251cee7fb7fa4fb69f5ba82fd7c64efa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:52 +0000
Subject: [PATCH 027/100] fix: cgi.parse_head overflowed its buffers

---
 lib/protocols/cgi.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/protocols/cgi.c b/lib/protocols/cgi.c
index 03554b3..ca739f0 100644
--- a/lib/protocols/cgi.c
+++ b/lib/protocols/cgi.c
@@ -15,7 +15,9 @@ pub size_t parse_head(head_t *r, char *data, size_t n) {
         char *d = name;
 
         // name
+        size_t start = pos;
         while (pos < n && data[pos] != ':') {
+            if (pos - start == sizeof(name) - 1) return 0;
             *d++ = data[pos];
             pos++;
         }
@@ -34,13 +36,16 @@ pub size_t parse_head(head_t *r, char *data, size_t n) {
         d = value;
 
         // everything until a newline
+        start = pos;
         while (pos < n && data[pos] != '\n' && data[pos] != '\r') {
+            if (pos - start == sizeof(value) - 1) return 0;
             *d++ = data[pos];
             pos++;
         }
         if (pos >= n) return false;
         if (pos < n && data[pos] == '\r') pos++;
         if (pos < n && data[pos] == '\n') pos++;
+        if (r->nheaders == nelem(r->headers)) return 0;
         strcpy(r->headers[r->nheaders].name, name);
         strcpy(r->headers[r->nheaders].value, value);
         r->nheaders++;
-- 
2.43.0


From d90270ab1f7b59b649cf9e2be2eff21548291e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:52 +0000
Subject: [PATCH 028/100] fix: webserver ended or sent truncated output for CGI
 scripts, and chose them by the spelling of the path

---
 lib/protocols/http.c       | 19 ++++++++-
 prog/webserver/srvcgi.c    | 86 ++++++++++++++++++++++++--------------
 prog/webserver/webserver.c | 13 +++++-
 3 files changed, 84 insertions(+), 34 deletions(-)

diff --git a/lib/protocols/http.c b/lib/protocols/http.c
index b2cdf37..babdfe6 100644
--- a/lib/protocols/http.c
+++ b/lib/protocols/http.c
@@ -427,6 +427,22 @@ pub bool write_405(request_t *req, net.net_t *conn) {
     return send_all(conn, buf, strlen(buf));
 }
 
+pub bool write_500(request_t *req, net.net_t *conn) {
+    const char *msg = "The server could not process the request.";
+	char buf[1000] = {};
+    sprintf(buf,
+        "%s 500 Internal Server Error\n"
+        "Content-Length: %ld\n"
+        "Content-Type: text/plain\n"
+        "\n"
+        "%s",
+        req->version,
+        strlen(msg),
+        msg
+    );
+    return send_all(conn, buf, strlen(buf));
+}
+
 pub bool write_501(request_t *req, net.net_t *conn) {
     const char *msg = "method not implemented\n";
 	char buf[1000] = {};
@@ -492,7 +508,8 @@ pub bool servefile(request_t *req, net.net_t *conn, const char *filepath) {
 	return ok;
 }
 
-bool send_all(net.net_t *conn, const char *data, size_t n) {
+// Sends n bytes. Returns false if they could not be sent.
+pub bool send_all(net.net_t *conn, const char *data, size_t n) {
 	size_t sent = 0;
 	while (sent < n) {
 		int r = net.write(conn, data + sent, n - sent);
diff --git a/prog/webserver/srvcgi.c b/prog/webserver/srvcgi.c
index e89fc57..73d2722 100644
--- a/prog/webserver/srvcgi.c
+++ b/prog/webserver/srvcgi.c
@@ -1,53 +1,80 @@
+#import clip/buffer
 #import os/net
 #import os/proc
 #import os/self
 #import protocols/cgi
 #import protocols/http
 #import reader
+#import strbuilder
 #import strings
+#import writer
 
-pub void cgi(char *path, http.request_t *req, net.net_t *conn) {
+// Runs the script at the given path and sends its output as a response.
+// Returns false if the response could not be sent.
+pub bool cgi(char *path, http.request_t *req, net.net_t *conn) {
 	proc.proc_t *proc = start(path, req);
+	if (!proc) {
+		return http.write_500(req, conn);
+	}
+
+	// Nothing is sent to the script.
+	writer.free(proc->stdin);
 
 	// Read the script's output.
-	char output[4096] = {};
-	int r = reader.read(proc->stdout, (uint8_t*)output, 4096);
-	if (r < 0) {
-		panic("read failed");
+	buffer.t *out = buffer.new();
+	while (true) {
+		char chunk[4096];
+		int r = reader.read(proc->stdout, (uint8_t*)chunk, sizeof(chunk));
+		if (r <= 0) break;
+		buffer.write(out, chunk, (size_t) r);
 	}
-	size_t output_size = (size_t)r;
+	size_t output_size = buffer.size(out);
+	char *output = calloc!(output_size + 1, 1);
+	buffer.read(out, output, output_size);
+	buffer.free(out);
 
 	int status = 0;
-	proc.wait(proc, &status);
-	if (status != 0) {
-		panic("process exited with %d\n", status);
-	}
+	bool ok = proc.wait(proc, &status);
 
 	// Parse the output.
 	cgi.head_t head = {};
-	size_t headsize = cgi.parse_head(&head, output, (size_t) r);
-	if (!headsize) {
-		panic("failed to parse cgi head");
+	size_t headsize = 0;
+	if (ok && status == 0) {
+		headsize = cgi.parse_head(&head, output, output_size);
+	}
+	if (headsize) {
+		ok = send_response(req, conn, &head, output + headsize, output_size - headsize);
+	} else {
+		ok = http.write_500(req, conn);
 	}
+	free(output);
+	return ok;
+}
 
-	net.net_printf(conn, "%s 200 OK\n", req->version);
-	for (size_t i = 0; i < head.nheaders; i++) {
-		char *name = head.headers[i].name;
-		char *value = head.headers[i].value;
+bool send_response(http.request_t *req, net.net_t *conn, cgi.head_t *head, const char *body, size_t size) {
+	const char *status = "200 OK";
+	strbuilder.str *b = strbuilder.new();
+	for (size_t i = 0; i < head->nheaders; i++) {
+		char *name = head->headers[i].name;
+		char *value = head->headers[i].value;
 		if (!strcmp(name, "Status")) {
-			if (strcmp(value, "200")) {
-				panic("expected status '200', got '%s'", value);
-			}
+			if (strcmp(value, "200")) status = value;
 			continue;
 		}
-		if (!strcmp(name, "Content-Length")) {
-			panic("omitting content length");
-		}
-		net.net_printf(conn, "%s: %s\n", name, value);
+		// The length is always that of the actual output.
+		if (!strcmp(name, "Content-Length")) continue;
+		strbuilder.addf(b, "%s: %s\n", name, value);
 	}
-	net.net_printf(conn, "Content-Length: %zu\r\n", output_size - headsize);
-	net.net_printf(conn, "\r\n", 1);
-	net.write(conn, output + headsize, output_size - headsize);
+	char *start = strings.newstr("%s %s\n", req->version, status);
+	strbuilder.addf(b, "Content-Length: %zu\r\n", size);
+	strbuilder.adds(b, "\r\n");
+	const char *rest = strbuilder.str_raw(b);
+	bool ok = http.send_all(conn, start, strlen(start))
+		&& http.send_all(conn, rest, strlen(rest))
+		&& http.send_all(conn, body, size);
+	free(start);
+	strbuilder.free(b);
+	return ok;
 }
 
 proc.proc_t *start(char *path, http.request_t *req) {
@@ -77,10 +104,7 @@ proc.proc_t *start(char *path, http.request_t *req) {
 
 	char *args[] = {path, NULL};
 	proc.proc_t *proc = proc.spawn(args, env);
-	if (!proc) {
-		panic("spawn failed");
-	}
-	printf("spawned process %d\n", proc->pid);
+	if (proc) printf("spawned process %d\n", proc->pid);
 	p = env;
 	while (*p) {
 		free(*p);
diff --git a/prog/webserver/webserver.c b/prog/webserver/webserver.c
index c0dc443..fc44d43 100644
--- a/prog/webserver/webserver.c
+++ b/prog/webserver/webserver.c
@@ -96,8 +96,8 @@ void *client_routine(void *arg) {
 		log_info("%s is %s", req.path, filepath);
 
 		bool ok = true;
-		if (strings.starts_with(req.path, "/cgi-bin/")) {
-			srvcgi.cgi(filepath, &req, conn);
+		if (is_script(s, filepath)) {
+			ok = srvcgi.cgi(filepath, &req, conn);
 		} else {
 			ok = http.servefile(&req, conn, filepath);
 		}
@@ -143,6 +143,15 @@ bool is_inside(const char *path, *dir) {
 	return path[n] == '\0' || path[n] == '/' || (n > 0 && dir[n-1] == '/');
 }
 
+// Returns true if the file at the given real path is a CGI script,
+// however the path was spelled in the request.
+bool is_script(server_t *s, const char *path) {
+	char *dir = strings.newstr("%s/cgi-bin", s->homedir);
+	bool r = is_inside(path, dir) && !fs.is_dir(path);
+	free(dir);
+	return r;
+}
+
 void log_info(const char *f, ...) {
 	char buf[4096] = {};
 
-- 
2.43.0


From 288a8e0f9054e9af7e17b843b547090fa6683fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:52 +0000
Subject: [PATCH 029/100] fix: clip/buffer was not freed

---
 lib/clip/buffer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/clip/buffer.c b/lib/clip/buffer.c
index bbd0b8b..a5a87cb 100644
--- a/lib/clip/buffer.c
+++ b/lib/clip/buffer.c
@@ -39,6 +39,7 @@ pub void free(t *b) {
         OS.free(c->data);
         OS.free(c);
     }
+    OS.free(b);
 }
 
 pub size_t size(t *b) {
-- 
2.43.0


From 7d897ecaf21c98d8b5644a0e8444bed633882e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:00 +0000
Subject: [PATCH 030/100] fix: connections stayed open in programs started by
 the server

---
 lib/os/net.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/os/net.c b/lib/os/net.c
index 4724e2b..df74d65 100644
--- a/lib/os/net.c
+++ b/lib/os/net.c
@@ -170,6 +170,8 @@ pub net_t *net_accept(net_t *l) {
 		OS.close(s);
 		return NULL;
 	}
+	// Programs started meanwhile must not keep the connection open.
+	OS.fcntl(s, OS.F_SETFD, OS.FD_CLOEXEC);
 	newconn->fd = s;
 	return newconn;
 }
@@ -221,6 +223,7 @@ net_t *newconn(const char *proto, const char *addr) {
 	for (i = result; i != NULL; i = i->ai_next) {
 		c->fd = OS.socket( i->ai_family, i->ai_socktype, i->ai_protocol );
 		if (c->fd > 0) {
+			OS.fcntl(c->fd, OS.F_SETFD, OS.FD_CLOEXEC);
 			memcpy(&(c->ai_addr), i->ai_addr, sizeof(sockaddr_t));
 			c->addrlen = i->ai_addrlen;
 			c->ai_family = i->ai_family;
-- 
2.43.0


From cfff1cd265e851dab019d8da7ef86dd632d7df8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:26 +0000
Subject: [PATCH 031/100] fix: tokenizer overflowed its buffers on long tokens

---
 lib/tokenizer.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/lib/tokenizer.c b/lib/tokenizer.c
index 0c4de89..8464814 100644
--- a/lib/tokenizer.c
+++ b/lib/tokenizer.c
@@ -60,6 +60,9 @@ pub bool more(t *b) {
 
 // Puts up to len following characters into buf without removing them.
 pub void tail(t *b, char *buf, size_t len) {
+	if (len > sizeof(b->cache)) {
+		len = sizeof(b->cache);
+	}
 	_prefetch(b, len);
 
 	size_t n = len-1;
@@ -69,7 +72,7 @@ pub void tail(t *b, char *buf, size_t len) {
 	for (size_t i = 0; i < n; i++) {
 		buf[i] = b->cache[i];
 	}
-	buf[len-1] = '\0';
+	buf[n] = '\0';
 }
 
 pub void dbg(t *b) {
@@ -131,13 +134,23 @@ pub bool buf_skip(t *b, char c) {
 	return false;
 }
 
+// Doubles the size of the string buffer s.
+char *_grow(char *s, size_t *size) {
+	*size *= 2;
+	s = realloc(s, *size);
+	if (!s) panic("failed to allocate memory");
+	return s;
+}
+
 pub char *buf_read_set(t *b, const char *set) {
-	char *s = calloc!(10000, 1);
-	char *p = s;
+	size_t size = 10000;
+	size_t n = 0;
+	char *s = calloc!(size, 1);
 	while (more(b) && strchr(set, peek(b)) != NULL) {
-		*p = get(b);
-		p++;
+		if (n + 1 == size) s = _grow(s, &size);
+		s[n++] = get(b);
 	}
+	s[n] = '\0';
 	return s;
 }
 
@@ -270,16 +283,18 @@ pub const char *posstr(t *b) {
 }
 
 pub char *buf_skip_until(t *b, const char *literal) {
-	char *s = calloc!(10000, 1);
-	char *p = s;
+	size_t size = 10000;
+	size_t n = 0;
+	char *s = calloc!(size, 1);
 
 	while (more(b)) {
 		if (literal_follows(b, literal)) {
 			break;
 		}
-		*p = get(b);
-		p++;
+		if (n + 1 == size) s = _grow(s, &size);
+		s[n++] = get(b);
 	}
+	s[n] = '\0';
 	return s;
 }
 
-- 
2.43.0


From d679075c041f5b7e8314ea0324a2b63b8b810520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:34 +0000
Subject: [PATCH 032/100] fix: bits.read1 took the end of a memory reader for
 data

---
 lib/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bits.c b/lib/bits.c
index 78f7458..7c77a2f 100644
--- a/lib/bits.c
+++ b/lib/bits.c
@@ -63,7 +63,7 @@ pub void closereader(reader_t *r) {
 // Returns -1 if there is no next bit.
 pub int read1(reader_t *s) {
 	if (s->rem == 0) {
-		if (reader.read(s->in, &s->byte, 1) < 0) {
+		if (reader.read(s->in, &s->byte, 1) != 1) {
 			return -1;
 		}
 		s->rem = 8;
-- 
2.43.0


From 7f3a4e8dc12bb9ec01d60e5f88ab6888c9dc6ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:34 +0000
Subject: [PATCH 033/100] fix: tokenizer.num ignored the size of its buffer

---
 lib/tokenizer.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/lib/tokenizer.c b/lib/tokenizer.c
index 8464814..ad913fc 100644
--- a/lib/tokenizer.c
+++ b/lib/tokenizer.c
@@ -197,13 +197,12 @@ pub bool id(t *b, char *buf, size_t n) {
 }
 
 // Reads a C-style floating-point number into buf.
-// Returns false on parse error.
+// Returns false on parse error or if the number doesn't fit into n bytes.
 pub bool num(t *b, char *buf, size_t n) {
-	(void) n;
-	char *p = buf;
+	size_t p = 0;
 
 	if (peek(b) == '-') {
-		*p++ = get(b);
+		if (!_take(b, buf, n, &p)) return false;
 	}
 
 	// [digits]
@@ -211,29 +210,29 @@ pub bool num(t *b, char *buf, size_t n) {
 		return false;
 	}
 	while (isdigit(peek(b))) {
-		*p++ = get(b);
+		if (!_take(b, buf, n, &p)) return false;
 	}
 
 	// Optional fractional part
 	if (peek(b) == '.') {
-		*p++ = get(b);
+		if (!_take(b, buf, n, &p)) return false;
 		if (!isdigit(peek(b))) {
 			return false;
 		}
 		while (isdigit(peek(b))) {
-			*p++ = get(b);
+			if (!_take(b, buf, n, &p)) return false;
 		}
 	}
 
 	// Optional exponent
 	int c = peek(b);
 	if (c == 'e' || c == 'E') {
-		*p++ = get(b);
-		
+		if (!_take(b, buf, n, &p)) return false;
+
 		// Optional - or +
 		c = peek(b);
 		if (c == '-' || c == '+') {
-			*p++ = get(b);
+			if (!_take(b, buf, n, &p)) return false;
 		}
 
 		// Sequence of exponent digits
@@ -241,10 +240,19 @@ pub bool num(t *b, char *buf, size_t n) {
 			return false;
 		}
 		while (isdigit(peek(b))) {
-			*p++ = get(b);
+			if (!_take(b, buf, n, &p)) return false;
 		}
 	}
-	*p++ = '\0';
+	buf[p] = '\0';
+	return true;
+}
+
+// Moves the next character to position *p of buf of size n.
+// Returns false if there is no space for it.
+bool _take(t *b, char *buf, size_t n, *p) {
+	if (*p + 1 >= n) return false;
+	buf[*p] = get(b);
+	*p += 1;
 	return true;
 }
 
-- 
2.43.0


From affc9d4fd09edb7afb6783a4ab50ae43a6b9922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:02 +0000
Subject: [PATCH 034/100] fix: torrent stopped when a peer took only a part of
 the data or went away

---
 lib/clip/buffer.c     | 17 +++++++++++++++++
 prog/torrent/ioloop.c | 20 ++++++++++++--------
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/lib/clip/buffer.c b/lib/clip/buffer.c
index a5a87cb..787363c 100644
--- a/lib/clip/buffer.c
+++ b/lib/clip/buffer.c
@@ -75,6 +75,23 @@ pub bool write(t *b, char *buf, size_t len) {
 	return true;
 }
 
+/**
+ * Copies up to bufsize bytes to buf without removing them from the buffer.
+ * Returns the number of copied bytes.
+ */
+pub size_t peek(t *b, char *buf, size_t bufsize) {
+    size_t n = 0;
+    clip_t *c = b->first;
+    while (c && n < bufsize) {
+        size_t k = c->size - c->pos;
+        if (k > bufsize - n) k = bufsize - n;
+        memcpy(buf + n, c->data + c->pos, k);
+        n += k;
+        c = c->next;
+    }
+    return n;
+}
+
 /**
  * Moves up to bufsize bytes to buf, removing them
  * from the buffer. Returns the number of moved bytes.
diff --git a/prog/torrent/ioloop.c b/prog/torrent/ioloop.c
index 7d9a7b9..f0b2207 100644
--- a/prog/torrent/ioloop.c
+++ b/prog/torrent/ioloop.c
@@ -315,15 +315,19 @@ void dispatch_updates(fd_set *rset, *wset) {
             if (buffer.size(c->outgoing) == 0) {
                 panic("selected as writable but outbuffer is empty");
             }
-            // Here we're happily assuming that all bytes from buf will be
-            // written out and panic in case of partial writes.
-            size_t n = buffer.read(c->outgoing, buf, sizeof(buf));
-            int r = OS.write(c->conn->fd, buf, n);
-            if ((size_t) r != n) {
-                panic("partial write");
+            // The socket may take only a part of the data, the rest stays in
+            // the buffer until the next time.
+            size_t n = buffer.peek(c->outgoing, buf, sizeof(buf));
+            int r = OS.send(c->conn->fd, buf, n, OS.MSG_DONTWAIT | OS.MSG_NOSIGNAL);
+            if (r < 0 && errno != OS.EAGAIN) {
+                dbg.m(DBG_TAG, "#%d: send failed: %s", i, strerror(errno));
+                c->close = true;
             }
-            if (buffer.size(c->outgoing) == 0) {
-                callhandler(c, WRITE_FINISHED, NULL);
+            if (r > 0) {
+                buffer.read(c->outgoing, buf, (size_t) r);
+                if (buffer.size(c->outgoing) == 0) {
+                    callhandler(c, WRITE_FINISHED, NULL);
+                }
             }
         }
 
-- 
2.43.0


From 5e2105d5b569e73820a8341e201d4cd0b29d4623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:02 +0000
Subject: [PATCH 035/100] fix: torrent stopped when one of its connections
 failed

---
 prog/torrent/ioloop.c  | 45 +++++++++++++++++++++++++++++++-----------
 prog/torrent/tracker.c |  3 +++
 2 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/prog/torrent/ioloop.c b/prog/torrent/ioloop.c
index f0b2207..b0b9fe2 100644
--- a/prog/torrent/ioloop.c
+++ b/prog/torrent/ioloop.c
@@ -89,6 +89,9 @@ typedef {
 
     bool close;
 
+    // True for an outgoing connection until the first exchange over it.
+    bool connecting;
+
     // A pointer to associated state that a handler may keep for each client.
     void *stash;
 } client_t;
@@ -111,7 +114,7 @@ client_t *addclient(net.net_t *conn, handler_t *h) {
 	} else {
 		dbg.m(DBG_TAG, "#%d: new connection, %s", slot, conn->addrstr);
 	}
-    if (slot == -1) return false;
+    if (slot == -1) return NULL;
 
     //
     // Create and setup an instance.
@@ -140,8 +143,9 @@ void removeclient(client_t *c) {
 // Adds a listener socket with the given handler to process new connections.
 pub void listen(const char *addr, handler_t *handler) {
     net.net_t *conn = net.net_listen("tcp", addr);
-    client_t *c = addclient(conn, handler);
-    if (!conn || !c) panic("listen failed");
+    client_t *c = NULL;
+    if (conn) c = addclient(conn, handler);
+    if (!c) panic("listen failed");
     c->is_listener = true;
 }
 
@@ -150,13 +154,19 @@ pub void listen(const char *addr, handler_t *handler) {
 // a corresponding event.
 pub void connect(const char *addr, handler_t *handler, void *initdata) {
     net.net_t *conn = net.connect_nonblock("tcp", addr);
-    client_t *c = addclient(conn, handler);
-    if (!conn) {
+    client_t *c = NULL;
+    if (conn) c = addclient(conn, handler);
+    if (!c) {
         dbg.m(DBG_TAG, "connection failed: %s\n", strerror(errno));
-        handler(c, CONNECT_FAILED, NULL);
-        removeclient(c);
+        if (conn) net.close(conn);
+        // There is no stream, the handler gets a temporary one.
+        client_t tmp = {.slot = -1, .handler = handler, .outgoing = buffer.new()};
+        callhandler(&tmp, CONNECT_FAILED, NULL);
+        callhandler(&tmp, EXIT, NULL);
+        buffer.free(tmp.outgoing);
         return;
     }
+    c->connecting = true;
     handler(c, CONNECTED, initdata);
 }
 
@@ -290,8 +300,14 @@ void dispatch_updates(fd_set *rset, *wset) {
                 // We'll accept the connection and store it as a new client.
                 // The next loop run will start processing the new client.
                 net.net_t *conn2 = net.net_accept(c->conn);
-                client_t *c2 = addclient(conn2, c->handler);
-                callhandler(c2, CONNECTED, NULL);
+                client_t *c2 = NULL;
+                if (conn2) c2 = addclient(conn2, c->handler);
+                if (c2) {
+                    callhandler(c2, CONNECTED, NULL);
+                } else if (conn2) {
+                    // No free slots.
+                    net.close(conn2);
+                }
             } else {
                 int datalen = OS.read(c->conn->fd, buf, sizeof(buf));
                 dbg.m(DBG_TAG, "#%d: read %d, %s", i, datalen, strerror(errno));
@@ -301,11 +317,15 @@ void dispatch_updates(fd_set *rset, *wset) {
 					if (errno == OS.EAGAIN) {
 						continue;
 					}
-                    panic("got r=%d, err=%d (%s)", datalen, errno, strerror(errno));
-                }
-                if (datalen == 0) {
+                    // Only this stream is broken.
+                    if (c->connecting) callhandler(c, CONNECT_FAILED, NULL);
+                    c->connecting = false;
+                    c->close = true;
+                    writable = false;
+                } else if (datalen == 0) {
                     c->close = true;
                 } else {
+                    c->connecting = false;
                     buff_t b = { .data = buf, .len = datalen };
                     callhandler(c, DATA_IN, &b);
                 }
@@ -324,6 +344,7 @@ void dispatch_updates(fd_set *rset, *wset) {
                 c->close = true;
             }
             if (r > 0) {
+                c->connecting = false;
                 buffer.read(c->outgoing, buf, (size_t) r);
                 if (buffer.size(c->outgoing) == 0) {
                     callhandler(c, WRITE_FINISHED, NULL);
diff --git a/prog/torrent/tracker.c b/prog/torrent/tracker.c
index 91261ad..a499ac8 100644
--- a/prog/torrent/tracker.c
+++ b/prog/torrent/tracker.c
@@ -37,6 +37,9 @@ pub void process(void *ctx, int event, void *edata) {
 		case ioloop.CONNECTED: {
 			send_announce(ctx, NULL);
 		}
+		case ioloop.CONNECT_FAILED: {
+			printf("failed to connect to the tracker: %s\n", strerror(errno));
+		}
 		case ioloop.EXIT: {}
 		case ioloop.DATA_IN: {
 			ioloop.buff_t *b = edata;
-- 
2.43.0


From b7f6af6e8a0f1b65aeecec737a4ce76fbc300e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:02 +0000
Subject: [PATCH 036/100] fix: torrent ioloop took all streams for ready when a
 timer was overdue

---
 prog/torrent/ioloop.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prog/torrent/ioloop.c b/prog/torrent/ioloop.c
index b0b9fe2..25a503c 100644
--- a/prog/torrent/ioloop.c
+++ b/prog/torrent/ioloop.c
@@ -242,6 +242,7 @@ pub bool process() {
     ioloop_timer_t *closest_timer = closest_timeout();
     if (closest_timer) {
         timeout.tv_sec = closest_timer->t - gettime();
+        if (timeout.tv_sec < 0) timeout.tv_sec = 0;
         dbg.m(DBG_TAG, "closest timeout in %ld s", timeout.tv_sec);
     }
 
@@ -253,7 +254,8 @@ pub bool process() {
     dbg.m(DBG_TAG, "got %d events", nfds);
 
     dispatch_timers();
-    dispatch_updates(&rset, &wset);
+    // When select fails the sets say nothing.
+    if (nfds >= 0) dispatch_updates(&rset, &wset);
     return true;
 }
 
-- 
2.43.0


From 5840c98bf26588c1540ee706ba788b7efddfe0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:02 +0000
Subject: [PATCH 037/100] fix: torrent ioloop took a new stream for ready after
 an old one had its descriptor

---
 prog/torrent/ioloop.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/prog/torrent/ioloop.c b/prog/torrent/ioloop.c
index 25a503c..6d85880 100644
--- a/prog/torrent/ioloop.c
+++ b/prog/torrent/ioloop.c
@@ -92,12 +92,17 @@ typedef {
     // True for an outgoing connection until the first exchange over it.
     bool connecting;
 
+    // The tick during which the client was added.
+    size_t tick;
+
     // A pointer to associated state that a handler may keep for each client.
     void *stash;
 } client_t;
 
 client_t *clients[100] = {};
 
+size_t _tick = 0;
+
 client_t *addclient(net.net_t *conn, handler_t *h) {
     //
     // Find a free slot.
@@ -123,6 +128,7 @@ client_t *addclient(net.net_t *conn, handler_t *h) {
     c->conn = conn;
     c->handler = h;
     c->outgoing = buffer.new();
+    c->tick = _tick;
 
     //
     // Store and return the instance.
@@ -225,8 +231,6 @@ int64_t gettime() {
 }
 
 
-size_t _tick = 0;
-
 // Does a single poll of all streams and calls handlers when new events come.
 // Returns false when there are no more streams or timeouts to process.
 pub bool process() {
@@ -293,6 +297,9 @@ void dispatch_updates(fd_set *rset, *wset) {
     for (int i = 0; i < 100; i++) {
         client_t *c = clients[i];
         if (!c) continue;
+        // The selection knows nothing about clients added after it, even if
+        // they have got the descriptor of one that it does know.
+        if (c->tick == _tick) continue;
 
         bool readable = OS.FD_ISSET(c->conn->fd, rset);
         bool writable = OS.FD_ISSET(c->conn->fd, wset);
-- 
2.43.0


From b3ca3d0c80d91cec87705012f50397b83acd283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:02 +0000
Subject: [PATCH 038/100] fix: torrent ioloop kept a closed stream until
 something else happened

---
 prog/torrent/ioloop.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prog/torrent/ioloop.c b/prog/torrent/ioloop.c
index 6d85880..10bbf10 100644
--- a/prog/torrent/ioloop.c
+++ b/prog/torrent/ioloop.c
@@ -250,6 +250,11 @@ pub bool process() {
         dbg.m(DBG_TAG, "closest timeout in %ld s", timeout.tv_sec);
     }
 
+    // Don't wait if there is something to close.
+    for (int i = 0; i < 100; i++) {
+        if (clients[i] && clients[i]->close) timeout.tv_sec = 0;
+    }
+
     if (maxfd == 0 && !closest_timer) {
         return false;
     }
-- 
2.43.0


From 4043d2a27be920abe9f9f0b517f045e7baa796a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:42 +0000
Subject: [PATCH 039/100] fix: torrent mixed up data on file boundaries and
 ignored short reads and writes

---
 prog/torrent/files.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/prog/torrent/files.c b/prog/torrent/files.c
index a896b9a..75fd6b5 100644
--- a/prog/torrent/files.c
+++ b/prog/torrent/files.c
@@ -121,6 +121,7 @@ int sliceop(int op, const char *prefix, torrent.info_t *tf, range_t bs, char *bu
             break;
         }
         c += r;
+        buf += s->length;
     }
     vec.free(locs);
     return c;
@@ -131,11 +132,14 @@ int _write(const char *path, file_slice_t *s, char *buf) {
     FILE *f = fopen(path, "r+b");
     if (!f) f = fopen(path, "w+b");
     if (!f) return -1;
-    if (fseek(f, s->begin, SEEK_SET) < 0) return -1;
+    if (fseek(f, s->begin, SEEK_SET) < 0) {
+        fclose(f);
+        return -1;
+    }
     dbg.m(DBG_TAG, "fseek %zu -> %d", s->begin, ftell(f));
     size_t r = fwrite(buf, 1, s->length, f);
     dbg.m(DBG_TAG, "fwrite: expected %zu, got %zu", s->length, r);
-    fclose(f);
+    if (fclose(f) != 0 || r != s->length) return -1;
     return (int) r;
 }
 
@@ -143,10 +147,14 @@ int _read(const char *path, file_slice_t *s, char *buf) {
     dbg.m(DBG_TAG, "= reading file %s, range %zu + %zu", path, s->begin, s->length);
     FILE *f = fopen(path, "rb");
     if (!f) return -1;
-    if (fseek(f, s->begin, SEEK_SET) < 0) return -1;
+    if (fseek(f, s->begin, SEEK_SET) < 0) {
+        fclose(f);
+        return -1;
+    }
     size_t r = fread(buf, 1, s->length, f);
     dbg.m(DBG_TAG, "fread: expected %lu, got %zu\n", s->length, r);
     fclose(f);
+    if (r != s->length) return -1;
     return (int) r;
 }
 
-- 
2.43.0


From 859f8543b64472a213d38bbb66701ea0b1acbf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:42 +0000
Subject: [PATCH 040/100] fix: torrent stopped or overflowed its buffers when a
 peer sent a bad or unknown message or a file was unreadable

---
 prog/torrent/files.c     | 26 ++++++++++------
 prog/torrent/peer.c      | 65 ++++++++++++++++++++++++++++++----------
 prog/torrent/peerproto.c | 18 +++++++----
 3 files changed, 80 insertions(+), 29 deletions(-)

diff --git a/prog/torrent/files.c b/prog/torrent/files.c
index 75fd6b5..8ef6db5 100644
--- a/prog/torrent/files.c
+++ b/prog/torrent/files.c
@@ -87,19 +87,17 @@ pub vec.t *get_file_list(torrent.info_t *tf) {
 }
 
 // Writes a piece slice to disk in directory prefix.
-pub void writeslice(const char *dirpath, torrent.info_t *tf, range_t bs, uint8_t *data) {
+// Returns false on failure.
+pub bool writeslice(const char *dirpath, torrent.info_t *tf, range_t bs, uint8_t *data) {
     dbg.m(DBG_TAG, "writing at %s: piece #%zu, range %zu + %zu", dirpath, bs.index, bs.begin, bs.length);
-    if (sliceop(0, dirpath, tf, bs, (char *)data) < 0) {
-        panic("sliceop failed");
-    }
+    return sliceop(0, dirpath, tf, bs, (char *)data) >= 0;
 }
 
 // Reads a piece slice from disk in directory dirpath.
-pub void readslice(const char *dirpath, torrent.info_t *tf, range_t bs, uint8_t *buf) {
+// Returns false on failure.
+pub bool readslice(const char *dirpath, torrent.info_t *tf, range_t bs, uint8_t *buf) {
     dbg.m(DBG_TAG, "reading at %s: piece #%zu, range %zu + %zu", dirpath, bs.index, bs.begin, bs.length);
-    if (sliceop(1, dirpath, tf, bs, (char *)buf) < 0) {
-        panic("sliceop failed");
-    }
+    return sliceop(1, dirpath, tf, bs, (char *)buf) >= 0;
 }
 
 int sliceop(int op, const char *prefix, torrent.info_t *tf, range_t bs, char *buf) {
@@ -172,7 +170,10 @@ pub bool check_piece(const char *prefix, torrent.info_t *tf, size_t piece_index)
         .begin = 0,
         .length = piecelen
     };
-    readslice(prefix, tf, bs, piece);
+    if (!readslice(prefix, tf, bs, piece)) {
+        free(piece);
+        return false;
+    }
     // ----------------
     
     //
@@ -191,6 +192,13 @@ pub bool check_piece(const char *prefix, torrent.info_t *tf, size_t piece_index)
     return memcmp(hash1, hash2, 20) == 0;
 }
 
+// Returns true if the slice is inside the torrent.
+pub bool valid(torrent.info_t *tf, range_t s) {
+    if (s.index >= torrent.npieces(tf)) return false;
+    size_t piecelen = get_piece_length(tf, s.index);
+    return s.begin <= piecelen && s.length <= piecelen - s.begin;
+}
+
 // Returns the length in bytes of the piece with index i.
 pub size_t get_piece_length(torrent.info_t *tf, size_t i) {
     size_t n = torrent.npieces(tf);
diff --git a/prog/torrent/peer.c b/prog/torrent/peer.c
index 33e1f0c..9a27369 100644
--- a/prog/torrent/peer.c
+++ b/prog/torrent/peer.c
@@ -120,24 +120,33 @@ pub void handle(void *ctx, int event, void *edata) {
                 // Read a message. If no message could be read, stop.
                 req_t req = {};
                 reader.t *r = reader.static_buffer(state->stash, state->stashlen);
-                bool ok = read_request(r, state, &req);
+                int ok = read_request(r, state, &req);
                 size_t nread = r->pos;
                 reader.free(r);
-                if (!ok) break;
+                if (ok == 0) break;
+                if (ok < 0) {
+                    printf("%s: got a bad message\n", NAME);
+                    ioloop.close(ctx);
+                    break;
+                }
 
                 // Process the message and write the response.
                 // He we're being optimistic about the outbox having enough
                 // space for the response.
                 writer.t *w = writer.static_buffer(tmpbuf2, sizeof(tmpbuf2));
-                write_response(ctx, w, state, &req);
+                bool good = write_response(ctx, w, state, &req);
                 size_t nwritten = w->nwritten;
                 if (state->state == WAITING_HANDSHAKE) {
                     state->state = READING_MESSAGE_LENGTH;
                 }
                 writer.free(w);
                 shift(state, nread);
-                if (nwritten > 0) {
-                    if (!ioloop.write(ctx, (char *)tmpbuf2, nwritten)) panic("write failed");
+                if (good && nwritten > 0) {
+                    good = ioloop.write(ctx, (char *)tmpbuf2, nwritten);
+                }
+                if (!good) {
+                    ioloop.close(ctx);
+                    break;
                 }
             }
         }
@@ -155,6 +164,7 @@ typedef {
     char data[10000];
 } req_t;
 
+// Returns 0 if there is no complete message yet, -1 if the message is bad.
 int read_request(reader.t *r, peer_t *state, req_t *req) {
     if (state->state == WAITING_HANDSHAKE) {
         if (state->stashlen < 68) {
@@ -163,6 +173,7 @@ int read_request(reader.t *r, peer_t *state, req_t *req) {
         req->type = HANDSHAKE;
         peerproto.handshake_t *hs = (void *) req->data;
         int c = peerproto.read_handshake(r, hs);
+        if (c < 0) return -1;
         printf("Got a handshake, proto = %s\n", (char *)hs->proto);
         printf("infohash: ");
         hex.write(writer.stdout(), (char *) hs->infohash, 20);
@@ -179,8 +190,12 @@ int read_request(reader.t *r, peer_t *state, req_t *req) {
         // hack: make sure there's a complete message in stash.
         reader.t *tmpr = reader.static_buffer(state->stash, state->stashlen);
         uint32_t len = peerproto.read_length(tmpr);
-        bool ok = (state->stashlen >= 4 + len);
         reader.free(tmpr);
+        // The stash must have space for the message and one more read.
+        if (len > sizeof(state->stash) / 2) {
+            return -1;
+        }
+        bool ok = (state->stashlen >= 4 + len);
         if (!ok) {
             return 0;
         }
@@ -191,7 +206,7 @@ int read_request(reader.t *r, peer_t *state, req_t *req) {
             req->type = KEEPALIVE;
         } else {
             peerproto.msg_t msg = {};
-            peerproto.read_message(r, len, &msg);
+            if (!peerproto.read_message(r, len, &msg)) return -1;
             req->type = MSG;
             memcpy(req->data, &msg, sizeof(msg));
         }
@@ -200,7 +215,8 @@ int read_request(reader.t *r, peer_t *state, req_t *req) {
     panic("!");
 }
 
-void write_response(void *ctx, writer.t *w, peer_t *state, req_t *req) {
+// Returns false if the connection has to be closed.
+bool write_response(void *ctx, writer.t *w, peer_t *state, req_t *req) {
     torrent.info_t *tf = _tf;
 
     if (req->type == HANDSHAKE) {
@@ -212,12 +228,12 @@ void write_response(void *ctx, writer.t *w, peer_t *state, req_t *req) {
                 panic("write handshake failed");
             }
         }
-        return;
+        return true;
     }
     if (req->type == KEEPALIVE) {
         dbg.m(TAG, "got heartbeat, responding");
         peerproto.write_keepalive(w);
-        return;
+        return true;
     }
     if (req->type != MSG) {
         panic("unknown req type: %d", req->type);
@@ -227,6 +243,7 @@ void write_response(void *ctx, writer.t *w, peer_t *state, req_t *req) {
         case peerproto.MSG_BITFIELD: {
             bool *flags = (void*) msg->data;
             size_t npieces = torrent.npieces(tf);
+            if (npieces > sizeof(msg->data)) npieces = sizeof(msg->data);
             for (size_t i = 0; i < npieces; i++) {
                 printf("peer has %zu: %d\n", i, flags[i]);
             }
@@ -239,7 +256,15 @@ void write_response(void *ctx, writer.t *w, peer_t *state, req_t *req) {
                 .begin = req->begin,
                 .length = req->length
             };
-            files.readslice(".", tf, freq, tmpbuf1);
+            // The response has to fit into the output buffer.
+            if (!files.valid(tf, freq) || freq.length + 13 > sizeof(tmpbuf2)) {
+                printf("bad request (%u, %u, %u)\n", req->index, req->begin, req->length);
+                return false;
+            }
+            if (!files.readslice(".", tf, freq, tmpbuf1)) {
+                printf("failed to read piece %u: %s\n", req->index, strerror(errno));
+                return false;
+            }
             if (peerproto.write_piece(w, freq, tmpbuf1) < 0) {
                 panic("oops, writer pos is %zu", w->nwritten);
             }
@@ -252,16 +277,26 @@ void write_response(void *ctx, writer.t *w, peer_t *state, req_t *req) {
                 .begin = piece->begin,
                 .length = piece->length
             };
-            files.writeslice(outdir, tf, freq, piece->data);
+            // Only what we download ourselves is stored.
+            if (!state->is_downloader || !files.valid(tf, freq)) {
+                printf("unexpected piece (%u, %u, %u)\n", piece->index, piece->begin, piece->length);
+                free(piece->data);
+                return false;
+            }
+            bool stored = files.writeslice(outdir, tf, freq, piece->data);
+            free(piece->data);
+            if (!stored) {
+                panic("failed to write piece %u: %s", freq.index, strerror(errno));
+            }
             if (files.check_piece(outdir, tf, freq.index)) {
                 printf("piece %u OK\n", freq.index);
                 request_pieces(ctx);
             }
         }
-        default: {
-            panic("!");
-        }
+        // The other messages need no response.
+        default: {}
     }
+    return true;
 }
 
 // void dumpdata(uint8_t *data, size_t n) {
diff --git a/prog/torrent/peerproto.c b/prog/torrent/peerproto.c
index a8b4d5e..f3a6610 100644
--- a/prog/torrent/peerproto.c
+++ b/prog/torrent/peerproto.c
@@ -25,7 +25,7 @@ pub int read_handshake(reader.t *r, handshake_t *hs) {
 	uint8_t len = 0;
     c += reader.read(r, &len, 1);
     if (len != 19) {
-        panic("expected protocol string length 19, got %u", len);
+        return EOF;
     }
     c += reader.read(r, hs->proto, len);
     c += reader.read(r, NULL, 8);
@@ -81,13 +81,15 @@ pub uint32_t read_length(reader.t *r) {
 }
 
 // Reads a message after the length has been read.
-pub void read_message(reader.t *r, uint32_t msglen, msg_t *m) {
+// Returns false if the message is malformed.
+pub bool read_message(reader.t *r, uint32_t msglen, msg_t *m) {
     endian.read1(r, &m->id);
     switch (m->id) {
         // index: uint32be, piece index
         // begin: uint32be, byte offset within the piece
         // length: uint32be, data length, typically 16 KB
         case MSG_REQUEST: {
+            if (msglen != 13) return false;
             msg_request_t *req = (void *)m->data;
             endian.read4be(r, &req->index);
             endian.read4be(r, &req->begin);
@@ -97,6 +99,7 @@ pub void read_message(reader.t *r, uint32_t msglen, msg_t *m) {
         // 4: offset
         // msglen - (4+4+1): data
         case MSG_PIECE: {
+            if (msglen < 10) return false;
             msg_piece_t *piece = (void *)m->data;
             endian.read4be(r, &piece->index);
             endian.read4be(r, &piece->begin);
@@ -107,21 +110,26 @@ pub void read_message(reader.t *r, uint32_t msglen, msg_t *m) {
         // msglen-1: bytes
         case MSG_BITFIELD: {
             bool *flags = (void *)m->data;
-            int n = 0;
+            size_t n = 0;
             for (uint32_t i = 0; i < msglen-1; i++) {
                 uint8_t byte;
                 reader.read(r, &byte, 1);
                 for (int j = 0; j < 8; j++) {
                     bool set = byte & (1<<(7-j));
-                    flags[n++] = set;
+                    if (n < sizeof(m->data)) flags[n++] = set;
                     printf("piece %d: %d\n", i * 8 + (uint32_t) j, set);
                 }
             }
         }
+        // Messages that don't need processing.
         default: {
-            panic("unknown message: %d", m->id);
+            uint8_t byte;
+            for (uint32_t i = 0; i < msglen-1; i++) {
+                reader.read(r, &byte, 1);
+            }
         }
     }
+    return true;
 }
 
 pub int write_keepalive(writer.t *w) {
-- 
2.43.0


From 63970c52f34ed5ddee47ed74829eee84727807ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:42 +0000
Subject: [PATCH 041/100] fix: torrent stopped when the tracker's response came
 in several pieces

---
 prog/torrent/tracker.c | 46 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/prog/torrent/tracker.c b/prog/torrent/tracker.c
index a499ac8..6247f5e 100644
--- a/prog/torrent/tracker.c
+++ b/prog/torrent/tracker.c
@@ -18,6 +18,13 @@ pub typedef {
 	size_t peers_number;
 } tracker_response_t;
 
+// What has been received from the tracker.
+typedef {
+	uint8_t data[100000];
+	size_t len;
+	bool done;
+} inbox_t;
+
 torrent.info_t *_tf = NULL;
 uint8_t *_peer_id = NULL;
 tracker_response_t last_response = {};
@@ -35,22 +42,30 @@ pub tracker_response_t *getstate() {
 pub void process(void *ctx, int event, void *edata) {
 	switch (event) {
 		case ioloop.CONNECTED: {
+			ioloop.set_stash(ctx, calloc!(1, sizeof(inbox_t)));
 			send_announce(ctx, NULL);
 		}
 		case ioloop.CONNECT_FAILED: {
 			printf("failed to connect to the tracker: %s\n", strerror(errno));
 		}
-		case ioloop.EXIT: {}
+		case ioloop.EXIT: {
+			// A response without a length ends with the connection.
+			inbox_t *in = ioloop.get_stash(ctx);
+			if (in) read_response(in, true);
+			free(in);
+		}
 		case ioloop.DATA_IN: {
+			// The response may come in several pieces.
 			ioloop.buff_t *b = edata;
-			reader.t *re = reader.static_buffer((uint8_t *)b->data, b->len);
-			http.response_t res = {};
-			if (!http.parse_response(re, &res)) {
-				panic("failed to parse tracker's HTTP response");
+			inbox_t *in = ioloop.get_stash(ctx);
+			if (b->len > sizeof(in->data) - in->len) {
+				printf("tracker's response is too long\n");
+				ioloop.close(ctx);
+				return;
 			}
-			read_tracker_response(res.body, &last_response);
-			reader.free(re);
-			print();
+			memcpy(in->data + in->len, b->data, b->len);
+			in->len += b->len;
+			read_response(in, false);
 		}
 		case ioloop.WRITE_FINISHED: {}
 		default: {
@@ -59,6 +74,21 @@ pub void process(void *ctx, int event, void *edata) {
 	}
 }
 
+void read_response(inbox_t *in, bool ended) {
+	if (in->done) return;
+	http.response_t res = {};
+	reader.t *re = reader.static_buffer(in->data, in->len);
+	bool ok = http.parse_response(re, &res);
+	reader.free(re);
+	if (ok && (ended || http.get_res_header(&res, "Content-Length"))) {
+		in->done = true;
+		read_tracker_response(res.body, &last_response);
+		print();
+	} else if (ended) {
+		printf("failed to parse tracker's HTTP response\n");
+	}
+}
+
 void send_announce(void *ctx, const char *event) {
 	http.request_t *req = http.newreq(http.GET, "/announce");
 	http.reqparam(req, "info_hash", _tf->infohash_bytes, 20);
-- 
2.43.0


From 6ec872ff8a1ad16f2430f0a4c5fb13094d95a33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:53 +0000
Subject: [PATCH 042/100] fix: trim destroyed files on read and write errors,
 lone CRs, 0xFF bytes and missing last line ends

---
 prog/trim/trim.c | 95 +++++++++++++++++++++++++++---------------------
 1 file changed, 53 insertions(+), 42 deletions(-)

diff --git a/prog/trim/trim.c b/prog/trim/trim.c
index 92fe4db..314041e 100644
--- a/prog/trim/trim.c
+++ b/prog/trim/trim.c
@@ -1,6 +1,10 @@
 #import os/fs
 #import mem
 #import opt
+#import strings
+#include <sys/stat.h>
+
+typedef struct stat stat_t;
 
 enum {
 	L_SAME,
@@ -72,30 +76,38 @@ typedef {
 bool trim_file(const char *path)
 {
 	FILE *f = fopen(path, "rb");
-	if(!f) return false;
+	if (!f) {
+		fprintf(stderr, "%s: %s\n", path, strerror(errno));
+		return false;
+	}
 
 	mem.mem_t *out = mem.memopen();
 	if (!out) {
 		panic("Out of memory");
 	}
 
-	bool changed = ftrim(f, out, path);
+	bool changed = false;
+	bool ok = ftrim(f, out, path, &changed);
 	fclose(f);
 
-	if(changed) {
-		puts(path);
-		save(out, path);
+	if (ok && changed) {
+		ok = save(out, path);
+		if (ok) puts(path);
 	}
-	return true;
+	mem.memclose(out);
+	return ok;
 }
 
-bool ftrim(FILE *in, mem.mem_t *out, const char *fpath)
+// Trims the whole file into 'out' and sets 'changed'.
+// Returns false if that was not possible.
+bool ftrim(FILE *in, mem.mem_t *out, const char *fpath, bool *changed)
 {
 	linebuf_t buf = {0};
 
-	bool changed = false;
-	while (true) {
+	bool ok = true;
+	while (fpeek(in) != EOF) {
 		if (!read_line(in, &buf, fpath)) {
+			ok = false;
 			break;
 		}
 
@@ -105,14 +117,14 @@ bool ftrim(FILE *in, mem.mem_t *out, const char *fpath)
 		 */
 		if(buf.last_pos + 1 < buf.eol_pos) {
 			buf.eol_pos = buf.last_pos + 1;
-			changed = true;
+			*changed = true;
 		}
 
 		/*
 		 * Override EOL if necessary.
 		 */
 		if(lf != L_SAME && buf.lf != lf) {
-			changed = true;
+			*changed = true;
 			buf.lf = lf;
 		}
 
@@ -122,18 +134,20 @@ bool ftrim(FILE *in, mem.mem_t *out, const char *fpath)
 		write_line(&buf, out);
 	}
 
+	if (ferror(in)) {
+		fprintf(stderr, "%s: failed to read the file\n", fpath);
+		ok = false;
+	}
 	if(buf.line) free(buf.line);
-	return changed;
+	return ok;
 }
 
 /*
  * Reads a line into the line buffer.
- * Returns false if the stream is empty.
+ * Returns false if the line ends in an unknown way.
  */
 bool read_line(FILE *in, linebuf_t *buf, const char *fpath)
 {
-	if(fpeek(in) == EOF) return false;
-
 	buf->eol_pos = -1;
 	buf->last_pos = -1;
 	buf->lf = L_NONE;
@@ -148,10 +162,7 @@ bool read_line(FILE *in, linebuf_t *buf, const char *fpath)
 
 		if(c == '\r') {
 			if(fpeek(in) != '\n') {
-				if(feof(in)) {
-					fprintf(stderr, "WTF! %c", fgetc(in));
-				}
-				fprintf(stderr, "%s: unknown eol sequence at line %d: (%d,%d)",
+				fprintf(stderr, "%s: unknown eol sequence at line %d: (%d,%d)\n",
 					fpath, buf->num, c, fpeek(in));
 				return false;
 			}
@@ -197,45 +208,45 @@ bool growbuf(linebuf_t *buf)
 void write_line(linebuf_t *buf, mem.mem_t *out)
 {
 	for (int i = 0; i < buf->eol_pos; i++) {
-		mem.memputc(buf->line[i], out);
+		assert(mem.memputc((uint8_t) buf->line[i], out) != EOF);
 	}
 	switch (buf->lf) {
 		case L_UNIX: {
-			mem.memputc('\n', out);
+			assert(mem.memputc('\n', out) != EOF);
 		}
 		case L_WIN: {
 			assert(mem.memputc('\r', out) != EOF);
 			assert(mem.memputc('\n', out) != EOF);
 		}
+		case L_NONE: {}
 		default: {
 			panic("write_line: unhandled eol type: %d", buf->lf);
 		}
 	}
 }
 
-int save(mem.mem_t *mem, const char *path )
-{
-	FILE *fp = fopen( path, "wb" );
-	if( !fp ) {
-		fprintf( stderr, "Couldn't open '%s' for writing\n", path );
-		return 0;
+// Replaces the contents of the file at path with those of mem.
+// Writes another file first, so that no data is lost if that fails.
+bool save(mem.mem_t *mem, const char *path) {
+	char realpath[4096] = {};
+	stat_t st = {};
+	if (!fs.realpath(path, realpath, sizeof(realpath)) || OS.stat(realpath, &st) < 0) {
+		fprintf(stderr, "%s: %s\n", path, strerror(errno));
+		return false;
 	}
-
-	mem.rewind(mem);
-	int ok = 1;
-	while (true) {
-		int ch = mem.memgetc( mem );
-		if(ch == EOF) {
-			break;
-		}
-		int r = fputc(ch, fp);
-		if( (char) r != ch ) {
-			fprintf( stderr, "Character write failed (%d/%c != %d/%c)\n", (char) r, (char) r, ch, ch );
-			ok = 0;
-			break;
-		}
+	char *tmppath = strings.newstr("%s.trim-tmp", realpath);
+	bool ok = false;
+	FILE *fp = fopen(tmppath, "wb");
+	if (fp) {
+		ok = fwrite(mem->data, 1, mem->datalen, fp) == mem->datalen;
+		if (fclose(fp) != 0) ok = false;
+		ok = ok && OS.chmod(tmppath, st.st_mode) == 0 && rename(tmppath, realpath) == 0;
+	}
+	if (!ok) {
+		fprintf(stderr, "Couldn't write '%s': %s\n", path, strerror(errno));
+		if (fp) fs.unlink(tmppath);
 	}
-	fclose( fp );
+	free(tmppath);
 	return ok;
 }
 
-- 
2.43.0


From ba8d69d27c0467eee1a890f14a5727bcdf824712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:53 +0000
Subject: [PATCH 043/100] fix: datelog held lines back in its buffer and
 ignored read, flush and close errors

---
 prog/datelog/datelog.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/prog/datelog/datelog.c b/prog/datelog/datelog.c
index 68c3db7..8b5d629 100644
--- a/prog/datelog/datelog.c
+++ b/prog/datelog/datelog.c
@@ -24,7 +24,15 @@ int main(int argc, char *argv[]) {
 			return 1;
 		}
 	}
-	dlog_free(log);
+	if (ferror(stdin)) {
+		fprintf(stderr, "Failed to read the input: %s.\n", strerror(errno));
+		dlog_free(log);
+		return 1;
+	}
+	if (!dlog_free(log)) {
+		fprintf(stderr, "Failed to write the log: %s.\n", strerror(errno));
+		return 1;
+	}
 	return 0;
 }
 
@@ -46,11 +54,13 @@ dlog_t *dlog_init() {
 	return log;
 }
 
-void dlog_free(dlog_t *log) {
-	if (log->fp) fclose(log->fp);
+// Closes the log, returns false if that fails.
+bool dlog_free(dlog_t *log) {
+	bool ok = !log->fp || fclose(log->fp) == 0;
 	free(log->current_path);
 	free(log->new_path);
 	free(log);
+	return ok;
 }
 
 int dlog_put(dlog_t *log, const char *line) {
@@ -60,7 +70,9 @@ int dlog_put(dlog_t *log, const char *line) {
 	// If the file name hasn't changed, return the current file.
 	if (!log->fp || strcmp(log->new_path, log->current_path)) {
 		if (log->fp) {
-			fclose(log->fp);
+			int r = fclose(log->fp);
+			log->fp = NULL;
+			if (r == EOF) return E_FPUTS;
 		}
 		strcpy(log->current_path, log->new_path);
 		log->fp = fopen(log->current_path, "ab+");
@@ -68,7 +80,8 @@ int dlog_put(dlog_t *log, const char *line) {
 			return E_FOPEN;
 		}
 	}
-	if (fputs(line, log->fp) == EOF) {
+	// Don't keep lines in the buffer: the next one may be a long time away.
+	if (fputs(line, log->fp) == EOF || fflush(log->fp) == EOF) {
 		return E_FPUTS;
 	}
 	return 0;
-- 
2.43.0


From bdd2a8d503dde1de3a77cd22fc4e38406f8a35cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:53 +0000
Subject: [PATCH 044/100] fix: chargen sent nothing to silent clients, served
 one client at a time and sent zero bytes

---
 prog/chargen/chargen.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/prog/chargen/chargen.c b/prog/chargen/chargen.c
index 7d15e05..aa7cf0b 100644
--- a/prog/chargen/chargen.c
+++ b/prog/chargen/chargen.c
@@ -8,6 +8,7 @@
 // chargen -l <listen addr>
 
 #import os/net
+#import os/threads
 #import log
 
 typedef {
@@ -38,23 +39,20 @@ int main() {
 		log.logmsg("%s connected", net.net_addr(s));
 		client_t *c = calloc!(1, sizeof(client_t));
 		c->out.conn = s;
-		process_client(c);
+		threads.thr_t *t = threads.start(process_client, c);
+		threads.thr_detach(t);
 	}
 	net.close(l);
 	return 0;
 }
 
-void *process_client(client_t *c) {
+// Sends characters until the client goes away.
+// Whatever the client sends is not looked at.
+void *process_client(void *arg) {
+	client_t *c = arg;
 	net.net_t *conn = c->out.conn;
-	char buf[256] = {};
-	while (true) {
-		if (net.read(conn, buf, sizeof(buf)) == 0) {
-			break;
-		}
-		if (!send_line(c)) {
-			fprintf(stderr, "send_line error: %s\n", strerror(errno));
-			break;
-		}
+	while (send_line(c)) {
+		continue;
 	}
 	log.logmsg("%s disconnected", net.net_addr(conn));
 	net.close(conn);
@@ -91,7 +89,7 @@ char linechars[] =
 
 char nextch(client_t *c) {
 	char ch = linechars[c->charpos++];
-	if ((size_t) c->charpos == sizeof(linechars)) {
+	if ((size_t) c->charpos == sizeof(linechars) - 1) {
 		c->charpos = 0;
 	}
 	return ch;
-- 
2.43.0


From 77a8ae484748ae63b6bb13ac02b383c2eb658bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:55 +0000
Subject: [PATCH 045/100] fix: log lines of several threads mixed; time
 conversions shared a buffer and were wrong in zones other than UTC

---
 lib/log.c  | 17 ++++++++---
 lib/time.c | 87 ++++++++++++++++++------------------------------------
 2 files changed, 42 insertions(+), 62 deletions(-)

diff --git a/lib/log.c b/lib/log.c
index 6149a48..c523947 100644
--- a/lib/log.c
+++ b/lib/log.c
@@ -3,12 +3,21 @@
 pub bool logmsg(const char *fmt, ...) {
 	time.iso_t t = time.now();
 	time.iso_tolocal(&t);
-	fprintf(stderr, "%d-%02d-%02d %02d:%02d:%02d.%03d ", t.Y, t.M, t.D, t.h, t.m, t.s, t.ms);
 
 	va_list args = {};
 	va_start(args, fmt);
-	vfprintf(stderr, fmt, args);
+	int len = vsnprintf(NULL, 0, fmt, args);
 	va_end(args);
-	fputc('\n', stderr);
-	return true;
+	if (len < 0) {
+		return false;
+	}
+	char *msg = calloc!((size_t) len + 1, 1);
+	va_start(args, fmt);
+	vsnprintf(msg, (size_t) len + 1, fmt, args);
+	va_end(args);
+
+	// Written by one call, so that the lines of several threads don't mix.
+	int r = fprintf(stderr, "%d-%02d-%02d %02d:%02d:%02d.%03d %s\n", t.Y, t.M, t.D, t.h, t.m, t.s, t.ms, msg);
+	free(msg);
+	return r >= 0;
 }
diff --git a/lib/time.c b/lib/time.c
index aa9c27f..58b61a2 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -47,26 +47,6 @@ pub duration_t dur_add(duration_t a, b) {
 	return r;
 }
 
-int tzoffset() {
-	tm_t *x = NULL;
-	time_t n = time(NULL);
-
-	x = OS.localtime(&n);
-	int mins = x->tm_hour * 60 + x->tm_min;
-	x = OS.gmtime(&n);
-	mins -= (x->tm_hour * 60 + x->tm_min);
-
-	// Possible diff range is -12:45 .. +14:45.
-	int min = -(12*60 + 45);
-	int max = 14*60+45;
-	if (mins < min) {
-		mins += 24 * 60;
-	} else if (mins > max) {
-		mins -= 24 * 60;
-	}
-	return mins;
-}
-
 pub void dur_set(duration_t *d, int64_t val, int unit) {
 	d->us = val * unit;
 }
@@ -232,14 +212,15 @@ pub iso_t now() {
 // Returns time corresponding to the given unix time.
 pub iso_t fromunix(int64_t seconds) {
 	time_t s = seconds;
-	tm_t *tm = OS.gmtime(&s);
+	tm_t tm = {};
+	OS.gmtime_r(&s, &tm);
 	iso_t r = {
-		.Y = tm->tm_year + 1900,
-		.M = tm->tm_mon + 1,
-		.D = tm->tm_mday,
-		.h = tm->tm_hour,
-		.m = tm->tm_min,
-		.s = tm->tm_sec,
+		.Y = tm.tm_year + 1900,
+		.M = tm.tm_mon + 1,
+		.D = tm.tm_mday,
+		.h = tm.tm_hour,
+		.m = tm.tm_min,
+		.s = tm.tm_sec,
 	};
 	return r;
 }
@@ -286,32 +267,22 @@ pub iso_t parse_iso(const char *p) {
 	return r;
 }
 
-tm_t totm(iso_t r) {
-	tm_t tm = {
-		.tm_sec = r.s, // 0-60 (60 for the leap second)
-		.tm_min = r.m, // 0-59
-		.tm_hour = r.h, // 0-23
-		.tm_mday = r.D, // 1-31
-		.tm_mon = r.M - 1, // 0-11
-		.tm_year = r.Y - 1900, // years since 1900
-		.tm_wday = -1, // 0-6
-		.tm_yday = -1, // 0..365
-		.tm_isdst = -1, // daylight saving; -1 = don't know
-	};
-	return tm;
+// Returns the unix time corresponding to the given time.
+int64_t tounix(iso_t r) {
+	// Years begin in March here, so that a leap day is the last day of a year.
+	int64_t y = r.Y;
+	int64_t m = r.M;
+	if (m < 3) {
+		y -= 1;
+		m += 12;
+	}
+	int64_t days = 365 * y + y / 4 - y / 100 + y / 400 + (153 * (m - 3) + 2) / 5 + r.D - 1 - 719468;
+	return ((days * 24 + r.h - r.zh) * 60 + r.m - r.zm) * 60 + r.s;
 }
 
 // Returns the difference a-b in milliseconds.
 pub int64_t sub(iso_t a, b) {
-	tm_t tm = totm(a);
-	time_t au = OS.mktime(&tm);
-	int64_t ms1 = ((int64_t) au) * 1000 + a.ms;
-
-	tm = totm(b);
-	time_t bu = OS.mktime(&tm);
-	int64_t ms2 = ((int64_t) bu) * 1000 + b.ms;
-
-	return ms1 - ms2;
+	return (tounix(a) - tounix(b)) * 1000 + a.ms - b.ms;
 }
 
 pub bool fmt_iso_iso(iso_t val, char *buf, size_t bufsize) {
@@ -323,15 +294,15 @@ pub void iso_tolocal(iso_t *val) {
 	if (val->zh != 0 || val->zm != 0) {
 		panic("unhandled: non-utc iso");
 	}
-	val->m += tzoffset();
-	while (val->m > 60) {
-		val->m -= 60;
-		val->h += 1;
-	}
-	// while (val->h > 23) {
-	// 	val->D += 1;
-	// 	val->h -= 23;
-	// }
+	time_t s = tounix(*val);
+	tm_t tm = {};
+	OS.localtime_r(&s, &tm);
+	val->Y = tm.tm_year + 1900;
+	val->M = tm.tm_mon + 1;
+	val->D = tm.tm_mday;
+	val->h = tm.tm_hour;
+	val->m = tm.tm_min;
+	val->s = tm.tm_sec;
 }
 
 
-- 
2.43.0


From 78b80d8db644eb8ca83cf9051cd3b378e9629ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:55 +0000
Subject: [PATCH 046/100] fix: url.parse overflowed its fields on long parts

---
 lib/url.c | 51 +++++++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/lib/url.c b/lib/url.c
index b592149..2b783d4 100644
--- a/lib/url.c
+++ b/lib/url.c
@@ -7,45 +7,48 @@ pub typedef {
     char path[100];
 } t;
 
+// Parses a URL.
+// Returns NULL if it's malformed or has a part that is too long.
 pub t *parse(const char *s) {
 	t *r = calloc!(1, sizeof(t));
     tokenizer.t *buf = tokenizer.from_str(s);
 
     // http
-    char *q = r->schema;
-    while (tokenizer.more(buf) && tokenizer.peek(buf) != ':') {
-        *q++ = tokenizer.get(buf);
-    }
+    bool ok = read_part(buf, ":", r->schema, sizeof(r->schema));
 
     // ://
-    if (tokenizer.get(buf) != ':' || tokenizer.get(buf) != '/' || tokenizer.get(buf) != '/') {
-        tokenizer.free(buf);
-		free(r);
-        return NULL;
-    }
+    ok = ok && tokenizer.get(buf) == ':' && tokenizer.get(buf) == '/' && tokenizer.get(buf) == '/';
 
     // domain or ip address
-    q = r->hostname;
-    while (tokenizer.more(buf) && tokenizer.peek(buf) != ':' && tokenizer.peek(buf) != '/') {
-        *q++ = tokenizer.get(buf);
-    }
+    ok = ok && read_part(buf, ":/", r->hostname, sizeof(r->hostname));
 
-    q = r->port;
-    if (tokenizer.peek(buf) == ':') {
+    if (ok && tokenizer.peek(buf) == ':') {
         tokenizer.get(buf);
-        while (tokenizer.more(buf) && tokenizer.peek(buf) != '/') {
-            *q++ = tokenizer.get(buf);
-        }
+        ok = read_part(buf, "/", r->port, sizeof(r->port));
     }
 
-    q = r->path;
-	*q = '/';
-    if (tokenizer.peek(buf) == '/') {
-        while (tokenizer.more(buf)) {
-            *q++ = tokenizer.get(buf);
-        }
+	r->path[0] = '/';
+    if (ok && tokenizer.peek(buf) == '/') {
+        ok = read_part(buf, "", r->path, sizeof(r->path));
     }
 
     tokenizer.free(buf);
+    if (!ok) {
+		free(r);
+        return NULL;
+    }
     return r;
 }
+
+// Reads characters into out until one of the stop characters.
+// Returns false if they don't fit.
+bool read_part(tokenizer.t *buf, const char *stop, char *out, size_t size) {
+	size_t n = 0;
+	while (tokenizer.more(buf) && !strchr(stop, tokenizer.peek(buf))) {
+		if (n + 1 == size) {
+			return false;
+		}
+		out[n++] = tokenizer.get(buf);
+	}
+	return true;
+}
-- 
2.43.0


From 91eb1cb6061eae63386d19b198d25e3579d2bf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:55 +0000
Subject: [PATCH 047/100] fix: exab ended at the first failed request, read
 only one piece of a response and reported wrong sending times

---
 prog/exab/exab.c | 82 +++++++++++++++++++++++++-----------------------
 1 file changed, 42 insertions(+), 40 deletions(-)

diff --git a/prog/exab/exab.c b/prog/exab/exab.c
index 54e9b11..b3999f9 100644
--- a/prog/exab/exab.c
+++ b/prog/exab/exab.c
@@ -20,6 +20,7 @@ threads.mtx_t *stdout_lock = NULL;
 typedef {
 	size_t id;
 	threads.pipe_t *pipe;
+	bool failed; // whether any of the requests failed
 } worker_arg_t;
 
 int main(int argc, char *argv[]) {
@@ -62,7 +63,7 @@ int main(int argc, char *argv[]) {
 	http.set_header(&req, "User-Agent", "exab");
 
 	writer.t *w = writer.static_buffer(REQUEST, sizeof(REQUEST));
-	if (!http.write_request(w, &req)) {
+	if (http.write_request(w, &req) < 0) {
 		panic("failed to write the request");
 	}
 	REQUESTLEN = w->nwritten;
@@ -91,13 +92,15 @@ int main(int argc, char *argv[]) {
 	}
 	threads.pclose(pipe);
 
+	int status = 0;
 	for (size_t i = 0; i < concurrency; i++) {
 		threads.wait(tt[i], NULL);
+		if (aa[i].failed) status = 1;
 	}
 	free(aa);
 	free(tt);
 	threads.freepipe(pipe);
-	return 0;
+	return status;
 }
 
 void *worker(void *arg) {
@@ -105,51 +108,50 @@ void *worker(void *arg) {
 	worker_arg_t *a = arg;
 	threads.pipe_t *pipe = a->pipe;
 
-	char resbytes[4096] = {};
-
 	result_t _res = {};
 	result_t *res = &_res;
 	res->worker_id = a->id;
 
 	size_t i = 0;
-	while (true) {
-		if (!threads.pread(pipe, NULL)) {
-			break;
-		}
-		res->number = i;
-		res->time_started = time.now();
-		net.net_t *conn = net.connect("tcp", addr);
-		if (!conn) {
-			fprintf(stderr, "failed to connect to %s: %s\n", addr, strerror(errno));
-			break;
-		}
-		res->time_connected = time.now();
-		if ((size_t) net.write(conn, (char *)REQUEST, REQUESTLEN) != REQUESTLEN) {
-			panic("failed to write request: %s", strerror(errno));
-		}
-		res->total_sent = REQUESTLEN;
-		res->time_finished_writing = time.now();
-		int read = net.read(conn, resbytes, sizeof(resbytes));
-		if (read < 0) {
-			panic("read failed");
-		}
-		if ((size_t) read == sizeof(resbytes)) {
-			panic("read buffer too small");
-		}
-		resbytes[read] = '\0';
-		res->time_finished_reading = time.now();
-		res->total_received = read;
-		net.close(conn);
-		http.response_t r = {};
-		reader.t *re = reader.string(resbytes);
-		if (!http.parse_response(re, &r)) {
-			panic("failed to parse http response");
+	while (threads.pread(pipe, NULL)) {
+		res->number = i++;
+		const char *err = make_request(res);
+		if (err) {
+			fprintf(stderr, "request %zu/%zu failed: %s\n", res->worker_id, res->number, err);
+			a->failed = true;
+			continue;
 		}
-		reader.free(re);
-		res->status = r.status;
 		print_result(res);
+	}
+	return NULL;
+}
 
-		i++;
+// Makes a request and fills in the result.
+// Returns NULL on success or an error message.
+const char *make_request(result_t *res) {
+	res->time_started = time.now();
+	net.net_t *conn = net.connect("tcp", addr);
+	if (!conn) {
+		return "failed to connect";
+	}
+	res->time_connected = time.now();
+	if ((size_t) net.write(conn, (char *)REQUEST, REQUESTLEN) != REQUESTLEN) {
+		net.close(conn);
+		return "failed to write the request";
+	}
+	res->total_sent = REQUESTLEN;
+	res->time_finished_writing = time.now();
+
+	http.response_t r = {};
+	reader.t *re = net.getreader(conn);
+	bool ok = http.parse_response(re, &r);
+	res->time_finished_reading = time.now();
+	res->total_received = re->pos;
+	res->status = r.status;
+	reader.free(re);
+	net.close(conn);
+	if (!ok) {
+		return "failed to read the response";
 	}
 	return NULL;
 }
@@ -173,7 +175,7 @@ void print_result_header() {
 void print_result(result_t *res) {
 	threads.lock(stdout_lock);
 	int64_t conn = time.sub(res->time_connected, res->time_started);
-	int64_t write = time.sub(res->time_finished_writing, res->time_started);
+	int64_t write = time.sub(res->time_finished_writing, res->time_connected);
 	int64_t read = time.sub(res->time_finished_reading, res->time_finished_writing);
 	int64_t total = time.sub(res->time_finished_reading, res->time_started);
 	printf("%zu/%zu\t", res->worker_id, res->number);
-- 
2.43.0


From ba0c863a4fb36485b54702b51e558c474ce3294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:04 +0000
Subject: [PATCH 048/100] fix: json strings lost their escapes, object keys
 were written unescaped and leaked, control characters were written raw

---
 lib/formats/json.c | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/lib/formats/json.c b/lib/formats/json.c
index 6f66b11..0cc92cf 100644
--- a/lib/formats/json.c
+++ b/lib/formats/json.c
@@ -299,15 +299,18 @@ val_t *read_dict(tokenizer.t *p, error.t *err) {
 			return NULL;
 		}
 		if (!expect(p, ':', err)) {
+			free(key);
 			json_free(o);
 			return NULL;
 		}
 		val_t *val = read_node(p, err);
 		if (!val) {
+			free(key);
 			json_free(o);
 			return NULL;
 		}
 		json_put(o, key, val);
+		free(key);
 		if (!eat(p, ',')) {
 			break;
 		}
@@ -379,6 +382,13 @@ char *readstr(tokenizer.t *p, error.t *err) {
 				free(s);
 				return NULL;
 			}
+			switch (c) {
+				case 'n': { c = '\n'; }
+				case 't': { c = '\t'; }
+				case 'r': { c = '\r'; }
+				case 'b': { c = '\b'; }
+				case 'f': { c = '\f'; }
+			}
 		}
 		if (len + 1 == cap) {
 			cap *= 2;
@@ -478,9 +488,8 @@ bool writeobj(val_t *n, strbuilder.str *s) {
 	bool ok = strbuilder.adds(s, "{");
 	for (size_t i = 0; i < len; i++) {
 		ok = ok
-			&& strbuilder.adds(s, "\"")
-			&& strbuilder.adds(s, key(n, i))
-			&& strbuilder.adds(s, "\":")
+			&& writequoted(key(n, i), s)
+			&& strbuilder.adds(s, ":")
 			&& writenode(val(n, i), s);
 		if (i + 1 < len) {
 			ok = ok && strbuilder.adds(s, ",");
@@ -504,17 +513,26 @@ bool writearr(val_t *n, strbuilder.str *s) {
 }
 
 void writestr(val_t *n, strbuilder.str *s) {
-	const char *content = n->val.str;
+	if (!writequoted(n->val.str, s)) {
+		panic("writestr failed");
+	}
+}
+
+bool writequoted(const char *content, strbuilder.str *s) {
 	size_t len = strlen(content);
 	bool ok = strbuilder.adds(s, "\"");
 	for (size_t i = 0; i < len; i++) {
 		const char c = content[i];
 		if (c == '\n') {
-			ok = ok && strbuilder.adds(s, "\\\\n");
+			ok = ok && strbuilder.adds(s, "\\n");
 			continue;
 		}
 		if (c == '\t') {
-			ok = ok && strbuilder.adds(s, "\\\\t");
+			ok = ok && strbuilder.adds(s, "\\t");
+			continue;
+		}
+		if (c == '\r') {
+			ok = ok && strbuilder.adds(s, "\\r");
 			continue;
 		}
 		if (c == '\\' || c == '\"' || c == '/') {
@@ -523,9 +541,7 @@ void writestr(val_t *n, strbuilder.str *s) {
 		ok = ok && strbuilder.addc(s, c);
 	}
 	ok = ok && strbuilder.addc(s, '"');
-	if (!ok) {
-		panic("writestr failed");
-	}
+	return ok;
 }
 
 bool writenum(val_t *n, strbuilder.str *s) {
@@ -562,7 +578,13 @@ pub void write_string(FILE *f, const char *s) {
 			case '\t': { fputc('\\', f); fputc('t', f); }
 			case '\\': { fputc('\\', f); fputc('\\', f); }
 			case '\"': { fputc('\\', f); fputc('"', f); }
-			default: { fputc(*s, f); }
+			default: {
+				if (*s > 0 && *s < ' ') {
+					fprintf(f, "\\u%04x", *s);
+				} else {
+					fputc(*s, f);
+				}
+			}
 		}
 		s++;
 	}
-- 
2.43.0


From 865bbff90afb15d1ecd2e4c4af1200045fbe6335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:04 +0000
Subject: [PATCH 049/100] fix: csv values, header names and columns overflowed
 their buffers; empty last values and everything after a malformed value were
 dropped; quotes were not doubled

---
 lib/formats/csv.c        | 69 ++++++++++++++++++++++++++++------------
 prog/csv2json/csv2json.c | 37 +++++++++++++++++++--
 2 files changed, 83 insertions(+), 23 deletions(-)

diff --git a/lib/formats/csv.c b/lib/formats/csv.c
index 6a12d6f..0bb842a 100644
--- a/lib/formats/csv.c
+++ b/lib/formats/csv.c
@@ -3,9 +3,11 @@
 pub typedef {
 	tokenizer.t *b;
 	int vals;
-	char valbuf[4096];
+	char *valbuf;
+	size_t valcap;
+	size_t vallen;
 	bool firstval;
-
+	const char *error;
 } reader_t;
 
 // Creates a new CSV reader for stdin.
@@ -13,44 +15,67 @@ pub reader_t *newreader() {
 	reader_t *r = calloc!(1, sizeof(reader_t));
 	r->b = tokenizer.file(stdin);
 	r->firstval = true;
+	r->valcap = 4096;
+	r->valbuf = calloc!(r->valcap, 1);
 	return r;
 }
 
+// Returns the message about malformed input, or NULL.
+pub const char *err(reader_t *r) {
+	return r->error;
+}
+
 // Releases the reader.
 pub void freereader(reader_t *r) {
 	if (r->b) tokenizer.free(r->b);
+	free(r->valbuf);
 	free(r);
 }
 
 // Reads the next column's value in the current line.
 // Returns false if there are no more columns in the current line.
 pub bool readval(reader_t *r) {
-	// If this is not the first column, expect a comma.
-	if (!r->firstval) {
-		if (tokenizer.peek(r->b) != ',') {
+	if (r->error) {
+		return false;
+	}
+	int next = tokenizer.peek(r->b);
+	if (r->firstval) {
+		// An empty line has no columns.
+		if (next == '\n' || next == '\r' || next == EOF) return false;
+	} else {
+		// If this is not the first column, expect a comma.
+		if (next != ',') {
 			return false;
 		}
 		tokenizer.get(r->b);
+		next = tokenizer.peek(r->b);
 	}
 	r->firstval = false;
 
-	int next = tokenizer.peek(r->b);
-	if (next == '\n' || next == '\r') return false;
-	if (!tokenizer.more(r->b)) return false;
-
+	r->vallen = 0;
+	r->valbuf[0] = '\0';
 	if (next == '"') {
-		read_quoted_value(r);
-		return true;
+		return read_quoted_value(r);
 	}
 
-	char *p = r->valbuf;
 	while (tokenizer.more(r->b) && !peekany(r->b, ",\r\n")) {
-		*p++ = tokenizer.get(r->b);
+		addchar(r, tokenizer.get(r->b));
 	}
-	*p = '\0';
 	return true;
 }
 
+void addchar(reader_t *r, int c) {
+	if (r->vallen + 1 == r->valcap) {
+		r->valcap *= 2;
+		r->valbuf = realloc(r->valbuf, r->valcap);
+		if (!r->valbuf) {
+			panic("realloc failed");
+		}
+	}
+	r->valbuf[r->vallen++] = c;
+	r->valbuf[r->vallen] = '\0';
+}
+
 bool peekany(tokenizer.t *b, const char *chars) {
 	const char *p = chars;
 	while (*p != '\0') {
@@ -81,7 +106,7 @@ pub const char *val(reader_t *r) {
 	return r->valbuf;
 }
 
-void read_quoted_value(reader_t *r) {
+bool read_quoted_value(reader_t *r) {
 	tokenizer.t *b = r->b;
 
 	// Opening quote
@@ -90,11 +115,11 @@ void read_quoted_value(reader_t *r) {
 	}
 
 	// Content + closing quote
-	char *p = r->valbuf;
 	while (true) {
 		int c = tokenizer.get(b);
 		if (c == EOF) {
-			panic("unterminated quoted value");
+			r->error = "unterminated quoted value";
+			return false;
 		}
 
 		if (c == '\"') {
@@ -102,12 +127,16 @@ void read_quoted_value(reader_t *r) {
 			if (tokenizer.peek(b) == '\"') {
 				tokenizer.get(b);
 			} else {
-				*p = '\0';
 				break;
 			}
 		}
-		*p++ = c;
+		addchar(r, c);
+	}
+	if (tokenizer.more(b) && !peekany(b, ",\r\n")) {
+		r->error = "unexpected characters after a quoted value";
+		return false;
 	}
+	return true;
 }
 
 pub typedef {
@@ -129,7 +158,7 @@ pub void writeval(writer_t *w, const char *x) {
 	w->col++;
 	fputc('"', w->f);
 	while (*x != '\0') {
-		if (*x == '"') fputc('\\', w->f);
+		if (*x == '"') fputc('"', w->f);
 		fputc(*x, w->f);
 		x++;
 	}
diff --git a/prog/csv2json/csv2json.c b/prog/csv2json/csv2json.c
index 4485949..8e7af14 100644
--- a/prog/csv2json/csv2json.c
+++ b/prog/csv2json/csv2json.c
@@ -3,13 +3,15 @@
 #import opt
 #import strings
 
+#define MAX_COLUMNS 100
+
 int main(int argc, char *argv[]) {
 	bool noheader = false;
 	opt.flag("n", "the first line is not header", &noheader);
 	opt.parse(argc, argv);
 
-	char *colnames[100] = {};
-	for (size_t i = 0; i < 100; i++) {
+	char *colnames[MAX_COLUMNS] = {};
+	for (size_t i = 0; i < MAX_COLUMNS; i++) {
 		colnames[i] = strings.newstr("col%d", i);
 	}
 
@@ -18,18 +20,27 @@ int main(int argc, char *argv[]) {
 	if (!noheader) {
 		size_t i = 0;
 		while (csv.readval(r)) {
-			strcpy(colnames[i], csv.val(r));
+			checkcol(i);
+			free(colnames[i]);
+			colnames[i] = strings.newstr("%s", csv.val(r));
 			i++;
 		}
+		if (csv.err(r)) {
+			fail(csv.err(r));
+		}
 		csv.nextline(r);
 	}
 
 	while (true) {
 		size_t i = 0;
 		while (csv.readval(r)) {
+			checkcol(i);
 			val(colnames[i], csv.val(r));
 			i++;
 		}
+		if (csv.err(r)) {
+			fail(csv.err(r));
+		}
 		end();
 		if (!csv.nextline(r)) {
 			break;
@@ -37,9 +48,29 @@ int main(int argc, char *argv[]) {
 	}
 
 	csv.freereader(r);
+	for (size_t i = 0; i < MAX_COLUMNS; i++) {
+		free(colnames[i]);
+	}
+	if (ferror(stdin)) {
+		fail("failed to read the input");
+	}
+	if (fflush(stdout) != 0 || ferror(stdout)) {
+		fail("failed to write the output");
+	}
 	return 0;
 }
 
+void fail(const char *msg) {
+	fprintf(stderr, "%s\n", msg);
+	exit(1);
+}
+
+void checkcol(size_t i) {
+	if (i >= MAX_COLUMNS) {
+		fail("too many columns");
+	}
+}
+
 bool line_started = false;
 
 void val(const char *field, *val) {
-- 
2.43.0


From aa90f527e72ae11439727b297584d73b40a069a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:04 +0000
Subject: [PATCH 050/100] fix: jsonl2csv split long lines and ignored read and
 write errors

---
 prog/jsonl2csv/jsonl2csv.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/prog/jsonl2csv/jsonl2csv.c b/prog/jsonl2csv/jsonl2csv.c
index c0f4caf..cb14816 100644
--- a/prog/jsonl2csv/jsonl2csv.c
+++ b/prog/jsonl2csv/jsonl2csv.c
@@ -1,5 +1,6 @@
 #import formats/csv
 #import formats/json
+#import linereader
 #import strings
 #import error
 
@@ -7,7 +8,8 @@ char *header[100] = {};
 size_t nheader = 0;
 
 int main() {
-    json.val_t *obj = readobj();
+    linereader.t *lr = linereader.new(stdin);
+    json.val_t *obj = readobj(lr);
     if (!obj) {
         fprintf(stderr, "no objects read\n");
         return 1;
@@ -24,15 +26,27 @@ int main() {
 
     while (obj) {
         printobj(obj);
-        obj = readobj();
+        obj = readobj(lr);
+    }
+    linereader.free(lr);
+    for (size_t i = 0; i < nheader; i++) {
+        free(header[i]);
+    }
+    if (ferror(stdin)) {
+        fprintf(stderr, "failed to read the input\n");
+        return 1;
+    }
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        fprintf(stderr, "failed to write the output\n");
+        return 1;
     }
     return 0;
 }
 
-json.val_t *readobj() {
-    char line[4096] = {};
+json.val_t *readobj(linereader.t *lr) {
 	error.t err = {};
-    while (fgets(line, sizeof(line), stdin)) {
+    while (linereader.read(lr)) {
+        char *line = linereader.line(lr);
         json.val_t *obj = json.parse(line, &err);
 		if (err.set) {
 			fprintf(stderr, "failed to parse line as json: \"%s\"\n", line);
-- 
2.43.0


From d7218c87e6956857e8a8129cbf59da1c5fd5419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:04 +0000
Subject: [PATCH 051/100] fix: srt lines and ranges overflowed their buffers,
 empty input panicked; srt programs ignored read and write errors

---
 lib/formats/srt.c          | 44 +++++++++++++++++++++++++-------------
 prog/srt2jsonl/srt2jsonl.c |  9 ++++++++
 2 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/lib/formats/srt.c b/lib/formats/srt.c
index 30cd902..8e96ebd 100644
--- a/lib/formats/srt.c
+++ b/lib/formats/srt.c
@@ -2,10 +2,16 @@
 #import time
 
 pub typedef {
-	char linebuf[4096];
+	char *linebuf;
+	size_t linecap;
 	bool line_loaded;
 } reader_t;
 
+// Frees the memory used by the reader.
+pub void freereader(reader_t *r) {
+	free(r->linebuf);
+}
+
 pub typedef {
 	int index;
 	char range[40];
@@ -19,24 +25,25 @@ pub bool readblock(reader_t *r, block_t *b) {
 		return false;
 	}
 	if (!r->line_loaded) {
-		loadline(r);
+		if (!loadline(r)) {
+			return false;
+		}
 		r->line_loaded = true;
 	}
 
 	b->index = parse_num(r->linebuf);
-	loadline(r);
+	if (!loadline(r) || strlen(r->linebuf) >= sizeof(b->range)) {
+		panic("failed to read the time range");
+	}
 
 	strcpy(b->range, r->linebuf);
-	loadline(r);
-
 	b->text[0] = '\0';
-	while (true) {
+	while (loadline(r)) {
 		if (parse_num(r->linebuf)) break;
 		if (strlen(b->text) + strlen(r->linebuf) >= sizeof(b->text)) {
 			panic("text buffer is too small");
 		}
 		strcat(b->text, r->linebuf);
-		if (!loadline(r)) break;
 	}
 	strings.trim(b->range);
 	strings.trim(b->text);
@@ -46,9 +53,9 @@ pub bool readblock(reader_t *r, block_t *b) {
 	// Parse the range into two time positions
 	//
 	// 00:01:32,320 --> 00:01:33,160
-	char sbegin[20] = {};
-	char send[20] = {};
-	sscanf(b->range, "%s --> %s", sbegin, send);	
+	char sbegin[40] = {};
+	char send[40] = {};
+	sscanf(b->range, "%s --> %s", sbegin, send);
 	b->begin = parsepos(sbegin);
 	b->end = parsepos(send);
 	return true;
@@ -64,7 +71,7 @@ pub time.duration_t parsepos(const char *buf) {
 		panic("failed to parse timestamp");
 	}
 
-	int val = h;
+	int64_t val = h;
 	val *= 60; // m
 	val += m;
 	val *= 60; // s
@@ -86,18 +93,25 @@ pub void printblock(block_t *b) {
 }
 
 bool loadline(reader_t *r) {
-	char *p = r->linebuf;
+	size_t n = 0;
 	while (true) {
 		int c = fgetc(stdin);
 		if (c == EOF) break;
 		if (c == '\r') continue;
-		*p++ = c;
+		if (n + 2 > r->linecap) {
+			r->linecap = 2 * r->linecap + 100;
+			r->linebuf = realloc(r->linebuf, r->linecap);
+			if (!r->linebuf) {
+				panic("realloc failed");
+			}
+		}
+		r->linebuf[n++] = c;
 		if (c == '\n') break;
 	}
-	if (p == (char *) r->linebuf) {
+	if (n == 0) {
 		return false;
 	}
-	*p++ = '\0';
+	r->linebuf[n] = '\0';
 	return true;
 }
 
diff --git a/prog/srt2jsonl/srt2jsonl.c b/prog/srt2jsonl/srt2jsonl.c
index 311cd0e..dde2eb7 100644
--- a/prog/srt2jsonl/srt2jsonl.c
+++ b/prog/srt2jsonl/srt2jsonl.c
@@ -7,6 +7,15 @@ int main() {
 	while (srt.readblock(&r, &b)) {
 		print_block(&b);
 	}
+	srt.freereader(&r);
+	if (ferror(stdin)) {
+		fprintf(stderr, "failed to read the input\n");
+		return 1;
+	}
+	if (fflush(stdout) != 0 || ferror(stdout)) {
+		fprintf(stderr, "failed to write the output\n");
+		return 1;
+	}
 	return 0;
 }
 
-- 
2.43.0


From 11d03e31f136b2cda1e5bb522674d550a5d76237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:04 +0000
Subject: [PATCH 052/100] fix: srtadjust wrote unpadded milliseconds, divided
 by zero and ignored read and write errors

---
 lib/time.c                 |  2 +-
 prog/srtadjust/srtadjust.c | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/time.c b/lib/time.c
index 58b61a2..3e76389 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -105,7 +105,7 @@ pub bool dur_fmt(duration_t *d, char *buf, size_t bufsize, const char *fmt) {
 			len = snprintf(buf, bufsize, "%02d:%02d.%03d", mm, ss, ms);
 		}
 		case "hh:mm:ss,ms": {
-			len = snprintf(buf, bufsize, "%02d:%02d:%02d,%d", pp.h, pp.m, pp.s, pp.ms);
+			len = snprintf(buf, bufsize, "%02d:%02d:%02d,%03d", pp.h, pp.m, pp.s, pp.ms);
 		}
 		case "[h]:mm:ss.mmm": {
 			int ms = pp.ms;
diff --git a/prog/srtadjust/srtadjust.c b/prog/srtadjust/srtadjust.c
index 33dac91..7afaf30 100644
--- a/prog/srtadjust/srtadjust.c
+++ b/prog/srtadjust/srtadjust.c
@@ -12,6 +12,10 @@ int main(int argc, char *argv[]) {
 	int64_t have2 = srt.parsepos(argv[3]).us;
 	int64_t want2 = srt.parsepos(argv[4]).us;
 
+	if (have1 == have2) {
+		fprintf(stderr, "<have1> and <have2> must differ\n");
+		return 1;
+	}
 	double k = (double)(want2 - want1) / (double)(have2 - have1);
 	double s = (double) want1 - (double) have1 * k;
 
@@ -22,6 +26,15 @@ int main(int argc, char *argv[]) {
 		adjust(&b.end, k, s);
 		srt.printblock(&b);
 	}
+	srt.freereader(&r);
+	if (ferror(stdin)) {
+		fprintf(stderr, "failed to read the input\n");
+		return 1;
+	}
+	if (fflush(stdout) != 0 || ferror(stdout)) {
+		fprintf(stderr, "failed to write the output\n");
+		return 1;
+	}
 	return 0;
 }
 
-- 
2.43.0


From a1d6fafaa34c2db2060fb56521ec5e741ce79c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:04 +0000
Subject: [PATCH 053/100] fix: vtt text overflowed its buffer, the last caption
 and long lines were lost, read and write errors ignored

---
 lib/formats/vtt.c          | 18 ++++++++++++------
 prog/vtt2jsonl/vtt2jsonl.c |  8 ++++++++
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/lib/formats/vtt.c b/lib/formats/vtt.c
index 1727773..dfffa5d 100644
--- a/lib/formats/vtt.c
+++ b/lib/formats/vtt.c
@@ -1,8 +1,9 @@
+#import linereader
 #import strings
 
 pub typedef {
-	char line[4096];
-	FILE *f;
+	linereader.t *lr;
+	char *line;
 	char timerange[100];
 	char *text;
 	size_t textcap;
@@ -14,7 +15,7 @@ pub reader_t *reader(FILE *f) {
 	reader_t *r = calloc!(1, sizeof(reader_t));
 	r->textcap = 100;
 	r->text = calloc!(100, 1);
-	r->f = f;
+	r->lr = linereader.new(f);
 	if (!init(r)) {
 		seterror(r, "failed to initialize");
 	}
@@ -26,6 +27,7 @@ pub void freereader(reader_t *r) {
 	if (r->error) {
 		free(r->error);
 	}
+	linereader.free(r->lr);
 	free(r->text);
 	free(r);
 }
@@ -77,13 +79,16 @@ pub bool read(reader_t *r) {
 	// Text lines
 	if (r->text) r->text[0] = '\0';
 	while (true) {
-		if (!loadline(r)) return false;
+		if (!loadline(r)) {
+			if (r->text[0] == '\0') return false;
+			break;
+		}
 
 		// Stop at an empty line.
 		if (r->line[0] == '\0') break;
 
 		if (strlen(r->text) + strlen(r->line) + 2 > r->textcap) {
-			r->textcap *= 2;
+			r->textcap = 2 * (r->textcap + strlen(r->line));
 			r->text = realloc(r->text, r->textcap);
 			if (!r->text) panic("realloc failed");
 		}
@@ -95,9 +100,10 @@ pub bool read(reader_t *r) {
 }
 
 bool loadline(reader_t *r) {
-	if (!fgets(r->line, sizeof(r->line), r->f)) {
+	if (!linereader.read(r->lr)) {
 		return false;
 	}
+	r->line = linereader.line(r->lr);
 	strings.rtrim(r->line, "\r\n");
 	// printf("line: [%s]\n", r->line);
 	return true;
diff --git a/prog/vtt2jsonl/vtt2jsonl.c b/prog/vtt2jsonl/vtt2jsonl.c
index 58752ee..00472f1 100644
--- a/prog/vtt2jsonl/vtt2jsonl.c
+++ b/prog/vtt2jsonl/vtt2jsonl.c
@@ -12,6 +12,14 @@ int main() {
 		return 1;
 	}
 	vtt.freereader(r);
+	if (ferror(stdin)) {
+		fprintf(stderr, "failed to read the input\n");
+		return 1;
+	}
+	if (fflush(stdout) != 0 || ferror(stdout)) {
+		fprintf(stderr, "failed to write the output\n");
+		return 1;
+	}
 	return 0;
 }
 
-- 
2.43.0


From 6cc1fbf98e16aa2114c214660b51cff2c25a37a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:57 +0000
Subject: [PATCH 054/100] fix: lzw ignored write failures, misread short reads
 and could not decode streams ending at a width change

---
 lib/compress/lzw.c | 51 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/lib/compress/lzw.c b/lib/compress/lzw.c
index 5960d3c..fab1769 100644
--- a/lib/compress/lzw.c
+++ b/lib/compress/lzw.c
@@ -99,11 +99,14 @@ enc_t *init(size_t alphabet_size, writer.t *out) {
 	return enc;
 }
 
-pub void compress(reader.t *r, size_t alphabet_size, writer.t *out) {
+// Compresses everything from r into out.
+// Returns false if writing has failed.
+pub bool compress(reader.t *r, size_t alphabet_size, writer.t *out) {
 	enc_t *enc = init(alphabet_size, out);
 
 	peeker_t *p = calloc!(1, sizeof(peeker_t));
 	p->reader = r;
+	bool empty = true;
 
 	while (true) {
 		// Max. possible word length is 4096 - alphabet_size,
@@ -116,7 +119,8 @@ pub void compress(reader.t *r, size_t alphabet_size, writer.t *out) {
 
 		size_t mi = match(enc, p->buf, q);
 		size_t mlen = enc->dict.entries[mi].len;
-		comp_emit(enc, mi);
+		comp_emit(enc, mi, enc->dict.size);
+		empty = false;
 
 		// If we have matched the peek fully, then the peek has reached EOF.
 		if (mlen == q) {
@@ -125,7 +129,7 @@ pub void compress(reader.t *r, size_t alphabet_size, writer.t *out) {
 		if (enc->dict.size == MAX_DICT_LENGTH) {
 			// Write the reset code before resetting the dictionary
 			// to stay at the current code width.
-			comp_emit(enc, enc->dict.resetcode);
+			comp_emit(enc, enc->dict.resetcode, enc->dict.size);
 			resetdict(&enc->dict);
 		}
 		if (enc->dict.size < MAX_DICT_LENGTH) {
@@ -135,11 +139,16 @@ pub void compress(reader.t *r, size_t alphabet_size, writer.t *out) {
 	}
 
 	// Finalizes the compressed stream and frees the compressor.
+	free(p->buf);
 	free(p);
-	comp_emit(enc, enc->dict.endcode);
-	bits.closewriter(enc->bw);
+	// The decoder expects one more entry after the last word.
+	size_t size = enc->dict.size;
+	if (!empty) size++;
+	comp_emit(enc, enc->dict.endcode, size);
+	bool ok = bits.closewriter(enc->bw);
 	freedict(enc->dict);
 	free(enc);
+	return ok;
 }
 
 // Finds the best word match for the input.
@@ -164,8 +173,8 @@ size_t match(enc_t *enc, uint8_t *input, size_t inputlen) {
 	return mi;
 }
 
-void comp_emit(enc_t *enc, uint16_t code) {
-	uint8_t w = codewidth(enc->dict.size);
+void comp_emit(enc_t *enc, uint16_t code, size_t dictsize) {
+	uint8_t w = codewidth(dictsize);
 	writebits(enc->bw, code, w);
 }
 
@@ -196,11 +205,12 @@ size_t peek(peeker_t *p, size_t n) {
 	}
 
 	// Ensure the buffer has n, unless EOF.
-	if (p->datalen < n) {
+	while (p->datalen < n) {
 		int q = reader.read(p->reader, &p->buf[p->datalen], n - p->datalen);
-		if (q != EOF) {
-			p->datalen += (size_t) q;
+		if (q <= 0) {
+			break;
 		}
+		p->datalen += (size_t) q;
 	}
 
 	return p->datalen;
@@ -251,9 +261,13 @@ pub void decodeinto(dec_t *dec, writer.t *out) {
 		if (n == 0) {
 			break;
 		}
-		int r = writer.write(out, buf, (size_t) n);
-		if (r < 0 || r != n) {
-			panic("write failed, r = %d\n", r);
+		int done = 0;
+		while (done < n) {
+			int r = writer.write(out, buf + done, (size_t) (n - done));
+			if (r <= 0) {
+				panic("write failed, r = %d\n", r);
+			}
+			done += r;
 		}
 	}
 }
@@ -308,7 +322,10 @@ pub int decode(dec_t *dec, uint8_t *buf) {
 		// The decoder lags one step behind the encoder:
 		// encoder writes code n while having updated the dict n-1 times,
 		// decoder reads code n while having updated the dict n-2 times.
-		uint8_t w = codewidth(dec->dict.size + 1);
+		// Before the first code both have the same dict.
+		size_t size = dec->dict.size;
+		if (dec->prevlen > 0) size++;
+		uint8_t w = codewidth(size);
 		code = readbits(dec->br, w);
 		if (code == dec->dict.resetcode) {
 			resetdict(&dec->dict);
@@ -331,7 +348,8 @@ pub int decode(dec_t *dec, uint8_t *buf) {
 			// abc | ?xyz
 			// => abc? = ?xyz
 			// => abc | abca
-		if (dec->prevlen == 0) {
+		// Words that are longer than 255 are not used.
+		if (dec->prevlen == 0 || dec->prevlen > 254) {
 				panic("invalid code");
 			}
 		memcpy(dec->curr, dec->prev, dec->prevlen);
@@ -339,6 +357,9 @@ pub int decode(dec_t *dec, uint8_t *buf) {
 		dec->curr[dec->currlen++] = dec->curr[0];
 		} else {
 		word_t *e = &dec->dict.entries[code];
+		if (e->len == 0) {
+			panic("invalid code");
+		}
 		memcpy(dec->curr, e->word, e->len);
 		dec->currlen = e->len;
 		}
-- 
2.43.0


From 85bb03c4c84123dc19be661ced7097b0b62b8a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:57 +0000
Subject: [PATCH 055/100] fix: huffman overflowed on deep trees and crashed on
 empty and one-symbol texts

---
 lib/compress/huffman.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/compress/huffman.c b/lib/compress/huffman.c
index 225734c..01564b1 100644
--- a/lib/compress/huffman.c
+++ b/lib/compress/huffman.c
@@ -125,7 +125,18 @@ pub tree_t *buildtree(const char *s) {
 		list[listlen-2] = sum;
 		listlen--;
 	}
+	if (listlen == 0) {
+		// Nothing to encode.
+		t->root = newnode(t);
+		return t;
+	}
 	t->root = list[0];
+	if (!t->root->left) {
+		// A single value still needs a code.
+		t->root = newnode(t);
+		t->root->left = list[0];
+		t->root->right = list[0];
+	}
 	return t;
 }
 
@@ -174,6 +185,9 @@ pub int read(reader_t *r) {
 		} else {
 			r->curr = r->curr->left;
 		}
+		if (!r->curr) {
+			panic("invalid code");
+		}
 		if (!r->curr->left) {
 			int b = r->curr->val;
 			r->curr = r->root;
@@ -183,7 +197,7 @@ pub int read(reader_t *r) {
 }
 
 pub typedef {
-	uint8_t bits[16];
+	uint8_t bits[256];
 	uint8_t len;
 } bitslice_t;
 
@@ -204,7 +218,7 @@ pub writer_t *newwriter(tree_t *t, writer.t *out) {
 
 void inittable(bitslice_t *table, node_t *n, uint8_t *pref, uint8_t len) {
 	if (n->left) {
-		uint8_t code[16] = {};
+		uint8_t code[256] = {};
 		for (uint8_t i = 0; i < len; i++) {
 			code[i] = pref[i];
 		}
@@ -229,6 +243,10 @@ pub void closewriter(writer_t *w) {
 
 pub bool write(writer_t *w, uint8_t b) {
 	bitslice_t *bs = &w->table[b];
+	if (bs->len == 0) {
+		// There is no code for this byte.
+		return false;
+	}
 	for (uint8_t i = 0; i < bs->len; i++) {
 		if (!bits.write1(w->w, bs->bits[i])) {
 			return false;
-- 
2.43.0


From 20935725a4d92c849782fc38eda24a89c7259b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:57 +0000
Subject: [PATCH 056/100] fix: json lost \u escapes, ignored trailing input,
 overflowed on large numbers; jsonl2csv took any value for an object

---
 lib/formats/json.c         | 101 +++++++++++++++++++++++++++++++++++--
 prog/jsonl2csv/jsonl2csv.c |   3 +-
 2 files changed, 100 insertions(+), 4 deletions(-)

diff --git a/lib/formats/json.c b/lib/formats/json.c
index 0cc92cf..43f866d 100644
--- a/lib/formats/json.c
+++ b/lib/formats/json.c
@@ -232,6 +232,11 @@ pub double numval(val_t *v) {
 pub val_t *parse(const char *s, error.t *err) {
 	tokenizer.t *p = tokenizer.from_str(s);
 	val_t *result = read_node(p, err);
+	if (result && tok_more(p)) {
+		error.set(err, "unexpected character after the value: %c", tok_peek(p));
+		json_free(result);
+		result = NULL;
+	}
 	tokenizer.free(p);
 	return result;
 }
@@ -375,6 +380,25 @@ char *readstr(tokenizer.t *p, error.t *err) {
 	char *s = calloc!(cap, 1);
 	while (tokenizer.more(p) && tokenizer.peek(p) != '"') {
 		int c = tokenizer.get(p);
+		if (c == '\\' && tokenizer.peek(p) == 'u') {
+			char utf[5] = {};
+			if (!readunicode(p, utf, err)) {
+				free(s);
+				return NULL;
+			}
+			for (char *u = utf; *u != '\0'; u++) {
+				if (len + 1 == cap) {
+					cap *= 2;
+					s = realloc(s, cap);
+					if (!s) {
+						panic("realloc failed");
+					}
+				}
+				s[len++] = *u;
+				s[len] = '\0';
+			}
+			continue;
+		}
 		if (c == '\\') {
 			c = tokenizer.get(p);
 			if (c == EOF) {
@@ -407,6 +431,65 @@ char *readstr(tokenizer.t *p, error.t *err) {
 	return s;
 }
 
+// Reads four hexadecimal digits following a "u".
+// Returns -1 if they are not there.
+int readhex4(tokenizer.t *p) {
+	if (tokenizer.get(p) != 'u') return -1;
+	int r = 0;
+	for (int i = 0; i < 4; i++) {
+		int c = tokenizer.get(p);
+		if (c >= '0' && c <= '9') {
+			c -= (int) '0';
+		} else if (c >= 'a' && c <= 'f') {
+			c -= (int) 'a' - 10;
+		} else if (c >= 'A' && c <= 'F') {
+			c -= (int) 'A' - 10;
+		} else {
+			return -1;
+		}
+		r = r * 16 + c;
+	}
+	return r;
+}
+
+// Reads a unicode escape after its backslash and puts the character into
+// utf as a null-terminated UTF-8 string.
+bool readunicode(tokenizer.t *p, char *utf, error.t *err) {
+	int c = readhex4(p);
+	if (c >= 0xD800 && c < 0xDC00) {
+		// The other half of the character has to follow.
+		int low = -1;
+		if (tokenizer.get(p) == '\\') low = readhex4(p);
+		if (low < 0xDC00 || low > 0xDFFF) {
+			c = -1;
+		} else {
+			c = 0x10000 + (c - 0xD800) * 0x400 + (low - 0xDC00);
+		}
+	} else if (c >= 0xDC00 && c <= 0xDFFF) {
+		c = -1;
+	}
+	if (c <= 0) {
+		error.set(err, "invalid unicode escape");
+		return false;
+	}
+	if (c < 0x80) {
+		utf[0] = c;
+	} else if (c < 0x800) {
+		utf[0] = 0xC0 | (c >> 6);
+		utf[1] = 0x80 | (c & 0x3F);
+	} else if (c < 0x10000) {
+		utf[0] = 0xE0 | (c >> 12);
+		utf[1] = 0x80 | ((c >> 6) & 0x3F);
+		utf[2] = 0x80 | (c & 0x3F);
+	} else {
+		utf[0] = 0xF0 | (c >> 18);
+		utf[1] = 0x80 | ((c >> 12) & 0x3F);
+		utf[2] = 0x80 | ((c >> 6) & 0x3F);
+		utf[3] = 0x80 | (c & 0x3F);
+	}
+	return true;
+}
+
 // Returns true if there are more characters to read.
 bool tok_more(tokenizer.t *p) {
 	tokenizer.spaces(p);
@@ -456,8 +539,10 @@ pub void formatwr(writer.t *w, val_t *v) {
 		if (r <= 0) {
 			panic("write failed");
 		}
+		buf += r;
 		n -= (size_t) r;
 	}
+	free(s);
 }
 
 // Returns a string with the value n formatted as json.
@@ -535,6 +620,10 @@ bool writequoted(const char *content, strbuilder.str *s) {
 			ok = ok && strbuilder.adds(s, "\\r");
 			continue;
 		}
+		if (c > 0 && c < ' ') {
+			ok = ok && strbuilder.addf(s, "\\u%04x", c);
+			continue;
+		}
 		if (c == '\\' || c == '\"' || c == '/') {
 			ok = ok && strbuilder.addc(s, '\\');
 		}
@@ -545,12 +634,18 @@ bool writequoted(const char *content, strbuilder.str *s) {
 }
 
 bool writenum(val_t *n, strbuilder.str *s) {
-	char buf[100] = {0};
+	// The largest number has 309 digits.
+	char buf[400] = {0};
 	double v = n->val.num;
 	if (v == round(v)) {
-		sprintf(buf, "%.0f", n->val.num);
+		snprintf(buf, sizeof(buf), "%.0f", v);
 	} else {
-		sprintf(buf, "%f", n->val.num);
+		// As many digits as needed to get the same number back.
+		for (int digits = 15; digits <= 17; digits++) {
+			snprintf(buf, sizeof(buf), "%.*g", digits, v);
+			double back = 0;
+			if (sscanf(buf, "%lf", &back) == 1 && back == v) break;
+		}
 	}
 	return strbuilder.adds(s, buf);
 }
diff --git a/prog/jsonl2csv/jsonl2csv.c b/prog/jsonl2csv/jsonl2csv.c
index cb14816..7f6ba71 100644
--- a/prog/jsonl2csv/jsonl2csv.c
+++ b/prog/jsonl2csv/jsonl2csv.c
@@ -48,9 +48,10 @@ json.val_t *readobj(linereader.t *lr) {
     while (linereader.read(lr)) {
         char *line = linereader.line(lr);
         json.val_t *obj = json.parse(line, &err);
-		if (err.set) {
+		if (err.set || json.type(obj) != json.TOBJ) {
 			fprintf(stderr, "failed to parse line as json: \"%s\"\n", line);
 			err.set = false;
+			json.json_free(obj);
 			continue;
 		}
         return obj;
-- 
2.43.0


From 6b92aa604cfd324b3a8809e711732557caa38cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:57 +0000
Subject: [PATCH 057/100] fix: ISO timestamps with a zone offset or a fraction
 were misread

---
 lib/time.c | 75 ++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 48 insertions(+), 27 deletions(-)

diff --git a/lib/time.c b/lib/time.c
index 3e76389..1b823b6 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -228,43 +228,65 @@ pub iso_t fromunix(int64_t seconds) {
 // Returns the time corresponding to the given ISO string.
 pub iso_t parse_iso(const char *p) {
 	iso_t r = {};
+	if (!read_iso(p, &r)) {
+		panic("not an ISO time: %s", p);
+	}
+	return r;
+}
 
+// Reads the ISO string p into r.
+// Returns false if the string is something else.
+pub bool read_iso(const char *p, iso_t *r) {
 	// 2025-12-08T20:31:06+02:00
 	// 2026-01-16T20:01:17.278Z
 	const char *q = p;
-	q = readint(q, &r.Y);
-	if (*q++ != '-') panic("- expected");
-
-	q = readint(q, &r.M);
-	if (*q++ != '-') panic("- expected");
-
-	q = readint(q, &r.D);
-	if (*q++ != 'T') panic("T expected");
-
-	q = readint(q, &r.h);
-	if (*q++ != ':') panic(": expected");
-
-	q = readint(q, &r.m);
-	if (*q++ != ':') panic(": expected");
-
-	q = readint(q, &r.s);
+	q = isofield(q, &r->Y, '-');
+	q = isofield(q, &r->M, '-');
+	q = isofield(q, &r->D, 'T');
+	q = isofield(q, &r->h, ':');
+	q = isofield(q, &r->m, ':');
+	q = isofield(q, &r->s, '\0');
+	if (!q || r->M < 1 || r->M > 12 || r->D < 1 || r->D > 31 || r->h > 23 || r->m > 59 || r->s > 60) {
+		return false;
+	}
 	if (*q == '.') {
 		q++;
-		q = readint(q, &r.ms);
+		int unit = 100;
+		r->ms = 0;
+		while (isdigit(*q)) {
+			r->ms += unit * ((int) *q - (int) '0');
+			unit /= 10;
+			q++;
+		}
 	}
 
 	// "Z" or "+02:00"
 	if (*q == 'Z') {
 		q++;
-	} else if (*q == '+') {
-		q++;
-		q = readint(q, &r.zh);
-		if (*q++ != ':') panic(": expected");
-		q = readint(q, &r.zm);
+	} else if (*q == '+' || *q == '-') {
+		bool west = *q == '-';
+		q = isofield(q + 1, &r->zh, ':');
+		q = isofield(q, &r->zm, '\0');
+		if (!q) return false;
+		if (west) {
+			r->zh = -r->zh;
+			r->zm = -r->zm;
+		}
 	} else {
-		panic("trailing input");
+		return false;
 	}
-	return r;
+	return *q == '\0';
+}
+
+// Reads an integer followed by the separator, if there is one.
+// Returns NULL if that is not what is there.
+const char *isofield(const char *p, int *r, char sep) {
+	if (!p) return NULL;
+	const char *q = readint(p, r);
+	if (q == p || q - p > 8) return NULL;
+	if (sep == '\0') return q;
+	if (*q != sep) return NULL;
+	return q + 1;
 }
 
 // Returns the unix time corresponding to the given time.
@@ -291,10 +313,9 @@ pub bool fmt_iso_iso(iso_t val, char *buf, size_t bufsize) {
 }
 
 pub void iso_tolocal(iso_t *val) {
-	if (val->zh != 0 || val->zm != 0) {
-		panic("unhandled: non-utc iso");
-	}
 	time_t s = tounix(*val);
+	val->zh = 0;
+	val->zm = 0;
 	tm_t tm = {};
 	OS.localtime_r(&s, &tm);
 	val->Y = tm.tm_year + 1900;
-- 
2.43.0


From 92844eb0cf6ca77e62a5406e73450733396f6c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:57 +0000
Subject: [PATCH 058/100] fix: logfmt died of lines that are not objects, of
 bad timestamps, long keys and long lists, and ignored read and write errors

---
 prog/logfmt/logfmt.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/prog/logfmt/logfmt.c b/prog/logfmt/logfmt.c
index 8409734..a7d1331 100644
--- a/prog/logfmt/logfmt.c
+++ b/prog/logfmt/logfmt.c
@@ -18,16 +18,17 @@ int main(int argc, char **argv) {
     opt.str("x", "comma-separated list of fields to exclude", &exclude_string);
     opt.parse(argc, argv);
 
-    nexclude = strings.split(",", exclude_string, excludefields, sizeof(excludefields));
+    nexclude = strings.split(",", exclude_string, excludefields, nelem(excludefields));
 
     linereader.t *lr = linereader.new(stdin);
 	error.t err = {};
     while (linereader.read(lr)) {
 		char *line = linereader.line(lr);
         json.val_t *entry = json.parse(line, &err);
-		// If line couldn't be parsed as json, print as is.
-		if (err.set) {
+		// If line couldn't be parsed as a json object, print as is.
+		if (err.set || json.type(entry) != json.TOBJ) {
 			err.set = false;
+			json.json_free(entry);
 			printf("%s", line);
             continue;
 		}
@@ -35,6 +36,14 @@ int main(int argc, char **argv) {
         json.json_free(entry);
     }
 	linereader.free(lr);
+	if (ferror(stdin)) {
+		fprintf(stderr, "read failed\n");
+		return 1;
+	}
+	if (fflush(stdout) != 0 || ferror(stdout)) {
+		fprintf(stderr, "write failed\n");
+		return 1;
+	}
     return 0;
 }
 
@@ -107,11 +116,9 @@ void printkv(const char *key, json.val_t *val) {
             if (i > 0) {
                 printf(" ");
             }
-            char keyi[100] = {};
-            strcat(keyi, key);
-            strcat(keyi, ".");
-            strcat(keyi, json.key(val, i));
+            char *keyi = strings.newstr("%s.%s", key, json.key(val, i));
             printkv(keyi, json.val(val, i));
+            free(keyi);
         }
         return;
     }
@@ -178,7 +185,11 @@ bool printtimestring(json.val_t *entry, const char *key) {
     if (s == NULL) {
         return false;
     }
-	time.iso_t t = time.parse_iso(s);
+	time.iso_t t = {};
+	if (!time.read_iso(s, &t)) {
+		printf("%s", s);
+		return true;
+	}
 	time.iso_tolocal(&t);
 	printf("%02d:%02d:%02d.%03d", t.h, t.m, t.s, t.ms);
     return true;
-- 
2.43.0


From c615edf4ecf33a9b2150138aadd20c564ec1ee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:43 +0000
Subject: [PATCH 059/100] fix: bencode reader ran past the end of its data and
 cut numbers to 32 bits

---
 lib/formats/bencode.c        | 43 ++++++++++++++++++++++++------------
 lib/formats/bencode_writer.c |  6 ++---
 prog/bencode/bencode.c       |  6 ++---
 3 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/lib/formats/bencode.c b/lib/formats/bencode.c
index f09f238..e1342d7 100644
--- a/lib/formats/bencode.c
+++ b/lib/formats/bencode.c
@@ -32,6 +32,9 @@ pub void freereader(reader_t *r) {
  */
 pub bool more(reader_t *r) {
     if (r->stacksize > 0) {
+        if (peek(r) == EOF) {
+            panic("unexpected end of data");
+        }
         return peek(r) != 'e';
     }
     return peek(r) != EOF;
@@ -95,9 +98,11 @@ pub size_t key(reader_t *r, uint8_t *buf, size_t len) {
 /**
  * Returns the following string's length.
  */
-pub int strsize(reader_t *r) {
+pub size_t strsize(reader_t *r) {
 	size_t p = r->pos;
-	int n = num(r);
+	int64_t n = num(r);
+	if (n < 0) panic("got negative data length");
+	if ((size_t) n > r->size - r->pos) panic("unexpected end of data");
 	r->pos = p;
 	return n;
 }
@@ -110,21 +115,22 @@ pub size_t readbuf(reader_t *r, uint8_t *buf, size_t bufsize) {
 }
 
 size_t _readbuf(reader_t *r, uint8_t *buf, size_t len) {
-	int n = num(r);
+	int64_t n = num(r);
 	if (n < 0) panic("got negative data length");
+	if ((size_t) n > r->size - r->pos) panic("unexpected end of data");
 	size_t nz = (size_t) n;
-	if (buf != NULL && nz > len) panic("buffer too small (need %d)", n);
+	if (buf != NULL && nz > len) panic("buffer too small (need %zu)", nz);
 
 	consume(r, ':');
 
 	// Write the data to the buffer.
 	if (buf) {
 		memset(buf, 0, len);
-		for (int i = 0; i < n; i++) {
+		for (size_t i = 0; i < nz; i++) {
 			buf[i] = pop(r);
 		}
 	} else {
-		for (int i = 0; i < n; i++) {
+		for (size_t i = 0; i < nz; i++) {
 			pop(r);
 		}
 	}
@@ -134,9 +140,9 @@ size_t _readbuf(reader_t *r, uint8_t *buf, size_t len) {
 /**
  * Reads the number that follows.
  */
-pub int readnum(reader_t *r) {
+pub int64_t readnum(reader_t *r) {
 	consume(r, 'i');
-	int n = num(r);
+	int64_t n = num(r);
 	consume(r, 'e');
 	return n;
 }
@@ -162,9 +168,9 @@ pub bool skip(reader_t *r) {
         }
         default: {
 			// string
-			int n = num(r);
+			int64_t n = num(r);
 			consume(r, ':');
-			for (int i = 0; i < n; i++) {
+			for (int64_t i = 0; i < n; i++) {
 				pop(r);
 			}
         }
@@ -177,6 +183,9 @@ pub bool skip(reader_t *r) {
 // }
 
 void consume(reader_t *r, char c) {
+    if (r->pos >= r->size) {
+        panic("wanted %c, got end of data", c);
+    }
     if (r->data[r->pos] != c) {
         panic("wanted %c, got %c", c, r->data[r->pos]);
     }
@@ -184,15 +193,15 @@ void consume(reader_t *r, char c) {
 }
 
 
-char peek(reader_t *r) {
+int peek(reader_t *r) {
     if (r->pos >= r->size) {
         return EOF;
     }
-    return r->data[r->pos];
+    return (uint8_t) r->data[r->pos];
 }
 
-int num(reader_t *r) {
-    int n = 0;
+int64_t num(reader_t *r) {
+    int64_t n = 0;
     bool neg = false;
     if (peek(r) == '-') {
         neg = true;
@@ -202,6 +211,9 @@ int num(reader_t *r) {
         panic("expected a digit, got %c (%x)", peek(r), peek(r));
     }
     while (isdigit(peek(r))) {
+        if (n > 100000000000000000) {
+            panic("number is too big");
+        }
         n *= 10;
 		n += strings.num_from_ascii(pop(r));
     }
@@ -212,5 +224,8 @@ int num(reader_t *r) {
 }
 
 char pop(reader_t *r) {
+    if (r->pos >= r->size) {
+        panic("unexpected end of data");
+    }
     return r->data[r->pos++];
 }
diff --git a/lib/formats/bencode_writer.c b/lib/formats/bencode_writer.c
index 6f50384..27eda90 100644
--- a/lib/formats/bencode_writer.c
+++ b/lib/formats/bencode_writer.c
@@ -75,7 +75,7 @@ pub size_t pos(t *w) {
 	return w->pos;
 }
 
-pub bool num(t *w, int n) {
+pub bool num(t *w, int64_t n) {
 	return byte(w, 'i')
 		&& _writenum(w, n)
 		&& byte(w, 'e');
@@ -90,7 +90,7 @@ pub bool buf(t *w, const uint8_t *buff, size_t len) {
 	return true;
 }
 
-bool _writenum(t *w, int n) {
+bool _writenum(t *w, int64_t n) {
 	// Write "-" if the number is negative.
 	if (n < 0) {
 		if (!byte(w, '-')) return false;
@@ -107,7 +107,7 @@ bool _writenum(t *w, int n) {
 	// Write each digit from the biggest magnitude to the smallest.
 	while (m > 0) {
 		int digit = N / m;
-		N = n % m;
+		N = N % m;
 		m /= 10;
 		if (!byte(w, strings.ascii_digit(digit))) return false;
 	}
diff --git a/prog/bencode/bencode.c b/prog/bencode/bencode.c
index e2b658c..65cf53a 100644
--- a/prog/bencode/bencode.c
+++ b/prog/bencode/bencode.c
@@ -69,13 +69,13 @@ void printval(bencode.reader_t *r) {
             printf("}");
         }
         case 'i': {
-            printf("%d", bencode.readnum(r));
+            printf("%d", (int) bencode.readnum(r));
         }
         case 's': {
-            int len = bencode.strsize(r);
+            size_t len = bencode.strsize(r);
             uint8_t *buf = calloc!(len+1, 1);
             bencode.readbuf(r, buf, len+1);
-            printbuf(buf, (size_t) len);
+            printbuf(buf, len);
             free(buf);
         }
         case 'l': {
-- 
2.43.0


From 67d90dbcc5372ad98ffb6c6a6b297bcc8a244e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:43 +0000
Subject: [PATCH 060/100] fix: torrent files were written without checking
 errors and read without checking bounds; 32-bit sizes and dates

---
 lib/formats/torrent.c     | 66 ++++++++++++++++++++++-----------------
 prog/torrent/cmd_create.c | 11 +++++--
 2 files changed, 46 insertions(+), 31 deletions(-)

diff --git a/lib/formats/torrent.c b/lib/formats/torrent.c
index 7c146da..b849add 100644
--- a/lib/formats/torrent.c
+++ b/lib/formats/torrent.c
@@ -13,7 +13,7 @@ pub typedef {
 pub typedef {
 	char announce[200]; // Tracker URL.
 	char created_by[200]; // Free text.
-	int creation_date; // Creation date, UNIX seconds.
+	int64_t creation_date; // Creation date, UNIX seconds.
 	char comment[200]; // Free text.
 
 	// ------------ info section -------------
@@ -28,6 +28,7 @@ pub typedef {
 	// In multi-file variant the pieces are formed by concatenating the files
 	// in the listing order.
 	uint8_t *pieces;
+	size_t pieces_size; // Size of the concatenation in bytes.
 
 	
 	size_t length; // Size of the file in bytes in single-file variant, 0 in multi-file variant.
@@ -107,13 +108,13 @@ pub info_t *parse(const char *data, size_t size) {
 	bencode.reader_t *r = bencode.newreader(data, size);
 	bencode.enter(r);
 	while (bencode.more(r)) {
-		bencode.key(r, buf, sizeof(buf));
+		bencode.key(r, buf, sizeof(buf) - 1);
 		char *k = (char *)buf;
 		switch str (k) {
-			case "announce": { bencode.readbuf(r, (uint8_t *) tf->announce, sizeof(tf->announce)); }
+			case "announce": { bencode.readbuf(r, (uint8_t *) tf->announce, sizeof(tf->announce) - 1); }
 			case "creation date": { tf->creation_date = bencode.readnum(r); }
-			case "created by": { bencode.readbuf(r, (uint8_t *) tf->created_by, sizeof(tf->created_by)); }
-			case "comment": { bencode.readbuf(r, (uint8_t *) tf->comment, sizeof(tf->comment)); }
+			case "created by": { bencode.readbuf(r, (uint8_t *) tf->created_by, sizeof(tf->created_by) - 1); }
+			case "comment": { bencode.readbuf(r, (uint8_t *) tf->comment, sizeof(tf->comment) - 1); }
 			case "announce-list": { bencode.skip(r); }
 			case "info": {
 				info_begin = bencode.pos(r);
@@ -129,6 +130,12 @@ pub info_t *parse(const char *data, size_t size) {
 	}
 	bencode.leave(r);
 	bencode.freereader(r);
+	if (tf->piece_length == 0) {
+		panic("no piece length");
+	}
+	if (npieces(tf) > tf->pieces_size / 20) {
+		panic("piece hashes are missing");
+	}
 
 	sha1.digest_t hash = {};
 	for (size_t i = info_begin; i < info_end; i++) {
@@ -144,17 +151,19 @@ void parse_info(bencode.reader_t *r, info_t *tf) {
 	bencode.enter(r);
 	uint8_t buf[1000] = {};
 	while (bencode.more(r)) {
-		bencode.key(r, buf, sizeof(buf));
+		bencode.key(r, buf, sizeof(buf) - 1);
 		char *k = (char *) buf;
 		if (strcmp(k, "name") == 0) {
-			bencode.readbuf(r, (uint8_t *) tf->name, sizeof(tf->name));
+			bencode.readbuf(r, (uint8_t *) tf->name, sizeof(tf->name) - 1);
 		} else if (strcmp(k, "piece length") == 0) {
 			tf->piece_length = bencode.readnum(r);
 		} else if (strcmp(k, "length") == 0) {
 			tf->length = bencode.readnum(r);
 		} else if (strcmp(k, "pieces") == 0) {
 			size_t n = bencode.strsize(r);
-			tf->pieces = calloc!(n, 1);
+			OS.free(tf->pieces);
+			tf->pieces = calloc!(n + 1, 1);
+			tf->pieces_size = n;
 			bencode.readbuf(r, tf->pieces, n);
 		} else if (strcmp(k, "files") == 0) {
 			bencode.enter(r);
@@ -180,7 +189,7 @@ void parse_file(bencode.reader_t *r, info_t *tf) {
 
 	bencode.enter(r);
 	while (bencode.more(r)) {
-		bencode.key(r, buf, sizeof(buf));
+		bencode.key(r, buf, sizeof(buf) - 1);
 		if (strcmp(k, "path") == 0) {
 			readpath(r, f->path, sizeof(f->path));
 		} else if (strcmp(k, "length") == 0) {
@@ -200,14 +209,14 @@ void readpath(bencode.reader_t *r, char *buf, size_t bufsize) {
 	bencode.enter(r);
 	bool first = true;
 	while (bencode.more(r)) {
-		bencode.readbuf(r, (uint8_t *)tmp, sizeof(tmp));
+		bencode.readbuf(r, (uint8_t *)tmp, sizeof(tmp) - 1);
 		if (first) {
-			if (strlen(buf) + strlen(tmp) > bufsize) {
+			if (strlen(buf) + strlen(tmp) >= bufsize) {
 				panic("buffer too small for the path");
 			}
 			strcat(buf, tmp);
 		} else {
-			if (strlen(buf) + strlen(tmp) + 1 > bufsize) {
+			if (strlen(buf) + strlen(tmp) + 1 >= bufsize) {
 				panic("buffer too small for the path");
 			}
 			strcat(buf, "/");
@@ -240,22 +249,23 @@ pub bool writefile(FILE *f, info_t *info) {
 	bencode_writer.t *w = bencode_writer.tofile(f);
 	if (!w) return false;
 
-	bencode_writer.begin(w, 'd');
-	writestr(w, "announce"); writestr(w, info->announce);
-	writestr(w, "comment"); writestr(w, info->comment);
-	writestr(w, "created by"); writestr(w, info->created_by);
-	writestr(w, "creation date"); bencode_writer.num(w, info->creation_date);
-	writestr(w, "info");
-	bencode_writer.begin(w, 'd');
-	writestr(w, "length"); bencode_writer.num(w, info->length);
-	writestr(w, "name"); writestr(w, info->name);
-	writestr(w, "piece length"); bencode_writer.num(w, info->piece_length);
-	writestr(w, "pieces"); bencode_writer.buf(w, info->pieces, npieces * 20);
-	bencode_writer.end(w);
-	bencode_writer.end(w);
-	return true;
+	bool ok = bencode_writer.begin(w, 'd')
+		&& writestr(w, "announce") && writestr(w, info->announce)
+		&& writestr(w, "comment") && writestr(w, info->comment)
+		&& writestr(w, "created by") && writestr(w, info->created_by)
+		&& writestr(w, "creation date") && bencode_writer.num(w, info->creation_date)
+		&& writestr(w, "info")
+		&& bencode_writer.begin(w, 'd')
+		&& writestr(w, "length") && bencode_writer.num(w, info->length)
+		&& writestr(w, "name") && writestr(w, info->name)
+		&& writestr(w, "piece length") && bencode_writer.num(w, info->piece_length)
+		&& writestr(w, "pieces") && bencode_writer.buf(w, info->pieces, npieces * 20)
+		&& bencode_writer.end(w)
+		&& bencode_writer.end(w);
+	bencode_writer.free(w);
+	return ok;
 }
 
-void writestr(bencode_writer.t *w, const char *s) {
-	bencode_writer.buf(w, (uint8_t *) s, strlen(s));
+bool writestr(bencode_writer.t *w, const char *s) {
+	return bencode_writer.buf(w, (uint8_t *) s, strlen(s));
 }
diff --git a/prog/torrent/cmd_create.c b/prog/torrent/cmd_create.c
index 91ed67b..9eeaed5 100644
--- a/prog/torrent/cmd_create.c
+++ b/prog/torrent/cmd_create.c
@@ -37,6 +37,10 @@ torrent.info_t *newtorrent() {
 
 bool addfile(torrent.info_t *info, const char *filepath) {
     const char *filename = fs.basename(filepath);
+    if (strlen(filename) >= sizeof(info->name)) {
+        fprintf(stderr, "the name is too long: %s\n", filename);
+        return false;
+    }
     strcpy(info->name, filename);
 
     FILE *f = fopen(filepath, "rb");
@@ -60,12 +64,13 @@ bool addfile(torrent.info_t *info, const char *filepath) {
     if (piecelen > 0) {
         addpiece(info, piece, piecelen, npieces++);
     }
+    bool ok = !ferror(f);
     fclose(f);
-    return true;
+    return ok;
 }
 
 void addpiece(torrent.info_t *info, uint8_t *piece, size_t piecelen, size_t i) {
-    info->pieces = realloc(info->pieces, info->piece_length * (i+1));
+    info->pieces = realloc(info->pieces, 20 * (i+1));
     if (!info->pieces) {
         panic("realloc failed");
     }
@@ -89,6 +94,6 @@ bool writetorrent(torrent.info_t *info, const char *outpath) {
     FILE *f = fopen(outpath, "wb");
     if (!f) return false;
     bool ok = torrent.writefile(f, info);
-    fclose(f);
+    if (fclose(f) != 0) return false;
     return ok;
 }
-- 
2.43.0


From e9b4ed3d2639f4564f519139aaed9a6e6dea739d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:07 +0000
Subject: [PATCH 061/100] fix: long, three-part and unfinished durations are
 parsed right or refused

---
 lib/time.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/time.c b/lib/time.c
index 1b823b6..22c1ba0 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -156,7 +156,8 @@ pub bool parse_duration(const char *s, duration_t *d, error.t *err) {
 
 	int64_t us = 0;
 	switch (numslen) {
-		case 2: { us = (nums[0] * 60 + nums[1]) * SECONDS; }
+		case 2: { us = ((int64_t) nums[0] * 60 + nums[1]) * SECONDS; }
+		case 3: { us = ((int64_t) nums[0] * 3600 + (int64_t) nums[1] * 60 + nums[2]) * SECONDS; }
 		default: {
 			error.set(err, "unhandled format: %s", s);
 			return false;
@@ -184,6 +185,10 @@ pub bool parse_duration(const char *s, duration_t *d, error.t *err) {
 		int64_t diff = (double)SECONDS * ((double)val / (double)fracsize);
 		us += diff;
 	}
+	if (*p != '\0') {
+		error.set(err, "unexpected text after the duration: %s", s);
+		return false;
+	}
 
     d->us = us;
 	return true;
@@ -191,7 +196,7 @@ pub bool parse_duration(const char *s, duration_t *d, error.t *err) {
 
 const char *readint(const char *p, int *r) {
     int n = 0;
-    while (isdigit(*p)) {
+    while (isdigit(*p) && n < 100000000) {
         n *= 10;
         n += (int) *p - (int) '0';
         p++;
-- 
2.43.0


From 0325974c8e9a0f0af96bb6be3b79b1031dbf446f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:07 +0000
Subject: [PATCH 062/100] fix: cue positions are in 1/75 s; overlong cue sheets
 do not overflow

---
 lib/formats/cue.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/lib/formats/cue.c b/lib/formats/cue.c
index c26fcee..8cbb406 100644
--- a/lib/formats/cue.c
+++ b/lib/formats/cue.c
@@ -119,12 +119,14 @@ bool readentry(tokenizer.t *b, entry_t *e) {
 		return false;
 	}
 	tokenizer.hspaces(b);
-	tokenizer.read_until(b, ' ', e->type, sizeof(e->type));
+	if (!tokenizer.read_until(b, ' ', e->type, sizeof(e->type))) {
+		panic("entry type is too long");
+	}
 	tokenizer.hspaces(b);
 
 	switch str (e->type) {
 		case "REM": {
-			tokenizer.read_until(b, '\n', e->data.rem, sizeof(e->data.rem));
+			skipline(b);
 		}
 		case "PERFORMER": {
 			title(b, e->data.performer, sizeof(e->data.performer));
@@ -135,7 +137,7 @@ bool readentry(tokenizer.t *b, entry_t *e) {
 		case "TRACK": {
 			e->data.track.n = num(b);
 			tokenizer.hspaces(b);
-			tokenizer.read_until(b, '\n', e->data.track.kind, sizeof(e->data.track.kind));
+			skipline(b);
 		}
 		case "INDEX": {
 			index(b, &e->data.index);
@@ -143,7 +145,7 @@ bool readentry(tokenizer.t *b, entry_t *e) {
 		case "FILE": {
 			title(b, e->data.file.path, sizeof(e->data.file.path));
 			tokenizer.hspaces(b);
-			tokenizer.read_until(b, '\n', e->data.file.kind, sizeof(e->data.file.kind));
+			skipline(b);
 		}
 		default: {
 			panic("unknown entry type: %s", e->type);
@@ -158,6 +160,13 @@ bool readentry(tokenizer.t *b, entry_t *e) {
 	return true;
 }
 
+// Skips the rest of the line.
+void skipline(tokenizer.t *b) {
+	while (tokenizer.more(b) && tokenizer.peek(b) != '\n') {
+		tokenizer.get(b);
+	}
+}
+
 // Reads a number.
 int num(tokenizer.t *b) {
 	int n = 0;
@@ -193,6 +202,9 @@ void index(tokenizer.t *b, index_t *r) {
 	int i = 0;
 	while (tokenizer.more(b)) {
 		int ch = tokenizer.get(b);
+		if (i == 299) {
+			panic("index is too long");
+		}
 		val[i++] = ch;
 		if(ch == '\n') break;
 	}
@@ -211,9 +223,10 @@ void index(tokenizer.t *b, index_t *r) {
 }
 
 time.duration_t index_pos(index_t *r) {
-	int sec = (r->frames / 75) + (r->sec ) + (60 * r->min);
+	// A second has 75 frames.
+	int64_t frames = ((int64_t) r->min * 60 + r->sec) * 75 + r->frames;
 	time.duration_t p = {};
-	time.dur_set(&p, sec, time.SECONDS);
+	time.dur_set(&p, frames * 1000000 / 75, time.US);
 	return p;
 }
 
-- 
2.43.0


From f6bbae36f7fbb8354a2593fed3f47105f47edc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:07 +0000
Subject: [PATCH 063/100] fix: mp3 reader finds frames at any offset, keeps the
 end of the file apart from errors and mono info frames in place

---
 lib/formats/mp3.c | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/lib/formats/mp3.c b/lib/formats/mp3.c
index eb08de0..e5456f3 100644
--- a/lib/formats/mp3.c
+++ b/lib/formats/mp3.c
@@ -36,6 +36,9 @@ pub typedef {
 	size_t framelen; // Length of the loaded frame in bytes, including the header.
 	uint8_t frame[1100]; // The loaded frame with the header.
 
+	bool end; // No frame is loaded, the input has ended.
+
+	size_t xingpos; // Offset of the xing header in the info frame.
 	size_t infoframelen;
 	uint8_t infoframe[1100];
 } reader_t;
@@ -65,21 +68,30 @@ pub reader_t *open_reader(const char *path, err_t *err) {
 	m->file = f;
 
 	// Sync: find the first frame.
+	bool found = false;
+	int64_t pos = 0;
 	while (fpeek(m->file) != EOF) {
 		if (readframe(m)) {
+			found = true;
+			break;
+		}
+		// Try again from the next byte.
+		pos++;
+		if (ferror(m->file) || fseek(m->file, pos, SEEK_SET) != 0) {
 			break;
 		}
 	}
 	// Skip the first frame if it's an info frame.
-	if (info_frame(m)) {
+	if (found && info_frame(m)) {
 		m->time = 0;
 		m->infoframelen = m->framelen;
 		memcpy(m->infoframe, m->frame, m->framelen);
-		readframe(m);
+		found = readframe(m);
 	}
 
-	if (feof(m->file)) {
+	if (!found) {
 		seterr(err, "format not recognized");
+		fclose(m->file);
 		OS.free(m);
 		return NULL;
 	}
@@ -98,8 +110,12 @@ bool info_frame(reader_t *r) {
 		sideinfo_size = 17;
 	}
 
-	uint8_t *p = r->frame + 4 + sideinfo_size;
-	reader.t *br = reader.static_buffer(p, 123123);
+	size_t pos = 4 + sideinfo_size;
+	// There must be room for everything that write_xing writes.
+	if (r->framelen < pos + 116) {
+		return false;
+	}
+	reader.t *br = reader.static_buffer(r->frame + pos, r->framelen - pos);
 
 	xing_header_t xing = {};
 	bool ok = read_xing(br, &xing);
@@ -111,6 +127,9 @@ bool info_frame(reader_t *r) {
 	// 	printf("Quality: %u\n", xing.quality);
 	// }
 	reader.free(br);
+	if (ok) {
+		r->xingpos = pos;
+	}
 	return ok;
 }
 
@@ -131,6 +150,7 @@ pub bool nextframe(reader_t *f) {
 		if (!feof(f->file)) {
 			panic("stream error");
 		}
+		f->end = true;
 		return false;
 	}
 	return true;
@@ -221,6 +241,9 @@ bool readheader(bits.reader_t *s, header_t *h) {
 
 	// 4 bits: bitrate
 	int index = bits.readn(s, 4);
+	if (index <= 0 || (size_t) index >= nelem(bitrates)) {
+		return false;
+	}
 	h->bitrate = bitrates[index];
 
 	// 2: freq
-- 
2.43.0


From 4091f806bc10755a85125561130e6bce6e7b88ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:07 +0000
Subject: [PATCH 064/100] fix: mp3cuespl loses or repeats no frame, reports
 write errors and ends with proper status

---
 prog/mp3cuespl/mp3cuespl.c | 39 ++++++++++++++++++++++++++++++--------
 prog/mp3cuespl/tracklist.c | 12 ++++++++++++
 2 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/prog/mp3cuespl/mp3cuespl.c b/prog/mp3cuespl/mp3cuespl.c
index 03272ef..7894627 100644
--- a/prog/mp3cuespl/mp3cuespl.c
+++ b/prog/mp3cuespl/mp3cuespl.c
@@ -30,6 +30,11 @@ int main(int argc, char *argv[]) {
 		return 1;
 	}
 
+	if (n == 0) {
+		fprintf(stderr, "there are no tracks in %s\n", cuepath);
+		return 1;
+	}
+
 	//
 	// Load the mp3
 	//
@@ -43,10 +48,13 @@ int main(int argc, char *argv[]) {
 	//
 	// Split
 	//
-	cuespl(tracks, n, m);
+	bool ok = cuespl(tracks, n, m);
 
 	free(tracks);
 	mp3.close_reader(m);
+	if (!ok || fflush(stdout) != 0 || ferror(stdout)) {
+		return 1;
+	}
 	return 0;
 }
 
@@ -101,18 +109,26 @@ track_t *loadtxt(const char *path, int *ret_n) {
 
 char fname[1000] = {};
 
-void cuespl(track_t *tracks, int n, mp3.reader_t *m) {
+bool cuespl(track_t *tracks, int n, mp3.reader_t *m) {
 	for (int i = 0; i < n; i++) {
 		size_t pos_us = SIZE_MAX;
 		if (i+1 < n) {
 			pos_us = tracks[i+1].pos_us;
 		}
+		if (m->end) {
+			fprintf(stderr, "the file ends before track %d\n", i+1);
+			return false;
+		}
 		fmtname(fname, sizeof(fname), i, tracks[i].title);
-		write_track(m, fname, pos_us);
+		if (!write_track(m, fname, pos_us)) {
+			fprintf(stderr, "failed to write %s: %s\n", fname, strerror(errno));
+			return false;
+		}
 	}
+	return true;
 }
 
-void write_track(mp3.reader_t *m, const char *fname, size_t pos_us) {
+bool write_track(mp3.reader_t *m, const char *fname, size_t pos_us) {
 	FILE *out = fopen(fname, "wb");
 	if (!out) {
 		panic("Couldn't create %s", fname);
@@ -141,7 +157,7 @@ void write_track(mp3.reader_t *m, const char *fname, size_t pos_us) {
 	// in an array.
 	vec.t *frame_offsets = vec.new(sizeof(uint32_t));
 
-	while (m->time < pos_us) {
+	while (!m->end && m->time < pos_us) {
 		vec.push(frame_offsets, &bytes);
 		mp3.write_frame(m, out);
 		frames++;
@@ -157,11 +173,14 @@ void write_track(mp3.reader_t *m, const char *fname, size_t pos_us) {
 		uint8_t toc[100] = {};
 		for (size_t i = 0; i < 100; i++) {
 			size_t s = n * i / 100;
+			if (n == 0) break;
 			uint32_t *off = vec.index(frame_offsets, s);
-			toc[i] = *off * 255 / bytes;
+			toc[i] = (uint64_t) *off * 255 / bytes;
 		}
 		writer.t *w = writer.file(out);
-		fseek(out, 4 + 32, SEEK_SET);
+		if (fseek(out, m->xingpos, SEEK_SET) != 0) {
+			panic("seek failed");
+		}
 		mp3.write_xing(w, frames, bytes, toc);
 		writer.free(w);
 	}
@@ -175,7 +194,11 @@ void write_track(mp3.reader_t *m, const char *fname, size_t pos_us) {
 
 	printf("%8u frames (%s)\t%u bytes\t%s\n", frames, buf, bytes, fname);
 
-	fclose(out);
+	bool ok = !ferror(out);
+	if (fclose(out) != 0) {
+		return false;
+	}
+	return ok;
 }
 
 void fmtname(char *buf, size_t bufsize, int i, const char *title) {
diff --git a/prog/mp3cuespl/tracklist.c b/prog/mp3cuespl/tracklist.c
index a1b8573..10a6a5b 100644
--- a/prog/mp3cuespl/tracklist.c
+++ b/prog/mp3cuespl/tracklist.c
@@ -30,9 +30,15 @@ pub entry_t *readfile(const char *path, int *ret_n) {
 		if (line[0] == '\0') {
 			continue;
 		}
+		if (i == 100) {
+			panic("too many tracks");
+		}
 		entry_t *e = &list[i++];
 		parseline(line, e);
 	}
+	if (ferror(f)) {
+		panic("failed to read %s", path);
+	}
 	fclose(f);
 	*ret_n = i;
 	return list;
@@ -53,6 +59,9 @@ void parseline(char *line, entry_t *e) {
 	if (!time.parse_duration(&line[i], &d, &err)) {
 		panic("failed to parse duration: %s", err.msg);
 	}
+	if (i == 0) {
+		panic("expected a track: %s", line);
+	}
 	line[i-1] = '\0';
 	strings.trim(line);
 
@@ -81,6 +90,9 @@ void parseline(char *line, entry_t *e) {
 	//
 	// Copy to the entry
 	//
+	if (strlen(&line[i]) >= sizeof(e->title)) {
+		panic("track title too long");
+	}
 	e->num = num;
 	strcpy(e->title, &line[i]);
 	e->duration_us = time.dur_us(&d);
-- 
2.43.0


From e0dae0ec71528df5fb0127802308cd4c6176b481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:07 +0000
Subject: [PATCH 065/100] fix: net_printf reports write errors

---
 lib/os/net.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/os/net.c b/lib/os/net.c
index df74d65..149ae68 100644
--- a/lib/os/net.c
+++ b/lib/os/net.c
@@ -307,9 +307,9 @@ int net_puts(const char *s, net_t *c) {
 
 /*
  * Writes a formatted string to the connection.
- * Behaves like fprintf.
+ * Returns false if writing has failed.
  */
-pub void net_printf(net_t *c, const char *fmt, ...) {
+pub bool net_printf(net_t *c, const char *fmt, ...) {
 	va_list args = {0};
 	va_start(args, fmt);
 	int len = vsnprintf(NULL, 0, fmt, args);
@@ -320,8 +320,9 @@ pub void net_printf(net_t *c, const char *fmt, ...) {
 	len = vsnprintf(buf, len+1, fmt, args);
 	va_end(args);
 
-	net_puts(buf, c);
+	bool ok = net_puts(buf, c) != EOF;
 	free(buf);
+	return ok;
 }
 
 // Returns a reader interface for the given connection.
-- 
2.43.0


From 9ddf950d2bf2e6f9996eab62aaf0cfbceb848854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:07 +0000
Subject: [PATCH 066/100] fix: post checks every reply, escapes dots, refuses
 line breaks in arguments and reports failures

---
 prog/post/post.c | 114 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 82 insertions(+), 32 deletions(-)

diff --git a/prog/post/post.c b/prog/post/post.c
index d0532c8..849fa35 100644
--- a/prog/post/post.c
+++ b/prog/post/post.c
@@ -1,3 +1,4 @@
+#import linereader
 #import os/net
 #import opt
 
@@ -13,52 +14,79 @@ int main(int argc, char **argv) {
 	const char *from = *argv++;
 	const char *to = *argv++;
 
+	if (multiline(from) || multiline(to) || multiline(subj)) {
+		fprintf(stderr, "addresses and subject must not have line breaks\n");
+		exit(1);
+	}
+
 	net.net_t *n = net.connect("tcp", addr);
 	if (!n) {
 		fprintf(stderr, "connect to '%s' failed: %s\n", addr, strerror(errno));
 		exit(1);
 	}
-	sendm(n, from, to, subj);
+	bool ok = sendm(n, from, to, subj);
 	net.close(n);
+	if (!ok) return 1;
 	return 0;
 }
 
-int sendm(net.net_t *n, const char *from, const char *to, const char *subj)
+bool multiline(const char *s) {
+	return strchr(s, '\r') || strchr(s, '\n');
+}
+
+// Sends the mail. Returns true if the server has accepted it.
+bool sendm(net.net_t *n, const char *from, const char *to, const char *subj)
 {
 	expect(n, 220);
+	if(senderror()) return false;
 
-	net.net_printf(n, "HELO %s\r\n", "sofa");
+	check(net.net_printf(n, "HELO %s\r\n", "sofa"));
 	expect(n, 250);
-	if(senderror()) return 0;
+	if(senderror()) return false;
 
-	net.net_printf(n, "MAIL FROM:<%s>\r\n", from);
+	check(net.net_printf(n, "MAIL FROM:<%s>\r\n", from));
 	expect(n, 250);
-	if(senderror()) return 0;
+	if(senderror()) return false;
 
-	net.net_printf(n, "RCPT TO:<%s>\r\n", to);
+	check(net.net_printf(n, "RCPT TO:<%s>\r\n", to));
 	expect(n, 250);
-	if(senderror()) return 0;
+	if(senderror()) return false;
 
-	net.net_printf(n, "DATA\r\n");
+	check(net.net_printf(n, "DATA\r\n"));
 	expect(n, 354);
-	if(senderror()) return 0;
-
-	net.net_printf(n, "Subject: %s\r\n", subj);
-	net.net_printf(n, "From: <%s>\r\n", from);
-	net.net_printf(n, "To: <%s>\r\n", to);
-	net.net_printf(n, "\r\n");
-
-	char buf[4096] = {};
-	while (fgets(buf, 4096, stdin)) {
-		net.net_printf(n, "%s", buf);
+	if(senderror()) return false;
+
+	check(net.net_printf(n, "Subject: %s\r\n", subj));
+	check(net.net_printf(n, "From: <%s>\r\n", from));
+	check(net.net_printf(n, "To: <%s>\r\n", to));
+	check(net.net_printf(n, "\r\n"));
+
+	linereader.t *lr = linereader.new(stdin);
+	while (!senderror() && linereader.read(lr)) {
+		char *line = linereader.line(lr);
+		size_t len = strlen(line);
+		if (len > 0 && line[len-1] == '\n') line[--len] = '\0';
+		if (len > 0 && line[len-1] == '\r') line[--len] = '\0';
+		// A line with a single dot would end the mail.
+		if (line[0] == '.') {
+			check(net.net_printf(n, "."));
+		}
+		check(net.net_printf(n, "%s\r\n", line));
+	}
+	linereader.free(lr);
+	if (ferror(stdin)) {
+		fprintf(stderr, "read error: %s\n", strerror(errno));
+		return false;
 	}
-	net.net_printf(n, ".\r\n");
+	check(net.net_printf(n, ".\r\n"));
 	expect(n, 250);
+	if(senderror()) return false;
 
-	net.net_printf(n, "QUIT\r\n");
-	expect(n, 221);
-
-	return !senderror();
+	// The mail is accepted, whatever happens next.
+	if (net.net_printf(n, "QUIT\r\n")) {
+		expect(n, 221);
+	}
+	return true;
 }
 
 int _error = 0;
@@ -67,17 +95,39 @@ int senderror() {
 	return _error;
 }
 
+void check(bool ok) {
+	if (ok || _error) return;
+	fprintf(stderr, "net.write error: %s\n", strerror(errno));
+	_error = 1;
+}
+
+// Reads a reply, which may have several lines.
 void expect(net.net_t *n, int code) {
-	(void) code;
 	if (_error) return;
 
-	char buf[256] = {};
-	int len = net.read(n, buf, 255);
-	if (len < 0) {
-		fprintf(stderr, "net.read error: %s\n", strerror(errno));
-		_error = 1;
+	while (true) {
+		char line[1000] = {};
+		size_t len = 0;
+		while (true) {
+			char c = 0;
+			int r = net.read(n, &c, 1);
+			if (r <= 0) {
+				fprintf(stderr, "net.read error: %s\n", strerror(errno));
+				_error = 1;
+				return;
+			}
+			if (c == '\n') break;
+			if (c != '\r' && len < sizeof(line) - 1) line[len++] = c;
+		}
+		printf("response: %s\n", line);
+		// "250-text" is followed by more lines.
+		if (len > 3 && line[3] == '-') continue;
+
+		int got = 0;
+		if (sscanf(line, "%d", &got) != 1 || got != code) {
+			fprintf(stderr, "unexpected response: %s\n", line);
+			_error = 1;
+		}
 		return;
 	}
-	buf[len] = 0;
-	printf("response: %s\n", buf);
 }
-- 
2.43.0


From 868ee98071dd9bf555414941c85284f7bf85462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:07 +0000
Subject: [PATCH 067/100] fix: json.clone copies null values

---
 lib/formats/json.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/formats/json.c b/lib/formats/json.c
index 43f866d..14c1695 100644
--- a/lib/formats/json.c
+++ b/lib/formats/json.c
@@ -92,6 +92,7 @@ pub val_t *clone(val_t *obj) {
 		case TBOOL: {
 			copy->val.boolval = obj->val.boolval;
 		}
+		case TNULL: {}
 		default: {
 			panic("json.clone: forgot case %d", obj->type);
 		}
-- 
2.43.0


From 644f4ffb028097fc173a225fc8a7a03da141b2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:07 +0000
Subject: [PATCH 068/100] fix: multicut takes lines of any length and reports
 failures

---
 prog/multicut/multicut.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/prog/multicut/multicut.c b/prog/multicut/multicut.c
index 9518caa..02c9467 100644
--- a/prog/multicut/multicut.c
+++ b/prog/multicut/multicut.c
@@ -1,3 +1,4 @@
+#import linereader
 
 #define MAXCOLS 100
 #define MAXSEL 10
@@ -13,19 +14,22 @@ int main(int argc, char *argv[]) {
             fprintf(stderr, "too many requested cols, max is %d\n", MAXSEL);
             return 1;
         }
-        int x;
-        sscanf(argv[i], "%d", &x);
+        int x = 0;
+        if (sscanf(argv[i], "%d", &x) != 1) {
+            fprintf(stderr, "not a column number: %s\n", argv[i]);
+            return 1;
+        }
         sel[nsel++] = x-1; // adjust for 1-based counts
     }
 
-    char line[4096];
-    while (fgets(line, sizeof(line), stdin)) {
+    linereader.t *lr = linereader.new(stdin);
+    while (linereader.read(lr)) {
         //
         // Split the line into columns in place.
         //
         char *cols[MAXCOLS] = {};
         int ncols = 0;
-        char *p = line;
+        char *p = linereader.line(lr);
         cols[ncols++] = p;
         while (true) {
             p = sep(p);
@@ -50,6 +54,15 @@ int main(int argc, char *argv[]) {
         }
         putchar('\n');
     }
+    linereader.free(lr);
+    if (ferror(stdin)) {
+        fprintf(stderr, "read error: %s\n", strerror(errno));
+        return 1;
+    }
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        fprintf(stderr, "write error: %s\n", strerror(errno));
+        return 1;
+    }
     return 0;
 }
 
-- 
2.43.0


From a073eb996b3844d9a132677a3bbff974273b9844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:07 +0000
Subject: [PATCH 069/100] fix: zipranges takes any number of ranges and reports
 failures

---
 prog/zipranges/zipranges.c | 43 +++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/prog/zipranges/zipranges.c b/prog/zipranges/zipranges.c
index b4ad339..d71e4ee 100644
--- a/prog/zipranges/zipranges.c
+++ b/prog/zipranges/zipranges.c
@@ -1,3 +1,5 @@
+#import clip/vec
+
 int main() {
     int val = 0;
     while (true) {
@@ -11,32 +13,45 @@ int main() {
 		}
 		append(val);
 	}
+    if (ferror(stdin)) {
+        fprintf(stderr, "read error: %s\n", strerror(errno));
+        return 1;
+    }
     out();
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        fprintf(stderr, "write error: %s\n", strerror(errno));
+        return 1;
+    }
 	return 0;
 }
 
 typedef { int a, b; } range_t;
 
-range_t cells[4000] = {};
-int pos = -1;
+vec.t *cells = NULL;
 
 void append(int val) {
-    if (pos == -1) {
-        pos = 0;
-        cells[pos].a = val;
-        cells[pos].b = val;
-    } else if (val == cells[pos].b + 1) {
-        cells[pos].b++;
-    } else {
-        pos++;
-        cells[pos].a = val;
-        cells[pos].b = val;
+    if (!cells) {
+        cells = vec.new(sizeof(range_t));
+    }
+    size_t n = vec.len(cells);
+    if (n > 0) {
+        range_t *last = vec.index(cells, n - 1);
+        if (last->b < INT_MAX && val == last->b + 1) {
+            last->b++;
+            return;
+        }
     }
+    range_t *r = vec.alloc(cells);
+    r->a = val;
+    r->b = val;
 }
 
 void out() {
-    for (int i = 0; i <= pos; i++) {
-        printf("%d-%d ", cells[i].a, cells[i].b);
+    if (cells) {
+        for (size_t i = 0; i < vec.len(cells); i++) {
+            range_t *r = vec.index(cells, i);
+            printf("%d-%d ", r->a, r->b);
+        }
     }
     puts("");
 }
-- 
2.43.0


From dfd57848020248f7965fd15074800bbe4afa68bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:07 +0000
Subject: [PATCH 070/100] fix: avg refuses zero windows and malformed lines and
 reports failures

---
 prog/avg/avg.c | 53 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/prog/avg/avg.c b/prog/avg/avg.c
index 7304f88..ff97fc1 100644
--- a/prog/avg/avg.c
+++ b/prog/avg/avg.c
@@ -1,3 +1,4 @@
+#import linereader
 #import opt
 #import time
 
@@ -8,28 +9,35 @@ int main(int argc, char *argv[]) {
 	opt.size("w", "window size", &wsize);
 	opt.parse(argc, argv);
 
+	if (wsize == 0) {
+		fprintf(stderr, "the window size must not be zero\n");
+		return 1;
+	}
 	line_t *window = calloc!(wsize, sizeof(line_t));
-	char line[4096];
-
-	FILE *f = stdin;
-
-	// Fill the window. We'll discard the first values.
-	for (size_t i = 0; i < wsize; i++) {
-		if (!fgets(line, 4096, f)) {
-			return 0;
+	linereader.t *lr = linereader.new(stdin);
+	size_t n = 0;
+	while (linereader.read(lr)) {
+		// Shift the window, if it's full.
+		if (n == wsize) {
+			for (size_t i = 0; i < wsize-1; i++) {
+				window[i] = window[i+1];
+			}
+			n--;
 		}
-		window[i] = parse_line(line);
-	}
-	emit(window, wsize);
-
-
-	while (fgets(line, 4096, f)) {
-		// Shift the window.
-		for (size_t i = 0; i < wsize-1; i++) {
-			window[i] = window[i+1];
+		window[n++] = parse_line(linereader.line(lr));
+		// We'll discard the first values.
+		if (n == wsize) {
+			emit(window, wsize);
 		}
-		window[wsize-1] = parse_line(line);
-		emit(window, wsize);
+	}
+	linereader.free(lr);
+	if (ferror(stdin)) {
+		fprintf(stderr, "read error: %s\n", strerror(errno));
+		return 1;
+	}
+	if (fflush(stdout) != 0 || ferror(stdout)) {
+		fprintf(stderr, "write error: %s\n", strerror(errno));
+		return 1;
 	}
 	return 0;
 }
@@ -56,12 +64,17 @@ line_t parse_line(char *line) {
 	while (*p != '\0' && *p != '\t') {
 		p++;
 	}
+	if (*p == '\0') {
+		panic("there is no value in the line: %s", line);
+	}
 	*p = '\0';
 	p++;
 
 	// Parse as (time, int)
 	line_t r = {};
 	r.ts = time.parse_iso(ts);
-	sscanf(p, "%d", &r.bps);
+	if (sscanf(p, "%d", &r.bps) != 1) {
+		panic("not a number: %s", p);
+	}
 	return r;
 }
-- 
2.43.0


From 4354a34ae123ae6212effe6a41e407e7e0fe9fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:07 +0000
Subject: [PATCH 071/100] fix: stats takes lines of any length, refuses too
 many columns and reports failures

---
 prog/stats/stats.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/prog/stats/stats.c b/prog/stats/stats.c
index 2bbfc22..7d86a3e 100644
--- a/prog/stats/stats.c
+++ b/prog/stats/stats.c
@@ -1,7 +1,13 @@
+#import linereader
 #import stats
 
+#define MAXCOLS 10
+
+linereader.t *lr = NULL;
+
 int main() {
-	double vals[10] = {};
+	lr = linereader.new(stdin);
+	double vals[MAXCOLS] = {};
 
 	// Find out the number of columns.
 	size_t nseries = readvals(vals);
@@ -10,7 +16,7 @@ int main() {
 	}
 
 	// Initialize the series from the already read values.
-	stats.series_t *series[10] = {};
+	stats.series_t *series[MAXCOLS] = {};
 	for (size_t i = 0; i < nseries; i++) {
 		series[i] = stats.newseries();
 		stats.add(series[i], vals[i]);
@@ -18,6 +24,9 @@ int main() {
 
 	while (true) {
 		size_t n = readvals(vals);
+		if (ferror(stdin)) {
+			panic("read error: %s", strerror(errno));
+		}
 		if (n == 0 && feof(stdin)) {
 			break;
 		}
@@ -30,15 +39,18 @@ int main() {
 	}
 
 	print_results(series, nseries);
+	if (fflush(stdout) != 0 || ferror(stdout)) {
+		fprintf(stderr, "write error: %s\n", strerror(errno));
+		return 1;
+	}
 	return 0;
 }
 
 size_t readvals(double *vals) {
-	char line[4096] = {};
-	if (!fgets(line, sizeof(line), stdin)) {
+	if (!linereader.read(lr)) {
 		return 0;
 	}
-	char *p = line;
+	char *p = linereader.line(lr);
 	char *q = NULL;
 	size_t n = 0;
 	while (true) {
@@ -46,6 +58,9 @@ size_t readvals(double *vals) {
 		if (q == p) {
 			break;
 		}
+		if (n == MAXCOLS) {
+			panic("too many columns, max is %d", MAXCOLS);
+		}
 		vals[n++] = x;
 		p = q;
 	}
-- 
2.43.0


From 0529512ba70c123fca65384713816065bfa558a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:07 +0000
Subject: [PATCH 072/100] fix: hist ends for equal values, no values and narrow
 bars, and reports failures

---
 prog/hist/hist.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/prog/hist/hist.c b/prog/hist/hist.c
index ebf07ee..d728360 100644
--- a/prog/hist/hist.c
+++ b/prog/hist/hist.c
@@ -11,11 +11,15 @@ int main(int argc, char *argv[]) {
 	opt.size("w", "max line width", &maxline);
 	opt.flag("r", "print raw numbers, no fancy ASCII art", &raw);
 	opt.parse(argc, argv);
-	if (nbins != 0 && nbins < 2) {
+	if (nbins < 2) {
 		fprintf(stderr, "The number of bins must be greater than two\n");
 		return 1;
 	}
 	stats.series_t *s = collect();
+	if (stats.count(s) == 0) {
+		fprintf(stderr, "there are no values\n");
+		return 1;
+	}
 
 	bin_t *bins = group_bins(s, nbins);
 	if (raw) {
@@ -23,6 +27,10 @@ int main(int argc, char *argv[]) {
 	} else {
 		printbins_ascii(bins, nbins, maxline);
 	}
+	if (fflush(stdout) != 0 || ferror(stdout)) {
+		fprintf(stderr, "write error: %s\n", strerror(errno));
+		return 1;
+	}
 	return 0;
 }
 
@@ -39,6 +47,10 @@ stats.series_t *collect() {
 		}
 		stats.add(s, val);
 	}
+	if (ferror(stdin)) {
+		fprintf(stderr, "read error: %s\n", strerror(errno));
+		exit(1);
+	}
 	return s;
 }
 
@@ -60,13 +72,16 @@ range_t find_range(double _min, _max, size_t nbins) {
 	double amax = 0;
 	while (true) {
 		amin = floor(_min / scale) * scale;
+		if (amin > _min) {
+			amin -= scale;
+		}
 		amax = amin + nbins * scale;
 		if (amax >= _max) {
 			break;
 		}
 		scale *= 10;
 	}
-	while (amin + nbins * (scale/2) >= _max) {
+	while (_max > amin && amin + nbins * (scale/2) >= _max) {
 		scale /= 2;
 	}
 	range_t r = { .min = amin, .step = scale };
@@ -152,10 +167,12 @@ void printbins_ascii(bin_t *bins, size_t nbins, size_t maxline) {
 	// Header.
 	//
 	printf("value (>=)");
-	repeat("-", maxlabel + maxline - strlen("value (>=)") + 1);
+	if (maxlabel + maxline + 1 > strlen("value (>=)")) {
+		repeat("-", maxlabel + maxline - strlen("value (>=)") + 1);
+	}
 	printf(" count\n");
 
-	double scale = 30 / (double) maxcount;
+	double scale = (double) maxline / (double) maxcount;
 	if (scale > 1) {
 		scale = 1;
 	}
@@ -177,6 +194,7 @@ void printbins_ascii(bin_t *bins, size_t nbins, size_t maxline) {
 		//
 		size_t len = 0;
 		len = (size_t) ((double)b->count * scale);
+		if (len > maxline) len = maxline;
 		repeat("█", len);
 		repeat(" ", maxline-len);
 
-- 
2.43.0


From dd7e1f121ad65e548bbbf9bb2a0664eb4d31433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:07 +0000
Subject: [PATCH 073/100] fix: json-table takes lines, values and numbers of
 columns of any size, shows tables at the end once and reports failures

---
 prog/json-table/json-table.c | 75 +++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 31 deletions(-)

diff --git a/prog/json-table/json-table.c b/prog/json-table/json-table.c
index 751d1c7..73233cf 100644
--- a/prog/json-table/json-table.c
+++ b/prog/json-table/json-table.c
@@ -1,15 +1,20 @@
 #import clip/vec
 #import error
 #import formats/json
+#import linereader
+#import strings
 
-char buf[4096] = {};
+linereader.t *lr = NULL;
+char *buf = NULL;
 bool haveline = true;
 bool loadline() {
-	haveline = fgets(buf, 4096, stdin) != NULL;
+	haveline = linereader.read(lr);
+	buf = linereader.line(lr);
 	return haveline;
 }
 
 int main() {
+	lr = linereader.new(stdin);
 	loadline();
 	while (haveline) {
 		if (buf[0] == '{' && maybeTable()) {
@@ -21,6 +26,14 @@ int main() {
 		printf("%s", buf);
 		loadline();
 	}
+	if (ferror(stdin)) {
+		fprintf(stderr, "read error: %s\n", strerror(errno));
+		return 1;
+	}
+	if (fflush(stdout) != 0 || ferror(stdout)) {
+		fprintf(stderr, "write error: %s\n", strerror(errno));
+		return 1;
+	}
 	return 0;
 }
 
@@ -33,6 +46,10 @@ bool maybeTable() {
 		if (err.set) {
 			break;
 		}
+		if (json.type(line) != json.TOBJ) {
+			json.json_free(line);
+			break;
+		}
 		vec.push(rows, &line);
 		ok = true;
 		if (!loadline()) {
@@ -53,7 +70,7 @@ bool maybeInlineTable() {
 	}
 
 	// Repack the json array into a list of json objects.
-	bool ok = true;
+	bool ok = json.len(list) > 0;
 	vec.t *rows = vec.new(sizeof(json.val_t *));
 	for (size_t i = 0; i < json.len(list); i++) {
 		json.val_t *item = json.val(list, i);
@@ -72,7 +89,8 @@ bool maybeInlineTable() {
 	}
 	printtable(rows);
 	freetable(rows);
-	return loadline();
+	loadline();
+	return true;
 }
 
 void freetable(vec.t *rows) {
@@ -81,6 +99,7 @@ void freetable(vec.t *rows) {
 		json.val_t **row = vec.index(rows, i);
 		json.json_free(*row);
 	}
+	vec.free(rows);
 }
 
 json.val_t *longest(vec.t *rows) {
@@ -99,7 +118,6 @@ json.val_t *longest(vec.t *rows) {
 }
 
 void printtable(vec.t *rows) {
-	char buf[4096] = {};
 	size_t nrows = vec.len(rows);
 	if (nrows == 0) {
 		return;
@@ -108,16 +126,15 @@ void printtable(vec.t *rows) {
 	//
 	// Define the header and calculate the widths.
 	//
-	const char *keys[100];
-
 	// As a quirk, use the row with the most columns
 	// to get the columns.
 	json.val_t *longestrow = longest(rows);
 	size_t nkeys = json.len(longestrow);
+	const char **keys = calloc!(nkeys + 1, sizeof(char *));
 	for (size_t i = 0; i < nkeys; i++) {
 		keys[i] = json.key(longestrow, i);
 	}
-	size_t colwidth[100] = {};
+	size_t *colwidth = calloc!(nkeys + 1, sizeof(size_t));
 	for (size_t colid = 0; colid < nkeys; colid++) {
 		colwidth[colid] = strlen(keys[colid]);
 	}
@@ -126,7 +143,9 @@ void printtable(vec.t *rows) {
 		for (size_t colid = 0; colid < nkeys; colid++) {
 			const char *key = keys[colid];
 			json.val_t *col = json.get(*row, key);
-			size_t l = sprintval(col, buf);
+			char *s = formatval(col);
+			size_t l = strlen(s);
+			free(s);
 			if (l > colwidth[colid]) {
 				colwidth[colid] = l;
 			}
@@ -159,8 +178,9 @@ void printtable(vec.t *rows) {
 		json.val_t **row = vec.index(rows, rowid);
 		for (size_t colid = 0; colid < nkeys; colid++) {
 			const char *key = keys[colid];
-			sprintval(json.get(*row, key), buf);
-			printw(buf, colwidth[colid]);
+			char *s = formatval(json.get(*row, key));
+			printw(s, colwidth[colid]);
+			free(s);
 			if (colid < nkeys-1) {
 				printf(" | ");
 			}
@@ -168,6 +188,8 @@ void printtable(vec.t *rows) {
 		putchar('\n');
 	}
 	line(w);
+	free(keys);
+	free(colwidth);
 }
 
 void printw(const char *s, size_t w) {
@@ -186,39 +208,30 @@ void line(size_t w) {
 	putchar('\n');
 }
 
-// Writes a string representation of val into str.
-int sprintval(json.val_t *val, char *str) {
+// Returns a new string with a representation of val.
+char *formatval(json.val_t *val) {
 	if (!val) {
-		str[0] = '\0';
-		return 0;
+		return strings.newstr("%s", "");
 	}
 	// Print the raw string to avoid quoting and escaping.
 	if (json.type(val) == json.TSTR) {
-		const char *s = json.strval(val);
-		int r = strlen(s);
-		strcpy(str, s);
-		return r;
+		return strings.newstr("%s", json.strval(val));
 	}
 	if (json.type(val) == json.TNUM) {
 		double x = json.numval(val);
-		if (isint(x) && x > 10000) {
-			char tmp[20] = {};
-			thousands((int) x, tmp, sizeof(tmp));
-			strcpy(str, tmp);
-			return strlen(tmp);
+		if (isint(x) && x > 10000 && x < 1e15) {
+			char tmp[30] = {};
+			thousands(x, tmp, sizeof(tmp));
+			return strings.newstr("%s", tmp);
 		}
 	}
 	// Print other types as serialized JSON.
-	char *s = json.format(val);
-	int r = strlen(s);
-	strcpy(str, s);
-	free(s);
-	return r;
+	return json.format(val);
 }
 
-int thousands(int x, char *out, size_t n) {
+int thousands(double x, char *out, size_t n) {
 	char tmp[20];
-	int l = sprintf(tmp, "%d", x);
+	int l = sprintf(tmp, "%.0f", x);
 
 	int extra = l % 3;
 	size_t z = 0;
-- 
2.43.0


From af639c5ed1e76b8fe382c93c39725729262f8727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:36 +0000
Subject: [PATCH 074/100] fix: wav reads streams to their end and refuses
 damaged headers and truncated data

---
 lib/formats/wav.c | 86 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 56 insertions(+), 30 deletions(-)

diff --git a/lib/formats/wav.c b/lib/formats/wav.c
index 7ab45d3..1775ebc 100644
--- a/lib/formats/wav.c
+++ b/lib/formats/wav.c
@@ -80,7 +80,7 @@ bool read_headers(reader.t *r, wav_t *wp, uint32_t *datalen) {
     //
     if (!expect_tag(r, "RIFF")) return false;
 	uint32_t tmp4u;
-    endian.read4le(r, &tmp4u); // riff chunk length
+    if (endian.read4le(r, &tmp4u) != 4) return false; // riff chunk length
 
     //
     // Begin WAVE
@@ -91,10 +91,10 @@ bool read_headers(reader.t *r, wav_t *wp, uint32_t *datalen) {
 	// wav fmt struct
 	//
 	if (!expect_tag(r, "fmt ")) return false;
-    endian.read4le(r, &tmp4u); // fmt chunk size, 16 bytes
+    if (endian.read4le(r, &tmp4u) != 4) return false; // fmt chunk size, 16 bytes
 	if (tmp4u != 16) panic("expected 16 bytes fmt chunk, got %u", tmp4u);
 	uint8_t buf[16] = {};
-	reader.read(r, buf, 16);
+	if (!readfull(r, buf, 16)) return false;
 	wav_t w = read_fmt(buf);
 
     if (w.format != 1) {
@@ -106,33 +106,36 @@ bool read_headers(reader.t *r, wav_t *wp, uint32_t *datalen) {
 	if (w.bits_per_sample != 16 && w.bits_per_sample != 24) {
 		panic("expected 16 or 24 bits per sample, got %d", w.bits_per_sample);
 	}
+	if (w.frequency == 0) {
+		panic("expected a frequency, got 0");
+	}
 	*wp = w;
 
 	//
     // Optional INFO block
     //
 	char tag[5] = {};
-    reader.read(r, (uint8_t*) tag, 4);
+    if (!readfull(r, (uint8_t*) tag, 4)) return false;
 	if (memcmp(tag, "LIST", 4) == 0) {
 		if (!readinfo(r)) {
 			return false;
 		}
-		reader.read(r, (uint8_t*) tag, 4);
+		if (!readfull(r, (uint8_t*) tag, 4)) return false;
 	}
 
 	//
 	// Optional padding
 	//
 	if (strcmp(tag, "PAD ") == 0) {
-		endian.read4le(r, &tmp4u);
+		if (endian.read4le(r, &tmp4u) != 4) return false;
 		uint8_t buf[4096] = {};
 		while (tmp4u > 0) {
 			size_t n = tmp4u;
 			if (n > 4096) n = 4096;
-			reader.read(r, buf, n);
+			if (!readfull(r, buf, n)) return false;
 			tmp4u -= n;
 		}
-		reader.read(r, (uint8_t*) tag, 4);
+		if (!readfull(r, (uint8_t*) tag, 4)) return false;
 	}
 
 	//
@@ -141,8 +144,7 @@ bool read_headers(reader.t *r, wav_t *wp, uint32_t *datalen) {
 	if (strcmp(tag, "data") != 0) {
 		panic("expected \"data\" chunk, got \"%s\"", tag);
 	}
-    endian.read4le(r, datalen);
-	return true;
+    return endian.read4le(r, datalen) == 4;
 }
 
 void write_headers(writer_t *w) {
@@ -206,18 +208,45 @@ void write_fmt(writer.t *bw, wav_t fmt) {
     endian.write2le(bw, fmt.bits_per_sample); // bits per sample
 }
 
+// Tells whether there is another sample frame.
 pub bool more(reader_t *r) {
-	return r->done < r->datalen;
+	if (r->done >= r->datalen) {
+		return false;
+	}
+	int c = fgetc(r->file);
+	if (c != EOF) {
+		ungetc(c, r->file);
+		return true;
+	}
+	// A stream has no length and ends with the file.
+	if (ferror(r->file) || r->datalen != 0xFFFFFFFF) {
+		panic("the file ends before its data");
+	}
+	return false;
+}
+
+// Reads exactly n bytes into buf. Returns false if there are less.
+bool readfull(reader.t *r, uint8_t *buf, size_t n) {
+	size_t have = 0;
+	while (have < n) {
+		int k = reader.read(r, buf + have, n - have);
+		if (k <= 0) return false;
+		have += (size_t) k;
+	}
+	return true;
 }
 
 int read_sample0(reader_t *r) {
-	int bps = r->wav.bits_per_sample / 8;
+	uint32_t bps = r->wav.bits_per_sample / 8;
+	if (r->datalen - r->done < bps) {
+		panic("the data ends in the middle of a sample");
+	}
 	switch (r->wav.bits_per_sample) {
 		// 8 bit - [0, 255], zero at 128
 		// 16-bit - [-32768, +32767], zero at 0
 		case 16: {
 			uint16_t u = 0;
-			endian.read2le(r->reader, &u);
+			if (endian.read2le(r->reader, &u) != 2) panic("failed to read a sample");
 			r->done += bps;
 			int s = (int) u;
 			if (s >= 32768) s -= 65536;
@@ -226,7 +255,7 @@ int read_sample0(reader_t *r) {
 		// 24-bit - [−8,388,608, +8,388,607], zero at 0.
 		case 24: {
 			uint32_t u = 0;
-			endian.read3le(r->reader, &u);
+			if (endian.read3le(r->reader, &u) != 3) panic("failed to read a sample");
 			r->done += bps;
 			int s = (int) u;
 			if (s >= 8388608) s -= 2 * 8388608;
@@ -281,11 +310,9 @@ pub void close_reader(reader_t *r) {
 }
 
 bool readinfo(reader.t *r) {
-	char tmp[1000];
-
 	// List length in bytes.
     uint32_t listlen = 0;
-    endian.read4le(r, &listlen);
+    if (endian.read4le(r, &listlen) != 4 || listlen < 4) return false;
 
 	// Expect INFO tag (4 bytes).
     if (!expect_tag(r, "INFO")) {
@@ -296,32 +323,31 @@ bool readinfo(reader.t *r) {
     while (listlen > 0) {
 		// Read 4-byte entry name.
         char key[5] = {};
-        reader.read(r, (uint8_t*)key, 4);
+        if (listlen < 8 || !readfull(r, (uint8_t*)key, 4)) return false;
 		listlen -= 4;
 
 		// Read 4-byte value length.
-        uint32_t infolen;
-        endian.read4le(r, &infolen);
+        uint32_t infolen = 0;
+        if (endian.read4le(r, &infolen) != 4) return false;
         listlen -= 4;
 
-        reader.read(r, (uint8_t*)tmp, infolen);
-        tmp[infolen] = '\0';
-        // printf("# %s = %s\n", key, tmp);
-        listlen -= infolen;
-
+		// Skip the value.
 		// Wav postulates 2-byte chunk boundaries, so skip a trailing byte
 		// for odd chunks.
-        if (infolen % 2 != 0) {
-            reader.read(r, (uint8_t*)tmp, 1);
-            listlen -= 1;
-        }
+		if (infolen > listlen) return false;
+		if (infolen % 2 != 0 && infolen < listlen) infolen++;
+		listlen -= infolen;
+		for (uint32_t i = 0; i < infolen; i++) {
+			uint8_t c = 0;
+			if (!readfull(r, &c, 1)) return false;
+		}
     }
     return true;
 }
 
 bool expect_tag(reader.t *r, const char *tag) {
     char tmp[5] = {};
-    reader.read(r, (uint8_t*) tmp, 4);
+    if (!readfull(r, (uint8_t*) tmp, 4)) return false;
     if (strcmp(tmp, tag)) panic("wanted %s, got %s", tag, tmp);
     return true;
 }
-- 
2.43.0


From d5a1ea83630d674abfb66d9db96163d61177e1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:36 +0000
Subject: [PATCH 075/100] fix: transpose gives exactly the interpolated samples
 of the recording

---
 lib/sound.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/sound.c b/lib/sound.c
index 0ed129e..efd8841 100644
--- a/lib/sound.c
+++ b/lib/sound.c
@@ -56,17 +56,17 @@ pub clip_t *transpose(clip_t *c, float r) {
 	clip_t *c2 = newclip(c->freq);
 
 	// How many samples the new clip will have.
-	size_t n2 = (size_t) ((float) c->nsamples * r);
+	size_t n2 = (size_t) ((double) c->nsamples * r);
 
 	for (size_t t = 0; t < n2; t++) {
 		// The "time" in the original sample flows r times slower.
-		float t0 = (float) t / r;
+		double t0 = (double) t / r;
 
 		// Split the fractional time into an integer and a remainder.
 		// t0 = 13.156 means 0.156 between samples 13 and 14.
 		size_t t0_int = (size_t) t0;
-		float b = t0 - (float) t0_int;
-		float a = 1 - b;
+		double b = t0 - (double) t0_int;
+		double a = 1 - b;
 
 		if (t0_int >= c->nsamples) {
 			panic("oopsie, %zu >= %zu (at t=%zu)\n", t0_int, c->nsamples, t);
@@ -78,7 +78,8 @@ pub clip_t *transpose(clip_t *c, float r) {
 		double left = s->left * a;
 		double right = s->right * a;
 		if (b > 0) {
-			s = &c->samples[t0_int+1];
+			// There is nothing after the last sample to mix with.
+			if (t0_int+1 < c->nsamples) s = &c->samples[t0_int+1];
 			left += s->left * b;
 			right += s->right * b;
 		}
-- 
2.43.0


From e2f819e5d0db56aec1e8bbe412dd5b3ec0c792c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:36 +0000
Subject: [PATCH 076/100] fix: wav reports missing files, bad arguments and
 write errors

---
 prog/wav/wav.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/prog/wav/wav.c b/prog/wav/wav.c
index 5a5b1cd..5856c1e 100644
--- a/prog/wav/wav.c
+++ b/prog/wav/wav.c
@@ -58,7 +58,7 @@ int main_mix(int argc, char *argv[]) {
 		wav.close_reader(readers[i]);
 	}
 	free(readers);
-	return 0;
+	return done();
 }
 
 int main_info(int argc, char *argv[]) {
@@ -78,7 +78,7 @@ int main_info(int argc, char *argv[]) {
 		printf("bits_per_sample: %d\n", r->wav.bits_per_sample);
 		wav.close_reader(r);
 	}
-	return 0;
+	return done();
 }
 
 int main_dump(int argc, char *argv[]) {
@@ -95,7 +95,8 @@ int main_dump(int argc, char *argv[]) {
 		sound.samplef_t s = wav.read_samplef(r);
 		printf("%f\t%f\n", s.left, s.right);
 	}
-	return 0;
+	wav.close_reader(r);
+	return done();
 }
 
 int main_trans(int argc, char *argv[]) {
@@ -104,7 +105,18 @@ int main_trans(int argc, char *argv[]) {
 	float r = atof(args[0]);
 	char *path = args[1];
 
+	if (!(r > 0)) {
+		fprintf(stderr, "the factor must be a positive number\n");
+		return 1;
+	}
 	sound.clip_t *c = wav.loadfile(path);
+	if (!c) {
+		fprintf(stderr, "failed to open '%s': %s\n", path, strerror(errno));
+		return 1;
+	}
+	if (c->freq != 44100) {
+		panic("%s: expected frequency 44100, got %u", path, c->freq);
+	}
 	sound.clip_t *c2 = sound.transpose(c, r);
 
 	wav.writer_t *ww = wav.open_writer(stdout);
@@ -112,5 +124,14 @@ int main_trans(int argc, char *argv[]) {
 		wav.write_sample(ww, c2->samples[i].left, c2->samples[i].right);
 	}
 	wav.close_writer(ww);
+	return done();
+}
+
+// Finishes the output and returns the exit status.
+int done() {
+	if (fflush(stdout) != 0 || ferror(stdout)) {
+		fprintf(stderr, "write error: %s\n", strerror(errno));
+		return 1;
+	}
 	return 0;
 }
-- 
2.43.0


From 5c7768e0f7ab1eaa97ebff8249520c89d83029f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:36 +0000
Subject: [PATCH 077/100] fix: wavcue uses the sample rate of the file, counts
 the last samples and reports failures

---
 prog/wavcue/wavcue.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/prog/wavcue/wavcue.c b/prog/wavcue/wavcue.c
index 31a99e9..34ddf66 100644
--- a/prog/wavcue/wavcue.c
+++ b/prog/wavcue/wavcue.c
@@ -34,13 +34,17 @@ int main(int argc, char *argv[]) {
 		dur += consume();
 	}
 	emit(dur + track());
-	while (wav.more(r)) {
+	while (rmore()) {
 		emit(track());
 	}
 	// printf("total = ");
 	// printtime(total);
 	// putchar('\n');
     wav.close_reader(r);
+	if (fflush(stdout) != 0 || ferror(stdout)) {
+		fprintf(stderr, "write error: %s\n", strerror(errno));
+		return 1;
+	}
     return 0;
 }
 
@@ -107,7 +111,7 @@ range_t readval() {
     double db = 20.0 * log10(rms);
 	range_t res = {};
 	res.loud = db >= -SILENCE_LEVEL;
-	res.duration = 1000 * 1000 * 1000 / 44100;
+	res.duration = 1000 * 1000 * 1000 / (int64_t) r->wav.frequency;
 	return res;
 }
 
-- 
2.43.0


From f21ca74dc0b8bf576feb9261e8619fb47c45cfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:36 +0000
Subject: [PATCH 078/100] fix: keys waiting in the buffer of stdin are not
 hidden from a program that polls

---
 lib/os/term.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/os/term.c b/lib/os/term.c
index 2c91ce0..d2fb1b1 100644
--- a/lib/os/term.c
+++ b/lib/os/term.c
@@ -35,11 +35,19 @@ pub bool stdin_has_input() {
 }
 
 pub void term_disable_input_buffering(term_t *t) {
+    // Characters waiting in the stream's buffer would not be seen by select.
+    OS.setvbuf(stdin, NULL, OS._IONBF, 0);
     t->current_state.c_lflag &= ~OS.ICANON & ~OS.ECHO;
     OS.tcsetattr(t->fileno, OS.TCSANOW, &t->current_state);
 }
 
-pub void term_restore(term_t *t) {
+// Sets the terminal back to the original state.
+// May be called from a signal handler.
+pub void term_reset(term_t *t) {
     OS.tcsetattr(t->fileno, OS.TCSANOW, &t->original_state);
+}
+
+pub void term_restore(term_t *t) {
+    term_reset(t);
     free(t);
 }
-- 
2.43.0


From faa64ebe0d4511abc75768b7f84be10cfeec9004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:36 +0000
Subject: [PATCH 079/100] fix: bytereader can tell a read error from the end of
 the file

---
 lib/bytereader.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/bytereader.c b/lib/bytereader.c
index 6911062..139245c 100644
--- a/lib/bytereader.c
+++ b/lib/bytereader.c
@@ -16,6 +16,11 @@ pub bool ended(reader_t *r) {
     return feof(r->f) || ferror(r->f);
 }
 
+// Tells whether reading has failed.
+pub bool failed(reader_t *r) {
+    return ferror(r->f);
+}
+
 pub void freereader(reader_t *r) {
     fclose(r->f);
     free(r);
-- 
2.43.0


From ac168ba31841972c6addd9a8f898accc2e5bb317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:36 +0000
Subject: [PATCH 080/100] fix: the LC-3 emulator loads images exactly, ends
 with the right status and always sets the terminal back

---
 prog/emu/lc3.c | 81 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 58 insertions(+), 23 deletions(-)

diff --git a/prog/emu/lc3.c b/prog/emu/lc3.c
index ecc7007..038c910 100644
--- a/prog/emu/lc3.c
+++ b/prog/emu/lc3.c
@@ -92,22 +92,37 @@ pub int run(char *rompath) {
 
     /* the origin tells us where in memory to place the image */
     uint16_t origin = bytereader.read16(r);
+    if (bytereader.ended(r)) {
+        fprintf(stderr, "failed to load image: no origin\n");
+        return 1;
+    }
 
     // Read full memory.
-    for (uint32_t i = origin; i < MEMORY_MAX; i++) {
-        memory[i] = bytereader.read16(r);
-        if (bytereader.ended(r)) {
+    uint32_t pos = origin;
+    while (true) {
+        int a = bytereader.readc(r);
+        if (a == EOF) {
             break;
         }
+        int b = bytereader.readc(r);
+        if (b == EOF) {
+            fprintf(stderr, "failed to load image: half a word at the end\n");
+            return 1;
+        }
+        if (pos >= MEMORY_MAX) {
+            fprintf(stderr, "input file too long\n");
+            return 1;
+        }
+        memory[pos++] = (uint16_t) (a * 256 + b);
     }
-    if (!bytereader.ended(r)) {
-        fprintf(stderr, "input file too long\n");
+    if (bytereader.failed(r)) {
+        fprintf(stderr, "failed to load image: %s\n", strerror(errno));
         return 1;
     }
     bytereader.freereader(r);
 
-    signal(SIGINT, handle_interrupt);
     term = term.term_get_stdin();
+    signal(SIGINT, handle_interrupt);
     term.term_disable_input_buffering(term);
 
     reg[R_COND] = FL_ZRO;
@@ -131,15 +146,28 @@ pub int run(char *rompath) {
             case OP_STI: { op_sti(instr); }
             case OP_STR: { op_str(instr); }
             case OP_TRAP: { op_trap(instr); }
-            case OP_RES, OP_RTI: { panic("!"); }
+            case OP_RES, OP_RTI: {
+                finish();
+                fprintf(stderr, "illegal instruction %04x at %04x\n", instr, (uint16_t) (reg[R_PC] - 1));
+                return 1;
+            }
             default: {
                 panic("!");
             }
         }
     }
 
+    finish();
+    if (ferror(stdout)) {
+        fprintf(stderr, "write error\n");
+        return 1;
+    }
+    return 0;
+}
+
+void finish() {
+    signal(SIGINT, OS.SIG_IGN);
     term.term_restore(term);
-    return 1;
 }
 
 enum {
@@ -170,10 +198,15 @@ uint16_t mem_read(uint16_t address)
 }
 
 
+// Only what is safe in the middle of anything else.
 void handle_interrupt(int signal) {
-    term.term_restore(term);
-    printf("exit on signal %d\n", signal);
-    exit(-2);
+    term.term_reset(term);
+    char msg[100] = {};
+    snprintf(msg, sizeof(msg), "exit on signal %d\n", signal);
+    if (OS.write(OS.STDOUT_FILENO, msg, strlen(msg)) < 0) {
+        OS._exit(1);
+    }
+    OS._exit(-2);
 }
 
 void op_add(uint16_t instr) {
@@ -227,7 +260,7 @@ void op_jmp(uint16_t instr) {
 
 void op_jsr(uint16_t instr) {
     uint16_t long_flag = (instr >> 11) & 1;
-    reg[R_R7] = reg[R_PC];
+    uint16_t ret = reg[R_PC];
     if (long_flag) {
         uint16_t long_pc_offset = sign_extend(instr & 0x7FF, 11);
         reg[R_PC] += long_pc_offset;  /* JSR */
@@ -235,6 +268,7 @@ void op_jsr(uint16_t instr) {
         uint16_t r1 = (instr >> 6) & 0x7;
         reg[R_PC] = reg[r1]; /* JSRR */
     }
+    reg[R_R7] = ret;
 }
 
 void op_ld(uint16_t instr) {
@@ -303,17 +337,18 @@ void op_trap(uint16_t instr) {
         }
         case TRAP_PUTS: {
             /* one char per word */
-            uint16_t *c = memory + reg[R_R0];
-            while (*c) {
-                putc((char)*c, stdout);
-                ++c;
+            uint16_t a = reg[R_R0];
+            while (memory[a]) {
+                putc((char)memory[a], stdout);
+                ++a;
             }
             fflush(stdout);
         }
         case TRAP_IN: {
             printf("Enter a character: ");
-            char c = getchar();
-            putc(c, stdout);
+            fflush(stdout);
+            int c = getchar();
+            if (c != EOF) putc(c, stdout);
             fflush(stdout);
             reg[R_R0] = (uint16_t)c;
             update_flags(R_R0);
@@ -322,14 +357,14 @@ void op_trap(uint16_t instr) {
             /* one char per byte (two bytes per word)
             here we need to swap back to
             big endian format */
-            uint16_t* c = memory + reg[R_R0];
-            while (*c)
+            uint16_t a = reg[R_R0];
+            while (memory[a])
             {
-                char char1 = (*c) & 0xFF;
+                char char1 = memory[a] & 0xFF;
                 putc(char1, stdout);
-                char char2 = (*c) >> 8;
+                char char2 = memory[a] >> 8;
                 if (char2) putc(char2, stdout);
-                ++c;
+                ++a;
             }
             fflush(stdout);
         }
-- 
2.43.0


From 5418ef3dc0bd93c773f224cd4dd3e739281261c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:08 +0000
Subject: [PATCH 081/100] fix: keep the braces that the meaning of an
 expression depends on

---
 src/format_c.rs | 55 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/format_c.rs b/src/format_c.rs
index 9747409..2778d67 100644
--- a/src/format_c.rs
+++ b/src/format_c.rs
@@ -142,7 +142,7 @@ pub fn fmt_expr(expr: &Expr) -> String {
                 s1 += &fmt_expr(&argument);
             }
             s1 += ")";
-            return format!("{}{}", fmt_expr(&function), s1);
+            return format!("{}{}", fmt_postfix_target(&function), s1);
         }
         Expr::Literal(x) => format_literal(x),
         Expr::Ident(x) => x.clone(),
@@ -185,15 +185,7 @@ pub fn fmt_expr(expr: &Expr) -> String {
             target,
             field_name,
         } => {
-            match is_op(target) {
-                Some(targetop) => {
-                    if parser::operator_strength(&targetop) < parser::operator_strength(op) {
-                        return format!("({}){}{}", fmt_expr(target), op, field_name);
-                    }
-                }
-                None => {}
-            }
-            return format!("{}{}{}", fmt_expr(target), op, field_name);
+            return format!("{}{}{}", fmt_postfix_target(target), op, field_name);
         }
         Expr::BinaryOp(x) => format_binary_op(&x),
         Expr::PrefixOp { operator, operand } => {
@@ -220,14 +212,22 @@ pub fn fmt_expr(expr: &Expr) -> String {
                         fmt_expr(&operand)
                     )
                 ),
-                _ => format!("{}{}", operator, fmt_expr(&operand)),
+                _ => {
+                    let s = fmt_expr(&operand);
+                    // -(-x) is not --x.
+                    if operator != "*" && operator != "!" && s.starts_with(operator.as_str()) {
+                        format!("{}({})", operator, s)
+                    } else {
+                        format!("{}{}", operator, s)
+                    }
+                }
             };
         }
         Expr::PostfixOp { operator, operand } => {
-            return fmt_expr(&operand) + &operator;
+            return fmt_postfix_target(&operand) + &operator;
         }
         Expr::ArrayIndex { array, index } => {
-            return format!("{}[{}]", fmt_expr(array), fmt_expr(index));
+            return format!("{}[{}]", fmt_postfix_target(array), fmt_expr(index));
         }
     }
 }
@@ -236,6 +236,16 @@ fn fmt_bare_typeform(node: &BareTypeform) -> String {
     format_type(&node.typename) + &"*".repeat(node.hops)
 }
 
+// Formats what a call, index, field access or suffix operator is applied to.
+fn fmt_postfix_target(x: &Expr) -> String {
+    match x {
+        Expr::BinaryOp(_) | Expr::PrefixOp { .. } | Expr::Cast { .. } => {
+            format!("({})", fmt_expr(x))
+        }
+        _ => fmt_expr(x),
+    }
+}
+
 fn is_binary_op(a: &Expr) -> Option<&String> {
     match a {
         Expr::BinaryOp(x) => Some(&x.op),
@@ -254,10 +264,11 @@ fn is_op(e: &Expr) -> Option<String> {
 
 fn format_binary_op(x: &c::BinaryOp) -> String {
     let op = &x.op;
-    let fmtop = |a: &Expr| {
+    let strength = parser::operator_strength(op);
+    let fmtop = |a: &Expr, weakest: usize| {
         if let Some(k) = is_op(a) {
             // Wrap weaker operands in braces to keep precedence.
-            if parser::operator_strength(&k) < parser::operator_strength(op)
+            if parser::operator_strength(&k) < weakest
 				// Wrap these bit ops too even when precedence is ok
 				// because compilers are getting paranoid.
                 || op == "&"
@@ -269,7 +280,19 @@ fn format_binary_op(x: &c::BinaryOp) -> String {
         }
         fmt_expr(a)
     };
-    format!("{} {} {}", fmtop(&x.a), op.clone(), fmtop(&x.b))
+    // Operators group from left to right, except for assignments, so an operator
+    // of the same strength on the right was in braces: a - (b - c).
+    let weakest_right = if strength == parser::operator_strength("=") {
+        strength
+    } else {
+        strength + 1
+    };
+    format!(
+        "{} {} {}",
+        fmtop(&x.a, strength),
+        op.clone(),
+        fmtop(&x.b, weakest_right)
+    )
 }
 
 fn indent(text: &str) -> String {
-- 
2.43.0


From 6319551d7a807b9a5e0899dbbec4cd2a80cdc33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:59 +0000
Subject: [PATCH 082/100] fix: a source file that ends inside a function body
 is refused, not parsed forever

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index ba65467..5a0965c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1078,7 +1078,7 @@ fn read_body(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<Body>, Error>
     let mut statements: Vec<Statement> = Vec::new();
     let mut errors = Vec::new();
     expect(l, "{", None)?;
-    while !l.follows("}") {
+    while l.more() && !l.follows("}") {
         match parse_statement(l, ctx) {
             Ok(s) => {
                 statements.push(s.obj);
-- 
2.43.0


From e348fd175af6b05772f4fb13b60e3d31eb38b788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:59 +0000
Subject: [PATCH 083/100] fix: comparison of bools has type bool

---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 1bb33c1..4e35ce7 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -235,7 +235,7 @@ pub fn typeof_cmp(a: &Type, b: &Type) -> Result<Type, String> {
         (Class::SINT, Class::SINT) => Ok(just("bool")),
         (Class::UINT, Class::UINT) => Ok(just("bool")),
         (Class::CHAR, Class::CHAR) => Ok(just("bool")),
-        (Class::BOOL, Class::BOOL) => Ok(just("boo")),
+        (Class::BOOL, Class::BOOL) => Ok(just("bool")),
 
         // num == const
         (Class::FLT | Class::SINT | Class::UINT, Class::CONSTNUM) => Ok(just("bool")),
-- 
2.43.0


From 539597cefe995e20f5c1428bacb5957aa236c235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:59 +0000
Subject: [PATCH 084/100] fix: <<= and >>= are translated

---
 src/translator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/translator.rs b/src/translator.rs
index bf7d265..603fd91 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -749,7 +749,9 @@ fn tr_binary_op(x: &nodes::BinaryOp, ctx: &mut TrCtx) -> Result<Typed<c::Expr>,
         "==" | "<" | ">" | "!=" | ">=" | "<=" => types::typeof_cmp(&at, &bt),
         "-" | "+" => types::typeof_plusminus(x.op.as_str(), &at, &bt),
         "*" | "/" | "%" | "<<" | ">>" | "&" | "|" | "^" => types::typeof_arith(&at, &bt),
-        "=" | "+=" | "-=" | "/=" | "*=" | "|=" | "%=" | "&=" | "^=" => Ok(types::just("void")),
+        "=" | "+=" | "-=" | "/=" | "*=" | "|=" | "%=" | "&=" | "^=" | "<<=" | ">>=" => {
+            Ok(types::just("void"))
+        }
         _ => {
             todo!("{} binop", x.op);
         }
-- 
2.43.0


From 4d2d2b5a6881b8c18ce51ab9cc27b08381340c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:05 +0000
Subject: [PATCH 085/100] fix: a module imported by two different relative
 paths is one module

---
 src/resolve.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index c4f295a..e7ec25a 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -1,5 +1,5 @@
 use std::env;
-use std::path::Path;
+use std::path::{Component, Path, PathBuf};
 use substring::Substring;
 
 #[derive(Clone, Debug)]
@@ -23,7 +23,7 @@ pub fn resolve_import(base_path: &str, name: &str) -> Result<ModuleRef, String>
     // it inside the lib directory.
     let path = if name.ends_with(".c") {
         let p = Path::new(base_path).parent().unwrap().join(name);
-        String::from(p.to_str().unwrap())
+        String::from(clean(&p).to_str().unwrap())
     } else {
         format!("{}/lib/{}.c", homepath(), name)
     };
@@ -35,6 +35,23 @@ pub fn resolve_import(base_path: &str, name: &str) -> Result<ModuleRef, String>
     return Ok(ModuleRef { path, ns });
 }
 
+// Removes "." and "dir/.." from the path, so that a module is the same module
+// no matter which directory it's imported from.
+fn clean(path: &Path) -> PathBuf {
+    let mut r = PathBuf::new();
+    for c in path.components() {
+        let after_dir = matches!(r.components().last(), Some(Component::Normal(_)));
+        match c {
+            Component::CurDir => {}
+            Component::ParentDir if after_dir => {
+                r.pop();
+            }
+            _ => r.push(c),
+        }
+    }
+    r
+}
+
 pub fn basename(s: &str) -> String {
     return s.split("/").last().unwrap().to_string();
 }
-- 
2.43.0


From 465f0b2e06fd9f614b13e67b7d9b621cbaf51f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:42 +0000
Subject: [PATCH 086/100] fix: an index in an array literal is translated like
 any expression

An index that was a literal ended the translation with a panic, and the
name of another module's constant was put into C without its prefix.
---
 src/translator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/translator.rs b/src/translator.rs
index 603fd91..4d2ca93 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -902,6 +902,7 @@ fn tr_comp_literal(x: &nodes::CompLiteral, ctx: &mut TrCtx) -> Result<Typed<c::E
     let mut entries = Vec::new();
     for e in &x.entries {
         let key = match &e.key {
+            Some(x) if e.is_index => Some(tr_expr(x, ctx)?.val),
             Some(x) => match x {
                 nodes::Expr::NsName(ns_name) => {
                     if ns_name.ns != "" {
-- 
2.43.0


From 50474e6b8f504570db846896c8bfae9051ca0de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:13 +0000
Subject: [PATCH 087/100] fix: the sum of a value and a constant has the type
 of the value

A signed variable plus 1 could be compared with an unsigned one, and
*(1 + p) was refused as a dereference of a number.
---
 src/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 4e35ce7..95a3969 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -205,7 +205,7 @@ pub fn typeof_plusminus(op: &str, a: &Type, b: &Type) -> Result<Type, String> {
 
         // const + T = T
         (_, Class::CONSTNUM, Class::SINT | Class::UINT | Class::FLT) => Ok(b.clone()),
-        (_, Class::SINT | Class::UINT | Class::FLT, Class::CONSTNUM) => Ok(b.clone()),
+        (_, Class::SINT | Class::UINT | Class::FLT, Class::CONSTNUM) => Ok(a.clone()),
 
         // todo + T = todo
         (_, Class::UNK, _) => Ok(a.clone()),
@@ -216,7 +216,7 @@ pub fn typeof_plusminus(op: &str, a: &Type, b: &Type) -> Result<Type, String> {
 
         // ptr + any int = ptr
         (_, Class::PTR | Class::ARR, Class::CONSTNUM | Class::SINT | Class::UINT) => Ok(a.clone()),
-        (_, Class::CONSTNUM | Class::SINT | Class::UINT, Class::PTR | Class::ARR) => Ok(a.clone()),
+        (_, Class::CONSTNUM | Class::SINT | Class::UINT, Class::PTR | Class::ARR) => Ok(b.clone()),
 
         _ => Err(format!(
             "'{}' operation between {} and {}",
-- 
2.43.0


From 3e6e0eca0fe822e629e01d7a412cb4e2db52dd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:40 +0000
Subject: [PATCH 088/100] fix: a blended pixel keeps the rest of its old color

---
 lib/image.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/image.c b/lib/image.c
index 046a20e..edc0722 100644
--- a/lib/image.c
+++ b/lib/image.c
@@ -74,7 +74,7 @@ pub void blend(image_t *img, int x, y, rgba_t color, float opacity) {
 }
 
 int blendcolor(int old, new, float opacity) {
-	float oldpart = (opacity-1) * (float) old;
+	float oldpart = (1-opacity) * (float) old;
 	float newpart = opacity * (float) new;
 	return oldpart + newpart;
 }
-- 
2.43.0


From 11d9a2420f8cf30ef3d12ac603305ccac2e8b3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:42 +0000
Subject: [PATCH 089/100] fix: PPM pixels are written as red, green, blue

---
 lib/formats/ppm.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/formats/ppm.c b/lib/formats/ppm.c
index b97700c..a0e5241 100644
--- a/lib/formats/ppm.c
+++ b/lib/formats/ppm.c
@@ -4,15 +4,14 @@
 
 pub void writeimg(image.image_t *img, FILE *f) {
 	fprintf(f, "P6\n%d %d\n255\n", img->width, img->height);
-	uint32_t buf = 0;
+	uint8_t buf[3] = {};
 	for (int y = 0; y < img->height; y++) {
 		for (int x = 0; x < img->width; x++) {
 			image.rgba_t c0 = image.get(img, x, y);
-			uint32_t ir = c0.red;
-			uint32_t ig = c0.green;
-			uint32_t ib = c0.blue;
-			buf = (ir << 16) | (ig << 8) | ib;
-			fwrite(&buf, 3, 1, f);
+			buf[0] = (uint8_t) c0.red;
+			buf[1] = (uint8_t) c0.green;
+			buf[2] = (uint8_t) c0.blue;
+			fwrite(buf, 3, 1, f);
 		}
 	}
 }
-- 
2.43.0


From 16c164537a5ec642b52cf8b91a236bde124bb42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:52 +0000
Subject: [PATCH 090/100] fix: a failed write of a BMP file is reported

---
 lib/formats/bmp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/formats/bmp.c b/lib/formats/bmp.c
index 60af9a6..9eaa5eb 100644
--- a/lib/formats/bmp.c
+++ b/lib/formats/bmp.c
@@ -75,5 +75,7 @@ pub bool write(image.image_t *img, const char *filename) {
 	}
 
 	OS.free(w);
-	return fclose(out) == 0;
+	bool ok = !ferror(out);
+	if (fclose(out) != 0) ok = false;
+	return ok;
 }
-- 
2.43.0


From a9feab603f4a68411401568976b9a71ad47c69c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:53 +0000
Subject: [PATCH 091/100] fix: a failed write of a PNG file is reported

---
 lib/formats/png.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/formats/png.c b/lib/formats/png.c
index 1897e6a..5cf23fb 100644
--- a/lib/formats/png.c
+++ b/lib/formats/png.c
@@ -183,10 +183,11 @@ pub bool write(image.image_t *img, const char *path, int mode) {
 	png_new_chunk(tmp, "IEND", 0);
 	png_end_chunk(tmp);
 
-	fclose(tmp->f);
+	bool ok = !ferror(tmp->f);
+	if (fclose(tmp->f) != 0) ok = false;
 
 	free(tmp);
-	return true;
+	return ok;
 }
 
 uint32_t pack32(image.rgba_t c) {
-- 
2.43.0


From 896f23d17b52251f9ef5afbb2a6c840e6fa3bea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:57 +0000
Subject: [PATCH 092/100] fix: exports separates parameters that share a type

---
 src/main_exports.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main_exports.rs b/src/main_exports.rs
index 7e1545c..eac8d11 100644
--- a/src/main_exports.rs
+++ b/src/main_exports.rs
@@ -50,7 +50,10 @@ fn print_exports(exports: Exports) {
                 }
                 params += &format_che::fmt_typename(&parameter.typename);
                 params += " ";
-                for form in &parameter.forms {
+                for (j, form) in parameter.forms.iter().enumerate() {
+                    if j > 0 {
+                        params += ", ";
+                    }
                     params += &format_che::fmt_form(&form);
                 }
             }
-- 
2.43.0


From aa37ef5dd36f35ed9ba8608972911c74c10576c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:28 +0000
Subject: [PATCH 093/100] fix: leaving an element of a damaged XML document
 ends

---
 lib/formats/xml.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/formats/xml.c b/lib/formats/xml.c
index 3f56f5b..7082b07 100644
--- a/lib/formats/xml.c
+++ b/lib/formats/xml.c
@@ -239,9 +239,12 @@ pub void xml_leave(xml *x)
 	/*
 	 * Skip remaining siblings
 	 */
-	while(x->node.type != T_NULL) {
+	while(x->node.type != T_NULL && !x->error[0]) {
 		xml_next(x);
 	}
+	if(x->error[0]) {
+		return;
+	}
 
 	/*
 	 * Expect closing tag for current parent
-- 
2.43.0


From 29e67fbcfeda777e276748310756e27a4e881aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:41 +0000
Subject: [PATCH 094/100] fix: a container name of any length is kept, and a
 line without spaces has an end

---
 prog/decompose/decompose.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/prog/decompose/decompose.c b/prog/decompose/decompose.c
index 83a39b2..01eb729 100644
--- a/prog/decompose/decompose.c
+++ b/prog/decompose/decompose.c
@@ -11,10 +11,11 @@ int main() {
         // color, container name, spaces, "|", ESC[0m
 		p = termcolor(p);
 
-        char name[100] = {};
+        char *name = p;
         int len = 0;
-        while (!isspace(*p)) {
-            name[len++] = *p++;
+        while (*p != '\0' && !isspace(*p)) {
+            len++;
+            p++;
         }
 
         while (isspace(*p)) p++;
@@ -24,10 +25,10 @@ int main() {
         while (isspace(*p)) p++;
 
         if (p[0] == '{') {
-            printf("{\"container\":\"%s\",", name);
+            printf("{\"container\":\"%.*s\",", len, name);
             printf("%s", &p[1]);
         } else {
-            printf("[%s] %s", name, p);
+            printf("[%.*s] %s", len, name, p);
         }
     }
 	linereader.free(lr);
-- 
2.43.0


From 74d56874aa6c73eb9154b69dd62621be8a16f16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:41 +0000
Subject: [PATCH 095/100] fix: an empty message keeps its line end

---
 prog/decompose/decompose.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prog/decompose/decompose.c b/prog/decompose/decompose.c
index 01eb729..517ac0b 100644
--- a/prog/decompose/decompose.c
+++ b/prog/decompose/decompose.c
@@ -18,11 +18,11 @@ int main() {
             p++;
         }
 
-        while (isspace(*p)) p++;
+        while (*p != '\n' && isspace(*p)) p++;
 
         if (*p == '|') p++;
         p = termcolor(p);
-        while (isspace(*p)) p++;
+        while (*p != '\n' && isspace(*p)) p++;
 
         if (p[0] == '{') {
             printf("{\"container\":\"%.*s\",", len, name);
-- 
2.43.0


From ab4ddf98f2771ed22cb15921b8be8f641862efad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:41 +0000
Subject: [PATCH 096/100] fix: decompose reports input it cannot read and
 output it cannot write

---
 prog/decompose/decompose.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prog/decompose/decompose.c b/prog/decompose/decompose.c
index 517ac0b..6a1e600 100644
--- a/prog/decompose/decompose.c
+++ b/prog/decompose/decompose.c
@@ -32,6 +32,14 @@ int main() {
         }
     }
 	linereader.free(lr);
+	if (ferror(stdin)) {
+		fprintf(stderr, "read failed\n");
+		return 1;
+	}
+	if (fflush(stdout) != 0 || ferror(stdout)) {
+		fprintf(stderr, "write failed\n");
+		return 1;
+	}
     return 0;
 }
 
-- 
2.43.0


From 5c8bd6f35bf347fec8898b815bf1ab444cd09f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:52 +0000
Subject: [PATCH 097/100] fix: an empty object with a container name is proper
 JSON

---
 prog/decompose/decompose.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prog/decompose/decompose.c b/prog/decompose/decompose.c
index 6a1e600..b19ff46 100644
--- a/prog/decompose/decompose.c
+++ b/prog/decompose/decompose.c
@@ -25,7 +25,10 @@ int main() {
         while (*p != '\n' && isspace(*p)) p++;
 
         if (p[0] == '{') {
-            printf("{\"container\":\"%.*s\",", len, name);
+            printf("{\"container\":\"%.*s\"", len, name);
+            char *q = p + 1;
+            while (isspace(*q)) q++;
+            if (*q != '}') putchar(',');
             printf("%s", &p[1]);
         } else {
             printf("[%.*s] %s", len, name, p);
-- 
2.43.0


From 4de0db4f7745a7ab86cd120da0c23827ac423227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:46 +0000
Subject: [PATCH 098/100] fix: a byte 255 is not the end of a config file

---
 lib/formats/conf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/formats/conf.c b/lib/formats/conf.c
index 1a0ec3b..663deba 100644
--- a/lib/formats/conf.c
+++ b/lib/formats/conf.c
@@ -10,7 +10,7 @@ pub typedef {
 } reader_t;
 
 int peek(FILE *f) {
-    char c = getc(f);
+    int c = getc(f);
     if (c != EOF) ungetc(c, f);
     return c;
 }
@@ -73,7 +73,7 @@ void next_line(reader_t *p, char *buf, size_t bufsize) {
     while (isspace(peek(p->f))) getc(p->f);
 
 	while (!feof (p->f)) {
-		char c = getc (p->f);
+		int c = getc (p->f);
 		if (c == EOF) {
 			*ptr = 0;
 			return;
-- 
2.43.0


From d38e3c1bca36789a2d3d200791396d13db40f67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:46 +0000
Subject: [PATCH 099/100] fix: a config file that cannot be read is an error
 and not an endless loop

---
 lib/formats/conf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/formats/conf.c b/lib/formats/conf.c
index 663deba..b068539 100644
--- a/lib/formats/conf.c
+++ b/lib/formats/conf.c
@@ -36,6 +36,10 @@ pub bool next(reader_t *p) {
 	char line[256] = {};
 	while (!feof (p->f)) {
 		next_line(p, line, sizeof(line));
+		if (ferror(p->f)) {
+			fprintf (stderr, "config read error at line %d\n", p->line);
+			exit (1);
+		}
 		if (line[0] == '\0') {
 			continue;
 		}
-- 
2.43.0


From d2122d54817791d93bef6e147bc4c336c117d968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:46 +0000
Subject: [PATCH 100/100] fix: config keys and values that are too long are
 refused

---
 lib/formats/conf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/formats/conf.c b/lib/formats/conf.c
index b068539..363db8c 100644
--- a/lib/formats/conf.c
+++ b/lib/formats/conf.c
@@ -61,6 +61,10 @@ pub bool next(reader_t *p) {
 			exit (1);
 		}
 
+		if (strlen(base) >= sizeof(p->key) || strlen(ptr) >= sizeof(p->val)) {
+			fprintf (stderr, "config key or value too long at line %d\n", p->line);
+			exit (1);
+		}
 		strcpy(p->key, base);
 		strcpy(p->val, ptr);
 		return 1;
-- 
2.43.0

