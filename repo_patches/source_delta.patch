From 6e2a216bc795004f25f6ce69f11603c338d71b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:39 +0000
Subject: [PATCH 01/73] fix: count call depth per thread in the recursion guard

gray_call_depth was one plain global shared by all threads, so several
threads that each stay far below the limit were stopped with P0003, and
unsynchronised increments could make the count drift.
---
 grayc/src/runtime/runtime.c | 2 +-
 grayc/src/runtime/runtime.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/grayc/src/runtime/runtime.c b/grayc/src/runtime/runtime.c
index 497b268..e634665 100644
--- a/grayc/src/runtime/runtime.c
+++ b/grayc/src/runtime/runtime.c
@@ -207,7 +207,7 @@ void gray_scope_restore(GrayArena *arena, GrayScopeMark mark) {
 }
 
 /* --- Stack depth guard --- */
-int gray_call_depth = 0;
+_Thread_local int gray_call_depth = 0;
 
 /* --- Runtime Init/Shutdown --- */
 
diff --git a/grayc/src/runtime/runtime.h b/grayc/src/runtime/runtime.h
index a180ac8..d35389a 100644
--- a/grayc/src/runtime/runtime.h
+++ b/grayc/src/runtime/runtime.h
@@ -152,7 +152,7 @@ void gray_panic_code_at(const char *file, int line, const char *code, const char
 /* --- Stack depth guard --- */
 
 #define GRAY_MAX_CALL_DEPTH 10000
-extern int gray_call_depth;
+extern _Thread_local int gray_call_depth;
 
 static inline void gray_enter_func(const char *file, int line) {
     if (++gray_call_depth > GRAY_MAX_CALL_DEPTH) {
-- 
2.43.0


From cc92ad7fbad7d83107bb350b5d876015dedc0838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:39 +0000
Subject: [PATCH 02/73] fix: give every spawned thread its own heap arena

new() in a spawned thread dereferenced a NULL gray_heap_arena and crashed.
STANDARD.md 11.8 promises each thread an independent pair of arenas.
---
 grayc/src/stdlib/threads.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/grayc/src/stdlib/threads.c b/grayc/src/stdlib/threads.c
index 73c29ec..2ff843d 100644
--- a/grayc/src/stdlib/threads.c
+++ b/grayc/src/stdlib/threads.c
@@ -36,6 +36,9 @@ static void *thread_entry(void *raw) {
     ThreadArg *ta = (ThreadArg *)raw;
     GrayThreadInternal *state = ta->state;
     gray_default_arena = gray_arena_create(GRAY_DEFAULT_ARENA_SIZE);
+    /* Backs new() in this thread. Starts small: most threads never use it. */
+    gray_heap_arena = gray_arena_create(GRAY_MIN_ARENA_SIZE);
+    gray_heap_arena->default_block_size = GRAY_DEFAULT_ARENA_SIZE;
     if (ta->fn1)
         ta->fn1(ta->arg);
     else
@@ -43,6 +46,13 @@ static void *thread_entry(void *raw) {
     gray_arena_destroy(gray_default_arena, __FILE__, __LINE__);
     free(gray_default_arena);
     gray_default_arena = NULL;
+    /* Pointers returned by new() stay valid until the program exits, so the
+     * heap arena is released only when nothing was allocated from it. */
+    if (gray_arena_usage(gray_heap_arena) == 0) {
+        gray_arena_destroy(gray_heap_arena, __FILE__, __LINE__);
+        free(gray_heap_arena);
+    }
+    gray_heap_arena = NULL;
     atomic_fetch_sub(&gray_threads_live_count, 1);
     atomic_store(&state->alive, 0);
     /* If detached, the state struct's lifetime ends here too. */
-- 
2.43.0


From 55151eef1373eb75a6ec8ccdb5b2df1037ced5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:39 +0000
Subject: [PATCH 03/73] fix: free a detached thread's state exactly once

detach() and the exiting thread each decided from two separate flags who
frees the shared state: depending on timing both did (double free), neither
did (leak), or detach() used the state after the thread had freed it.
---
 grayc/src/stdlib/threads.c | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/grayc/src/stdlib/threads.c b/grayc/src/stdlib/threads.c
index 2ff843d..8abf223 100644
--- a/grayc/src/stdlib/threads.c
+++ b/grayc/src/stdlib/threads.c
@@ -19,7 +19,8 @@
 typedef struct {
     pthread_t pt;
     _Atomic int alive;       /* 1 between entry and exit, 0 otherwise */
-    _Atomic int detached;    /* 1 once detach() has been called */
+    _Atomic int owners;      /* the running thread and the handle; the last
+                                one to let go frees the struct */
 } GrayThreadInternal;
 
 static _Atomic int64_t gray_threads_live_count = 0;
@@ -32,6 +33,10 @@ typedef struct {
     GrayThreadInternal *state;
 } ThreadArg;
 
+static void release_state(GrayThreadInternal *state) {
+    if (atomic_fetch_sub(&state->owners, 1) == 1) free(state);
+}
+
 static void *thread_entry(void *raw) {
     ThreadArg *ta = (ThreadArg *)raw;
     GrayThreadInternal *state = ta->state;
@@ -55,8 +60,7 @@ static void *thread_entry(void *raw) {
     gray_heap_arena = NULL;
     atomic_fetch_sub(&gray_threads_live_count, 1);
     atomic_store(&state->alive, 0);
-    /* If detached, the state struct's lifetime ends here too. */
-    if (atomic_load(&state->detached)) free(state);
+    release_state(state);
     free(ta);
     return NULL;
 }
@@ -67,7 +71,7 @@ static GrayThread spawn_thread(ThreadArg *ta) {
      * after spawn() returns; otherwise callers race the scheduler. The
      * thread wrapper clears it on exit. */
     atomic_store(&state->alive, 1);
-    atomic_store(&state->detached, 0);
+    atomic_store(&state->owners, 2);
     atomic_fetch_add(&gray_threads_live_count, 1);
     pthread_create(&state->pt, NULL, thread_entry, ta);
     GrayThread t;
@@ -97,24 +101,16 @@ void gray_threads_join(GrayThread t) {
     if (!t._internal) return;
     GrayThreadInternal *state = (GrayThreadInternal *)t._internal;
     pthread_join(state->pt, NULL);
-    free(state);
+    release_state(state);
 }
 
 void gray_threads_detach(GrayThread t) {
     if (!t._internal) return;
     GrayThreadInternal *state = (GrayThreadInternal *)t._internal;
-    atomic_store(&state->detached, 1);
-    /* If the thread already exited before detach() was called, the entry
-     * function already saw detached=0 and won't free the struct — free
-     * it here. Otherwise the entry function frees it once it finishes. */
-    if (!atomic_load(&state->alive)) {
-        /* Race-safe: pthread_detach is idempotent for a finished thread,
-         * and we only free in the branch where alive was already 0. */
-        pthread_detach(state->pt);
-        free(state);
-    } else {
-        pthread_detach(state->pt);
-    }
+    /* Drop the handle's ownership only after the last use of state: whoever
+     * of the handle and the exiting thread comes second frees the struct. */
+    pthread_detach(state->pt);
+    release_state(state);
 }
 
 bool gray_threads_is_alive(GrayThread t) {
-- 
2.43.0


From 4e8d49c8214b092a8d4111d34968f03d0dff966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:07 +0000
Subject: [PATCH 04/73] fix: stop with the out-of-memory message when a
 channel, lock, thread or router cannot be allocated

These allocations were used unchecked, so a refused allocation crashed the
program, and an enormous channel capacity wrapped to a tiny buffer.
---
 grayc/src/runtime/runtime.c | 5 +++++
 grayc/src/runtime/runtime.h | 3 +++
 grayc/src/stdlib/atomic.c   | 2 ++
 grayc/src/stdlib/channels.c | 2 ++
 grayc/src/stdlib/server.c   | 2 ++
 grayc/src/stdlib/sync.c     | 1 +
 grayc/src/stdlib/threads.c  | 4 ++++
 7 files changed, 19 insertions(+)

diff --git a/grayc/src/runtime/runtime.c b/grayc/src/runtime/runtime.c
index e634665..ebdcf68 100644
--- a/grayc/src/runtime/runtime.c
+++ b/grayc/src/runtime/runtime.c
@@ -272,3 +272,8 @@ void gray_panic_code_at(const char *file, int line, const char *code, const char
     fprintf(stderr, "%s\n", c ? P_RESET : "");
     exit(1);
 }
+
+void gray_out_of_memory(void) {
+    fprintf(stderr, "Grayscale runtime: out of memory\n");
+    exit(1);
+}
diff --git a/grayc/src/runtime/runtime.h b/grayc/src/runtime/runtime.h
index d35389a..0ecf7ca 100644
--- a/grayc/src/runtime/runtime.h
+++ b/grayc/src/runtime/runtime.h
@@ -149,6 +149,9 @@ void gray_panic_code(const char *code, const char *fmt, ...)
 void gray_panic_code_at(const char *file, int line, const char *code, const char *fmt, ...)
     __attribute__((format(printf, 4, 5), noreturn));
 
+/* Report that the system refused an allocation and stop the program. */
+void gray_out_of_memory(void) __attribute__((noreturn));
+
 /* --- Stack depth guard --- */
 
 #define GRAY_MAX_CALL_DEPTH 10000
diff --git a/grayc/src/stdlib/atomic.c b/grayc/src/stdlib/atomic.c
index e0fdf9c..edf43d6 100644
--- a/grayc/src/stdlib/atomic.c
+++ b/grayc/src/stdlib/atomic.c
@@ -10,6 +10,7 @@
  */
 
 #include "atomic_mod.h"
+#include "../runtime/runtime.h"
 #include <stdlib.h>
 
 /* 64-bit atomics */
@@ -28,6 +29,7 @@ int64_t gray_atomic_mod_xor(int64_t *ptr, int64_t val) { return gray_atomic_xor(
 
 GraySpinLock gray_atomic_mod_spinlock(void) {
     int32_t *lock = malloc(sizeof(int32_t));
+    if (!lock) gray_out_of_memory();
     *lock = 0;
     GraySpinLock result;
     result._internal = lock;
diff --git a/grayc/src/stdlib/channels.c b/grayc/src/stdlib/channels.c
index 5adcb99..9979371 100644
--- a/grayc/src/stdlib/channels.c
+++ b/grayc/src/stdlib/channels.c
@@ -27,7 +27,9 @@ typedef struct {
 GrayChannel gray_channels_open(int64_t capacity) {
     if (capacity < 1) capacity = 1;
     GrayChannelInternal *ch = malloc(sizeof(GrayChannelInternal));
+    if (!ch || (size_t)capacity > SIZE_MAX / sizeof(int64_t)) gray_out_of_memory();
     ch->buffer = malloc(sizeof(int64_t) * (size_t)capacity);
+    if (!ch->buffer) gray_out_of_memory();
     ch->capacity = capacity;
     ch->count = 0;
     ch->head = 0;
diff --git a/grayc/src/stdlib/server.c b/grayc/src/stdlib/server.c
index 94c1b64..e638d1a 100644
--- a/grayc/src/stdlib/server.c
+++ b/grayc/src/stdlib/server.c
@@ -73,6 +73,7 @@ GrayRouter gray_server_router(void) {
     r.count = 0;
     r.capacity = GRAY_ROUTER_INITIAL_CAP;
     r.routes = malloc(sizeof(GrayRoute) * r.capacity);
+    if (!r.routes) gray_out_of_memory();
     r.cors_origin = NULL;
     r.middlewares = NULL;
     r.mw_count = 0;
@@ -125,6 +126,7 @@ void gray_server_use(GrayRouter *r, GrayMiddleware fn) {
     if (r->mw_count >= r->mw_capacity) {
         r->mw_capacity = r->mw_capacity == 0 ? 8 : r->mw_capacity * 2;
         r->middlewares = realloc(r->middlewares, sizeof(GrayMiddleware) * r->mw_capacity);
+        if (!r->middlewares) gray_out_of_memory();
     }
     r->middlewares[r->mw_count++] = fn;
 }
diff --git a/grayc/src/stdlib/sync.c b/grayc/src/stdlib/sync.c
index c69fe6f..bba105d 100644
--- a/grayc/src/stdlib/sync.c
+++ b/grayc/src/stdlib/sync.c
@@ -14,6 +14,7 @@
 
 GrayMutex gray_sync_mutex(void) {
     pthread_mutex_t *m = malloc(sizeof(pthread_mutex_t));
+    if (!m) gray_out_of_memory();
     pthread_mutex_init(m, NULL);
     GrayMutex result;
     result._internal = m;
diff --git a/grayc/src/stdlib/threads.c b/grayc/src/stdlib/threads.c
index 8abf223..0f0f438 100644
--- a/grayc/src/stdlib/threads.c
+++ b/grayc/src/stdlib/threads.c
@@ -81,19 +81,23 @@ static GrayThread spawn_thread(ThreadArg *ta) {
 
 GrayThread gray_threads_spawn(void (*fn)(void)) {
     ThreadArg *ta = malloc(sizeof(ThreadArg));
+    if (!ta) gray_out_of_memory();
     ta->fn0 = fn;
     ta->fn1 = NULL;
     ta->arg = 0;
     ta->state = malloc(sizeof(GrayThreadInternal));
+    if (!ta->state) gray_out_of_memory();
     return spawn_thread(ta);
 }
 
 GrayThread gray_threads_spawn_arg(void (*fn)(int64_t), int64_t arg) {
     ThreadArg *ta = malloc(sizeof(ThreadArg));
+    if (!ta) gray_out_of_memory();
     ta->fn0 = NULL;
     ta->fn1 = fn;
     ta->arg = arg;
     ta->state = malloc(sizeof(GrayThreadInternal));
+    if (!ta->state) gray_out_of_memory();
     return spawn_thread(ta);
 }
 
-- 
2.43.0


From 54a57f9df1d7575010283a651464bfdbea9767f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:18 +0000
Subject: [PATCH 05/73] fix: stop with an error when threads.spawn cannot
 create a thread

A failed pthread_create was ignored, so the program used a thread that does
not exist: join was called on an uninitialised handle.
---
 ERRORS.md                    | 1 +
 grayc/src/stdlib/threads.c   | 6 +++++-
 grayc/src/util/error_codes.h | 3 ++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ERRORS.md b/ERRORS.md
index f1f53df..9cf316f 100644
--- a/ERRORS.md
+++ b/ERRORS.md
@@ -395,6 +395,7 @@ Runtime panics are fatal errors that terminate the program immediately. They are
 | `P0099` | arithmetic | cast from u256 failed; value exceeds the representable range of int64 |
 | `P0100` | arithmetic | cast from u256 failed; value exceeds the representable range of uint64 |
 | `P0101` | server | server.cors: origin contains CR or LF — HTTP header injection is not allowed |
+| `P0102` | threads | threads.spawn() could not create a thread |
 
 ---
 
diff --git a/grayc/src/stdlib/threads.c b/grayc/src/stdlib/threads.c
index 0f0f438..fe2fbca 100644
--- a/grayc/src/stdlib/threads.c
+++ b/grayc/src/stdlib/threads.c
@@ -12,6 +12,7 @@
 #include <pthread.h>
 #include <sched.h>
 #include <stdlib.h>
+#include <string.h>
 #include <stdatomic.h>
 #include <time.h>
 #include <errno.h>
@@ -73,7 +74,10 @@ static GrayThread spawn_thread(ThreadArg *ta) {
     atomic_store(&state->alive, 1);
     atomic_store(&state->owners, 2);
     atomic_fetch_add(&gray_threads_live_count, 1);
-    pthread_create(&state->pt, NULL, thread_entry, ta);
+    int rc = pthread_create(&state->pt, NULL, thread_entry, ta);
+    if (rc != 0) {
+        gray_panic_code("P0102", "threads.spawn() could not create a thread: %s", strerror(rc));
+    }
     GrayThread t;
     t._internal = state;
     return t;
diff --git a/grayc/src/util/error_codes.h b/grayc/src/util/error_codes.h
index 2f6716b..9bcec9a 100644
--- a/grayc/src/util/error_codes.h
+++ b/grayc/src/util/error_codes.h
@@ -395,7 +395,8 @@
     GRAY_PANIC("P0098", "arithmetic", "cast from i256 failed; value is negative or outside the representable range of uint64") \
     GRAY_PANIC("P0099", "arithmetic", "cast from u256 failed; value exceeds the representable range of int64") \
     GRAY_PANIC("P0100", "arithmetic", "cast from u256 failed; value exceeds the representable range of uint64") \
-    GRAY_PANIC("P0101", "server",     "server.cors: origin contains CR or LF — HTTP header injection is not allowed")
+    GRAY_PANIC("P0101", "server",     "server.cors: origin contains CR or LF — HTTP header injection is not allowed") \
+    GRAY_PANIC("P0102", "threads",    "threads.spawn() could not create a thread")
 
 /* --- Warnings --- */
 #define GRAY_WARNINGS \
-- 
2.43.0


From f8f7800ab7224d29eb077308ccb377271291465a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:21 +0000
Subject: [PATCH 06/73] fix: convert times in a per-thread buffer

localtime() returns one static struct shared by all threads, so a thread
formatting a date could print another thread's.
---
 grayc/src/stdlib/time.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/grayc/src/stdlib/time.c b/grayc/src/stdlib/time.c
index 09b98be..1d6f3b5 100644
--- a/grayc/src/stdlib/time.c
+++ b/grayc/src/stdlib/time.c
@@ -31,7 +31,9 @@ int64_t gray_time_now_ns(void) {
 
 static struct tm *get_tm(int64_t ts) {
     time_t t = (time_t)ts;
-    return localtime(&t);
+    /* localtime() shares one buffer between all threads */
+    static _Thread_local struct tm result;
+    return localtime_r(&t, &result);
 }
 
 int64_t gray_time_year(int64_t ts) { return get_tm(ts)->tm_year + 1900; }
-- 
2.43.0


From 38167908e6d2a4d191ef1fb799e374a0605af8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:15 +0000
Subject: [PATCH 07/73] fix: report failed file writes

The error-returning forms of write_file and write_bytes and csv.write_file
ignored short writes, and every form ignored errors reported on closing the
file, so a full disk was reported as success.
---
 grayc/src/stdlib/csv.c |  6 +++---
 grayc/src/stdlib/io.c  | 26 ++++++++++++++++++--------
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/grayc/src/stdlib/csv.c b/grayc/src/stdlib/csv.c
index d23b14e..5802f87 100644
--- a/grayc/src/stdlib/csv.c
+++ b/grayc/src/stdlib/csv.c
@@ -129,9 +129,9 @@ bool gray_csv_write(GrayArena *arena, GrayString path, GrayArray *data) {
     GrayString csv = gray_csv_stringify(arena, data);
     FILE *f = fopen(path.data, "wb");
     if (!f) return false;
-    fwrite(csv.data, 1, (size_t)csv.len, f);
-    fclose(f);
-    return true;
+    size_t written = fwrite(csv.data, 1, (size_t)csv.len, f);
+    if (fclose(f) != 0) return false;
+    return written == (size_t)csv.len;
 }
 
 /* _result variants */
diff --git a/grayc/src/stdlib/io.c b/grayc/src/stdlib/io.c
index 4535ae6..7b9db68 100644
--- a/grayc/src/stdlib/io.c
+++ b/grayc/src/stdlib/io.c
@@ -338,7 +338,8 @@ bool gray_io_write_file(GrayString path, GrayString content) {
     FILE *f = fopen(path.data, "wb");
     if (!f) return false;
     size_t written = fwrite(content.data, 1, (size_t)content.len, f);
-    fclose(f);
+    /* The last part only reaches the file when the stream is closed */
+    if (fclose(f) != 0) return false;
     return written == (size_t)content.len;
 }
 
@@ -349,7 +350,8 @@ bool gray_io_append_file(GrayString path, GrayString content) {
     FILE *f = fopen(path.data, "ab");
     if (!f) return false;
     size_t written = fwrite(content.data, 1, (size_t)content.len, f);
-    fclose(f);
+    /* The last part only reaches the file when the stream is closed */
+    if (fclose(f) != 0) return false;
     return written == (size_t)content.len;
 }
 
@@ -360,7 +362,7 @@ bool gray_io_write_bytes(GrayString path, GrayArray data) {
     FILE *f = fopen(path.data, "wb");
     if (!f) return false;
     size_t written = fwrite(data.data, 1, (size_t)data.len, f);
-    fclose(f);
+    if (fclose(f) != 0) return false;
     return written == (size_t)data.len;
 }
 
@@ -371,7 +373,7 @@ bool gray_io_append_bytes(GrayString path, GrayArray data) {
     FILE *f = fopen(path.data, "ab");
     if (!f) return false;
     size_t written = fwrite(data.data, 1, (size_t)data.len, f);
-    fclose(f);
+    if (fclose(f) != 0) return false;
     return written == (size_t)data.len;
 }
 
@@ -631,8 +633,12 @@ GrayResult_bool gray_io_write_file_result(GrayArena *arena, GrayString path, Gra
         r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot write '%s'", path.data));
         return r;
     }
-    fwrite(content.data, 1, (size_t)content.len, f);
-    fclose(f);
+    size_t written = fwrite(content.data, 1, (size_t)content.len, f);
+    if (fclose(f) != 0 || written != (size_t)content.len) {
+        r.v0 = false;
+        r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot write '%s'", path.data));
+        return r;
+    }
     r.v0 = true;
     r.v1 = NULL;
     return r;
@@ -892,8 +898,12 @@ GrayResult_bool gray_io_write_bytes_result(GrayArena *arena, GrayString path, Gr
         r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot write '%s'", path.data));
         return r;
     }
-    fwrite(data.data, 1, (size_t)data.len, f);
-    fclose(f);
+    size_t written = fwrite(data.data, 1, (size_t)data.len, f);
+    if (fclose(f) != 0 || written != (size_t)data.len) {
+        r.v0 = false;
+        r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot write '%s'", path.data));
+        return r;
+    }
     r.v0 = true;
     r.v1 = NULL;
     return r;
-- 
2.43.0


From e831fdaf96fc6b8e2a93b9f00c996a9cff7734e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:31 +0000
Subject: [PATCH 08/73] fix: report read errors instead of returning part of a
 file

The file-reading functions took a read error for the end of the file and
returned what had been read so far as if it were everything. CSV reading also
wrote past its buffer when the file was not seekable; it now uses the io
reader.
---
 ERRORS.md                    |  1 +
 grayc/src/stdlib/csv.c       | 20 +++++---------------
 grayc/src/stdlib/io.c        | 24 ++++++++++++++++++++++++
 grayc/src/util/error_codes.h |  3 ++-
 4 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/ERRORS.md b/ERRORS.md
index 9cf316f..f116938 100644
--- a/ERRORS.md
+++ b/ERRORS.md
@@ -396,6 +396,7 @@ Runtime panics are fatal errors that terminate the program immediately. They are
 | `P0100` | arithmetic | cast from u256 failed; value exceeds the representable range of uint64 |
 | `P0101` | server | server.cors: origin contains CR or LF — HTTP header injection is not allowed |
 | `P0102` | threads | threads.spawn() could not create a thread |
+| `P0103` | io | io.%s() failed while reading '%s' |
 
 ---
 
diff --git a/grayc/src/stdlib/csv.c b/grayc/src/stdlib/csv.c
index 5802f87..f467f55 100644
--- a/grayc/src/stdlib/csv.c
+++ b/grayc/src/stdlib/csv.c
@@ -9,6 +9,7 @@
  */
 
 #include "csv.h"
+#include "io.h"
 #include <string.h>
 #include <stdio.h>
 
@@ -112,17 +113,7 @@ GrayArray gray_csv_headers(GrayArena *arena, GrayArray *data) {
 }
 
 GrayArray gray_csv_read(GrayArena *arena, GrayString path) {
-    FILE *f = fopen(path.data, "rb");
-    if (!f) return gray_array_new(arena, sizeof(GrayArray), 1);
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-    char *content = gray_arena_alloc(arena, (size_t)size + 1);
-    size_t read = fread(content, 1, (size_t)size, f);
-    content[read] = '\0';
-    fclose(f);
-    GrayString s = { content, (int32_t)read };
-    return gray_csv_parse(arena, s);
+    return gray_csv_parse(arena, gray_io_read_file(arena, path));
 }
 
 bool gray_csv_write(GrayArena *arena, GrayString path, GrayArray *data) {
@@ -138,14 +129,13 @@ bool gray_csv_write(GrayArena *arena, GrayString path, GrayArray *data) {
 
 GrayResult_array gray_csv_read_result(GrayArena *arena, GrayString path) {
     GrayResult_array r;
-    FILE *f = fopen(path.data, "rb");
-    if (!f) {
+    GrayResult_string content = gray_io_read_file_result(arena, path);
+    if (content.v1 != NULL) {
         r.v0 = gray_array_new(arena, sizeof(GrayArray), 0);
         r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot read CSV file '%s'", path.data));
         return r;
     }
-    fclose(f);
-    r.v0 = gray_csv_read(arena, path);
+    r.v0 = gray_csv_parse(arena, content.v0);
     r.v1 = NULL;
     return r;
 }
diff --git a/grayc/src/stdlib/io.c b/grayc/src/stdlib/io.c
index 7b9db68..eb2e2cd 100644
--- a/grayc/src/stdlib/io.c
+++ b/grayc/src/stdlib/io.c
@@ -224,7 +224,9 @@ GrayString gray_io_read_file(GrayArena *arena, GrayString path) {
         char *buf = gray_arena_alloc(arena, (size_t)size + 1);
         size_t read = fread(buf, 1, (size_t)size, f);
         buf[read] = '\0';
+        bool failed = ferror(f) != 0;
         fclose(f);
+        if (failed) gray_panic_code("P0103", "io.read_file() failed while reading '%s'", path.data);
         return (GrayString){ buf, (int32_t)read };
     }
 
@@ -249,6 +251,7 @@ GrayString gray_io_read_file(GrayArena *arena, GrayString path) {
         if (got == 0) break;
         len += got;
     }
+    bool failed = ferror(f) != 0;
     if (len == capacity) {
         char *grow = gray_arena_alloc(arena, len + 1);
         memcpy(grow, buf, len);
@@ -256,6 +259,7 @@ GrayString gray_io_read_file(GrayArena *arena, GrayString path) {
     }
     buf[len] = '\0';
     fclose(f);
+    if (failed) gray_panic_code("P0103", "io.read_file() failed while reading '%s'", path.data);
     return (GrayString){ buf, (int32_t)len };
 }
 
@@ -272,7 +276,9 @@ GrayArray gray_io_read_bytes(GrayArena *arena, GrayString path) {
         for (size_t i = 0; i < n; i++)
             gray_array_push(arena, &arr, &buf[i]);
     }
+    bool failed = ferror(f) != 0;
     fclose(f);
+    if (failed) gray_panic_code("P0103", "io.read_bytes() failed while reading '%s'", path.data);
     return arr;
 }
 
@@ -574,7 +580,13 @@ GrayResult_string gray_io_read_file_result(GrayArena *arena, GrayString path) {
         char *buf = gray_arena_alloc(arena, (size_t)size + 1);
         size_t bytes = fread(buf, 1, (size_t)size, f);
         buf[bytes] = '\0';
+        bool failed = ferror(f) != 0;
         fclose(f);
+        if (failed) {
+            r.v0 = gray_string_lit("");
+            r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot read '%s': read error", path.data));
+            return r;
+        }
         r.v0 = (GrayString){ buf, (int32_t)bytes };
         r.v1 = NULL;
         return r;
@@ -606,6 +618,7 @@ GrayResult_string gray_io_read_file_result(GrayArena *arena, GrayString path) {
         if (got == 0) break;
         len += got;
     }
+    bool failed = ferror(f) != 0;
     if (len == capacity) {
         char *grow = gray_arena_alloc(arena, len + 1);
         memcpy(grow, buf, len);
@@ -613,6 +626,11 @@ GrayResult_string gray_io_read_file_result(GrayArena *arena, GrayString path) {
     }
     buf[len] = '\0';
     fclose(f);
+    if (failed) {
+        r.v0 = gray_string_lit("");
+        r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot read '%s': read error", path.data));
+        return r;
+    }
     r.v0 = (GrayString){ buf, (int32_t)len };
     r.v1 = NULL;
     return r;
@@ -823,7 +841,13 @@ GrayResult_array gray_io_read_bytes_result(GrayArena *arena, GrayString path) {
         for (size_t i = 0; i < n; i++)
             gray_array_push(arena, &r.v0, &buf[i]);
     }
+    bool failed = ferror(f) != 0;
     fclose(f);
+    if (failed) {
+        r.v0 = gray_array_new(arena, (int32_t)sizeof(uint8_t), 0);
+        r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot read '%s': read error", path.data));
+        return r;
+    }
     r.v1 = NULL;
     return r;
 }
diff --git a/grayc/src/util/error_codes.h b/grayc/src/util/error_codes.h
index 9bcec9a..951cb8b 100644
--- a/grayc/src/util/error_codes.h
+++ b/grayc/src/util/error_codes.h
@@ -396,7 +396,8 @@
     GRAY_PANIC("P0099", "arithmetic", "cast from u256 failed; value exceeds the representable range of int64") \
     GRAY_PANIC("P0100", "arithmetic", "cast from u256 failed; value exceeds the representable range of uint64") \
     GRAY_PANIC("P0101", "server",     "server.cors: origin contains CR or LF — HTTP header injection is not allowed") \
-    GRAY_PANIC("P0102", "threads",    "threads.spawn() could not create a thread")
+    GRAY_PANIC("P0102", "threads",    "threads.spawn() could not create a thread") \
+    GRAY_PANIC("P0103", "io",        "io.%s() failed while reading '%s'")
 
 /* --- Warnings --- */
 #define GRAY_WARNINGS \
-- 
2.43.0


From f4423538180a6e7b6e8cbad97385aadad8d2ffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:31 +0000
Subject: [PATCH 09/73] fix: copy_file and move_file keep the source until the
 copy is complete

A read error or a failed close was reported as a complete copy, after which
move_file deleted the source; copying a file onto itself (same path or a
link) emptied it.
---
 grayc/src/stdlib/io.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/grayc/src/stdlib/io.c b/grayc/src/stdlib/io.c
index eb2e2cd..1d678b3 100644
--- a/grayc/src/stdlib/io.c
+++ b/grayc/src/stdlib/io.c
@@ -418,6 +418,13 @@ bool gray_io_copy_file(GrayString src, GrayString dst) {
         gray_panic_code("P0089", "io.copy_file() cannot copy a directory; use io.walk() to enumerate files and copy them individually");
     FILE *in = fopen(src.data, "rb");
     if (!in) return false;
+    /* Opening the destination truncates it: never do that to the source */
+    struct stat in_st, dst_st;
+    if (fstat(fileno(in), &in_st) != 0 ||
+        (stat(dst.data, &dst_st) == 0 && in_st.st_dev == dst_st.st_dev && in_st.st_ino == dst_st.st_ino)) {
+        fclose(in);
+        return false;
+    }
     int out_fd = open(dst.data, O_WRONLY | O_CREAT | O_TRUNC, GRAY_IO_FILE_MODE);
     if (out_fd < 0) { fclose(in); return false; }
     FILE *out = fdopen(out_fd, "wb");
@@ -428,16 +435,16 @@ bool gray_io_copy_file(GrayString src, GrayString dst) {
     while ((n = fread(buf, 1, sizeof(buf), in)) > 0) {
         if (fwrite(buf, 1, n, out) != n) { ok = false; break; }
     }
+    if (ferror(in)) ok = false;
     fclose(in);
-    fclose(out);
+    if (fclose(out) != 0) ok = false;
     return ok;
 }
 
 bool gray_io_move_file(GrayString src, GrayString dst) {
     if (rename(src.data, dst.data) == 0) return true;
     if (!gray_io_copy_file(src, dst)) return false;
-    unlink(src.data);
-    return true;
+    return unlink(src.data) == 0;
 }
 
 /* ---- Directory operations ---- */
-- 
2.43.0


From c1d43e447a8fa1d2af772bd66fc75a8e4eaccfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:51 +0000
Subject: [PATCH 10/73] fix: directory functions never follow links when
 deleting and report incomplete results

remove_dir_all followed symbolic links and deleted files outside the
directory, and could act on a truncated path. make_dir_all reported success
when a file is in the way. list_dir and walk presented what could be read of a
directory as all of it.
---
 grayc/src/stdlib/io.c | 64 +++++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/grayc/src/stdlib/io.c b/grayc/src/stdlib/io.c
index 1d678b3..aaf4063 100644
--- a/grayc/src/stdlib/io.c
+++ b/grayc/src/stdlib/io.c
@@ -449,17 +449,25 @@ bool gray_io_move_file(GrayString src, GrayString dst) {
 
 /* ---- Directory operations ---- */
 
-GrayArray gray_io_list_dir(GrayArena *arena, GrayString path) {
-    GrayArray arr = gray_array_new(arena, (int32_t)sizeof(GrayString), 16);
-    DIR *d = opendir(path.data);
-    if (!d) return arr;
+/* Appends the entries of a directory to out; false when it cannot be opened
+ * or read to the end. */
+static bool list_dir_into(GrayArena *arena, const char *path, GrayArray *out) {
+    DIR *d = opendir(path);
+    if (!d) return false;
     struct dirent *ent;
-    while ((ent = readdir(d)) != NULL) {
+    while ((errno = 0, ent = readdir(d)) != NULL) {
         if (strcmp(ent->d_name, ".") == 0 || strcmp(ent->d_name, "..") == 0) continue;
         GrayString name = gray_string_format(arena, "%s", ent->d_name);
-        gray_array_push(arena, &arr, &name);
+        gray_array_push(arena, out, &name);
     }
+    bool ok = errno == 0;
     closedir(d);
+    return ok;
+}
+
+GrayArray gray_io_list_dir(GrayArena *arena, GrayString path) {
+    GrayArray arr = gray_array_new(arena, (int32_t)sizeof(GrayString), 16);
+    list_dir_into(arena, path.data, &arr);
     return arr;
 }
 
@@ -480,7 +488,9 @@ bool gray_io_make_dir_all(GrayString path) {
             *p = '/';
         }
     }
-    return mkdir(buf, GRAY_IO_DIR_MODE) == 0 || errno == EEXIST;
+    if (mkdir(buf, GRAY_IO_DIR_MODE) == 0) return true;
+    struct stat st;
+    return errno == EEXIST && stat(buf, &st) == 0 && S_ISDIR(st.st_mode);
 }
 
 bool gray_io_remove_dir(GrayString path) {
@@ -495,9 +505,11 @@ static bool remove_dir_recursive(const char *path) {
     while ((ent = readdir(d)) != NULL) {
         if (strcmp(ent->d_name, ".") == 0 || strcmp(ent->d_name, "..") == 0) continue;
         char child[GRAY_IO_PATH_BUF];
-        snprintf(child, sizeof(child), "%s/%s", path, ent->d_name);
+        int n = snprintf(child, sizeof(child), "%s/%s", path, ent->d_name);
+        if (n < 0 || (size_t)n >= sizeof(child)) { ok = false; continue; }
         struct stat st;
-        if (stat(child, &st) != 0) { ok = false; continue; }
+        /* lstat: a symbolic link is removed, not what it points to */
+        if (lstat(child, &st) != 0) { ok = false; continue; }
         if (S_ISDIR(st.st_mode)) {
             if (!remove_dir_recursive(child)) ok = false;
         } else {
@@ -510,10 +522,13 @@ static bool remove_dir_recursive(const char *path) {
 }
 
 bool gray_io_remove_dir_all(GrayString path) {
+    struct stat st;
+    if (lstat(path.data, &st) == 0 && S_ISLNK(st.st_mode)) return false;
     return remove_dir_recursive(path.data);
 }
 
-static void walk_recursive(GrayArena *arena, const char *base, const char *rel, GrayArray *out) {
+/* False when part of the tree could not be read */
+static bool walk_recursive(GrayArena *arena, const char *base, const char *rel, GrayArray *out) {
     char full[GRAY_IO_PATH_BUF];
     if (rel[0] == '\0') {
         snprintf(full, sizeof(full), "%s", base);
@@ -521,9 +536,10 @@ static void walk_recursive(GrayArena *arena, const char *base, const char *rel,
         snprintf(full, sizeof(full), "%s/%s", base, rel);
     }
     DIR *d = opendir(full);
-    if (!d) return;
+    if (!d) return false;
+    bool ok = true;
     struct dirent *ent;
-    while ((ent = readdir(d)) != NULL) {
+    while ((errno = 0, ent = readdir(d)) != NULL) {
         if (strcmp(ent->d_name, ".") == 0 || strcmp(ent->d_name, "..") == 0) continue;
         GrayString child_rel;
         if (rel[0] == '\0') {
@@ -533,13 +549,19 @@ static void walk_recursive(GrayArena *arena, const char *base, const char *rel,
         }
         gray_array_push(arena, out, &child_rel);
         char child_full[GRAY_IO_PATH_BUF];
-        snprintf(child_full, sizeof(child_full), "%s/%s", full, ent->d_name);
+        int n = snprintf(child_full, sizeof(child_full), "%s/%s", full, ent->d_name);
+        if (n < 0 || (size_t)n >= sizeof(child_full)) { ok = false; continue; }
         struct stat st;
-        if (stat(child_full, &st) == 0 && S_ISDIR(st.st_mode)) {
-            walk_recursive(arena, base, child_rel.data, out);
+        if (stat(child_full, &st) != 0) {
+            /* a link that leads nowhere is an entry like any other */
+            if (lstat(child_full, &st) != 0 || !S_ISLNK(st.st_mode)) ok = false;
+        } else if (S_ISDIR(st.st_mode)) {
+            if (!walk_recursive(arena, base, child_rel.data, out)) ok = false;
         }
     }
+    if (errno != 0) ok = false;
     closedir(d);
+    return ok;
 }
 
 GrayArray gray_io_walk(GrayArena *arena, GrayString path) {
@@ -752,14 +774,12 @@ GrayResult_bool gray_io_move_file_result(GrayArena *arena, GrayString src, GrayS
 
 GrayResult_array gray_io_list_dir_result(GrayArena *arena, GrayString path) {
     GrayResult_array r;
-    DIR *d = opendir(path.data);
-    if (!d) {
+    r.v0 = gray_array_new(arena, (int32_t)sizeof(GrayString), 16);
+    if (!list_dir_into(arena, path.data, &r.v0)) {
         r.v0 = gray_array_new(arena, (int32_t)sizeof(GrayString), 0);
         r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot list directory '%s'", path.data));
         return r;
     }
-    closedir(d);
-    r.v0 = gray_io_list_dir(arena, path);
     r.v1 = NULL;
     return r;
 }
@@ -814,14 +834,12 @@ GrayResult_bool gray_io_remove_dir_all_result(GrayArena *arena, GrayString path)
 
 GrayResult_array gray_io_walk_result(GrayArena *arena, GrayString path) {
     GrayResult_array r;
-    DIR *d = opendir(path.data);
-    if (!d) {
+    r.v0 = gray_array_new(arena, (int32_t)sizeof(GrayString), GRAY_IO_WALK_INITIAL_CAP);
+    if (!walk_recursive(arena, path.data, "", &r.v0)) {
         r.v0 = gray_array_new(arena, (int32_t)sizeof(GrayString), 0);
         r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot walk directory '%s'", path.data));
         return r;
     }
-    closedir(d);
-    r.v0 = gray_io_walk(arena, path);
     r.v1 = NULL;
     return r;
 }
-- 
2.43.0


From 065916f3ad988f7a551157d82d6a42bb456bf997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:12 +0000
Subject: [PATCH 11/73] fix: delete every temporary file at exit

Only the first 256 temporary files and directories were remembered, and calls
from several threads could overwrite each other's entry or lose one for lack
of memory; what was not remembered was never deleted.
---
 grayc/src/stdlib/io.c | 50 +++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/grayc/src/stdlib/io.c b/grayc/src/stdlib/io.c
index aaf4063..681804a 100644
--- a/grayc/src/stdlib/io.c
+++ b/grayc/src/stdlib/io.c
@@ -24,6 +24,7 @@
 #include <dirent.h>
 #include <errno.h>
 #include <glob.h>
+#include <pthread.h>
 #include <stdlib.h>
 
 #define GRAY_IO_PATH_BUF          4096
@@ -32,37 +33,48 @@
 #define GRAY_IO_DIR_MODE          0755
 #define GRAY_IO_FILE_MODE         0644
 #define GRAY_IO_WALK_INITIAL_CAP  32
-#define GRAY_IO_MAX_TEMP_PATHS    256
 
 /* ---- Temp cleanup registry ---- */
 
-static char *temp_paths[GRAY_IO_MAX_TEMP_PATHS];
-static int temp_path_count = 0;
+typedef struct TempPath {
+    struct TempPath *next;
+    char path[];
+} TempPath;
+
+static TempPath *temp_paths = NULL;
 static bool temp_cleanup_registered = false;
+static pthread_mutex_t temp_lock = PTHREAD_MUTEX_INITIALIZER;
 
 static bool remove_dir_recursive(const char *path); /* forward decl */
 
 static void gray_io_temp_cleanup(void) {
-    for (int i = 0; i < temp_path_count; i++) {
-        struct stat st;
-        if (stat(temp_paths[i], &st) == 0) {
-            if (S_ISDIR(st.st_mode))
-                remove_dir_recursive(temp_paths[i]);
-            else
-                unlink(temp_paths[i]);
-        }
-        free(temp_paths[i]);
+    pthread_mutex_lock(&temp_lock);
+    while (temp_paths) {
+        TempPath *t = temp_paths;
+        temp_paths = t->next;
+        if (unlink(t->path) != 0) remove_dir_recursive(t->path);
+        free(t);
     }
-    temp_path_count = 0;
+    pthread_mutex_unlock(&temp_lock);
 }
 
 static void temp_registry_add(const char *path) {
-    if (!temp_cleanup_registered) {
-        atexit(gray_io_temp_cleanup);
-        temp_cleanup_registered = true;
-    }
-    if (temp_path_count < GRAY_IO_MAX_TEMP_PATHS) {
-        temp_paths[temp_path_count++] = strdup(path);
+    size_t size = strlen(path) + 1;
+    TempPath *t = malloc(sizeof(TempPath) + size);
+    pthread_mutex_lock(&temp_lock);
+    if (!temp_cleanup_registered)
+        temp_cleanup_registered = atexit(gray_io_temp_cleanup) == 0;
+    bool registered = t != NULL && temp_cleanup_registered;
+    if (registered) {
+        memcpy(t->path, path, size);
+        t->next = temp_paths;
+        temp_paths = t;
+    }
+    pthread_mutex_unlock(&temp_lock);
+    if (!registered) {
+        /* it would never be deleted */
+        remove(path);
+        gray_out_of_memory();
     }
 }
 
-- 
2.43.0


From 49141cde3dc5c70a54fa9f3c6b187005e9b22e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:52 +0000
Subject: [PATCH 12/73] fix: os.exec survives signals and concurrent use

An interrupted select, read or waitpid cut the output short or lost the exit
code; pipes leaked into programs started by other threads, which kept os.exec
waiting for them; and descriptors above FD_SETSIZE overflowed the stack.
---
 grayc/src/stdlib/os.c | 65 +++++++++++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 18 deletions(-)

diff --git a/grayc/src/stdlib/os.c b/grayc/src/stdlib/os.c
index 62dcdc1..2492746 100644
--- a/grayc/src/stdlib/os.c
+++ b/grayc/src/stdlib/os.c
@@ -8,13 +8,18 @@
  * Licensed under the MIT License. See LICENSE for details.
  */
 
+#ifdef __linux__
+#define _GNU_SOURCE  /* pipe2 */
+#endif
+
 #include "os.h"
 #include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
 #include <limits.h>
 #include <signal.h>
-#include <sys/select.h>
+#include <fcntl.h>
+#include <poll.h>
 #include <sys/wait.h>
 #include <errno.h>
 
@@ -102,6 +107,19 @@ int64_t gray_os_pid(void) {
     return (int64_t)getpid();
 }
 
+/* A pipe whose ends are not inherited by programs that other threads start:
+ * an inherited write end would keep the reader waiting for their exit. */
+static int exec_pipe(int fds[2]) {
+#ifdef __linux__
+    return pipe2(fds, O_CLOEXEC);
+#else
+    if (pipe(fds) < 0) return -1;
+    fcntl(fds[0], F_SETFD, FD_CLOEXEC);
+    fcntl(fds[1], F_SETFD, FD_CLOEXEC);
+    return 0;
+#endif
+}
+
 GrayOsExecResult gray_os_exec(GrayArena *arena, GrayString cmd, GrayArray args) {
     GrayOsExecResult fail = {0, gray_string_lit(""), gray_string_lit(""), false};
 
@@ -116,8 +134,8 @@ GrayOsExecResult gray_os_exec(GrayArena *arena, GrayString cmd, GrayArray args)
     argv[argc] = NULL;
 
     int stdout_pipe[2], stderr_pipe[2];
-    if (pipe(stdout_pipe) < 0) return fail;
-    if (pipe(stderr_pipe) < 0) {
+    if (exec_pipe(stdout_pipe) < 0) return fail;
+    if (exec_pipe(stderr_pipe) < 0) {
         close(stdout_pipe[0]); close(stdout_pipe[1]);
         return fail;
     }
@@ -143,7 +161,7 @@ GrayOsExecResult gray_os_exec(GrayArena *arena, GrayString cmd, GrayArray args)
     }
 
     /* Parent: close write ends, then read stdout and stderr concurrently
-     * using select() to avoid deadlock when one pipe's buffer fills. */
+     * using poll() to avoid deadlock when one pipe's buffer fills. */
     close(stdout_pipe[1]);
     close(stderr_pipe[1]);
 
@@ -155,19 +173,24 @@ GrayOsExecResult gray_os_exec(GrayArena *arena, GrayString cmd, GrayArray args)
     int out_fd = stdout_pipe[0];
     int err_fd = stderr_pipe[0];
     bool out_done = false, err_done = false;
-    bool truncated = false;
+    bool truncated = false, failed = false;
 
     while (!out_done || !err_done) {
-        fd_set fds;
-        FD_ZERO(&fds);
-        if (!out_done) FD_SET(out_fd, &fds);
-        if (!err_done) FD_SET(err_fd, &fds);
-        int maxfd = (out_fd > err_fd ? out_fd : err_fd) + 1;
-        if (select(maxfd, &fds, NULL, NULL, NULL) < 0) break;
-
-        if (!out_done && FD_ISSET(out_fd, &fds)) {
+        struct pollfd fds[2] = {
+            { out_done ? -1 : out_fd, POLLIN, 0 },
+            { err_done ? -1 : err_fd, POLLIN, 0 },
+        };
+        if (poll(fds, 2, -1) < 0) {
+            if (errno == EINTR) continue;
+            failed = true;
+            break;
+        }
+
+        if (!out_done && fds[0].revents != 0) {
             ssize_t n = read(out_fd, buf, sizeof(buf));
-            if (n <= 0) {
+            if (n < 0) {
+                if (errno != EINTR) { out_done = true; failed = true; }
+            } else if (n == 0) {
                 out_done = true;
             } else if (out_total + (size_t)n > GRAY_EXEC_OUTPUT_MAX) {
                 kill(pid, SIGKILL);
@@ -187,9 +210,11 @@ GrayOsExecResult gray_os_exec(GrayArena *arena, GrayString cmd, GrayArray args)
             }
         }
 
-        if (!err_done && FD_ISSET(err_fd, &fds)) {
+        if (!err_done && fds[1].revents != 0) {
             ssize_t n = read(err_fd, buf, sizeof(buf));
-            if (n <= 0) {
+            if (n < 0) {
+                if (errno != EINTR) { err_done = true; failed = true; }
+            } else if (n == 0) {
                 err_done = true;
             } else if (err_total + (size_t)n > GRAY_EXEC_OUTPUT_MAX) {
                 kill(pid, SIGKILL);
@@ -214,7 +239,11 @@ GrayOsExecResult gray_os_exec(GrayArena *arena, GrayString cmd, GrayArray args)
     close(err_fd);
 
     int status = 0;
-    waitpid(pid, &status, 0);
+    while (waitpid(pid, &status, 0) < 0) {
+        if (errno == EINTR) continue;
+        failed = true;
+        break;
+    }
 
     int exit_code = 0;
     if (WIFEXITED(status)) {
@@ -224,7 +253,7 @@ GrayOsExecResult gray_os_exec(GrayArena *arena, GrayString cmd, GrayArray args)
     }
 
     /* exit_code 127 means execvp failed (command not found / bad path) */
-    if (exit_code == 127 || truncated) return fail;
+    if (exit_code == 127 || truncated || failed) return fail;
 
     GrayString stdout_str = gray_string_new(arena, out_buf, (int32_t)out_total);
     GrayString stderr_str = gray_string_new(arena, err_buf, (int32_t)err_total);
-- 
2.43.0


From e722a4a94d1dfc91a17d6037ce3149cfbec0ec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:52 +0000
Subject: [PATCH 13/73] fix: os.exec reports a program that exits with 127 as
 launched

Exit code 127 was taken for a failed launch and the program's output and code
were dropped. The child now reports a failed exec over a pipe.
---
 grayc/src/stdlib/os.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/grayc/src/stdlib/os.c b/grayc/src/stdlib/os.c
index 2492746..a81c02d 100644
--- a/grayc/src/stdlib/os.c
+++ b/grayc/src/stdlib/os.c
@@ -133,17 +133,25 @@ GrayOsExecResult gray_os_exec(GrayArena *arena, GrayString cmd, GrayArray args)
     }
     argv[argc] = NULL;
 
-    int stdout_pipe[2], stderr_pipe[2];
+    int stdout_pipe[2], stderr_pipe[2], status_pipe[2];
     if (exec_pipe(stdout_pipe) < 0) return fail;
     if (exec_pipe(stderr_pipe) < 0) {
         close(stdout_pipe[0]); close(stdout_pipe[1]);
         return fail;
     }
 
+    /* Closed by a successful exec; carries a byte when the exec fails */
+    if (exec_pipe(status_pipe) < 0) {
+        close(stdout_pipe[0]); close(stdout_pipe[1]);
+        close(stderr_pipe[0]); close(stderr_pipe[1]);
+        return fail;
+    }
+
     pid_t pid = fork();
     if (pid < 0) {
         close(stdout_pipe[0]); close(stdout_pipe[1]);
         close(stderr_pipe[0]); close(stderr_pipe[1]);
+        close(status_pipe[0]); close(status_pipe[1]);
         return fail;
     }
 
@@ -157,6 +165,7 @@ GrayOsExecResult gray_os_exec(GrayArena *arena, GrayString cmd, GrayArray args)
         close(stderr_pipe[1]);
         execvp(cmd.data, argv);
         /* execvp failed */
+        while (write(status_pipe[1], "x", 1) < 0 && errno == EINTR) {}
         _exit(127);
     }
 
@@ -164,8 +173,13 @@ GrayOsExecResult gray_os_exec(GrayArena *arena, GrayString cmd, GrayArray args)
      * using poll() to avoid deadlock when one pipe's buffer fills. */
     close(stdout_pipe[1]);
     close(stderr_pipe[1]);
+    close(status_pipe[1]);
 
     char buf[4096];
+    ssize_t not_started;
+    while ((not_started = read(status_pipe[0], buf, 1)) < 0 && errno == EINTR) {}
+    close(status_pipe[0]);
+
     size_t out_total = 0, err_total = 0;
     size_t out_cap = sizeof(buf), err_cap = sizeof(buf);
     char *out_buf = gray_arena_alloc(arena, out_cap);
@@ -252,8 +266,7 @@ GrayOsExecResult gray_os_exec(GrayArena *arena, GrayString cmd, GrayArray args)
         exit_code = 128 + WTERMSIG(status);
     }
 
-    /* exit_code 127 means execvp failed (command not found / bad path) */
-    if (exit_code == 127 || truncated || failed) return fail;
+    if (not_started != 0 || truncated || failed) return fail;
 
     GrayString stdout_str = gray_string_new(arena, out_buf, (int32_t)out_total);
     GrayString stderr_str = gray_string_new(arena, err_buf, (int32_t)err_total);
-- 
2.43.0


From 3717dd3d73fb36b30f79c44c773d779c32f893ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:16 +0000
Subject: [PATCH 14/73] fix: sleep_s, sleep_ms and sleep_ns sleep the whole
 time

A signal ended the sleep early; threads.sleep already restarts.
---
 grayc/src/stdlib/builtins.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/grayc/src/stdlib/builtins.c b/grayc/src/stdlib/builtins.c
index 2a1ddca..6d07b8a 100644
--- a/grayc/src/stdlib/builtins.c
+++ b/grayc/src/stdlib/builtins.c
@@ -16,6 +16,7 @@
 #include <inttypes.h>
 #include <unistd.h>
 #include <time.h>
+#include <errno.h>
 
 #define GRAY_TOSTRING_BUF_SIZE    4096
 #define GRAY_TOSTRING_SAFE_LIMIT  (GRAY_TOSTRING_BUF_SIZE - 96)
@@ -249,27 +250,29 @@ void gray_builtin_exit(int64_t code) {
 
 /* --- sleep --- */
 
+/* Sleeps the whole time even when signals interrupt the call */
+static void sleep_for(int64_t seconds, int64_t ns) {
+    struct timespec ts;
+    ts.tv_sec = (time_t)seconds;
+    ts.tv_nsec = (long)ns;
+    while (nanosleep(&ts, &ts) == -1 && errno == EINTR) {}
+}
+
 void gray_builtin_sleep_s(int64_t seconds) {
     if (seconds < 0) gray_panic_code("P0083", "sleep duration cannot be negative (%lld)", (long long)seconds);
-    if (seconds > 0) sleep((unsigned int)seconds);
+    sleep_for(seconds, 0);
 }
 
 void gray_builtin_sleep_ms(int64_t ms) {
     if (ms < 0) gray_panic_code("P0083", "sleep duration cannot be negative (%lld)", (long long)ms);
     if (ms > 0) {
-        struct timespec ts;
-        ts.tv_sec = ms / MS_PER_SEC;
-        ts.tv_nsec = (ms % MS_PER_SEC) * NS_PER_MS;
-        nanosleep(&ts, NULL);
+        sleep_for(ms / MS_PER_SEC, (ms % MS_PER_SEC) * NS_PER_MS);
     }
 }
 
 void gray_builtin_sleep_ns(int64_t ns) {
     if (ns > 0) {
-        struct timespec ts;
-        ts.tv_sec = ns / NS_PER_SEC;
-        ts.tv_nsec = ns % NS_PER_SEC;
-        nanosleep(&ts, NULL);
+        sleep_for(ns / NS_PER_SEC, ns % NS_PER_SEC);
     }
 }
 
-- 
2.43.0


From b34f2ef88c2d7c50a387f585263b1b502e4c5773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:16 +0000
Subject: [PATCH 15/73] fix: input() keeps a line intact across interruptions
 and zero bytes

An interrupted read dropped the part of the line read so far, a zero byte cut
the line, and after a read error the rest of the broken line was returned as
the next one.
---
 grayc/src/stdlib/builtins.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/grayc/src/stdlib/builtins.c b/grayc/src/stdlib/builtins.c
index 6d07b8a..767b2b1 100644
--- a/grayc/src/stdlib/builtins.c
+++ b/grayc/src/stdlib/builtins.c
@@ -200,19 +200,23 @@ void gray_builtin_eprint_addr(uintptr_t v) {
 
 GrayString gray_builtin_input(GrayArena *arena) {
     char buf[GRAY_INPUT_BUF_SIZE];
-    if (fgets(buf, sizeof(buf), stdin) == NULL) {
-        return gray_string_lit("");
-    }
-    size_t len = strlen(buf);
-    if (len > 0 && buf[len - 1] == '\n') {
-        len--;
-    } else if (len == GRAY_INPUT_BUF_SIZE - 1) {
-        /* Buffer filled without reaching a newline — drain the rest of the
-         * line so the next input() call reads the correct line. */
-        int c;
-        while ((c = getc(stdin)) != '\n' && c != EOF)
-            ;
+    size_t len = 0;
+    int c;
+    /* After a read error what follows is not the start of a line */
+    if (ferror(stdin)) return gray_string_lit("");
+    flockfile(stdin); /* one line for one caller */
+    for (;;) {
+        c = getc(stdin);
+        if (c == EOF && ferror(stdin) && errno == EINTR) {
+            clearerr(stdin);
+            continue;
+        }
+        if (c == EOF || c == '\n') break;
+        /* A line longer than the buffer is cut, the rest of it skipped */
+        if (len < sizeof(buf) - 1) buf[len++] = (char)c;
     }
+    funlockfile(stdin);
+    if (c == EOF && ferror(stdin)) return gray_string_lit("");
     return gray_string_new(arena, buf, (int32_t)len);
 }
 
-- 
2.43.0


From a07acd4dc6248cbd0d15788828948088421a9029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:16 +0000
Subject: [PATCH 16/73] fix: random numbers stay in the documented range

rand_int used only the low 32 bits of its bounds, so bounds above 2^31 gave
values out of range or a division by zero, and rand_float could return its
exclusive upper bound.
---
 grayc/src/stdlib/random.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/grayc/src/stdlib/random.c b/grayc/src/stdlib/random.c
index 13c6ff4..d2140df 100644
--- a/grayc/src/stdlib/random.c
+++ b/grayc/src/stdlib/random.c
@@ -25,23 +25,32 @@ void gray_random_seed(int64_t value) {
 
 double gray_random_float_unit(void) {
     ensure_seed();
-    return (double)rand() / RAND_MAX;
+    return (double)rand() / ((double)RAND_MAX + 1.0);
+}
+
+/* Uniform in [0, n) for any n > 0; rand() alone only reaches RAND_MAX */
+static uint64_t below(uint64_t n) {
+    if (n <= (uint64_t)RAND_MAX) return (uint64_t)rand() % n;
+    uint64_t r = 0;
+    for (int i = 0; i < 5; i++) r = (r << 15) ^ (uint64_t)rand();
+    return r % n;
 }
 
 double gray_random_float_range(double min, double max) {
-    return min + gray_random_float_unit() * (max - min);
+    double v = min + gray_random_float_unit() * (max - min);
+    return v < max || max <= min ? v : min; /* rounding may reach max */
 }
 
 int64_t gray_random_int_max(int64_t max) {
     ensure_seed();
     if (max <= 0) return 0;
-    return (int64_t)(rand() % (int)max);
+    return (int64_t)below((uint64_t)max);
 }
 
 int64_t gray_random_int_range(int64_t min, int64_t max) {
     ensure_seed();
     if (min >= max) return min;
-    return min + (int64_t)(rand() % (int)(max - min));
+    return (int64_t)((uint64_t)min + below((uint64_t)max - (uint64_t)min));
 }
 
 bool gray_random_bool(void) {
-- 
2.43.0


From 75d60b505c1ad1105f6de9109da540c422350004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:16 +0000
Subject: [PATCH 17/73] fix: stop when no randomness is available for a UUID

generate* returned an empty string, which is not a UUID and the same one every
time.
---
 ERRORS.md                    |  1 +
 grayc/src/stdlib/uuid.c      | 12 ++++--------
 grayc/src/util/error_codes.h |  3 ++-
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/ERRORS.md b/ERRORS.md
index f116938..fe25cd0 100644
--- a/ERRORS.md
+++ b/ERRORS.md
@@ -397,6 +397,7 @@ Runtime panics are fatal errors that terminate the program immediately. They are
 | `P0101` | server | server.cors: origin contains CR or LF — HTTP header injection is not allowed |
 | `P0102` | threads | threads.spawn() could not create a thread |
 | `P0103` | io | io.%s() failed while reading '%s' |
+| `P0104` | uuid | uuid: no source of randomness available |
 
 ---
 
diff --git a/grayc/src/stdlib/uuid.c b/grayc/src/stdlib/uuid.c
index 01d0381..4ecb28a 100644
--- a/grayc/src/stdlib/uuid.c
+++ b/grayc/src/stdlib/uuid.c
@@ -51,10 +51,8 @@ static void gray_uuid_format_hyphenated(const uint8_t *bytes, char *buf) {
 GrayUUID gray_uuid_generate(GrayArena *arena) {
     uint8_t bytes[16];
     GrayUUID uuid;
-    if (!gray_uuid_random_bytes(bytes, sizeof(bytes))) {
-        uuid.value = gray_string_lit("");
-        return uuid;
-    }
+    if (!gray_uuid_random_bytes(bytes, sizeof(bytes)))
+        gray_panic_code("P0104", "uuid: no source of randomness available");
     bytes[6] = (bytes[6] & 0x0F) | 0x40; /* version 4 */
     bytes[8] = (bytes[8] & 0x3F) | 0x80; /* variant 1 (RFC 4122) */
     char buf[GRAY_UUID_LEN + 1];
@@ -92,10 +90,8 @@ GrayUUID gray_uuid_generate_random(GrayArena *arena) {
 GrayUUID gray_uuid_generate_time_ordered(GrayArena *arena) {
     uint8_t bytes[16];
     GrayUUID uuid;
-    if (!gray_uuid_random_bytes(bytes, sizeof(bytes))) {
-        uuid.value = gray_string_lit("");
-        return uuid;
-    }
+    if (!gray_uuid_random_bytes(bytes, sizeof(bytes)))
+        gray_panic_code("P0104", "uuid: no source of randomness available");
 
     struct timespec ts;
     clock_gettime(CLOCK_REALTIME, &ts);
diff --git a/grayc/src/util/error_codes.h b/grayc/src/util/error_codes.h
index 951cb8b..a8da617 100644
--- a/grayc/src/util/error_codes.h
+++ b/grayc/src/util/error_codes.h
@@ -397,7 +397,8 @@
     GRAY_PANIC("P0100", "arithmetic", "cast from u256 failed; value exceeds the representable range of uint64") \
     GRAY_PANIC("P0101", "server",     "server.cors: origin contains CR or LF — HTTP header injection is not allowed") \
     GRAY_PANIC("P0102", "threads",    "threads.spawn() could not create a thread") \
-    GRAY_PANIC("P0103", "io",        "io.%s() failed while reading '%s'")
+    GRAY_PANIC("P0103", "io",        "io.%s() failed while reading '%s'") \
+    GRAY_PANIC("P0104", "uuid",      "uuid: no source of randomness available")
 
 /* --- Warnings --- */
 #define GRAY_WARNINGS \
-- 
2.43.0


From 02ae36ba8a24026b13d162a7b00f714e475ce517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:02 +0000
Subject: [PATCH 18/73] fix: copy_file compares the opened files before
 truncating

---
 grayc/src/stdlib/io.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/grayc/src/stdlib/io.c b/grayc/src/stdlib/io.c
index 681804a..00286ea 100644
--- a/grayc/src/stdlib/io.c
+++ b/grayc/src/stdlib/io.c
@@ -430,15 +430,17 @@ bool gray_io_copy_file(GrayString src, GrayString dst) {
         gray_panic_code("P0089", "io.copy_file() cannot copy a directory; use io.walk() to enumerate files and copy them individually");
     FILE *in = fopen(src.data, "rb");
     if (!in) return false;
-    /* Opening the destination truncates it: never do that to the source */
-    struct stat in_st, dst_st;
-    if (fstat(fileno(in), &in_st) != 0 ||
-        (stat(dst.data, &dst_st) == 0 && in_st.st_dev == dst_st.st_dev && in_st.st_ino == dst_st.st_ino)) {
+    int out_fd = open(dst.data, O_WRONLY | O_CREAT, GRAY_IO_FILE_MODE);
+    if (out_fd < 0) { fclose(in); return false; }
+    /* The destination may be the source under another name: never truncate that */
+    struct stat in_st, out_st;
+    if (fstat(fileno(in), &in_st) != 0 || fstat(out_fd, &out_st) != 0 ||
+        (in_st.st_dev == out_st.st_dev && in_st.st_ino == out_st.st_ino) ||
+        (S_ISREG(out_st.st_mode) && ftruncate(out_fd, 0) != 0)) {
+        close(out_fd);
         fclose(in);
         return false;
     }
-    int out_fd = open(dst.data, O_WRONLY | O_CREAT | O_TRUNC, GRAY_IO_FILE_MODE);
-    if (out_fd < 0) { fclose(in); return false; }
     FILE *out = fdopen(out_fd, "wb");
     if (!out) { close(out_fd); fclose(in); return false; }
     char buf[GRAY_IO_COPY_BUF];
-- 
2.43.0


From b6bead7d7602f4fe73f7e93f56b8a1733d9edece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:05 +0000
Subject: [PATCH 19/73] fix: glob reports directories it cannot read

---
 grayc/src/stdlib/io.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/grayc/src/stdlib/io.c b/grayc/src/stdlib/io.c
index 00286ea..6c1d55e 100644
--- a/grayc/src/stdlib/io.c
+++ b/grayc/src/stdlib/io.c
@@ -926,11 +926,18 @@ GrayResult_array gray_io_read_lines_result(GrayArena *arena, GrayString path) {
     return r;
 }
 
+/* Stops a glob at a directory that exists but cannot be read. */
+static int glob_unreadable(const char *path, int error) {
+    (void)path;
+    return error != ENOENT && error != ENOTDIR;
+}
+
 GrayResult_array gray_io_glob_result(GrayArena *arena, GrayString pattern) {
     GrayResult_array r;
     glob_t gl;
-    int rc = glob(pattern.data, GLOB_NOSORT, NULL, &gl);
+    int rc = glob(pattern.data, GLOB_NOSORT, glob_unreadable, &gl);
     if (rc != 0 && rc != GLOB_NOMATCH) {
+        globfree(&gl);
         r.v0 = gray_array_new(arena, (int32_t)sizeof(GrayString), 0);
         r.v1 = gray_error_new(arena, gray_string_format(arena,
             "glob pattern failed: '%s'", pattern.data));
-- 
2.43.0


From d871ff190e65327ce287381693627fb1f0235ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:44 +0000
Subject: [PATCH 20/73] fix: walk reports links it cannot look up

---
 grayc/src/stdlib/io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grayc/src/stdlib/io.c b/grayc/src/stdlib/io.c
index 6c1d55e..3a3fb86 100644
--- a/grayc/src/stdlib/io.c
+++ b/grayc/src/stdlib/io.c
@@ -568,7 +568,8 @@ static bool walk_recursive(GrayArena *arena, const char *base, const char *rel,
         struct stat st;
         if (stat(child_full, &st) != 0) {
             /* a link that leads nowhere is an entry like any other */
-            if (lstat(child_full, &st) != 0 || !S_ISLNK(st.st_mode)) ok = false;
+            bool nowhere = errno == ENOENT || errno == ELOOP || errno == ENOTDIR;
+            if (!nowhere || lstat(child_full, &st) != 0 || !S_ISLNK(st.st_mode)) ok = false;
         } else if (S_ISDIR(st.st_mode)) {
             if (!walk_recursive(arena, base, child_rel.data, out)) ok = false;
         }
-- 
2.43.0


From a97b578b1ef237f462d9fc9cb3265acc5b08cc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:16:13 +0000
Subject: [PATCH 21/73] fix: remove_dir_all deletes nothing when its path
 cannot be looked up

---
 grayc/src/stdlib/io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grayc/src/stdlib/io.c b/grayc/src/stdlib/io.c
index 3a3fb86..af21dd1 100644
--- a/grayc/src/stdlib/io.c
+++ b/grayc/src/stdlib/io.c
@@ -537,7 +537,7 @@ static bool remove_dir_recursive(const char *path) {
 
 bool gray_io_remove_dir_all(GrayString path) {
     struct stat st;
-    if (lstat(path.data, &st) == 0 && S_ISLNK(st.st_mode)) return false;
+    if (lstat(path.data, &st) != 0 || !S_ISDIR(st.st_mode)) return false;
     return remove_dir_recursive(path.data);
 }
 
-- 
2.43.0


From c899415ccd3dabc24e0d288064772a0f617da64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:20:35 +0000
Subject: [PATCH 22/73] fix: input() notices a read error while it holds the
 stream

---
 grayc/src/stdlib/builtins.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/grayc/src/stdlib/builtins.c b/grayc/src/stdlib/builtins.c
index 767b2b1..3443ded 100644
--- a/grayc/src/stdlib/builtins.c
+++ b/grayc/src/stdlib/builtins.c
@@ -202,21 +202,22 @@ GrayString gray_builtin_input(GrayArena *arena) {
     char buf[GRAY_INPUT_BUF_SIZE];
     size_t len = 0;
     int c;
-    /* After a read error what follows is not the start of a line */
-    if (ferror(stdin)) return gray_string_lit("");
     flockfile(stdin); /* one line for one caller */
-    for (;;) {
+    /* After a read error what follows is not the start of a line */
+    bool failed = ferror(stdin) != 0;
+    while (!failed) {
         c = getc(stdin);
         if (c == EOF && ferror(stdin) && errno == EINTR) {
             clearerr(stdin);
             continue;
         }
+        if (c == EOF) failed = ferror(stdin) != 0;
         if (c == EOF || c == '\n') break;
         /* A line longer than the buffer is cut, the rest of it skipped */
         if (len < sizeof(buf) - 1) buf[len++] = (char)c;
     }
     funlockfile(stdin);
-    if (c == EOF && ferror(stdin)) return gray_string_lit("");
+    if (failed) return gray_string_lit("");
     return gray_string_new(arena, buf, (int32_t)len);
 }
 
-- 
2.43.0


From bdafb65bacaf8724f0bd9be54f3cfc2f56394e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:44:52 +0000
Subject: [PATCH 23/73] fix: request handlers have arenas to allocate from

A connection's thread never set gray_default_arena and gray_heap_arena, so a
handler that used new() dereferenced a null pointer and brought the server
down.
---
 grayc/src/stdlib/server.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/grayc/src/stdlib/server.c b/grayc/src/stdlib/server.c
index e638d1a..3705f95 100644
--- a/grayc/src/stdlib/server.c
+++ b/grayc/src/stdlib/server.c
@@ -247,9 +247,25 @@ typedef struct {
     GrayRouter *router;
 } ConnCtx;
 
+static void release_arenas(GrayArena *arena) {
+    gray_default_arena = NULL;
+    gray_arena_destroy(arena, __FILE__, __LINE__);
+    free(arena);
+    if (gray_arena_usage(gray_heap_arena) == 0) {
+        gray_arena_destroy(gray_heap_arena, __FILE__, __LINE__);
+        free(gray_heap_arena);
+    }
+    gray_heap_arena = NULL;
+}
+
 static void *handle_connection(void *arg) {
     ConnCtx *ctx = (ConnCtx *)arg;
     GrayArena *arena = gray_arena_create(GRAY_SERVER_REQUEST_ARENA); /* 64KB per request */
+    /* The handler runs Grayscale code, which allocates from these. As in
+     * spawned threads, what new() returns outlives the thread. */
+    gray_default_arena = arena;
+    gray_heap_arena = gray_arena_create(GRAY_MIN_ARENA_SIZE);
+    gray_heap_arena->default_block_size = GRAY_DEFAULT_ARENA_SIZE;
 
     /* Apply read timeout so slow or idle connections don't hold threads indefinitely */
     struct timeval tv;
@@ -263,8 +279,7 @@ static void *handle_connection(void *arg) {
     if (n <= 0) {
         close(ctx->client_fd);
         free(ctx);
-        gray_arena_destroy(arena, __FILE__, __LINE__);
-        free(arena);
+        release_arenas(arena);
         gray_atomic_sub32(&active_connections, 1);
         return NULL;
     }
@@ -289,8 +304,7 @@ static void *handle_connection(void *arg) {
             send(ctx->client_fd, err, strlen(err), 0);
             close(ctx->client_fd);
             free(ctx);
-            gray_arena_destroy(arena, __FILE__, __LINE__);
-            free(arena);
+            release_arenas(arena);
             gray_atomic_sub32(&active_connections, 1);
             return NULL;
         }
@@ -365,8 +379,7 @@ static void *handle_connection(void *arg) {
     send(ctx->client_fd, response_buffer, send_len, 0);
     close(ctx->client_fd);
     free(ctx);
-    gray_arena_destroy(arena, __FILE__, __LINE__);
-    free(arena);
+    release_arenas(arena);
     gray_atomic_sub32(&active_connections, 1);
     return NULL;
 }
-- 
2.43.0


From b0eacf2445bea74a438fb358bc8dca8ebc3de635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:44:52 +0000
Subject: [PATCH 24/73] fix: a returned HttpResponse or UUID outlives the
 function's arena

The strings of these stdlib structs were left in the arena of the function
that returned them, which is destroyed on return: the server sent freed memory
as the body of every response built from a non-literal string.
---
 grayc/src/codegen/codegen.c | 50 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 8f433e2..8a7d97b 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -489,6 +489,26 @@ static const char *gray_map_key_kind_macro(const char *c_key_type) {
  * that evaluates to a fully independent copy. */
 
 static AstNode *find_struct_declaration(CodeGen *codegen, const char *name);
+static const char *resolve_alias(CodeGen *codegen, const char *name);
+
+static bool imports_module(CodeGen *codegen, const char *name) {
+    for (int i = 0; i < codegen->imported_module_count; i++) {
+        if (strcmp(resolve_alias(codegen, codegen->imported_modules[i]), name) == 0) return true;
+    }
+    return false;
+}
+
+/* Stdlib structs have no declaration to walk, so the ones that hold strings
+ * are listed here. HttpResponse names the struct of @http as well as the one
+ * of @server; it can only be copied where it is certain to be the latter. */
+static const char *const *stdlib_struct_strings(CodeGen *codegen, const char *gray_tn, bool is_return) {
+    static const char *const uuid_fields[] = {"value", NULL};
+    static const char *const response_fields[] = {"body", "content_type", NULL};
+    if (strcmp(gray_tn, "UUID") == 0) return uuid_fields;
+    if (strcmp(gray_tn, "HttpResponse") == 0 && imports_module(codegen, "server") &&
+        (is_return || !imports_module(codegen, "http"))) return response_fields;
+    return NULL;
+}
 
 /* Cycle guard for type_needs_deep_copy: tracks struct names currently being
  * visited so circular references (A -> [B] -> B -> A) don't cause infinite
@@ -503,7 +523,7 @@ static bool type_needs_deep_copy(CodeGen *codegen, const char *gray_tn) {
     if (strcmp(gray_tn, "string") == 0) return true;
     if (gray_tn[0] == '^') return false; /* pointers alias; see header comment */
     AstNode *sdecl = find_struct_declaration(codegen, gray_tn);
-    if (!sdecl) return false;
+    if (!sdecl) return stdlib_struct_strings(codegen, gray_tn, false) != NULL;
     /* Cycle detection: if we're already visiting this struct, stop. */
     for (int j = 0; j < type_name_deep_copy_depth; j++) {
         if (strcmp(type_name_deep_copy_visiting[j], gray_tn) == 0) return false;
@@ -666,9 +686,25 @@ static void emit_map_deep_copy(CodeGen *codegen, const char *gray_tn, const char
 static const char *emit_struct_deep_copy_visiting[CYCLE_GUARD_DEPTH];
 static int emit_struct_deep_copy_depth = 0;
 
+static void emit_stdlib_struct_copy(CodeGen *codegen, const char *struct_tn,
+                                    const char *const *fields, const char *src_var) {
+    int tag = next_deep_copy_tag();
+    emit_formatted(codegen, "({ %s _sd%d = %s; ", gray_type_to_c_codegen(codegen, struct_tn), tag, src_var);
+    for (int i = 0; fields[i]; i++) {
+        emit_formatted(codegen, "_sd%d.%s = gray_string_new(gray_default_arena, _sd%d.%s.data, _sd%d.%s.len); ",
+            tag, fields[i], tag, fields[i], tag, fields[i]);
+    }
+    emit_formatted(codegen, "_sd%d; })", tag);
+}
+
 static void emit_struct_deep_copy(CodeGen *codegen, const char *struct_tn, const char *src_var) {
     AstNode *sdecl = find_struct_declaration(codegen, struct_tn);
     if (!sdecl) {
+        const char *const *fields = stdlib_struct_strings(codegen, struct_tn, false);
+        if (fields) {
+            emit_stdlib_struct_copy(codegen, struct_tn, fields, src_var);
+            return;
+        }
         /* No decl info; bitwise copy is the best we can do. */
         emit_formatted(codegen, "%s", src_var);
         return;
@@ -8224,6 +8260,11 @@ static void emit_function_return_escape(CodeGen *codegen, const char *ret_type_n
         emit(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = _func_saved; _ret = ");
         emit_value_deep_copy(codegen, ret_type_name, "_ret");
         emit(codegen, "; gray_default_arena = _esc; } ");
+    } else if (!find_struct_declaration(codegen, ret_type_name) &&
+               stdlib_struct_strings(codegen, ret_type_name, true)) {
+        emit(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = _func_saved; _ret = ");
+        emit_stdlib_struct_copy(codegen, ret_type_name, stdlib_struct_strings(codegen, ret_type_name, true), "_ret");
+        emit(codegen, "; gray_default_arena = _esc; } ");
     }
     emit_scratch_arena_unwind(codegen);
     emit(codegen, "gray_default_arena = _func_saved; ");
@@ -8256,6 +8297,13 @@ static void emit_multi_function_return_escape(CodeGen *codegen) {
             emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = _func_saved; _ret.v%d = ", i);
             emit_value_deep_copy(codegen, type_str, field);
             emit(codegen, "; gray_default_arena = _esc; } ");
+        } else if (!find_struct_declaration(codegen, type_str) &&
+                   stdlib_struct_strings(codegen, type_str, true)) {
+            char field[32];
+            snprintf(field, sizeof(field), "_ret.v%d", i);
+            emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = _func_saved; _ret.v%d = ", i);
+            emit_stdlib_struct_copy(codegen, type_str, stdlib_struct_strings(codegen, type_str, true), field);
+            emit(codegen, "; gray_default_arena = _esc; } ");
         }
     }
     emit_scratch_arena_unwind(codegen);
-- 
2.43.0


From fee926775832f41fab81dd52bc79b3c44baf7eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:45:15 +0000
Subject: [PATCH 25/73] fix: a peer that closes its connection no longer kills
 the program

Sending to it raised SIGPIPE, whose default action ends the process: one
client going away early took the whole server down. Server replies are also
sent to the end instead of by a single send().
---
 grayc/src/stdlib/net.c    | 30 +++++++++++++++++++++++++++++-
 grayc/src/stdlib/net.h    |  3 +++
 grayc/src/stdlib/server.c |  8 ++++----
 3 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/grayc/src/stdlib/net.c b/grayc/src/stdlib/net.c
index 1b68c66..bc968e8 100644
--- a/grayc/src/stdlib/net.c
+++ b/grayc/src/stdlib/net.c
@@ -19,11 +19,37 @@
 #include <netdb.h>
 #include <sys/time.h>
 
+/* A peer that went away must not kill the program with SIGPIPE. */
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+
 #define GRAY_NET_HOST_BUF         256
 #define GRAY_NET_PORT_BUF         16
 #define GRAY_NET_MAX_RECV_BUF     1048576
 #define GRAY_NET_LISTEN_BACKLOG   128
 
+/* Where send() has no MSG_NOSIGNAL, the socket itself is told. */
+static void no_sigpipe(int fd) {
+#ifdef SO_NOSIGPIPE
+    int on = 1;
+    setsockopt(fd, SOL_SOCKET, SO_NOSIGPIPE, &on, sizeof(on));
+#else
+    (void)fd;
+#endif
+}
+
+bool gray_net_send_all(GraySocket sock, const char *data, size_t len) {
+    while (len > 0) {
+        ssize_t sent = send(sock.fd, data, len, MSG_NOSIGNAL);
+        if (sent < 0 && errno == EINTR) continue;
+        if (sent <= 0) return false;
+        data += sent;
+        len -= (size_t)sent;
+    }
+    return true;
+}
+
 /* Helper: null-terminate an GrayString */
 static const char *net_cstr(GrayString s, char *buf, size_t buffer_size) {
     size_t len = (size_t)s.len < buffer_size - 1 ? (size_t)s.len : buffer_size - 1;
@@ -65,6 +91,7 @@ GraySocket gray_net_dial(GrayArena *arena, GrayString host, int64_t port) {
     }
 
     freeaddrinfo(res);
+    no_sigpipe(fd);
     sock.fd = fd;
     return sock;
 }
@@ -77,7 +104,7 @@ void gray_net_close(GraySocket sock) {
 
 int64_t gray_net_send(GraySocket sock, GrayString data) {
     if (sock.fd < 0 || !data.data) return -1;
-    ssize_t sent = send(sock.fd, data.data, (size_t)data.len, 0);
+    ssize_t sent = send(sock.fd, data.data, (size_t)data.len, MSG_NOSIGNAL);
     return (int64_t)sent;
 }
 
@@ -135,6 +162,7 @@ GraySocket gray_net_accept(GrayArena *arena, GraySocket listener) {
     int fd = accept(listener.fd, (struct sockaddr *)&client_addr, &client_len);
     if (fd < 0) return sock;
 
+    no_sigpipe(fd);
     sock.fd = fd;
     return sock;
 }
diff --git a/grayc/src/stdlib/net.h b/grayc/src/stdlib/net.h
index 81feb23..cb7db97 100644
--- a/grayc/src/stdlib/net.h
+++ b/grayc/src/stdlib/net.h
@@ -49,4 +49,7 @@ GrayResult_int gray_net_send_result(GrayArena *arena, GraySocket sock, GrayStrin
 GrayResult_string gray_net_recv_result(GrayArena *arena, GraySocket sock, int64_t max_bytes);
 GrayResult_string gray_net_resolve_result(GrayArena *arena, GrayString hostname);
 
+/* Send all of data; false when the connection failed first. */
+bool gray_net_send_all(GraySocket sock, const char *data, size_t len);
+
 #endif
diff --git a/grayc/src/stdlib/server.c b/grayc/src/stdlib/server.c
index 3705f95..dab18d1 100644
--- a/grayc/src/stdlib/server.c
+++ b/grayc/src/stdlib/server.c
@@ -301,7 +301,7 @@ static void *handle_connection(void *arg) {
         /* Reject oversized method or path before copying into fixed stack buffers */
         if (req.method.len >= GRAY_HTTP_METHOD_BUF || req.path.len >= GRAY_HTTP_PATH_BUF_SERVER) {
             const char *err = "HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\nConnection: close\r\n\r\n";
-            send(ctx->client_fd, err, strlen(err), 0);
+            gray_net_send_all((GraySocket){ctx->client_fd}, err, strlen(err));
             close(ctx->client_fd);
             free(ctx);
             release_arenas(arena);
@@ -376,7 +376,7 @@ static void *handle_connection(void *arg) {
 
     size_t send_len = (response_length > 0 && (size_t)response_length < sizeof(response_buffer))
         ? (size_t)response_length : sizeof(response_buffer) - 1;
-    send(ctx->client_fd, response_buffer, send_len, 0);
+    gray_net_send_all((GraySocket){ctx->client_fd}, response_buffer, send_len);
     close(ctx->client_fd);
     free(ctx);
     release_arenas(arena);
@@ -403,7 +403,7 @@ void gray_server_listen_host(int64_t port, GrayString host, GrayRouter *r) {
         if (prev >= GRAY_SERVER_MAX_CONNECTIONS) {
             gray_atomic_sub32(&active_connections, 1);
             const char *r503 = "HTTP/1.1 503 Service Unavailable\r\nContent-Length: 0\r\nConnection: close\r\n\r\n";
-            send(client.fd, r503, strlen(r503), 0);
+            gray_net_send_all(client, r503, strlen(r503));
             close(client.fd);
             continue;
         }
@@ -449,7 +449,7 @@ void gray_server_listen(int64_t port, GrayRouter *r) {
         if (prev >= GRAY_SERVER_MAX_CONNECTIONS) {
             gray_atomic_sub32(&active_connections, 1);
             const char *r503 = "HTTP/1.1 503 Service Unavailable\r\nContent-Length: 0\r\nConnection: close\r\n\r\n";
-            send(client.fd, r503, strlen(r503), 0);
+            gray_net_send_all(client, r503, strlen(r503));
             close(client.fd);
             continue;
         }
-- 
2.43.0


From 49940761dd5781b0ea72b632be37757e9a597859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:45:15 +0000
Subject: [PATCH 26/73] fix: net.receive terminates the string it returns

String interpolation and other C-string uses read on past the received bytes,
into whatever the arena held there before.
---
 grayc/src/stdlib/net.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grayc/src/stdlib/net.c b/grayc/src/stdlib/net.c
index bc968e8..097f2a5 100644
--- a/grayc/src/stdlib/net.c
+++ b/grayc/src/stdlib/net.c
@@ -113,11 +113,12 @@ GrayString gray_net_recv(GrayArena *arena, GraySocket sock, int64_t max_bytes) {
 
     size_t buffer_size = (size_t)max_bytes;
     if (buffer_size > GRAY_NET_MAX_RECV_BUF) buffer_size = GRAY_NET_MAX_RECV_BUF; /* cap at 1MB */
-    char *buf = gray_arena_alloc(arena, buffer_size);
+    char *buf = gray_arena_alloc(arena, buffer_size + 1);
 
     ssize_t n = recv(sock.fd, buf, buffer_size, 0);
     if (n <= 0) return (GrayString){"", 0};
 
+    buf[n] = '\0';
     return (GrayString){buf, (int32_t)n};
 }
 
-- 
2.43.0


From a57a0e95a6db22054c4e90431bdd9a5e09b9b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:46:10 +0000
Subject: [PATCH 27/73] fix: the server reads the whole request before it
 answers

It took whatever the first recv() returned for the request: one that arrived
in several segments was answered without its headers or with a truncated body,
and bodies that do not fit 64 KB were cut off. The request is now read until
the announced body is complete; what cannot be read is refused with a status.
---
 grayc/src/stdlib/server.c | 91 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 86 insertions(+), 5 deletions(-)

diff --git a/grayc/src/stdlib/server.c b/grayc/src/stdlib/server.c
index dab18d1..247bf31 100644
--- a/grayc/src/stdlib/server.c
+++ b/grayc/src/stdlib/server.c
@@ -14,6 +14,8 @@
 #include <string.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <strings.h>
+#include <errno.h>
 #include <unistd.h>
 #include <pthread.h>
 #include <sys/socket.h>
@@ -27,6 +29,7 @@
 #define GRAY_HTTP_PATH_BUF_SERVER     2048
 #define GRAY_SERVER_MAX_CONNECTIONS   1024
 #define GRAY_SERVER_READ_TIMEOUT_MS   30000
+#define GRAY_SERVER_MAX_BODY          (16 * 1024 * 1024)
 
 static int32_t active_connections = 0;
 
@@ -48,8 +51,10 @@ static const char *http_reason_phrase(int status) {
         case 405: return "Method Not Allowed";
         case 409: return "Conflict";
         case 410: return "Gone";
+        case 413: return "Payload Too Large";
         case 422: return "Unprocessable Entity";
         case 429: return "Too Many Requests";
+        case 431: return "Request Header Fields Too Large";
         case 500: return "Internal Server Error";
         case 501: return "Not Implemented";
         case 502: return "Bad Gateway";
@@ -241,6 +246,70 @@ static bool parse_request(GrayArena *arena, const char *data, int data_len,
     return true;
 }
 
+/* Find the end of the header block; from is where the search may start */
+static char *find_header_end(char *data, size_t from) {
+    char *crlf = strstr(data + from, "\r\n\r\n");
+    char *lf = strstr(data + from, "\n\n");
+    if (crlf && (!lf || crlf < lf)) return crlf + 4;
+    return lf ? lf + 2 : NULL;
+}
+
+/* Length of the body the header block announces, or minus the status to
+ * refuse the request with */
+static long announced_body(const char *headers, const char *end) {
+    long length = 0;
+    for (const char *line = strchr(headers, '\n'); line && line + 1 < end; line = strchr(line, '\n')) {
+        line++;
+        if (strncasecmp(line, "Transfer-Encoding:", 18) == 0) return -501;
+        if (strncasecmp(line, "Content-Length:", 15) != 0) continue;
+        const char *value = line + 15;
+        while (*value == ' ' || *value == '\t') value++;
+        if (*value < '0' || *value > '9') return -400;
+        for (length = 0; *value >= '0' && *value <= '9'; value++) {
+            length = length * 10 + (*value - '0');
+            if (length > GRAY_SERVER_MAX_BODY) return -413;
+        }
+        while (*value == ' ' || *value == '\t') value++;
+        if (*value != '\r' && *value != '\n') return -400;
+    }
+    return length;
+}
+
+/* Receive one request, however it is split: the header block and the body it
+ * announces. Returns 0, the status to refuse the request with, or -1 when the
+ * client went away or stayed silent for too long. */
+static int read_request(int fd, char **data, int *data_len) {
+    size_t capacity = GRAY_SERVER_BUF_SIZE, len = 0, expected = 0;
+    char *buf = malloc(capacity);
+    if (!buf) return 503;
+    *data = buf;
+    while (!expected || len < expected) {
+        if (len == capacity - 1) return 431;
+        ssize_t n = recv(fd, buf + len, capacity - 1 - len, 0);
+        if (n < 0 && errno == EINTR) continue;
+        if (n <= 0) return -1;
+        size_t search_from = len > 3 ? len - 3 : 0;
+        len += (size_t)n;
+        buf[len] = '\0';
+        if (expected) continue;
+
+        char *header_end = find_header_end(buf, search_from);
+        if (!header_end) continue;
+        long body = announced_body(buf, header_end);
+        if (body < 0) return (int)-body;
+        expected = (size_t)(header_end - buf) + (size_t)body;
+        if (expected + 1 > capacity) {
+            capacity = expected + 1;
+            buf = realloc(*data, capacity);
+            if (!buf) return 503;
+            *data = buf;
+        }
+    }
+    buf[expected] = '\0';
+    *data_len = (int)expected;
+    return 0;
+}
+
 /* Connection handler — runs in its own thread */
 typedef struct {
     int client_fd;
@@ -258,6 +327,14 @@ static void release_arenas(GrayArena *arena) {
     gray_heap_arena = NULL;
 }
 
+static void send_error(int fd, int status) {
+    char reply[GRAY_SERVER_CORS_BUF];
+    int len = snprintf(reply, sizeof(reply),
+        "HTTP/1.1 %d %s\r\nContent-Length: 0\r\nConnection: close\r\n\r\n",
+        status, http_reason_phrase(status));
+    gray_net_send_all((GraySocket){fd}, reply, (size_t)len);
+}
+
 static void *handle_connection(void *arg) {
     ConnCtx *ctx = (ConnCtx *)arg;
     GrayArena *arena = gray_arena_create(GRAY_SERVER_REQUEST_ARENA); /* 64KB per request */
@@ -274,16 +351,18 @@ static void *handle_connection(void *arg) {
     setsockopt(ctx->client_fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
 
     /* Receive request data */
-    char buf[GRAY_SERVER_BUF_SIZE];
-    ssize_t n = recv(ctx->client_fd, buf, sizeof(buf) - 1, 0);
-    if (n <= 0) {
+    char *buf = NULL;
+    int n = 0;
+    int refused = read_request(ctx->client_fd, &buf, &n);
+    if (refused) {
+        if (refused > 0) send_error(ctx->client_fd, refused);
+        free(buf);
         close(ctx->client_fd);
         free(ctx);
         release_arenas(arena);
         gray_atomic_sub32(&active_connections, 1);
         return NULL;
     }
-    buf[n] = '\0';
 
     /* Parse request */
     GrayRequest req;
@@ -297,7 +376,9 @@ static void *handle_connection(void *arg) {
     resp.body = gray_string_new(arena, "Not Found", sizeof("Not Found") - 1);
     resp.content_type = gray_string_new(arena, "text/plain", sizeof("text/plain") - 1);
 
-    if (parse_request(arena, buf, (int)n, &req)) {
+    bool parsed = parse_request(arena, buf, n, &req);
+    free(buf);
+    if (parsed) {
         /* Reject oversized method or path before copying into fixed stack buffers */
         if (req.method.len >= GRAY_HTTP_METHOD_BUF || req.path.len >= GRAY_HTTP_PATH_BUF_SERVER) {
             const char *err = "HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\nConnection: close\r\n\r\n";
-- 
2.43.0


From 81803afbc151331642675d8d9e47bc4b12e9e419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:46:10 +0000
Subject: [PATCH 28/73] fix: the server sends the whole response

Head and body were formatted into one 64 KB buffer: a longer body was cut off
although Content-Length announced all of it, and a body holding a zero byte
ended there. A long CORS origin truncated the header block. Sending also gets
a timeout, so that a client that never reads does not hold its thread and
connection slot forever.
---
 grayc/src/stdlib/server.c | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/grayc/src/stdlib/server.c b/grayc/src/stdlib/server.c
index 247bf31..a4757cd 100644
--- a/grayc/src/stdlib/server.c
+++ b/grayc/src/stdlib/server.c
@@ -23,7 +23,7 @@
 
 #define GRAY_SERVER_BUF_SIZE          65536
 #define GRAY_SERVER_REQUEST_ARENA     (64 * 1024)
-#define GRAY_SERVER_CORS_BUF          512
+#define GRAY_SERVER_ERROR_BUF         128
 #define GRAY_ROUTER_INITIAL_CAP       16
 #define GRAY_HTTP_METHOD_BUF          16
 #define GRAY_HTTP_PATH_BUF_SERVER     2048
@@ -328,7 +328,7 @@ static void release_arenas(GrayArena *arena) {
 }
 
 static void send_error(int fd, int status) {
-    char reply[GRAY_SERVER_CORS_BUF];
+    char reply[GRAY_SERVER_ERROR_BUF];
     int len = snprintf(reply, sizeof(reply),
         "HTTP/1.1 %d %s\r\nContent-Length: 0\r\nConnection: close\r\n\r\n",
         status, http_reason_phrase(status));
@@ -344,11 +344,12 @@ static void *handle_connection(void *arg) {
     gray_heap_arena = gray_arena_create(GRAY_MIN_ARENA_SIZE);
     gray_heap_arena->default_block_size = GRAY_DEFAULT_ARENA_SIZE;
 
-    /* Apply read timeout so slow or idle connections don't hold threads indefinitely */
+    /* Apply timeouts so slow or idle connections don't hold threads indefinitely */
     struct timeval tv;
     tv.tv_sec  = GRAY_SERVER_READ_TIMEOUT_MS / 1000;
     tv.tv_usec = (GRAY_SERVER_READ_TIMEOUT_MS % 1000) * 1000;
     setsockopt(ctx->client_fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
+    setsockopt(ctx->client_fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
 
     /* Receive request data */
     char *buf = NULL;
@@ -413,23 +414,21 @@ static void *handle_connection(void *arg) {
     }
 
     /* Build HTTP response with optional CORS headers */
-    char cors_hdrs[GRAY_SERVER_CORS_BUF];
-    cors_hdrs[0] = '\0';
+    GrayString cors_hdrs = {"", 0};
     if (ctx->router->cors_origin) {
-        snprintf(cors_hdrs, sizeof(cors_hdrs),
+        cors_hdrs = gray_string_format(arena,
             "Access-Control-Allow-Origin: %s\r\n"
             "Access-Control-Allow-Methods: GET, POST, PUT, DELETE, PATCH, OPTIONS\r\n"
             "Access-Control-Allow-Headers: Content-Type, Authorization\r\n",
             ctx->router->cors_origin);
     }
 
-    char response_buffer[GRAY_SERVER_BUF_SIZE];
-    int response_length;
+    GrayString head;
     int status = (int)resp.status;
     bool is_redirect = (status >= 300 && status < 400 && resp.body.len > 0);
 
     if (is_redirect) {
-        response_length = snprintf(response_buffer, sizeof(response_buffer),
+        head = gray_string_format(arena,
             "HTTP/1.1 %d %s\r\n"
             "Location: %.*s\r\n"
             "Content-Length: 0\r\n"
@@ -438,26 +437,25 @@ static void *handle_connection(void *arg) {
             "\r\n",
             status, http_reason_phrase(status),
             (int)resp.body.len, resp.body.data,
-            cors_hdrs);
+            cors_hdrs.data);
     } else {
-        response_length = snprintf(response_buffer, sizeof(response_buffer),
+        head = gray_string_format(arena,
             "HTTP/1.1 %d %s\r\n"
             "Content-Type: %.*s\r\n"
             "Content-Length: %d\r\n"
             "%s"
             "Connection: close\r\n"
-            "\r\n"
-            "%.*s",
+            "\r\n",
             status, http_reason_phrase(status),
             (int)resp.content_type.len, resp.content_type.data,
             (int)resp.body.len,
-            cors_hdrs,
-            (int)resp.body.len, resp.body.data);
+            cors_hdrs.data);
     }
 
-    size_t send_len = (response_length > 0 && (size_t)response_length < sizeof(response_buffer))
-        ? (size_t)response_length : sizeof(response_buffer) - 1;
-    gray_net_send_all((GraySocket){ctx->client_fd}, response_buffer, send_len);
+    GraySocket client = {ctx->client_fd};
+    if (gray_net_send_all(client, head.data, (size_t)head.len) && !is_redirect) {
+        gray_net_send_all(client, resp.body.data, (size_t)resp.body.len);
+    }
     close(ctx->client_fd);
     free(ctx);
     release_arenas(arena);
-- 
2.43.0


From 5158e445b060595ce6cd41c00bdd5524a620ec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:46:10 +0000
Subject: [PATCH 29/73] fix: a request's params come from the route that
 matched

Routes tried earlier that matched only the beginning of the path left their
parameters in the map handed to the handler.
---
 grayc/src/stdlib/server.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/grayc/src/stdlib/server.c b/grayc/src/stdlib/server.c
index a4757cd..eee4adf 100644
--- a/grayc/src/stdlib/server.c
+++ b/grayc/src/stdlib/server.c
@@ -400,8 +400,10 @@ static void *handle_connection(void *arg) {
 
         for (int i = 0; i < ctx->router->count; i++) {
             GrayRoute *route = &ctx->router->routes[i];
-            if (strcmp(route->method, method_buf) == 0 &&
-                match_route(route->pattern, path_buf, arena, &req.params)) {
+            if (strcmp(route->method, method_buf) != 0) continue;
+            /* A route that matched in part has left its parameters behind */
+            req.params = gray_map_new(arena, sizeof(GrayString), sizeof(GrayString), 8);
+            if (match_route(route->pattern, path_buf, arena, &req.params)) {
                 resp = route->handler(req);
                 break;
             }
-- 
2.43.0


From 2f6e4792c3fbd2f018a661dfd0bffe860b111b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:46:10 +0000
Subject: [PATCH 30/73] fix: a query parameter without a value does not swallow
 the next one

"?flag&x=1" produced a single parameter named "flag&x".
---
 grayc/src/stdlib/server.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/grayc/src/stdlib/server.c b/grayc/src/stdlib/server.c
index eee4adf..1b60523 100644
--- a/grayc/src/stdlib/server.c
+++ b/grayc/src/stdlib/server.c
@@ -196,14 +196,14 @@ static bool parse_request(GrayArena *arena, const char *data, int data_len,
         const char *cursor = query_string;
         const char *end = query_string + query_string_length;
         while (cursor < end) {
-            const char *eq = memchr(cursor, '=', end - cursor);
-            if (!eq) break;
-            const char *amp = memchr(eq, '&', end - eq);
+            const char *amp = memchr(cursor, '&', end - cursor);
             if (!amp) amp = end;
-
-            GrayString key = gray_string_new(arena, cursor, (int32_t)(eq - cursor));
-            GrayString val = gray_string_new(arena, eq + 1, (int32_t)(amp - eq - 1));
-            gray_map_set(arena, &req->query, &key, &val);
+            const char *eq = memchr(cursor, '=', amp - cursor);
+            if (eq) {
+                GrayString key = gray_string_new(arena, cursor, (int32_t)(eq - cursor));
+                GrayString val = gray_string_new(arena, eq + 1, (int32_t)(amp - eq - 1));
+                gray_map_set(arena, &req->query, &key, &val);
+            }
 
             cursor = amp + 1;
         }
-- 
2.43.0


From de559921cda8459d62192651029302fb61774d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:47:04 +0000
Subject: [PATCH 31/73] fix: http requests never go to a shortened URL

A host, path or URL longer than its buffer was cut off silently, and whatever
answered at the shortened address was returned as a success.
---
 grayc/src/stdlib/http.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/grayc/src/stdlib/http.c b/grayc/src/stdlib/http.c
index 46a0425..97f085d 100644
--- a/grayc/src/stdlib/http.c
+++ b/grayc/src/stdlib/http.c
@@ -57,14 +57,14 @@ static bool parse_url(const char *url, char *host, size_t host_sz,
     if (colon && (!slash || colon < slash)) {
         /* host:port */
         size_t host_length = (size_t)(colon - cursor);
-        if (host_length >= host_sz) host_length = host_sz - 1;
+        if (host_length >= host_sz) return false;
         memcpy(host, cursor, host_length);
         host[host_length] = '\0';
         *port = atoi(colon + 1);
     } else {
         /* host only */
         size_t host_length = slash ? (size_t)(slash - cursor) : strlen(cursor);
-        if (host_length >= host_sz) host_length = host_sz - 1;
+        if (host_length >= host_sz) return false;
         memcpy(host, cursor, host_length);
         host[host_length] = '\0';
         *port = GRAY_HTTP_DEFAULT_PORT;
@@ -73,7 +73,7 @@ static bool parse_url(const char *url, char *host, size_t host_sz,
     /* Path — reject CR/LF to prevent header injection via request line */
     if (slash) {
         size_t path_length = strlen(slash);
-        if (path_length >= path_sz) path_length = path_sz - 1;
+        if (path_length >= path_sz) return false;
         memcpy(path, slash, path_length);
         path[path_length] = '\0';
         for (size_t i = 0; i < path_length; i++) {
@@ -154,6 +154,11 @@ static GrayHttpResponse do_request(GrayArena *arena, const char *method,
     err_resp.headers = gray_map_new(arena, sizeof(GrayString), sizeof(GrayString), 4);
 
     char url_buf[GRAY_HTTP_URL_BUF];
+    if ((size_t)url.len >= sizeof(url_buf)) {
+        const char *detail = "request URL or path too long";
+        err_resp.body = gray_string_new(arena, detail, (int32_t)strlen(detail));
+        return err_resp;
+    }
     http_cstr(url, url_buf, sizeof(url_buf));
 
     if (strncmp(url_buf, "https://", 8) == 0) {
@@ -165,7 +170,9 @@ static GrayHttpResponse do_request(GrayArena *arena, const char *method,
     char host[GRAY_HTTP_HOST_BUF], path[GRAY_HTTP_PATH_BUF];
     int port;
     if (!parse_url(url_buf, host, sizeof(host), &port, path, sizeof(path))) {
-        const char *detail = "invalid URL: expected http:// scheme";
+        const char *detail = strncmp(url_buf, "http://", 7) == 0
+            ? "invalid URL: bad or too long host or path"
+            : "invalid URL: expected http:// scheme";
         err_resp.body = gray_string_new(arena, detail, (int32_t)strlen(detail));
         return err_resp;
     }
-- 
2.43.0


From bcd57353e920da658db248b2ec75db3473c7d4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:47:04 +0000
Subject: [PATCH 32/73] fix: long request headers no longer overflow the header
 buffer

Once the custom headers exceeded 4096 bytes, the space left was computed as a
huge number and the next header was written past the end of the buffer. Headers
that just fitted were sent without the blank line that ends them.
---
 grayc/src/stdlib/http.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/grayc/src/stdlib/http.c b/grayc/src/stdlib/http.c
index 97f085d..0fafe01 100644
--- a/grayc/src/stdlib/http.c
+++ b/grayc/src/stdlib/http.c
@@ -219,22 +219,21 @@ static GrayHttpResponse do_request(GrayArena *arena, const char *method,
             int n = snprintf(header + header_length, sizeof(header) - (size_t)header_length,
                 "%.*s: %.*s\r\n", (int)k->len, k->data, (int)v->len, v->data);
             if (n > 0) header_length += n;
+            if ((size_t)header_length + 2 >= sizeof(header)) break; /* refused below */
         }
     }
 
-    /* Terminate headers */
-    if ((size_t)header_length + 2 < sizeof(header)) {
-        header[header_length++] = '\r';
-        header[header_length++] = '\n';
-    }
-
-    if (header_length <= 0 || (size_t)header_length >= sizeof(header)) {
+    if (header_length <= 0 || (size_t)header_length + 2 >= sizeof(header)) {
         gray_net_close(sock);
-        const char *detail = "request URL or path too long";
+        const char *detail = "request URL or headers too long";
         err_resp.body = gray_string_new(arena, detail, (int32_t)strlen(detail));
         return err_resp;
     }
 
+    /* Terminate headers */
+    header[header_length++] = '\r';
+    header[header_length++] = '\n';
+
     GrayString hdr_str = {header, (int32_t)header_length};
     gray_net_send(sock, hdr_str);
     if (body.data && body.len > 0) {
-- 
2.43.0


From 58b25259934c45fd5bf4f0101568ce881e50a5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:47:04 +0000
Subject: [PATCH 33/73] fix: http sends the whole request or reports an error

A send() that took only part of the data lost the rest, and a failed one went
unnoticed.
---
 grayc/src/stdlib/http.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/grayc/src/stdlib/http.c b/grayc/src/stdlib/http.c
index 0fafe01..80ed724 100644
--- a/grayc/src/stdlib/http.c
+++ b/grayc/src/stdlib/http.c
@@ -235,9 +235,12 @@ static GrayHttpResponse do_request(GrayArena *arena, const char *method,
     header[header_length++] = '\n';
 
     GrayString hdr_str = {header, (int32_t)header_length};
-    gray_net_send(sock, hdr_str);
-    if (body.data && body.len > 0) {
-        gray_net_send(sock, body);
+    if (!gray_net_send_all(sock, hdr_str.data, (size_t)hdr_str.len) ||
+        (body.data && body.len > 0 && !gray_net_send_all(sock, body.data, (size_t)body.len))) {
+        gray_net_close(sock);
+        const char *detail = "connection broke while sending the request";
+        err_resp.body = gray_string_new(arena, detail, (int32_t)strlen(detail));
+        return err_resp;
     }
 
     /* Receive response (up to 1MB) — heap-allocated to avoid stack overflow */
-- 
2.43.0


From 2282434a0486af68f8fe8b56b7f1656e0cda4f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:47:04 +0000
Subject: [PATCH 34/73] fix: http returns the complete response or an error

Whatever had arrived when the connection ended, broke, stalled past the timeout
or exceeded 1 MB was returned as a successful response. The response is now
complete only when its announced length or final chunk has arrived (chunked
bodies are decoded) or, when it announces none, when the server closes the
connection. It is also received without allocating up to 1 MB from the arena
for every segment.
---
 grayc/src/stdlib/http.c | 119 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 110 insertions(+), 9 deletions(-)

diff --git a/grayc/src/stdlib/http.c b/grayc/src/stdlib/http.c
index 80ed724..ff5d75a 100644
--- a/grayc/src/stdlib/http.c
+++ b/grayc/src/stdlib/http.c
@@ -13,6 +13,10 @@
 #include <string.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <strings.h>
+#include <ctype.h>
+#include <errno.h>
+#include <sys/socket.h>
 
 #define GRAY_HTTP_DEFAULT_PORT    80
 #define GRAY_HTTP_TIMEOUT_MS      10000
@@ -105,11 +109,12 @@ static GrayHttpResponse parse_response(GrayArena *arena, const char *data, int d
     /* Find header/body separator */
     const char *body_start = NULL;
     const char *header_end = strstr(data, "\r\n\r\n");
-    if (header_end) {
+    const char *lf_end = strstr(data, "\n\n");
+    if (lf_end && (!header_end || lf_end < header_end)) {
+        header_end = lf_end;
+        body_start = lf_end + 2;
+    } else if (header_end) {
         body_start = header_end + 4;
-    } else {
-        header_end = strstr(data, "\n\n");
-        if (header_end) body_start = header_end + 2;
     }
 
     /* Parse headers */
@@ -145,6 +150,84 @@ static GrayHttpResponse parse_response(GrayArena *arena, const char *data, int d
     return resp;
 }
 
+/* How far a response has been received */
+typedef enum {
+    RESPONSE_PARTIAL,       /* more must follow */
+    RESPONSE_UNTIL_CLOSE,   /* complete if the connection ends here */
+    RESPONSE_COMPLETE,
+    RESPONSE_MALFORMED
+} ResponseState;
+
+/* Replace a chunked body by what it encodes, once all of it is there */
+static ResponseState decode_chunked(char *body, int *total, char *data) {
+    char *end = data + *total;
+    for (int pass = 0; pass < 2; pass++) { /* check, then move */
+        char *in = body, *out = body;
+        for (;;) {
+            char *line_end = memchr(in, '\n', (size_t)(end - in));
+            if (!line_end) return RESPONSE_PARTIAL;
+            if (!isxdigit((unsigned char)*in)) return RESPONSE_MALFORMED;
+            unsigned long size = strtoul(in, NULL, 16);
+            in = line_end + 1;
+            if (size == 0) break;
+            if (size > GRAY_HTTP_RESP_BUF || (size_t)(end - in) < size + 2) return RESPONSE_PARTIAL;
+            if (pass) memmove(out, in, size);
+            out += size;
+            in += size;
+            if (in[0] != '\r' || in[1] != '\n') return RESPONSE_MALFORMED;
+            in += 2;
+        }
+        for (;;) { /* trailers, ended by an empty line */
+            char *line_end = memchr(in, '\n', (size_t)(end - in));
+            if (!line_end) return RESPONSE_PARTIAL;
+            bool empty = line_end == in || (line_end == in + 1 && *in == '\r');
+            in = line_end + 1;
+            if (empty) break;
+        }
+        if (pass) {
+            *out = '\0';
+            *total = (int)(out - data);
+        }
+    }
+    return RESPONSE_COMPLETE;
+}
+
+/* Judge a NUL-terminated response of *total bytes; what follows a complete
+ * one is cut off */
+static ResponseState response_state(char *data, int *total, bool no_body) {
+    char *crlf = strstr(data, "\r\n\r\n");
+    char *lf = strstr(data, "\n\n");
+    char *body = crlf && (!lf || crlf < lf) ? crlf + 4 : lf ? lf + 2 : NULL;
+    if (!body) return RESPONSE_PARTIAL;
+
+    const char *sp = strchr(data, ' ');
+    int status = sp ? atoi(sp + 1) : 0;
+    if (no_body || status == 204 || status == 304) {
+        *total = (int)(body - data);
+        return RESPONSE_COMPLETE;
+    }
+
+    long length = -1;
+    for (char *line = strchr(data, '\n'); line && line + 1 < body; line = strchr(line, '\n')) {
+        line++;
+        if (strncasecmp(line, "Transfer-Encoding:", 18) == 0) {
+            const char *value = line + 18;
+            while (*value == ' ' || *value == '\t') value++;
+            if (strncasecmp(value, "chunked", 7) == 0) return decode_chunked(body, total, data);
+        } else if (strncasecmp(line, "Content-Length:", 15) == 0) {
+            const char *value = line + 15;
+            while (*value == ' ' || *value == '\t') value++;
+            if (!isdigit((unsigned char)*value)) return RESPONSE_MALFORMED;
+            length = strtol(value, NULL, 10);
+        }
+    }
+    if (length < 0) return RESPONSE_UNTIL_CLOSE;
+    if (*total - (body - data) < length) return RESPONSE_PARTIAL;
+    *total = (int)(body - data + length);
+    data[*total] = '\0';
+    return RESPONSE_COMPLETE;
+}
+
 /* Core HTTP request function */
 static GrayHttpResponse do_request(GrayArena *arena, const char *method,
                                   GrayString url, GrayString body, GrayMap *custom_headers) {
@@ -250,13 +333,31 @@ static GrayHttpResponse do_request(GrayArena *arena, const char *method,
         return err_resp;
     }
     int total = 0;
+    bool no_body = strcmp(method, "HEAD") == 0;
+    ResponseState state = RESPONSE_PARTIAL;
+    ssize_t n = 1;
     while (total < GRAY_HTTP_RESP_BUF - 1) {
-        GrayString chunk = gray_net_recv(arena, sock, GRAY_HTTP_RESP_BUF - total);
-        if (chunk.len <= 0) break;
-        memcpy(response_buffer + total, chunk.data, (size_t)chunk.len);
-        total += chunk.len;
+        n = recv(sock.fd, response_buffer + total, (size_t)(GRAY_HTTP_RESP_BUF - 1 - total), 0);
+        if (n < 0 && errno == EINTR) continue;
+        if (n <= 0) break;
+        total += (int)n;
+        response_buffer[total] = '\0';
+        state = response_state(response_buffer, &total, no_body);
+        if (state == RESPONSE_COMPLETE || state == RESPONSE_MALFORMED) break;
+    }
+
+    /* Only the end of the connection can end a response of unknown length */
+    const char *detail = NULL;
+    if (state == RESPONSE_MALFORMED) detail = "malformed response";
+    else if (n > 0 && state != RESPONSE_COMPLETE) detail = "response too large";
+    else if (n < 0) detail = "connection broke or timed out before the response was complete";
+    else if (state == RESPONSE_PARTIAL) detail = "connection closed before the response was complete";
+    if (detail) {
+        gray_net_close(sock);
+        free(response_buffer);
+        err_resp.body = gray_string_new(arena, detail, (int32_t)strlen(detail));
+        return err_resp;
     }
-    response_buffer[total] = '\0';
 
     gray_net_close(sock);
 
-- 
2.43.0


From 92d786e1e511d8f9fb44f77dae6a094fd1281280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:53:08 +0000
Subject: [PATCH 35/73] fix: a Content-Type the caller gives replaces the
 default one

---
 grayc/src/stdlib/http.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/grayc/src/stdlib/http.c b/grayc/src/stdlib/http.c
index ff5d75a..73403e5 100644
--- a/grayc/src/stdlib/http.c
+++ b/grayc/src/stdlib/http.c
@@ -228,6 +228,16 @@ static ResponseState response_state(char *data, int *total, bool no_body) {
     return RESPONSE_COMPLETE;
 }
 
+static bool names_header(GrayMap *headers, const char *name) {
+    for (int32_t i = 0; headers && i < headers->order_len; i++) {
+        int32_t slot = headers->order[i];
+        if (slot < 0) continue;
+        GrayString *k = (GrayString *)gray_map_key_at(headers, slot);
+        if (k && (size_t)k->len == strlen(name) && strncasecmp(k->data, name, (size_t)k->len) == 0) return true;
+    }
+    return false;
+}
+
 /* Core HTTP request function */
 static GrayHttpResponse do_request(GrayArena *arena, const char *method,
                                   GrayString url, GrayString body, GrayMap *custom_headers) {
@@ -280,9 +290,11 @@ static GrayHttpResponse do_request(GrayArena *arena, const char *method,
             "%s %s HTTP/1.1\r\n"
             "Host: %s\r\n"
             "Content-Length: %d\r\n"
-            "Content-Type: application/x-www-form-urlencoded\r\n"
+            "%s"
             "Connection: close\r\n",
-            method, path, host, (int)body.len);
+            method, path, host, (int)body.len,
+            names_header(custom_headers, "Content-Type")
+                ? "" : "Content-Type: application/x-www-form-urlencoded\r\n");
     } else {
         header_length = snprintf(header, sizeof(header),
             "%s %s HTTP/1.1\r\n"
-- 
2.43.0


From e4acd79900e9b77e2d8a1a49ac044fb51cf3ba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:05:35 +0000
Subject: [PATCH 36/73] fix: http keeps the last response header

---
 grayc/src/stdlib/http.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grayc/src/stdlib/http.c b/grayc/src/stdlib/http.c
index 73403e5..81996ab 100644
--- a/grayc/src/stdlib/http.c
+++ b/grayc/src/stdlib/http.c
@@ -120,9 +120,9 @@ static GrayHttpResponse parse_response(GrayArena *arena, const char *data, int d
     /* Parse headers */
     const char *line = strchr(data, '\n');
     if (line) line++;
-    while (line && line < header_end) {
+    while (line && line < body_start) {
         const char *end_of_line = strchr(line, '\n');
-        if (!end_of_line || end_of_line > header_end) break;
+        if (!end_of_line) break;
 
         const char *colon = memchr(line, ':', (size_t)(end_of_line - line));
         if (colon) {
-- 
2.43.0


From 561ba8adabc8cf2fd0c11db27b3b1a14fd1d25ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:35:03 +0000
Subject: [PATCH 37/73] fix: an update leaves a complete executable in place at
 every moment

The running executable was moved aside and the new one copied into its
place: a kill, a full disk or a power loss in between left no command or
half of one. Write the new one beside it, flush it and rename it over; a
failing close of a download or of an extracted file is an error.
---
 cli/update.go | 86 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 51 insertions(+), 35 deletions(-)

diff --git a/cli/update.go b/cli/update.go
index 1b96df9..096a13f 100644
--- a/cli/update.go
+++ b/cli/update.go
@@ -1079,7 +1079,9 @@ func doInstall(downloadURL, execPath string) error {
 	}
 
 	n, err := io.Copy(archiveFile, io.LimitReader(resp.Body, maxDownloadBytes+1))
-	archiveFile.Close()
+	if cerr := archiveFile.Close(); err == nil {
+		err = cerr
+	}
 	if err != nil {
 		return fmt.Errorf("failed to download archive: %w", err)
 	}
@@ -1098,35 +1100,10 @@ func doInstall(downloadURL, execPath string) error {
 		return fmt.Errorf("failed to extract archive: %w", err)
 	}
 
-	// Make executable
-	if err := os.Chmod(binaryPath, 0755); err != nil {
-		return fmt.Errorf("failed to set permissions: %w", err)
-	}
-
-	// Backup current executable
-	backupPath := execPath + ".backup"
-	if err := os.Rename(execPath, backupPath); err != nil {
-		return fmt.Errorf("failed to backup current binary: %w", err)
-	}
-
-	// Copy new binary into place (can't rename across filesystems)
-	if err := copyFile(binaryPath, execPath); err != nil {
-		// Try to restore backup
-		os.Rename(backupPath, execPath)
+	if err := replaceExecutable(binaryPath, execPath); err != nil {
 		return fmt.Errorf("failed to install update: %w", err)
 	}
 
-	// Make the new binary executable
-	if err := os.Chmod(execPath, 0755); err != nil {
-		// Try to restore backup
-		os.Remove(execPath)
-		os.Rename(backupPath, execPath)
-		return fmt.Errorf("failed to set permissions: %w", err)
-	}
-
-	// Remove backup
-	os.Remove(backupPath)
-
 	// Post-#1461: release archives ship a single binary; the compiler and
 	// runtime are embedded inside `gray`. No side-car files to copy. The
 	// archive extractor still whitelists `grayc`/`libgrayrt.a` so older
@@ -1214,7 +1191,9 @@ func extractTarGz(archivePath, destDir string) (string, error) {
 			outFile.Close()
 			return "", err
 		}
-		outFile.Close()
+		if err := outFile.Close(); err != nil {
+			return "", err
+		}
 
 		if name == "gray" || name == "gray.exe" {
 			grayBinaryPath = destPath
@@ -1261,7 +1240,9 @@ func extractZip(archivePath, destDir string) (string, error) {
 		}
 
 		_, err = io.Copy(outFile, rc)
-		outFile.Close()
+		if cerr := outFile.Close(); err == nil {
+			err = cerr
+		}
 		rc.Close()
 		if err != nil {
 			return "", err
@@ -1278,20 +1259,55 @@ func extractZip(archivePath, destDir string) (string, error) {
 	return grayBinaryPath, nil
 }
 
-// copyFile copies a file from src to dst
-func copyFile(src, dst string) error {
-	in, err := os.Open(src)
+// replaceExecutable puts a copy of newPath at execPath. The copy is written
+// beside execPath (the download may be on another filesystem), flushed to disk
+// and only then renamed over it, so that execPath is a complete executable at
+// every moment, whatever fails.
+func replaceExecutable(newPath, execPath string) error {
+	in, err := os.Open(newPath)
 	if err != nil {
 		return err
 	}
 	defer in.Close()
 
-	out, err := os.Create(dst)
+	out, err := os.CreateTemp(filepath.Dir(execPath), ".gray-update-*")
 	if err != nil {
 		return err
 	}
-	defer out.Close()
-
+	tmpPath := out.Name()
 	_, err = io.Copy(out, in)
+	if err == nil {
+		err = out.Chmod(0755)
+	}
+	if err == nil {
+		err = out.Sync()
+	}
+	if cerr := out.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = swapExecutable(tmpPath, execPath)
+	}
+	if err != nil {
+		os.Remove(tmpPath)
+	}
 	return err
 }
+
+// swapExecutable renames tmpPath to execPath. Windows cannot replace a running
+// executable, only move it aside.
+func swapExecutable(tmpPath, execPath string) error {
+	if runtime.GOOS != "windows" {
+		return os.Rename(tmpPath, execPath)
+	}
+	backupPath := execPath + ".backup"
+	if err := os.Rename(execPath, backupPath); err != nil {
+		return err
+	}
+	if err := os.Rename(tmpPath, execPath); err != nil {
+		os.Rename(backupPath, execPath)
+		return err
+	}
+	os.Remove(backupPath)
+	return nil
+}
-- 
2.43.0


From 9e6e69dd622e972fa612b61d7069ec65479efaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:35:03 +0000
Subject: [PATCH 38/73] fix: gray update asks sudo only for missing permissions

A full or read-only disk failed the write test under sudo as well, which
then started sudo again, without end.
---
 cli/update.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cli/update.go b/cli/update.go
index 096a13f..8f85624 100644
--- a/cli/update.go
+++ b/cli/update.go
@@ -973,16 +973,16 @@ func getAssetName() string {
 }
 
 // checkWritePermission checks if we can write to the executable's directory
-func checkWritePermission(path string) bool {
+func checkWritePermission(path string) error {
 	dir := filepath.Dir(path)
 	testFile := filepath.Join(dir, ".gray-update-test")
 	f, err := os.Create(testFile)
 	if err != nil {
-		return false
+		return err
 	}
 	f.Close()
 	os.Remove(testFile)
-	return true
+	return nil
 }
 
 // downloadAndInstall downloads the archive and extracts/installs the binary
@@ -998,7 +998,12 @@ func downloadAndInstall(url string) error {
 	}
 
 	// Check if we have write permission
-	if !checkWritePermission(execPath) {
+	if err := checkWritePermission(execPath); err != nil {
+		// Elevated permissions help only if they are what is missing: a full
+		// or read-only disk fails just the same under sudo.
+		if !os.IsPermission(err) || os.Geteuid() == 0 {
+			return fmt.Errorf("cannot write to %s: %w", filepath.Dir(execPath), err)
+		}
 		// Need elevated permissions - re-exec with sudo
 		if runtime.GOOS == "windows" {
 			return fmt.Errorf("permission denied. Please run as Administrator")
-- 
2.43.0


From 4e8f55a2df2527f863d9878dbf1b8e384ee644de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:32 +0000
Subject: [PATCH 39/73] fix: an update URL must not leave the release downloads
 by way of '..'

The prefix test accepted https://github.com/grayscale-lang/grayscale/
releases/download/../../../../other/repo/..., which the server resolves
to another repository.
---
 cli/update.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/update.go b/cli/update.go
index 8f85624..7d7ffd0 100644
--- a/cli/update.go
+++ b/cli/update.go
@@ -21,6 +21,7 @@ import (
 	"net/url"
 	"os"
 	"os/exec"
+	"path"
 	"path/filepath"
 	"regexp"
 	"runtime"
@@ -1040,9 +1041,13 @@ func isTrustedUpdateURL(rawURL string) bool {
 	if err != nil {
 		return false
 	}
+	// The server resolves "." and ".." (also when escaped), so a path that
+	// has them can name a file outside of the prefix it starts with.
 	return u.Scheme == "https" &&
 		u.Host == trustedUpdateHost &&
-		strings.HasPrefix(u.Path, trustedUpdatePathPrefix)
+		strings.HasPrefix(u.Path, trustedUpdatePathPrefix) &&
+		path.Clean(u.Path) == u.Path &&
+		!strings.Contains(u.Path, "\\")
 }
 
 // doInstall performs the actual download and installation
-- 
2.43.0


From 2452adc9307777b5335a0e3578b835eecb9186f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:32 +0000
Subject: [PATCH 40/73] fix: a release is downloaded over https only

A redirect to a plain http address was followed.
---
 cli/update.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cli/update.go b/cli/update.go
index 7d7ffd0..d59e964 100644
--- a/cli/update.go
+++ b/cli/update.go
@@ -1057,7 +1057,18 @@ func doInstall(downloadURL, execPath string) error {
 	}
 	url := downloadURL
 	// Download archive to temp file
-	client := &http.Client{Timeout: 5 * time.Minute}
+	client := &http.Client{
+		Timeout: 5 * time.Minute,
+		CheckRedirect: func(req *http.Request, via []*http.Request) error {
+			if req.URL.Scheme != "https" {
+				return fmt.Errorf("redirected to an insecure location")
+			}
+			if len(via) >= 10 {
+				return fmt.Errorf("stopped after 10 redirects")
+			}
+			return nil
+		},
+	}
 	resp, err := client.Get(url)
 	if err != nil {
 		return fmt.Errorf("failed to download: %w", err)
-- 
2.43.0


From 6fd788a3572d5bbebf0e16d74206950be2559268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:40:29 +0000
Subject: [PATCH 41/73] fix: the update check asks the network once a day also
 when it fails

A failed check was not remembered: offline, or while the API refused to
answer, every command waited up to two seconds for it.
---
 cli/update.go | 42 ++++++++++++++----------------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/cli/update.go b/cli/update.go
index d59e964..79a7e5e 100644
--- a/cli/update.go
+++ b/cli/update.go
@@ -575,43 +575,29 @@ func CheckForUpdateAsync() {
 	}
 
 	state, _ := readUpdateState()
-
-	// If we have cached state and it's fresh (checked today), use it
-	if state != nil && state.LatestVersion != "" && !shouldCheckForUpdate() {
-		if isNewerVersion(Version, state.LatestVersion) {
-			fmt.Printf("Note: Grayscale %s available (you have %s). Run `gray update` to upgrade.\n\n",
-				state.LatestVersion, Version)
-		}
-		return
+	if state == nil {
+		state = &UpdateState{}
 	}
 
-	// Cache is stale or empty - do a synchronous check
-	ctx, cancel := context.WithTimeout(context.Background(), checkTimeout)
-	defer cancel()
+	if shouldCheckForUpdate() {
+		// Cache is stale or empty - do a synchronous check
+		ctx, cancel := context.WithTimeout(context.Background(), checkTimeout)
+		defer cancel()
 
-	release, err := fetchLatestRelease(ctx)
-	if err != nil {
-		// Network error - fall back to cached state if available
-		if state != nil && state.LatestVersion != "" {
-			if isNewerVersion(Version, state.LatestVersion) {
-				fmt.Printf("Note: Grayscale %s available (you have %s). Run `gray update` to upgrade.\n\n",
-					state.LatestVersion, Version)
-			}
+		if release, err := fetchLatestRelease(ctx); err == nil && release.TagName != "" {
+			state.LatestVersion = release.TagName
 		}
-		return
-	}
 
-	// Update cache
-	newState := &UpdateState{
-		LastCheck:     time.Now().Format("2006-01-02"),
-		LatestVersion: release.TagName,
+		// Remember a failed check too, or every command waits for the
+		// network until it is back.
+		state.LastCheck = time.Now().Format("2006-01-02")
+		writeUpdateState(state)
 	}
-	writeUpdateState(newState)
 
 	// Print notification if newer version available
-	if isNewerVersion(Version, release.TagName) {
+	if state.LatestVersion != "" && isNewerVersion(Version, state.LatestVersion) {
 		fmt.Printf("Note: Grayscale %s available (you have %s). Run `gray update` to upgrade.\n\n",
-			release.TagName, Version)
+			state.LatestVersion, Version)
 	}
 }
 
-- 
2.43.0


From b32b7d600e38039edeb087e5040f7e640a6670b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:40:46 +0000
Subject: [PATCH 42/73] fix: a build past a stable tag counts as that version

The git-describe trailer was only stripped behind a pre-release label, so
v1.2.3-4-gabcdef0 looked older than v1.2.3 and 'gray update' offered it.
---
 cli/update.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/cli/update.go b/cli/update.go
index 79a7e5e..275d1a1 100644
--- a/cli/update.go
+++ b/cli/update.go
@@ -137,10 +137,10 @@ var exactSemverRE = regexp.MustCompile(
 	`^v?\d+\.\d+\.\d+(-[0-9A-Za-z][0-9A-Za-z.-]*)?(\+[0-9A-Za-z][0-9A-Za-z.-]*)?$`)
 
 // gitDescribeRE matches a `git describe --dirty` trailer such as
-// "-4-g0cbcb58" or "-4-g0cbcb58-dirty" appended to a semver pre-release
-// label by local dev builds. Matched as a unit so identifiers that
+// "-4-g0cbcb58", "-4-g0cbcb58-dirty" or "-dirty" appended to the tag
+// by local dev builds. Matched as a unit so identifiers that
 // legitimately contain "-g" (unlikely but possible) aren't over-trimmed.
-var gitDescribeRE = regexp.MustCompile(`-\d+-g[0-9a-f]+(-dirty)?$`)
+var gitDescribeRE = regexp.MustCompile(`(-\d+-g[0-9a-f]+(-dirty)?|-dirty)$`)
 
 // gitDescribeCaptureRE captures the components of the trailer so callers
 // can surface commit count / hash / dirty state separately from the
@@ -181,20 +181,21 @@ func GetVersionInfo() VersionInfo {
 
 // parseSemver parses a version string like "v3.0.0-beta.2" or "0.16.10" into
 // its numeric components plus the raw pre-release suffix (empty for stable).
-// Build metadata after '+' is discarded. A trailing git-describe suffix on
-// the pre-release label is stripped back to the real identifier so a local
-// dev build still orders correctly against upstream tags.
+// Build metadata after '+' is discarded. A trailing git-describe suffix
+// is stripped back to the real tag so a local dev build still orders
+// correctly against upstream tags.
 func parseSemver(v string) (major, minor, patch int, pre string) {
 	v = strings.TrimPrefix(v, "v")
 	// Drop +build metadata
 	if i := strings.Index(v, "+"); i != -1 {
 		v = v[:i]
 	}
+	v = gitDescribeRE.ReplaceAllString(v, "")
 	// Split off pre-release suffix
 	base := v
 	if i := strings.Index(v, "-"); i != -1 {
 		base = v[:i]
-		pre = gitDescribeRE.ReplaceAllString(v[i+1:], "")
+		pre = v[i+1:]
 	}
 	parts := strings.Split(base, ".")
 	if len(parts) >= 1 {
-- 
2.43.0


From 5253794ecf72659836799a0dde7c67edb757b5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:43:05 +0000
Subject: [PATCH 43/73] fix: a failed extraction of the bundled compiler is
 reported

It made gray fall back to whatever grayc lay around on the system.
---
 internal/grayc/grayc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/grayc/grayc.go b/internal/grayc/grayc.go
index 1fd1dba..1502fc1 100644
--- a/internal/grayc/grayc.go
+++ b/internal/grayc/grayc.go
@@ -8,6 +8,7 @@
 package grayc
 
 import (
+	"errors"
 	"fmt"
 	"os"
 	"os/exec"
@@ -31,9 +32,12 @@ func Find() (string, error) {
 		return p, nil
 	}
 
-	// 2. Embedded runtime (release builds)
+	// 2. Embedded runtime (release builds). A failed extraction is an error:
+	// a compiler found elsewhere may belong to another version.
 	if p, err := extractEmbedded(); err == nil {
 		return p, nil
+	} else if !errors.Is(err, ErrNoEmbed) {
+		return "", err
 	}
 
 	// 3. Same directory as gray binary
-- 
2.43.0


From aafca06c48c29d635ea81ac95a20d9c9a62153ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:43:05 +0000
Subject: [PATCH 44/73] fix: gray says why it failed

The command tree silences its errors and main did not print them: every
error ended in exit status 1 without a word.
---
 cli/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/main.go b/cli/main.go
index f4c2495..84012fb 100644
--- a/cli/main.go
+++ b/cli/main.go
@@ -38,6 +38,7 @@ func main() {
 		if errors.As(err, &exitErr) {
 			os.Exit(exitErr.Code)
 		}
+		fmt.Fprintln(os.Stderr, err)
 		os.Exit(1)
 	}
 }
-- 
2.43.0


From cbcbcc2eb82b2a0664610ba1700a181b6445b301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:43:25 +0000
Subject: [PATCH 45/73] fix: the extraction directory depends on the bundled
 sources too

Two builds with the same compiler and library but other headers shared a
directory, and the size check kept the headers of the first.
---
 internal/grayc/embedded.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/internal/grayc/embedded.go b/internal/grayc/embedded.go
index 33ea4d1..84b40f8 100644
--- a/internal/grayc/embedded.go
+++ b/internal/grayc/embedded.go
@@ -13,6 +13,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"io"
 	"io/fs"
 	"os"
 	"path/filepath"
@@ -52,12 +53,17 @@ func extractEmbedded() (string, error) {
 			return
 		}
 
-		// Content-address the pair so a new gray binary (built against new
+		// Content-address the assets so a new gray binary (built against new
 		// compiler artifacts) lands in a fresh directory instead of
-		// reusing a stale extraction from an older install.
+		// reusing a stale extraction from an older install. The sources
+		// count too: the headers go with the library.
 		h := sha256.New()
 		h.Write(embeddedGrayc)
 		h.Write(embeddedLibgrayrt)
+		if err := hashSourceTree(h); err != nil {
+			extractErr = err
+			return
+		}
 		tag := hex.EncodeToString(h.Sum(nil))[:16]
 
 		home, err := os.UserHomeDir()
@@ -100,9 +106,25 @@ func extractEmbedded() (string, error) {
 	return extractedGraycPath, extractErr
 }
 
+// hashSourceTree adds the names and contents of the embedded src/ tree to h.
+func hashSourceTree(h io.Writer) error {
+	return fs.WalkDir(embeddedSrc, "runtime/src", func(path string, d fs.DirEntry, err error) error {
+		if err != nil || d.IsDir() {
+			return err
+		}
+		data, err := embeddedSrc.ReadFile(path)
+		if err != nil {
+			return fmt.Errorf("read embedded %s: %w", path, err)
+		}
+		fmt.Fprintf(h, "%s %d\n", path, len(data))
+		_, err = h.Write(data)
+		return err
+	})
+}
+
 // extractSourceTree walks the embedded src/ tree and writes each file
 // into dir/src/{runtime,stdlib}/. Skips files that already exist with
-// the correct size (same logic as writeIfMissing).
+// the correct content (same logic as writeIfMissing).
 func extractSourceTree(dir string) error {
 	return fs.WalkDir(embeddedSrc, "runtime/src", func(path string, d fs.DirEntry, err error) error {
 		if err != nil {
-- 
2.43.0


From 2e7630c786a3d1c0445b2eb1152c8466af8a68c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:44:37 +0000
Subject: [PATCH 46/73] fix: concurrent gray processes extract the compiler
 without sharing a temporary file

Two processes wrote the same .tmp file and one could rename the other's
half-written copy into place; a file of the right size was trusted even
if a crash had lost its content.
---
 internal/grayc/embedded.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/internal/grayc/embedded.go b/internal/grayc/embedded.go
index 84b40f8..b9f0712 100644
--- a/internal/grayc/embedded.go
+++ b/internal/grayc/embedded.go
@@ -8,6 +8,7 @@
 package grayc
 
 import (
+	"bytes"
 	"crypto/sha256"
 	"embed"
 	"encoding/hex"
@@ -147,16 +148,34 @@ func extractSourceTree(dir string) error {
 	})
 }
 
-// writeIfMissing writes data to path with the given mode unless a file of
-// the same size already exists there. The content-hash tag in the parent
-// directory already guarantees uniqueness per build, so a size check is
-// sufficient to detect a successful prior extraction.
+// writeIfMissing writes data to path with the given mode unless a file with
+// that content already exists there. Other gray processes may be extracting
+// to, or running from, the same directory: the data goes to a temporary file
+// of our own, is flushed, and only then renamed into place, so that path
+// never holds part of it, not even after a crash.
 func writeIfMissing(path string, data []byte, mode fs.FileMode) error {
-	if st, err := os.Stat(path); err == nil && st.Size() == int64(len(data)) {
-		return nil
+	if st, err := os.Stat(path); err == nil && st.Size() == int64(len(data)) && (mode&0o100 == 0 || st.Mode()&0o100 != 0) {
+		if old, err := os.ReadFile(path); err == nil && bytes.Equal(old, data) {
+			return nil
+		}
+	}
+	f, err := os.CreateTemp(filepath.Dir(path), filepath.Base(path)+".tmp-*")
+	if err != nil {
+		return fmt.Errorf("write %s: %w", path, err)
+	}
+	tmp := f.Name()
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Chmod(mode)
 	}
-	tmp := path + ".tmp"
-	if err := os.WriteFile(tmp, data, mode); err != nil {
+	if err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		_ = os.Remove(tmp)
 		return fmt.Errorf("write %s: %w", path, err)
 	}
 	if err := os.Rename(tmp, path); err != nil {
-- 
2.43.0


From 3e807fb59ecbd569b939231bac88c1c5cde39fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:47:16 +0000
Subject: [PATCH 47/73] fix: gray watch follows imports as the language writes
 them

The import scan kept the quotes and the alias, so import "./lib.gray" was
looked up as a file with quotes in its name and never watched; imports of
imported files were not followed.
---
 cli/watch.go | 62 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/cli/watch.go b/cli/watch.go
index 3d4783f..7bc7218 100644
--- a/cli/watch.go
+++ b/cli/watch.go
@@ -171,33 +171,36 @@ func collectFilesToWatch(mainFile string) []string {
 	files := []string{mainFile}
 	dir := filepath.Dir(mainFile)
 	seen := map[string]struct{}{mainFile: {}}
-
-	imports := scanImports(mainFile)
-	for _, imp := range imports {
-		// Skip stdlib imports (@std, @math, etc.)
-		if strings.HasPrefix(imp, "@") {
-			continue
+	add := func(f string) {
+		if _, ok := seen[f]; !ok {
+			files = append(files, f)
+			seen[f] = struct{}{}
 		}
-		// Resolve relative to the main file's directory
-		resolved := filepath.Join(dir, imp)
-		if !strings.HasSuffix(resolved, ".gray") {
-			// Could be a directory module
-			if info, err := os.Stat(resolved); err == nil && info.IsDir() {
-				dirFiles := collectGrayFilesInDir(resolved)
-				for _, f := range dirFiles {
-					if _, ok := seen[f]; !ok {
-						files = append(files, f)
-						seen[f] = struct{}{}
-					}
-				}
+	}
+
+	// files grows while it is walked: imported files have imports too
+	for i := 0; i < len(files); i++ {
+		for _, imp := range scanImports(files[i]) {
+			// Skip stdlib imports (@std, @math, etc.)
+			if strings.HasPrefix(imp, "@") {
 				continue
 			}
-			resolved += ".gray"
-		}
-		if _, ok := seen[resolved]; !ok {
-			if _, err := os.Stat(resolved); err == nil {
-				files = append(files, resolved)
-				seen[resolved] = struct{}{}
+			// Resolve relative to the main file's directory; files of a
+			// directory module import relative to their own
+			for _, base := range []string{dir, filepath.Dir(files[i])} {
+				resolved := filepath.Join(base, imp)
+				if !strings.HasSuffix(resolved, ".gray") {
+					// Could be a directory module
+					if info, err := os.Stat(resolved); err == nil && info.IsDir() {
+						for _, f := range collectGrayFilesInDir(resolved) {
+							add(f)
+						}
+					}
+					resolved += ".gray"
+				}
+				if info, err := os.Stat(resolved); err == nil && !info.IsDir() {
+					add(resolved)
+				}
 			}
 		}
 	}
@@ -205,7 +208,8 @@ func collectFilesToWatch(mainFile string) []string {
 }
 
 // scanImports does a simple text scan for import statements in a Grayscale file.
-// Returns the import paths (e.g., "@std", "./mymodule", "utils").
+// Returns the import paths without quotes and aliases (e.g., "@std",
+// "./mymodule", "utils").
 func scanImports(filePath string) []string {
 	f, err := os.Open(filePath)
 	if err != nil {
@@ -226,8 +230,16 @@ func scanImports(filePath string) []string {
 		if idx := strings.Index(rest, " using "); idx >= 0 {
 			rest = rest[:idx]
 		}
+		rest = strings.TrimPrefix(strings.TrimSpace(rest), "and use ")
 		for _, part := range strings.Split(rest, ",") {
 			part = strings.TrimSpace(part)
+			if i := strings.IndexByte(part, '"'); i >= 0 {
+				// "path" or alias"path"
+				part, _, _ = strings.Cut(part[i+1:], "\"")
+			} else if i := strings.IndexByte(part, '@'); i > 0 {
+				// alias @module
+				part = part[i:]
+			}
 			if part != "" {
 				imports = append(imports, part)
 			}
-- 
2.43.0


From ba12ebc29484a399a221ba8dce712334455ba436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:49:20 +0000
Subject: [PATCH 48/73] fix: gray watch runs the latest code, one run at a time

Files were watched by inode, so an editor that replaces a file by renaming
ended the watching; runs were started from timers and overlapped; lost
events (a queue overflow) were only reported.
---
 cli/watch.go | 124 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 81 insertions(+), 43 deletions(-)

diff --git a/cli/watch.go b/cli/watch.go
index 7bc7218..9d6c726 100644
--- a/cli/watch.go
+++ b/cli/watch.go
@@ -10,11 +10,11 @@ package main
 
 import (
 	"bufio"
+	"errors"
 	"fmt"
 	"os"
 	"path/filepath"
 	"strings"
-	"sync"
 	"time"
 
 	"github.com/fsnotify/fsnotify"
@@ -65,47 +65,103 @@ func runWatch(cmd *cobra.Command, args []string) error {
 	return watchFile(absTarget, compilerArgs)
 }
 
-// watchLoop runs the debounced event loop shared by file and directory watch modes.
-// filterEvent decides whether a filesystem event should trigger a rebuild.
-// refreshFiles returns the current set of files to watch (called on each rebuild).
-func watchLoop(watcher *fsnotify.Watcher, mainFile string, compilerArgs []string,
-	filterEvent func(fsnotify.Event) bool, refreshFiles func() []string) {
+const debounceInterval = 100 * time.Millisecond
 
-	executeFile(mainFile, compilerArgs)
+// watchSet is the set of files whose changes trigger a run. Their directories
+// are watched rather than the files: an editor may replace a file by renaming
+// another one over it, and a watch of the old file would go with it.
+type watchSet struct {
+	watcher *fsnotify.Watcher
+	files   map[string]struct{} // kept when the file disappears: it may come back
+	dirs    map[string]struct{}
+}
+
+// add watches files and reports whether any of them is new to the set.
+func (w *watchSet) add(files []string) bool {
+	isNew := false
+	for _, f := range files {
+		if dir, err := filepath.EvalSymlinks(filepath.Dir(f)); err == nil {
+			isNew = w.addFile(filepath.Join(dir, filepath.Base(f))) || isNew
+		}
+		// The target of a link can change as well as the link
+		if target, err := filepath.EvalSymlinks(f); err == nil {
+			isNew = w.addFile(target) || isNew
+		}
+	}
+	return isNew
+}
 
-	var mu sync.Mutex
-	var timer *time.Timer
-	debounceInterval := 100 * time.Millisecond
+func (w *watchSet) addFile(f string) bool {
+	_, known := w.files[f]
+	w.files[f] = struct{}{}
+	w.addDir(filepath.Dir(f))
+	return !known
+}
+
+// addDir is repeated for known directories, which may have been replaced.
+func (w *watchSet) addDir(dir string) {
+	_, known := w.dirs[dir]
+	if err := w.watcher.Add(dir); err == nil {
+		w.dirs[dir] = struct{}{}
+	} else if known {
+		delete(w.dirs, dir)
+	} else {
+		fmt.Printf("Error watching %s: %v\n", dir, err)
+	}
+}
+
+// watchLoop runs the debounced event loop shared by file and directory watch modes.
+// files returns the current set of files to watch (called before each rebuild).
+func watchLoop(watcher *fsnotify.Watcher, mainFile string, compilerArgs []string, files func() []string) {
+	set := &watchSet{watcher: watcher, files: map[string]struct{}{}, dirs: map[string]struct{}{}}
+	set.add(files())
+	executeFile(mainFile, compilerArgs)
 
+	// The program runs in this loop, one run at a time: changes made in the
+	// meantime wait in the watcher.
+	var timer <-chan time.Time
+	changed := false
 	for {
 		select {
 		case event, ok := <-watcher.Events:
 			if !ok {
 				return
 			}
-			if event.Op&(fsnotify.Write|fsnotify.Create) == 0 || !filterEvent(event) {
+			if event.Op&(fsnotify.Write|fsnotify.Create) == 0 {
 				continue
 			}
-			mu.Lock()
-			if timer != nil {
-				timer.Stop()
+			if _, ok := set.files[event.Name]; ok {
+				changed = true
+			} else if !strings.HasSuffix(event.Name, ".gray") && !isDir(event.Name) {
+				continue
 			}
-			timer = time.AfterFunc(debounceInterval, func() {
-				for _, f := range refreshFiles() {
-					watcher.Add(f)
-				}
-				executeFile(mainFile, compilerArgs)
-			})
-			mu.Unlock()
+			// A file or directory not in the set may belong there now
+			timer = time.After(debounceInterval)
 		case err, ok := <-watcher.Errors:
 			if !ok {
 				return
 			}
 			fmt.Printf("Watcher error: %v\n", err)
+			if errors.Is(err, fsnotify.ErrEventOverflow) {
+				// Events were lost, and any file may have changed
+				changed = true
+				timer = time.After(debounceInterval)
+			}
+		case <-timer:
+			timer = nil
+			if set.add(files()) || changed {
+				changed = false
+				executeFile(mainFile, compilerArgs)
+			}
 		}
 	}
 }
 
+func isDir(path string) bool {
+	info, err := os.Stat(path)
+	return err == nil && info.IsDir()
+}
+
 // watchFile watches a single file and its imports for changes
 func watchFile(file string, compilerArgs []string) error {
 	watcher, err := fsnotify.NewWatcher()
@@ -114,14 +170,7 @@ func watchFile(file string, compilerArgs []string) error {
 	}
 	defer watcher.Close()
 
-	filesToWatch := collectFilesToWatch(file)
-	for _, f := range filesToWatch {
-		if err := watcher.Add(f); err != nil {
-			fmt.Printf("Error watching %s: %v\n", f, err)
-		}
-	}
-
-	if importCount := len(filesToWatch) - 1; importCount > 0 {
+	if importCount := len(collectFilesToWatch(file)) - 1; importCount > 0 {
 		fmt.Printf("Watching %s (+ %d imports)\n", shortPath(file), importCount)
 	} else {
 		fmt.Printf("Watching %s\n", shortPath(file))
@@ -129,9 +178,7 @@ func watchFile(file string, compilerArgs []string) error {
 	fmt.Println("Press Ctrl+C to stop")
 	fmt.Println()
 
-	watchLoop(watcher, file, compilerArgs,
-		func(_ fsnotify.Event) bool { return true },
-		func() []string { return collectFilesToWatch(file) })
+	watchLoop(watcher, file, compilerArgs, func() []string { return collectFilesToWatch(file) })
 	return nil
 }
 
@@ -148,20 +195,11 @@ func watchDirectory(dirPath string, compilerArgs []string) error {
 	}
 	defer watcher.Close()
 
-	filesToWatch := collectGrayFilesInDir(dirPath)
-	for _, f := range filesToWatch {
-		if err := watcher.Add(f); err != nil {
-			fmt.Printf("Error watching %s: %v\n", f, err)
-		}
-	}
-
-	fmt.Printf("Watching %s (%d files, entry: %s)\n", shortPath(dirPath), len(filesToWatch), shortPath(mainFile))
+	fmt.Printf("Watching %s (%d files, entry: %s)\n", shortPath(dirPath), len(collectGrayFilesInDir(dirPath)), shortPath(mainFile))
 	fmt.Println("Press Ctrl+C to stop")
 	fmt.Println()
 
-	watchLoop(watcher, mainFile, compilerArgs,
-		func(e fsnotify.Event) bool { return strings.HasSuffix(e.Name, ".gray") },
-		func() []string { return collectGrayFilesInDir(dirPath) })
+	watchLoop(watcher, mainFile, compilerArgs, func() []string { return collectGrayFilesInDir(dirPath) })
 	return nil
 }
 
-- 
2.43.0


From 8441f00bb68608e0ab413f5ba8882f3321b857f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:20 +0000
Subject: [PATCH 49/73] fix: gray fmt fails when a file or directory it was
 given could not be read

A missing or unreadable argument, an argument that is not a .gray file and
an unreadable directory below dir/... were at most mentioned: the command
went on, said the files were formatted and exited 0, so a CI gate passed
without having looked at them.
---
 cli/fmt.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/cli/fmt.go b/cli/fmt.go
index 80acda9..31365c6 100644
--- a/cli/fmt.go
+++ b/cli/fmt.go
@@ -76,14 +76,22 @@ func formatGraySource(src []byte) []byte {
 //   - "dir"               — all .gray files directly inside dir (non-recursive)
 //   - "dir/subdir"        — all .gray files directly inside dir/subdir
 //   - "./..." or "dir/..." — recursive walk for .gray files
-func collectFmtFiles(args []string) []string {
+//
+// The second result is false when an argument, or a directory below one,
+// could not be expanded; the reason has been printed.
+func collectFmtFiles(args []string) ([]string, bool) {
 	seen := make(map[string]struct{})
 	var files []string
+	complete := true
+	fail := func(format string, a ...any) {
+		fmt.Fprintf(os.Stderr, "gray fmt: "+format+"\n", a...)
+		complete = false
+	}
 
 	add := func(p string) {
 		ap, err := filepath.Abs(p)
 		if err != nil {
-			fmt.Fprintf(os.Stderr, "gray fmt: cannot resolve %s: %v\n", p, err)
+			fail("cannot resolve %s: %v", p, err)
 			return
 		}
 		if _, ok := seen[ap]; ok {
@@ -101,6 +109,7 @@ func collectFmtFiles(args []string) []string {
 			}
 			filepath.Walk(baseDir, func(p string, info os.FileInfo, err error) error {
 				if err != nil {
+					fail("%v", err)
 					return nil
 				}
 				if !info.IsDir() && strings.HasSuffix(p, ".gray") {
@@ -113,14 +122,14 @@ func collectFmtFiles(args []string) []string {
 
 		info, err := os.Stat(arg)
 		if err != nil {
-			fmt.Fprintf(os.Stderr, "gray fmt: %v\n", err)
+			fail("%v", err)
 			continue
 		}
 
 		if info.IsDir() {
 			entries, err := os.ReadDir(arg)
 			if err != nil {
-				fmt.Fprintf(os.Stderr, "gray fmt: %v\n", err)
+				fail("%v", err)
 				continue
 			}
 			for _, e := range entries {
@@ -131,22 +140,25 @@ func collectFmtFiles(args []string) []string {
 		} else if strings.HasSuffix(arg, ".gray") {
 			add(arg)
 		} else {
-			fmt.Fprintf(os.Stderr, "gray fmt: '%s' is not a .gray file or directory\n", arg)
+			fail("'%s' is not a .gray file or directory", arg)
 		}
 	}
-	return files
+	return files, complete
 }
 
 // runFmt is the entry point invoked by the Cobra fmtCmd. It returns the
 // exit code the caller should propagate (0 success, 1 on error).
 func runFmt(args []string, checkMode bool) int {
-	files := collectFmtFiles(args)
+	files, complete := collectFmtFiles(args)
+	exit := 0
+	if !complete {
+		exit = 1
+	}
 	if len(files) == 0 {
 		fmt.Println("gray fmt: no .gray files found")
-		return 0
+		return exit
 	}
 
-	exit := 0
 	changed := 0
 
 	for _, path := range files {
@@ -206,7 +218,7 @@ func runFmt(args []string, checkMode bool) int {
 		}
 	}
 
-	if !checkMode && changed == 0 {
+	if !checkMode && changed == 0 && exit == 0 {
 		fmt.Printf("gray fmt: %d file(s) checked, already formatted\n", len(files))
 	}
 	return exit
-- 
2.43.0


From d2a17d8e5bffb2118e2cea5a0865ebfeb776aa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:20 +0000
Subject: [PATCH 50/73] fix: gray fmt --check fails when a file could not be
 formatted

The copy that is formatted for the comparison was written without looking
at the result, and a formatter that failed left it as it was: a file with a
syntax error, or a missing compiler, passed the check.
---
 cli/fmt.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/cli/fmt.go b/cli/fmt.go
index 31365c6..eef5337 100644
--- a/cli/fmt.go
+++ b/cli/fmt.go
@@ -178,12 +178,21 @@ func runFmt(args []string, checkMode bool) int {
 				continue
 			}
 			tmpName := tmp.Name()
-			tmp.Write(orig)
-			tmp.Close()
-
-			grayc.Fmt(tmpName)
-
-			formatted, err := os.ReadFile(tmpName)
+			_, err = tmp.Write(orig)
+			if cerr := tmp.Close(); err == nil {
+				err = cerr
+			}
+			var formatted []byte
+			if err == nil {
+				var code int
+				code, err = grayc.Fmt(tmpName)
+				if err == nil && code != 0 {
+					err = fmt.Errorf("failed to format '%s'", path)
+				}
+			}
+			if err == nil {
+				formatted, err = os.ReadFile(tmpName)
+			}
 			os.Remove(tmpName)
 			if err != nil {
 				fmt.Fprintf(os.Stderr, "gray fmt: %v\n", err)
-- 
2.43.0


From 54a04e323e1efe956ab448cdb1c940c7b94b1a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:20 +0000
Subject: [PATCH 51/73] fix: gray verify reports a test program that could not
 be written

A delayed write error (full disk, quota, network file system) shows up when
the file is closed, and was ignored: a cut program was compiled.
---
 cli/verify.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/verify.go b/cli/verify.go
index 96b641f..1ebca05 100644
--- a/cli/verify.go
+++ b/cli/verify.go
@@ -35,7 +35,10 @@ func runVerify() int {
 		fmt.Fprintf(os.Stderr, "error: could not write temp file: %v\n", err)
 		return 1
 	}
-	tmp.Close()
+	if err := tmp.Close(); err != nil {
+		fmt.Fprintf(os.Stderr, "error: could not write temp file: %v\n", err)
+		return 1
+	}
 
 	fmt.Println("Running Grayscale language verification test...")
 	code, err := grayc.Run(tmp.Name(), nil)
-- 
2.43.0


From 115905519a75ef91a0f658e263220ab350a1c2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:20 +0000
Subject: [PATCH 52/73] fix: gray doc fails when it could not read its input or
 write its output

Errors were printed to standard output and the command exited 0, having
overwritten the documentation with what it happened to find. A line longer
than 64 KB ended the reading of its file without a word.
---
 cli/commands.go |  4 +--
 cli/doc.go      | 86 ++++++++++++++++++++++++++++---------------------
 2 files changed, 52 insertions(+), 38 deletions(-)

diff --git a/cli/commands.go b/cli/commands.go
index 343fd7a..e080535 100644
--- a/cli/commands.go
+++ b/cli/commands.go
@@ -150,9 +150,9 @@ Examples:
 Output is written to DOCS.md by default. Use -o/--output to write
 to a different path (parent directories are created as needed).`,
 	Args: cobra.MinimumNArgs(1),
-	Run: func(cmd *cobra.Command, args []string) {
+	RunE: func(cmd *cobra.Command, args []string) error {
 		output, _ := cmd.Flags().GetString("output")
-		generateDocs(args, output)
+		return generateDocs(args, output)
 	},
 }
 
diff --git a/cli/doc.go b/cli/doc.go
index 6721371..761261b 100644
--- a/cli/doc.go
+++ b/cli/doc.go
@@ -9,7 +9,7 @@
 package main
 
 import (
-	"bufio"
+	"errors"
 	"fmt"
 	"os"
 	"path/filepath"
@@ -32,13 +32,21 @@ const defaultDocOutputPath = "DOCS.md"
 // generateDocs is the entry point for the gray doc command. outputPath is
 // the destination markdown file; an empty string falls back to
 // defaultDocOutputPath so the `DOCS.md`-in-cwd behavior is
-// unchanged for callers that do not pass --output.
-func generateDocs(args []string, outputPath string) {
+// unchanged for callers that do not pass --output. Nothing is written when
+// an input could not be read to the end.
+func generateDocs(args []string, outputPath string) error {
 	if outputPath == "" {
 		outputPath = defaultDocOutputPath
 	}
 
 	var entries []DocEntry
+	var failed []error
+	collect := func(found []DocEntry, err error) {
+		entries = append(entries, found...)
+		if err != nil {
+			failed = append(failed, err)
+		}
+	}
 
 	for _, arg := range args {
 		if strings.HasSuffix(arg, "/...") {
@@ -46,17 +54,20 @@ func generateDocs(args []string, outputPath string) {
 			if baseDir == "." || baseDir == "" {
 				baseDir = "."
 			}
-			entries = append(entries, collectDocsRecursive(baseDir)...)
+			collect(collectDocsRecursive(baseDir))
 		} else if strings.HasSuffix(arg, ".gray") {
-			entries = append(entries, collectDocsFromFile(arg)...)
+			collect(collectDocsFromFile(arg))
 		} else {
-			entries = append(entries, collectDocsFromDir(arg)...)
+			collect(collectDocsFromDir(arg))
 		}
 	}
 
+	if len(failed) > 0 {
+		return errors.Join(failed...)
+	}
 	if len(entries) == 0 {
 		fmt.Println("No documented items found.")
-		return
+		return nil
 	}
 
 	output := generateMarkdown(entries)
@@ -75,38 +86,33 @@ func generateDocs(args []string, outputPath string) {
 	// nested path like docs/API.md.
 	if dir := filepath.Dir(outputPath); dir != "" && dir != "." {
 		if err := os.MkdirAll(dir, 0o755); err != nil {
-			fmt.Printf("Error creating output directory %s: %v\n", dir, err)
-			return
+			return fmt.Errorf("Error creating output directory %s: %v", dir, err)
 		}
 	}
 
 	if err := os.WriteFile(outputPath, []byte(output), 0644); err != nil {
-		fmt.Printf("Error writing %s: %v\n", outputPath, err)
-		return
+		return fmt.Errorf("Error writing %s: %v", outputPath, err)
 	}
 
 	fmt.Printf("Generated %s with %d documented item(s)\n", outputPath, len(entries))
+	return nil
 }
 
 // collectDocsFromFile extracts documented items from a single .gray file using text scanning.
 // Looks for #doc("description") followed by do/const struct/const enum declarations.
-func collectDocsFromFile(filename string) []DocEntry {
+func collectDocsFromFile(filename string) ([]DocEntry, error) {
 	var entries []DocEntry
 
 	absPath, err := filepath.Abs(filename)
 	if err != nil {
-		fmt.Printf("Error resolving path %s: %v\n", filename, err)
-		return entries
+		return nil, fmt.Errorf("Error resolving path %s: %v", filename, err)
 	}
 
-	f, err := os.Open(absPath)
+	src, err := os.ReadFile(absPath)
 	if err != nil {
-		fmt.Printf("Error reading file %s: %v\n", filename, err)
-		return entries
+		return nil, fmt.Errorf("Error reading file %s: %v", filename, err)
 	}
-	defer f.Close()
 
-	scanner := bufio.NewScanner(f)
 	var pendingDoc string
 	var inBlock bool
 	var blockLines []string
@@ -114,8 +120,8 @@ func collectDocsFromFile(filename string) []DocEntry {
 	var blockName string
 	braceDepth := 0
 
-	for scanner.Scan() {
-		line := scanner.Text()
+	for _, line := range strings.Split(string(src), "\n") {
+		line = strings.TrimSuffix(line, "\r")
 		trimmed := strings.TrimSpace(line)
 
 		// Collecting a block (struct/enum body)
@@ -205,7 +211,7 @@ func collectDocsFromFile(filename string) []DocEntry {
 		}
 	}
 
-	return entries
+	return entries, nil
 }
 
 // extractDocString extracts the description from #doc("some text")
@@ -246,43 +252,51 @@ func extractStructEnumName(line string) string {
 	return ""
 }
 
-func collectDocsFromDir(dir string) []DocEntry {
+func collectDocsFromDir(dir string) ([]DocEntry, error) {
 	var entries []DocEntry
 	absDir, err := filepath.Abs(dir)
 	if err != nil {
-		fmt.Printf("Error resolving path %s: %v\n", dir, err)
-		return entries
+		return nil, fmt.Errorf("Error resolving path %s: %v", dir, err)
 	}
 	files, err := os.ReadDir(absDir)
 	if err != nil {
-		fmt.Printf("Error reading directory %s: %v\n", dir, err)
-		return entries
+		return nil, fmt.Errorf("Error reading directory %s: %v", dir, err)
 	}
 	for _, file := range files {
 		if !file.IsDir() && strings.HasSuffix(file.Name(), ".gray") {
-			entries = append(entries, collectDocsFromFile(filepath.Join(absDir, file.Name()))...)
+			found, err := collectDocsFromFile(filepath.Join(absDir, file.Name()))
+			if err != nil {
+				return nil, err
+			}
+			entries = append(entries, found...)
 		}
 	}
-	return entries
+	return entries, nil
 }
 
-func collectDocsRecursive(dir string) []DocEntry {
+func collectDocsRecursive(dir string) ([]DocEntry, error) {
 	var entries []DocEntry
 	absDir, err := filepath.Abs(dir)
 	if err != nil {
-		fmt.Printf("Error resolving path %s: %v\n", dir, err)
-		return entries
+		return nil, fmt.Errorf("Error resolving path %s: %v", dir, err)
 	}
-	filepath.Walk(absDir, func(path string, info os.FileInfo, err error) error {
+	err = filepath.Walk(absDir, func(path string, info os.FileInfo, err error) error {
 		if err != nil {
-			return nil
+			return fmt.Errorf("Error reading %s: %v", path, err)
 		}
 		if !info.IsDir() && strings.HasSuffix(path, ".gray") {
-			entries = append(entries, collectDocsFromFile(path)...)
+			found, err := collectDocsFromFile(path)
+			if err != nil {
+				return err
+			}
+			entries = append(entries, found...)
 		}
 		return nil
 	})
-	return entries
+	if err != nil {
+		return nil, err
+	}
+	return entries, nil
 }
 
 func generateMarkdown(entries []DocEntry) string {
-- 
2.43.0


From cbbb7996d20958ba5a26c77c10566ee04cabfba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:20 +0000
Subject: [PATCH 53/73] fix: gray new --force fails when the old directory
 could not be removed

What was left of the old project was mixed with the new one.
---
 cli/new.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/new.go b/cli/new.go
index 75d1fc8..18e061f 100644
--- a/cli/new.go
+++ b/cli/new.go
@@ -181,7 +181,11 @@ func createProject(name, template string, comments, force bool, serverType strin
 			fmt.Println("Cancelled.")
 			return errNewCancelled
 		}
-		os.RemoveAll(name)
+		if err := os.RemoveAll(name); err != nil {
+			return err
+		}
+	} else if !os.IsNotExist(err) {
+		return err
 	}
 
 	fmt.Printf("\nCreating project '%s' with template '%s'...\n", name, template)
-- 
2.43.0


From cd01c55862356beb7b8f9c590ab612137d0136f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:20 +0000
Subject: [PATCH 54/73] fix: gray new reads every answer when they come from a
 pipe

Each prompt buffered standard input for itself, so the first one swallowed
the answers to the others: the project was created from the default template
instead of the one asked for.
---
 cli/new.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/cli/new.go b/cli/new.go
index 18e061f..b3d8bb7 100644
--- a/cli/new.go
+++ b/cli/new.go
@@ -8,7 +8,6 @@
 package main
 
 import (
-	"bufio"
 	"embed"
 	"fmt"
 	"io/fs"
@@ -158,15 +157,33 @@ func isValidProjectName(name string) bool {
 
 func promptForInput(prompt, defaultVal string) string {
 	fmt.Print(prompt)
-	reader := bufio.NewReader(os.Stdin)
-	input, _ := reader.ReadString('\n')
-	input = strings.TrimSpace(input)
+	input := strings.TrimSpace(readLine())
 	if input == "" {
 		return defaultVal
 	}
 	return input
 }
 
+// readLine reads one line from standard input and nothing beyond it, so that
+// the next prompt gets the next line when the input is a file or a pipe.
+func readLine() string {
+	var line []byte
+	b := make([]byte, 1)
+	for {
+		n, err := os.Stdin.Read(b)
+		if n == 1 {
+			if b[0] == '\n' {
+				break
+			}
+			line = append(line, b[0])
+		}
+		if err != nil {
+			break
+		}
+	}
+	return string(line)
+}
+
 func createProject(name, template string, comments, force bool, serverType string) error {
 	if _, err := os.Stat(name); err == nil {
 		if !force {
@@ -174,9 +191,7 @@ func createProject(name, template string, comments, force bool, serverType strin
 		}
 		fmt.Printf("Directory '%s' already exists and will be permanently deleted.\n", name)
 		fmt.Printf("Delete '%s/' and continue? (y/N): ", name)
-		reader := bufio.NewReader(os.Stdin)
-		response, _ := reader.ReadString('\n')
-		response = strings.TrimSpace(strings.ToLower(response))
+		response := strings.TrimSpace(strings.ToLower(readLine()))
 		if response != "y" && response != "yes" {
 			fmt.Println("Cancelled.")
 			return errNewCancelled
-- 
2.43.0


From 6b3bf026aef489bb9c3550045099e4f79b1b3d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:39:59 +0000
Subject: [PATCH 55/73] fix: the compiler notices errors while reading a
 source, and reads pipes

---
 grayc/src/main.c        | 50 +++--------------------------------------
 grayc/src/util/xalloc.h | 37 +++++++++++++++++++++---------
 2 files changed, 29 insertions(+), 58 deletions(-)

diff --git a/grayc/src/main.c b/grayc/src/main.c
index 6b89749..e034f7d 100644
--- a/grayc/src/main.c
+++ b/grayc/src/main.c
@@ -63,56 +63,12 @@ static void print_usage(void) {
 }
 
 static char *read_file(const char *path) {
-    /* Fast path for regular (seekable) files. */
-    char *fast = read_file_to_string(path);
-    if (fast) return fast;
-
-    /* Streaming fallback for non-seekable inputs (pipes, FIFOs, /dev/stdin). */
-    FILE *f = fopen(path, "rb");
-    if (!f) {
+    char *source = read_file_to_string(path);
+    if (!source) {
         fprintf(stderr, "gray: cannot open '%s': ", path);
         perror("");
-        return NULL;
-    }
-    clearerr(f);
-    size_t cap = 4096;
-    size_t len = 0;
-    char *buf = malloc(cap);
-    if (!buf) {
-        fprintf(stderr, "gray: out of memory\n");
-        fclose(f);
-        return NULL;
-    }
-    for (;;) {
-        if (len == cap) {
-            size_t new_cap = cap * 2;
-            char *new_buf = realloc(buf, new_cap);
-            if (!new_buf) {
-                free(buf);
-                fclose(f);
-                fprintf(stderr, "gray: out of memory\n");
-                return NULL;
-            }
-            buf = new_buf;
-            cap = new_cap;
-        }
-        size_t got = fread(buf + len, 1, cap - len, f);
-        if (got == 0) break;
-        len += got;
     }
-    if (len + 1 > cap) {
-        char *grow = realloc(buf, len + 1);
-        if (!grow) {
-            free(buf);
-            fclose(f);
-            fprintf(stderr, "gray: out of memory\n");
-            return NULL;
-        }
-        buf = grow;
-    }
-    buf[len] = '\0';
-    fclose(f);
-    return buf;
+    return source;
 }
 
 static bool write_file(const char *path, const char *content) {
diff --git a/grayc/src/util/xalloc.h b/grayc/src/util/xalloc.h
index 05d10c2..dbf26ea 100644
--- a/grayc/src/util/xalloc.h
+++ b/grayc/src/util/xalloc.h
@@ -10,6 +10,7 @@
 #ifndef GRAYC_XALLOC_H
 #define GRAYC_XALLOC_H
 
+#include <errno.h>
 #include <stddef.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -41,22 +42,36 @@ static inline void *xcalloc(size_t nmemb, size_t size) {
     return p;
 }
 
-/* Read an entire seekable file into a malloc'd NUL-terminated string.
- * Returns NULL on open failure or OOM. */
+/* Read an entire file, seekable or not, into a malloc'd NUL-terminated string.
+ * Returns NULL with errno set if it cannot be opened or read completely. */
 static inline char *read_file_to_string(const char *path) {
     FILE *f = fopen(path, "rb");
     if (!f) return NULL;
 
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-
-    char *buf = malloc((size_t)size + 1);
-    if (!buf) { fclose(f); return NULL; }
-
-    size_t n = fread(buf, 1, (size_t)size, f);
-    buf[n] = '\0';
+    size_t cap = 4096;
+    size_t len = 0;
+    char *buf = malloc(cap);
+    while (buf) {
+        len += fread(buf + len, 1, cap - len - 1, f);
+        if (ferror(f)) {
+            int err = errno;
+            free(buf);
+            fclose(f);
+            errno = err;
+            return NULL;
+        }
+        if (len + 1 < cap) break; /* end of file */
+        char *grown = cap <= (size_t)-1 / 2 ? realloc(buf, cap * 2) : NULL;
+        if (!grown) free(buf);
+        buf = grown;
+        cap *= 2;
+    }
     fclose(f);
+    if (!buf) {
+        errno = ENOMEM;
+        return NULL;
+    }
+    buf[len] = '\0';
     return buf;
 }
 
-- 
2.43.0


From b1171142bc500fd277a1885a1a7bd53eaa8402d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:40:42 +0000
Subject: [PATCH 56/73] fix: a source containing a NUL byte is refused instead
 of being cut there

---
 grayc/src/main.c        | 10 +++++++++-
 grayc/src/util/error.c  |  2 +-
 grayc/src/util/xalloc.h |  6 ++++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/grayc/src/main.c b/grayc/src/main.c
index e034f7d..74d34d4 100644
--- a/grayc/src/main.c
+++ b/grayc/src/main.c
@@ -63,10 +63,18 @@ static void print_usage(void) {
 }
 
 static char *read_file(const char *path) {
-    char *source = read_file_to_string(path);
+    size_t len = 0;
+    char *source = read_file_to_string(path, &len);
     if (!source) {
         fprintf(stderr, "gray: cannot open '%s': ", path);
         perror("");
+        return NULL;
+    }
+    /* The rest of the pipeline takes NUL as the end of the text. */
+    if (memchr(source, '\0', len)) {
+        fprintf(stderr, "gray: '%s' contains a NUL byte\n", path);
+        free(source);
+        return NULL;
     }
     return source;
 }
diff --git a/grayc/src/util/error.c b/grayc/src/util/error.c
index f9b86bc..acea729 100644
--- a/grayc/src/util/error.c
+++ b/grayc/src/util/error.c
@@ -254,7 +254,7 @@ static void print_diagnostic(DiagnosticList *diagnostics, Diagnostic *d) {
         }
         if (!slot) {
             /* Cache miss: read from disk and store in the LRU secondary slot */
-            const char *content = read_file_to_string(d->file);
+            const char *content = read_file_to_string(d->file, NULL);
             if (content) {
                 int evict = 1;
                 for (int ci = 2; ci < DIAG_FILE_CACHE_SIZE; ci++) {
diff --git a/grayc/src/util/xalloc.h b/grayc/src/util/xalloc.h
index dbf26ea..bfc1e2f 100644
--- a/grayc/src/util/xalloc.h
+++ b/grayc/src/util/xalloc.h
@@ -42,9 +42,10 @@ static inline void *xcalloc(size_t nmemb, size_t size) {
     return p;
 }
 
-/* Read an entire file, seekable or not, into a malloc'd NUL-terminated string.
+/* Read an entire file, seekable or not, into a malloc'd NUL-terminated string
+ * and store its length (without the terminator) in *len_out unless that is NULL.
  * Returns NULL with errno set if it cannot be opened or read completely. */
-static inline char *read_file_to_string(const char *path) {
+static inline char *read_file_to_string(const char *path, size_t *len_out) {
     FILE *f = fopen(path, "rb");
     if (!f) return NULL;
 
@@ -72,6 +73,7 @@ static inline char *read_file_to_string(const char *path) {
         return NULL;
     }
     buf[len] = '\0';
+    if (len_out) *len_out = len;
     return buf;
 }
 
-- 
2.43.0


From 68225a2ca0275dfac1816b081a4d5964e18d5490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:40:42 +0000
Subject: [PATCH 57/73] fix: the compiler notices a failed close of the C file

---
 grayc/src/main.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/grayc/src/main.c b/grayc/src/main.c
index 74d34d4..398ff7e 100644
--- a/grayc/src/main.c
+++ b/grayc/src/main.c
@@ -86,13 +86,10 @@ static bool write_file(const char *path, const char *content) {
         perror("");
         return false;
     }
-    if (fputs(content, f) == EOF) {
-        fprintf(stderr, "gray: failed to write '%s'\n", path);
-        fclose(f);
-        return false;
-    }
-    fclose(f);
-    return true;
+    bool ok = fputs(content, f) != EOF;
+    if (fclose(f) != 0) ok = false;
+    if (!ok) fprintf(stderr, "gray: failed to write '%s'\n", path);
+    return ok;
 }
 
 /* Resolve the directory containing the grayc binary itself */
-- 
2.43.0


From 0b4d0ea99116dfed740ceef2c2a53b583dabdc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:41:04 +0000
Subject: [PATCH 58/73] fix: realpath is declared when the compiler is built
 without _FORTIFY_SOURCE

---
 grayc/src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grayc/src/main.c b/grayc/src/main.c
index 398ff7e..17f57a0 100644
--- a/grayc/src/main.c
+++ b/grayc/src/main.c
@@ -8,6 +8,10 @@
  * Licensed under the MIT License. See LICENSE for details.
  */
 
+#ifdef __linux__
+#define _XOPEN_SOURCE 700 /* realpath */
+#endif
+
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
-- 
2.43.0


From f952349b1a13fe0dff239cd116036844f08648a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:41:04 +0000
Subject: [PATCH 59/73] fix: gray fmt replaces the file as a whole and notices
 every error

---
 grayc/src/main.c | 79 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 24 deletions(-)

diff --git a/grayc/src/main.c b/grayc/src/main.c
index 17f57a0..b595bb8 100644
--- a/grayc/src/main.c
+++ b/grayc/src/main.c
@@ -16,7 +16,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdint.h>
-#include <fcntl.h>
+#include <errno.h>
 #include <unistd.h>
 #include <sys/stat.h>
 #include <sys/wait.h>
@@ -96,6 +96,54 @@ static bool write_file(const char *path, const char *content) {
     return ok;
 }
 
+/* Replace the content of an existing file as a whole: at every moment the path
+ * names either the old text or the complete new one. Keeps the file's mode and,
+ * where permitted, its owner; a symbolic link stays one. */
+static bool replace_file(const char *path, const char *content, size_t len) {
+    char *target = realpath(path, NULL);
+    char *temp = target ? malloc(strlen(target) + sizeof(".XXXXXX")) : NULL;
+    bool created = false;
+    bool ok = false;
+    struct stat st;
+
+    if (temp && stat(target, &st) == 0) {
+        if (!S_ISREG(st.st_mode)) {
+            fprintf(stderr, "gray: fmt: '%s' is not a regular file\n", path);
+            free(temp);
+            free(target);
+            return false;
+        }
+        /* Renaming over the file must not get around its write protection. */
+        if (access(target, W_OK) == 0) {
+            sprintf(temp, "%s.XXXXXX", target);
+            int fd = mkstemp(temp);
+            if (fd >= 0) {
+                created = true;
+                if (fchown(fd, st.st_uid, st.st_gid) != 0) { /* best effort */ }
+                ok = fchmod(fd, st.st_mode & 07777) == 0;
+                FILE *f = fdopen(fd, "w");
+                if (!f) {
+                    close(fd);
+                    ok = false;
+                } else {
+                    if (fwrite(content, 1, len, f) != len) ok = false;
+                    if (fflush(f) != 0 || fsync(fd) != 0) ok = false;
+                    if (fclose(f) != 0) ok = false;
+                }
+                if (ok) ok = rename(temp, target) == 0;
+            }
+        }
+    }
+    if (!ok) {
+        int err = errno;
+        if (created) unlink(temp);
+        fprintf(stderr, "gray: fmt: cannot write '%s': %s\n", path, strerror(err));
+    }
+    free(temp);
+    free(target);
+    return ok;
+}
+
 /* Resolve the directory containing the grayc binary itself */
 static const char *get_self_dir(const char *argv0) {
     static char buf[PATH_BUF_SIZE];
@@ -701,38 +749,21 @@ int main(int argc, char **argv) {
             return 1;
         }
         /* Read formatted output back */
-        long fmt_len = ftell(tmp);
+        long fmt_len = fflush(tmp) == 0 && !ferror(tmp) ? ftell(tmp) : -1;
+        char *fmt_buf = fmt_len >= 0 ? malloc((size_t)fmt_len + 1) : NULL;
         rewind(tmp);
-        char *fmt_buf = malloc(fmt_len + 1);
-        if (!fmt_buf || (long)fread(fmt_buf, 1, fmt_len, tmp) != fmt_len) {
+        if (!fmt_buf || (long)fread(fmt_buf, 1, (size_t)fmt_len, tmp) != fmt_len) {
             fprintf(stderr, "gray: fmt: failed to read formatted output\n");
+            free(fmt_buf);
             fclose(tmp);
             free(source);
             return 1;
         }
-        fmt_buf[fmt_len] = '\0';
         fclose(tmp);
-        /* Write back to the original file with explicit 0644 permissions */
-        int wfd = open(input_file, O_WRONLY | O_CREAT | O_TRUNC, 0644);
-        if (wfd < 0) {
-            fprintf(stderr, "gray: fmt: cannot write '%s'\n", input_file);
-            free(fmt_buf);
-            free(source);
-            return 1;
-        }
-        FILE *f = fdopen(wfd, "w");
-        if (!f) {
-            fprintf(stderr, "gray: fmt: cannot write '%s'\n", input_file);
-            close(wfd);
-            free(fmt_buf);
-            free(source);
-            return 1;
-        }
-        fwrite(fmt_buf, 1, fmt_len, f);
-        fclose(f);
+        bool saved = replace_file(input_file, fmt_buf, (size_t)fmt_len);
         free(fmt_buf);
         free(source);
-        return 0;
+        return saved ? 0 : 1;
     }
 
     /* Create compiler arena and diagnostics */
-- 
2.43.0


From f4c5107ea9d923a42ff6f106820e82c05409e569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:42:24 +0000
Subject: [PATCH 60/73] fix: each compilation uses a private temporary
 directory and cleans it up

---
 grayc/src/main.c | 88 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 60 insertions(+), 28 deletions(-)

diff --git a/grayc/src/main.c b/grayc/src/main.c
index b595bb8..15b643d 100644
--- a/grayc/src/main.c
+++ b/grayc/src/main.c
@@ -144,6 +144,30 @@ static bool replace_file(const char *path, const char *content, size_t len) {
     return ok;
 }
 
+/* Intermediate files go into a private directory per compilation, so that
+ * compilers running at the same time, and other users' files, are never touched. */
+static char work_dir[] = "/tmp/gray_XXXXXX";
+static char work_c_file[sizeof(work_dir) + sizeof("/main.c")];
+static char work_binary[sizeof(work_dir) + sizeof("/program")];
+
+static bool create_work_dir(void) {
+    if (!mkdtemp(work_dir)) {
+        fprintf(stderr, "gray: cannot create a temporary directory in /tmp: ");
+        perror("");
+        return false;
+    }
+    snprintf(work_c_file, sizeof(work_c_file), "%s/main.c", work_dir);
+    snprintf(work_binary, sizeof(work_binary), "%s/program", work_dir);
+    return true;
+}
+
+static void remove_work_dir(bool keep_c_file) {
+    unlink(work_binary);
+    if (keep_c_file) return;
+    unlink(work_c_file);
+    rmdir(work_dir);
+}
+
 /* Resolve the directory containing the grayc binary itself */
 static const char *get_self_dir(const char *argv0) {
     static char buf[PATH_BUF_SIZE];
@@ -1539,31 +1563,11 @@ int main(int argc, char **argv) {
 
     /* Determine output name */
     char *default_output = NULL;
-    if (run_mode && !output_file) {
-        /* Run mode: use temp file */
-        default_output = malloc(PATH_BUF_SIZE);
-        snprintf(default_output, PATH_BUF_SIZE, "/tmp/gray_run_%d", (int)getpid());
-        output_file = default_output;
-    } else if (!output_file) {
+    if (!run_mode && !output_file) {
         default_output = output_name_from_input(input_file);
         output_file = default_output;
     }
 
-    /* Write generated C to temp file */
-    const char *out_base = strrchr(output_file, '/');
-    out_base = out_base ? out_base + 1 : output_file;
-    char c_file[PATH_BUF_SIZE];
-    snprintf(c_file, sizeof(c_file), "/tmp/gray_%s.c", out_base);
-
-    if (!write_file(c_file, c_code)) {
-        codegen_destroy(&codegen);
-        typechecker_free(checker);
-        arena_destroy(arena);
-        free(source);
-        free(default_output);
-        return 1;
-    }
-
     if (emit_c_only) {
         /* Determine C output filename */
         const char *c_out = NULL;
@@ -1646,7 +1650,7 @@ int main(int argc, char **argv) {
         free(default_output);
         return 1;
     }
-    if (strchr(output_file, '\'')) {
+    if (output_file && strchr(output_file, '\'')) {
         fprintf(stderr, "gray: output path must not contain single quotes\n");
         codegen_destroy(&codegen);
         typechecker_free(checker);
@@ -1688,6 +1692,31 @@ int main(int argc, char **argv) {
         snprintf(extra_flags, sizeof(extra_flags), "%s", opt_level);
     }
 
+    /* Write the generated C; in run mode the program goes beside it. */
+    if (!create_work_dir()) {
+        codegen_destroy(&codegen);
+        typechecker_free(checker);
+        diagnostic_destroy(diag);
+        arena_destroy(arena);
+        free(source);
+        free(default_output);
+        return 1;
+    }
+    if (!write_file(work_c_file, c_code)) {
+        remove_work_dir(false);
+        codegen_destroy(&codegen);
+        typechecker_free(checker);
+        diagnostic_destroy(diag);
+        arena_destroy(arena);
+        free(source);
+        free(default_output);
+        return 1;
+    }
+    bool temporary_binary = run_mode && !output_file;
+    if (temporary_binary) output_file = work_binary;
+    const char *out_base = strrchr(output_file, '/');
+    out_base = out_base ? out_base + 1 : output_file;
+
     clock_t t_cc_start = clock();
 
     if (has_archive) {
@@ -1699,7 +1728,7 @@ int main(int argc, char **argv) {
             "-lm -lpthread -Wl,-w 2>&1",
             extra_flags,
             runtime_dir, runtime_dir,
-            output_file, c_file, lib_path);
+            output_file, work_c_file, lib_path);
     } else {
         /* Build source list from all runtime and stdlib .c files */
         static const char *runtime_srcs[] = {
@@ -1738,7 +1767,7 @@ int main(int argc, char **argv) {
             "-lm -lpthread -Wl,-w 2>&1",
             extra_flags,
             runtime_dir, runtime_dir,
-            output_file, c_file, srcs);
+            output_file, work_c_file, srcs);
     }
 
     if (verbose) {
@@ -1747,6 +1776,7 @@ int main(int argc, char **argv) {
 
     if (strlen(cmd) >= CMD_BUF_SIZE - 1) {
         fprintf(stderr, "gray: compile command too long (paths may be too deep)\n");
+        remove_work_dir(false);
         codegen_destroy(&codegen);
         typechecker_free(checker);
         diagnostic_destroy(diag);
@@ -1760,6 +1790,9 @@ int main(int argc, char **argv) {
 
     clock_t t_cc_end = clock();
 
+    /* Keep the C code for inspection when the C compiler rejected it. */
+    bool cc_rejected = ret != -1 && WIFEXITED(ret) && WEXITSTATUS(ret) != 0;
+
     if (ret != 0) {
         fprintf(stderr, "gray: C compilation failed\n");
         bool has_c_import = false;
@@ -1778,10 +1811,8 @@ int main(int argc, char **argv) {
         if (has_c_import) {
             fprintf(stderr, "gray: hint: check that all C headers in import c\"...\" exist and are installed\n");
         }
-        fprintf(stderr, "gray: generated C source at %s\n", c_file);
+        if (cc_rejected) fprintf(stderr, "gray: generated C source at %s\n", work_c_file);
     } else {
-        unlink(c_file);
-
         double total_ms = (double)(t_cc_end - t_start) / CLOCKS_PER_SEC * 1000.0;
         if (!run_mode) {
             fprintf(stdout, "\033[32mCompiled '\033[1m%s\033[22m' in %.0fms!\033[0m\n", out_base, total_ms);
@@ -1814,8 +1845,9 @@ int main(int argc, char **argv) {
             perror("gray: fork");
             ret = 1;
         }
-        unlink(output_file);
+        if (!temporary_binary) unlink(output_file);
     }
+    remove_work_dir(cc_rejected);
 
     codegen_destroy(&codegen);
     typechecker_free(checker);
-- 
2.43.0


From 95d2034aeef34e6355decbc4db31d8f209c6ad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:42:33 +0000
Subject: [PATCH 61/73] fix: gray run returns the program's exit status and
 survives Ctrl-C to clean up

---
 grayc/src/main.c | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/grayc/src/main.c b/grayc/src/main.c
index 15b643d..dd63a5e 100644
--- a/grayc/src/main.c
+++ b/grayc/src/main.c
@@ -17,6 +17,7 @@
 #include <string.h>
 #include <stdint.h>
 #include <errno.h>
+#include <signal.h>
 #include <unistd.h>
 #include <sys/stat.h>
 #include <sys/wait.h>
@@ -1786,12 +1787,13 @@ int main(int argc, char **argv) {
         return 1;
     }
 
-    int ret = system(cmd);
+    int cc_status = system(cmd);
 
     clock_t t_cc_end = clock();
 
     /* Keep the C code for inspection when the C compiler rejected it. */
-    bool cc_rejected = ret != -1 && WIFEXITED(ret) && WEXITSTATUS(ret) != 0;
+    bool cc_rejected = cc_status != -1 && WIFEXITED(cc_status) && WEXITSTATUS(cc_status) != 0;
+    int ret = cc_status == 0 ? 0 : 1;
 
     if (ret != 0) {
         fprintf(stderr, "gray: C compilation failed\n");
@@ -1831,20 +1833,42 @@ int main(int argc, char **argv) {
      * Use fork+execv instead of system() to avoid shell injection — the
      * output path comes from user-supplied CLI input. */
     if (ret == 0 && run_mode) {
+        /* Ctrl-C is for the program; stay to report its status and clean up. */
+        struct sigaction ignore, old_int, old_quit;
+        memset(&ignore, 0, sizeof(ignore));
+        ignore.sa_handler = SIG_IGN;
+        sigemptyset(&ignore.sa_mask);
+        sigaction(SIGINT, &ignore, &old_int);
+        sigaction(SIGQUIT, &ignore, &old_quit);
+
         pid_t pid = fork();
         if (pid == 0) {
-            char *args[] = { output_file, NULL };
+            sigaction(SIGINT, &old_int, NULL);
+            sigaction(SIGQUIT, &old_quit, NULL);
+            char *args[] = { (char *)output_file, NULL };
             execv(output_file, args);
             perror("gray: exec");
             _exit(127);
         } else if (pid > 0) {
             int status = 0;
-            waitpid(pid, &status, 0);
-            ret = WIFEXITED(status) ? WEXITSTATUS(status) : 1;
+            pid_t waited;
+            do {
+                waited = waitpid(pid, &status, 0);
+            } while (waited < 0 && errno == EINTR);
+            if (waited < 0) {
+                perror("gray: waitpid");
+                ret = 1;
+            } else if (WIFEXITED(status)) {
+                ret = WEXITSTATUS(status);
+            } else {
+                ret = WIFSIGNALED(status) ? 128 + WTERMSIG(status) : 1;
+            }
         } else {
             perror("gray: fork");
             ret = 1;
         }
+        sigaction(SIGINT, &old_int, NULL);
+        sigaction(SIGQUIT, &old_quit, NULL);
         if (!temporary_binary) unlink(output_file);
     }
     remove_work_dir(cc_rejected);
@@ -1856,5 +1880,5 @@ int main(int argc, char **argv) {
     free(source);
     free(default_output);
 
-    return ret != 0 ? 1 : 0;
+    return ret;
 }
-- 
2.43.0


From 8216768559cf3712a21709c08a2c005db91f6df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:45:31 +0000
Subject: [PATCH 62/73] fix: the compiler reports running out of memory instead
 of going on with a null string

---
 grayc/src/codegen/codegen.c         | 23 +++++++-------
 grayc/src/main.c                    | 26 ++++++++--------
 grayc/src/parser/parser.c           | 25 +++++++--------
 grayc/src/typechecker/typechecker.c | 48 ++++++++++++++---------------
 grayc/src/typechecker/types.c       | 22 ++++++-------
 grayc/src/util/error.c              |  2 +-
 grayc/src/util/xalloc.h             | 15 ++++++++-
 7 files changed, 87 insertions(+), 74 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 8a7d97b..ea4cf04 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -257,14 +257,14 @@ static const char *codegen_effective_type_string(CodeGen *codegen, const char *t
  * Returns malloc'd binding string (caller must free) or NULL on mismatch. */
 static char *codegen_bind_wildcard(const char *ptn, const char *atn) {
     if (!ptn || !atn || !strchr(ptn, '?')) return NULL;
-    if (strcmp(ptn, "?") == 0) return strdup(atn);
+    if (strcmp(ptn, "?") == 0) return xstrdup(atn);
     size_t plen = strlen(ptn);
     size_t alen = strlen(atn);
     /* Array layer: strip matching outer [...] brackets */
     if (plen >= 3 && ptn[0] == '[' && ptn[plen - 1] == ']') {
         if (alen < 3 || atn[0] != '[' || atn[alen - 1] != ']') return NULL;
-        char *ip = strndup(ptn + 1, plen - 2);
-        char *ia = strndup(atn + 1, alen - 2);
+        char *ip = xstrndup(ptn + 1, plen - 2);
+        char *ia = xstrndup(atn + 1, alen - 2);
         char *result = codegen_bind_wildcard(ip, ia);
         free(ip); free(ia);
         return result;
@@ -285,10 +285,10 @@ static char *codegen_bind_wildcard(const char *ptn, const char *atn) {
             else if (ai[i] == ':' && depth == 0) { ac = ai + i; break; }
         }
         if (!pc || !ac) return NULL;
-        char *pk = strndup(pi, (size_t)(pc - pi));
-        char *pv = strndup(pc + 1, pil - (size_t)(pc - pi) - 1);
-        char *ak = strndup(ai, (size_t)(ac - ai));
-        char *av = strndup(ac + 1, ail - (size_t)(ac - ai) - 1);
+        char *pk = xstrndup(pi, (size_t)(pc - pi));
+        char *pv = xstrndup(pc + 1, pil - (size_t)(pc - pi) - 1);
+        char *ak = xstrndup(ai, (size_t)(ac - ai));
+        char *av = xstrndup(ac + 1, ail - (size_t)(ac - ai) - 1);
         char *result = NULL;
         if (strchr(pk, '?')) result = codegen_bind_wildcard(pk, ak);
         if (!result && strchr(pv, '?')) result = codegen_bind_wildcard(pv, av);
@@ -3688,13 +3688,13 @@ static bool emit_builtin_call(CodeGen *codegen, AstNode *node, const char *func)
         long file_size = ftell(ef);
         fseek(ef, 0, SEEK_SET);
 
-        unsigned char *file_buf = malloc((size_t)(file_size > 0 ? file_size : 1));
+        unsigned char *file_buf = xmalloc((size_t)(file_size > 0 ? file_size : 1));
         size_t nread = fread(file_buf, 1, (size_t)file_size, ef);
         fclose(ef);
 
         /* Emit every byte as \xNN — safe because after 2 hex digits the next
          * character is always \ or " so no hex-continuation ambiguity. */
-        char *esc = malloc((size_t)(nread * 4 + 16));
+        char *esc = xmalloc((size_t)(nread * 4 + 16));
         size_t esc_len = 0;
         for (size_t i = 0; i < nread; i++) {
             esc_len += (size_t)snprintf(esc + esc_len, 5, "\\x%02x", file_buf[i]);
@@ -6691,8 +6691,7 @@ static void emit_call_expression(CodeGen *codegen, AstNode *node) {
             size_t rfn_len = strlen(resolved_fn_name);
             size_t bind_len = binding ? strlen(binding) : 0;
             size_t mn_need = 8 + rfn_len + 2 + bind_len + 1; /* 8 = strlen("gray_fn_") */
-            char *mangled = malloc(mn_need);
-            if (!mangled) return;
+            char *mangled = xmalloc(mn_need);
             size_t pos = (size_t)snprintf(mangled, mn_need, "gray_fn_%s__",
                 resolved_fn_name);
             if (binding) {
@@ -9910,7 +9909,7 @@ void codegen_generate(CodeGen *codegen, AstNode *program) {
                     size_t struct_name_len = strlen(struct_name);
                     size_t fn_len = strlen(fn_name);
                     size_t ns_len = struct_name_len + 1 + fn_len + 1;
-                    char *ns_name = malloc(ns_len);
+                    char *ns_name = xmalloc(ns_len);
                     snprintf(ns_name, ns_len, "%s_%s", struct_name, fn_name);
                     function_node->data.func_decl.name = ns_name;
                     if (codegen->ns_func_name_count >= codegen->ns_func_name_cap) {
diff --git a/grayc/src/main.c b/grayc/src/main.c
index dd63a5e..fda91bf 100644
--- a/grayc/src/main.c
+++ b/grayc/src/main.c
@@ -224,7 +224,7 @@ static char *output_name_from_input(const char *input) {
         len -= GRAY_EXT_LEN;
     }
 
-    char *out = malloc(len + 1);
+    char *out = xmalloc(len + 1);
     memcpy(out, base, len);
     out[len] = '\0';
     return out;
@@ -802,9 +802,9 @@ int main(int argc, char **argv) {
         diag->suppress_all_warnings = true;
     } else if (quiet_codes_arg) {
         /* Parse comma-separated warning codes */
-        char *codes_buf = strdup(quiet_codes_arg);
+        char *codes_buf = xstrdup(quiet_codes_arg);
         int code_cap = 8;
-        diag->suppressed_codes = malloc(sizeof(const char *) * code_cap);
+        diag->suppressed_codes = xmalloc(sizeof(const char *) * code_cap);
         diag->suppressed_count = 0;
         char *tok = strtok(codes_buf, ",");
         while (tok) {
@@ -829,7 +829,7 @@ int main(int argc, char **argv) {
                 }
                 diag->suppressed_codes = tmp;
             }
-            diag->suppressed_codes[diag->suppressed_count++] = strdup(tok);
+            diag->suppressed_codes[diag->suppressed_count++] = xstrdup(tok);
             tok = strtok(NULL, ",");
         }
         free(codes_buf);
@@ -966,7 +966,7 @@ int main(int argc, char **argv) {
                                 char msg[MSG_BUF_LARGE];
                                 snprintf(msg, sizeof(msg),
                                     "cannot import own module directory '%s'", item->path);
-                                diagnostic_error(diag, "E6004", strdup(msg),
+                                diagnostic_error(diag, "E6004", xstrdup(msg),
                                     input_file, stmt->token.line, stmt->token.column, 0);
                                 free(norm_dir);
                                 free(norm_src);
@@ -981,7 +981,7 @@ int main(int argc, char **argv) {
                         if (file_count == 0) {
                             char msg[MSG_BUF_LARGE];
                             snprintf(msg, sizeof(msg), "directory '%s' contains no .gray files", item->path);
-                            diagnostic_error(diag, "E6003", strdup(msg),
+                            diagnostic_error(diag, "E6003", xstrdup(msg),
                                 input_file, stmt->token.line, stmt->token.column, 0);
                             continue;
                         }
@@ -989,7 +989,7 @@ int main(int argc, char **argv) {
                         /* Nothing found */
                         char msg[MSG_BUF_LARGE];
                         snprintf(msg, sizeof(msg), "cannot find file or directory '%s'", item->path);
-                        diagnostic_error(diag, "E6002", strdup(msg),
+                        diagnostic_error(diag, "E6002", xstrdup(msg),
                             input_file, stmt->token.line, stmt->token.column, 0);
                         continue;
                     }
@@ -1054,7 +1054,7 @@ int main(int argc, char **argv) {
                                 snprintf(msg, sizeof(msg),
                                     "module '%s' is already imported; duplicate import ignored",
                                     mod_name);
-                                diagnostic_warning(diag, "W2013", strdup(msg),
+                                diagnostic_warning(diag, "W2013", xstrdup(msg),
                                     input_file, stmt->token.line, stmt->token.column, 0);
                             }
                             collision = true;
@@ -1065,7 +1065,7 @@ int main(int argc, char **argv) {
                         snprintf(msg, sizeof(msg),
                             "module name '%s' is already imported; use an alias to distinguish them",
                             mod_name);
-                        diagnostic_error(diag, "E6001", strdup(msg),
+                        diagnostic_error(diag, "E6001", xstrdup(msg),
                             input_file, stmt->token.line, stmt->token.column, 0);
                         collision = true;
                         break;
@@ -1125,7 +1125,7 @@ int main(int argc, char **argv) {
                             snprintf(msg, sizeof(msg),
                                 "import of '%s' is redundant; already included by directory import",
                                 item->path);
-                            diagnostic_warning(diag, "W2014", strdup(msg),
+                            diagnostic_warning(diag, "W2014", xstrdup(msg),
                                 input_file, stmt->token.line, stmt->token.column, 0);
                         } else if (!item->source_dir && file_count == 1) {
                             /* Direct import of a file already pulled in by a directory import */
@@ -1142,7 +1142,7 @@ int main(int argc, char **argv) {
                                     "this import is redundant",
                                     item->path);
                             }
-                            diagnostic_warning(diag, "W2015", strdup(msg),
+                            diagnostic_warning(diag, "W2015", xstrdup(msg),
                                 input_file, stmt->token.line, stmt->token.column, 0);
                         }
                         continue;
@@ -1154,7 +1154,7 @@ int main(int argc, char **argv) {
                     if (!imp_source) {
                         char msg[MSG_BUF_LARGE];
                         snprintf(msg, sizeof(msg), "cannot find file or directory '%s'", cur_file_path);
-                        diagnostic_error(diag, "E6002", strdup(msg),
+                        diagnostic_error(diag, "E6002", xstrdup(msg),
                             input_file, stmt->token.line, stmt->token.column, 0);
                         continue;
                     }
@@ -1583,7 +1583,7 @@ int main(int argc, char **argv) {
             size_t blen = strlen(base);
             if (blen > GRAY_EXT_LEN && strcmp(base + blen - GRAY_EXT_LEN, GRAY_EXT) == 0)
                 blen -= GRAY_EXT_LEN;
-            c_out_default = malloc(blen + 3);
+            c_out_default = xmalloc(blen + 3);
             memcpy(c_out_default, base, blen);
             memcpy(c_out_default + blen, ".c", 3);
             c_out = c_out_default;
diff --git a/grayc/src/parser/parser.c b/grayc/src/parser/parser.c
index 0df9e9d..ea5cbcc 100644
--- a/grayc/src/parser/parser.c
+++ b/grayc/src/parser/parser.c
@@ -11,6 +11,7 @@
 #include "parser.h"
 #include "../util/constants.h"
 #include "../util/reserved.h"
+#include "../util/xalloc.h"
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -1241,7 +1242,7 @@ static AstNode *parse_expression(Parser *parser, Precedence prec) {
     parser->depth++;
     if (parser->depth > MAX_PARSE_DEPTH) {
         diagnostic_error_message(parser->diag, "E2001",
-            strdup("expression is nested too deeply; maximum depth is 256"),
+            xstrdup("expression is nested too deeply; maximum depth is 256"),
             parser->file, parser->cur_token.line, parser->cur_token.column, 0);
         parser->depth--;
         return NULL;
@@ -2035,7 +2036,7 @@ static AstNode *parse_import_statement(Parser *parser) {
         if (current_token_is(parser, TOK_IDENT) && peek_token_is(parser, TOK_AT)) {
             if (strcmp(parser->cur_token.literal, "c") == 0) {
                 diagnostic_error_message(parser->diag, "E2002",
-                    strdup("'c' is reserved for C interop; choose a different alias"),
+                    xstrdup("'c' is reserved for C interop; choose a different alias"),
                     parser->file, parser->cur_token.line, parser->cur_token.column, 0);
             }
             item->alias = parser->cur_token.literal;
@@ -2077,7 +2078,7 @@ static AstNode *parse_import_statement(Parser *parser) {
             /* Reject 'c' as a module name; reserved for C interop */
             if (item->alias && strcmp(item->alias, "c") == 0) {
                 diagnostic_error_message(parser->diag, "E2002",
-                    strdup("'c' is reserved for C interop; rename the file or use an alias (e.g., import myc\"./c.gray\")"),
+                    xstrdup("'c' is reserved for C interop; rename the file or use an alias (e.g., import myc\"./c.gray\")"),
                     parser->file, parser->cur_token.line, parser->cur_token.column, 0);
             }
         } else if (current_token_is(parser, TOK_IDENT)) {
@@ -2158,7 +2159,7 @@ static AstNode *parse_struct_declaration(Parser *parser) {
     /* Reject inline struct declarations; fields must be on separate lines */
     if (parser->cur_token.line == brace_line && !current_token_is(parser, TOK_RBRACE)) {
         diagnostic_error_message(parser->diag, "E2002",
-            strdup("struct fields must be on separate lines; inline struct declarations are not allowed"),
+            xstrdup("struct fields must be on separate lines; inline struct declarations are not allowed"),
             parser->file, parser->cur_token.line, parser->cur_token.column, 0);
     }
 
@@ -2267,7 +2268,7 @@ static AstNode *parse_struct_declaration(Parser *parser) {
         /* E2002: multiple fields on the same line */
         if (prev_field_line >= 0 && parser->cur_token.line == prev_field_line) {
             diagnostic_error_message(parser->diag, "E2002",
-                strdup("struct fields must be on separate lines"),
+                xstrdup("struct fields must be on separate lines"),
                 parser->file, parser->cur_token.line, parser->cur_token.column, 0);
         }
         prev_field_line = parser->cur_token.line;
@@ -2369,7 +2370,7 @@ static AstNode *parse_struct_declaration(Parser *parser) {
         /* Reject semicolons */
         if (current_token_is(parser, TOK_SEMICOLON)) {
             diagnostic_error_message(parser->diag, "E2069",
-                strdup("semicolons are not used; put each struct field on its own line"),
+                xstrdup("semicolons are not used; put each struct field on its own line"),
                 parser->file, parser->cur_token.line, parser->cur_token.column, 0);
             next_token(parser);
         }
@@ -2393,7 +2394,7 @@ static AstNode *parse_enum_declaration(Parser *parser) {
     /* Reject inline enum declarations; variants must be on separate lines */
     if (parser->cur_token.line == enum_brace_line && !current_token_is(parser, TOK_RBRACE)) {
         diagnostic_error_message(parser->diag, "E2002",
-            strdup("enum variants must be on separate lines; inline enum declarations are not allowed"),
+            xstrdup("enum variants must be on separate lines; inline enum declarations are not allowed"),
             parser->file, parser->cur_token.line, parser->cur_token.column, 0);
     }
 
@@ -2490,7 +2491,7 @@ static AstNode *parse_enum_declaration(Parser *parser) {
         /* E2002: multiple variants on the same line */
         if (prev_variant_line >= 0 && parser->cur_token.line == prev_variant_line) {
             diagnostic_error_message(parser->diag, "E2002",
-                strdup("enum variants must be on separate lines"),
+                xstrdup("enum variants must be on separate lines"),
                 parser->file, parser->cur_token.line, parser->cur_token.column, 0);
         }
         prev_variant_line = parser->cur_token.line;
@@ -2544,7 +2545,7 @@ static AstNode *parse_enum_declaration(Parser *parser) {
         /* Reject semicolons */
         if (current_token_is(parser, TOK_SEMICOLON)) {
             diagnostic_error_message(parser->diag, "E2069",
-                strdup("semicolons are not used; put each enum variant on its own line"),
+                xstrdup("semicolons are not used; put each enum variant on its own line"),
                 parser->file, parser->cur_token.line, parser->cur_token.column, 0);
             next_token(parser);
         }
@@ -3100,14 +3101,14 @@ static AstNode *parse_statement(Parser *parser) {
             stmt->data.struct_decl.is_json = true;
         } else {
             diagnostic_error_message(parser->diag, "E2002",
-                strdup("#json attribute can only be applied to struct declarations"),
+                xstrdup("#json attribute can only be applied to struct declarations"),
                 parser->file, parser->cur_token.line, parser->cur_token.column, 0);
         }
         return stmt;
     }
     case TOK_SUPPRESS:
         diagnostic_error_message(parser->diag, "E2002",
-            strdup("#suppress is no longer supported; use 'gray file.gray -q W1001' to suppress warnings from the command line"),
+            xstrdup("#suppress is no longer supported; use 'gray file.gray -q W1001' to suppress warnings from the command line"),
             parser->file, parser->cur_token.line, parser->cur_token.column, 0);
         /* Consume the attribute and its args to avoid cascading errors */
         if (peek_token_is(parser, TOK_LPAREN)) {
@@ -3138,7 +3139,7 @@ static AstNode *parse_statement(Parser *parser) {
             return parse_discard_statement(parser);
         }
         diagnostic_error_message(parser->diag, "E2002",
-            strdup("unexpected token '_'; the throwaway '_' is only valid as the entire left-hand side of an assignment"),
+            xstrdup("unexpected token '_'; the throwaway '_' is only valid as the entire left-hand side of an assignment"),
             parser->file, parser->cur_token.line, parser->cur_token.column, 0);
         synchronize_parser(parser);
         return NULL;
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index f468208..0df84e6 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -524,7 +524,7 @@ static void register_func(TypeChecker *checker, const char *name,
  * Returns a strdup of the original if no wildcard is present. */
 static char *substitute_wildcard(const char *source, const char *concrete) {
     if (!source) return NULL;
-    if (!type_name_has_wildcard(source)) return strdup(source);
+    if (!type_name_has_wildcard(source)) return xstrdup(source);
     size_t concrete_len = strlen(concrete);
     size_t len = 0;
     for (const char *cursor = source; *cursor; cursor++) len += (*cursor == '?') ? concrete_len : 1;
@@ -581,7 +581,7 @@ static char *bind_wildcard_string(const char *param_tn, const char *arg_tn) {
 
     if (strcmp(param_tn, "?") == 0) {
         if (strcmp(arg_tn, "unknown") == 0) return NULL;
-        return strdup(arg_tn);
+        return xstrdup(arg_tn);
     }
 
     size_t plen = strlen(param_tn);
@@ -591,8 +591,8 @@ static char *bind_wildcard_string(const char *param_tn, const char *arg_tn) {
     if (param_tn[0] == '[' && arg_tn[0] == '[') {
         if (plen < 3 || alen < 3) return NULL;
         if (param_tn[plen - 1] != ']' || arg_tn[alen - 1] != ']') return NULL;
-        char *p_inner = strndup(param_tn + 1, plen - 2);
-        char *a_inner = strndup(arg_tn + 1, alen - 2);
+        char *p_inner = xstrndup(param_tn + 1, plen - 2);
+        char *a_inner = xstrndup(arg_tn + 1, alen - 2);
         char *result = bind_wildcard_string(p_inner, a_inner);
         free(p_inner);
         free(a_inner);
@@ -624,13 +624,13 @@ static char *bind_wildcard_string(const char *param_tn, const char *arg_tn) {
 
         char *result;
         if (param_key_has_wildcard) {
-            char *p = strndup(param_key, param_key_len);
-            char *a = strndup(arg_key, arg_key_len);
+            char *p = xstrndup(param_key, param_key_len);
+            char *a = xstrndup(arg_key, arg_key_len);
             result = bind_wildcard_string(p, a);
             free(p); free(a);
         } else {
-            char *p = strndup(param_val, param_val_len);
-            char *a = strndup(arg_val, arg_val_len);
+            char *p = xstrndup(param_val, param_val_len);
+            char *a = xstrndup(arg_val, arg_val_len);
             result = bind_wildcard_string(p, a);
             free(p); free(a);
         }
@@ -694,7 +694,7 @@ static bool record_instantiation(FuncSig *fs, const char *concrete,
         fs->instantiation_calls = xrealloc(fs->instantiation_calls,
             sizeof(AstNode *) * fs->instantiation_cap);
     }
-    char *stored = strdup(concrete);
+    char *stored = xstrdup(concrete);
     fs->instantiations[fs->instantiation_count] = stored;
     fs->instantiation_calls[fs->instantiation_count] = call_site;
     fs->instantiation_count++;
@@ -2097,7 +2097,7 @@ static bool check_integer_range(DiagnosticList *diag, const char *file,
                 "value %lld is out of range for type '%s' (valid range: %lld to %lld)",
                 (long long)value, type_name_str, (long long)min_val, (long long)max_val);
         }
-        diagnostic_error_message(diag, "E3036", strdup(msg), file, line, col, 0);
+        diagnostic_error_message(diag, "E3036", xstrdup(msg), file, line, col, 0);
         return true;
     }
     return false;
@@ -3655,13 +3655,13 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                     /* Rewrite the call AST: change the member-expr
                      * object from the instance label to the type
                      * name, and prepend the instance as arg[0]. */
-                    fn->data.member.object->data.label.value = strdup(struct_name);
+                    fn->data.member.object->data.label.value = xstrdup(struct_name);
                     int orig_count = node->data.call.arg_count;
                     AstNode **new_args = xmalloc(sizeof(AstNode *) * (orig_count + 1));
                     AstNode *self_arg = xcalloc(1, sizeof(AstNode));
                     self_arg->kind = NODE_LABEL;
                     self_arg->token = node->token;
-                    self_arg->data.label.value = strdup(mod_raw);
+                    self_arg->data.label.value = xstrdup(mod_raw);
                     new_args[0] = self_arg;
                     for (int argument_index = 0; argument_index < orig_count; argument_index++) {
                         new_args[argument_index + 1] = node->data.call.args[argument_index];
@@ -3843,7 +3843,7 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                         snprintf(display, sizeof(display), "%s.%s", display_sname, mfn);
                         typechecker_resolve_named_arguments(checker, node, ssig->decl, display);
                     }
-                    fn->data.member.object->data.label.value = strdup(struct_name);
+                    fn->data.member.object->data.label.value = xstrdup(struct_name);
                     ssig->used = true;
                     sym->used = true;
                     result = ssig->return_count > 0 ? ssig->return_types[0] : &TYPE_VOID;
@@ -4007,9 +4007,9 @@ static GrayType *resolve_builtin_call(TypeChecker *checker, AstNode *node, const
             if (arg_t->kind == TK_ARRAY) {
                 char buffer[MSG_BUF_SIZE];
                 snprintf(buffer, sizeof(buffer), "[%s]", arg_t->element_type);
-                pointee_name = strdup(buffer);
+                pointee_name = xstrdup(buffer);
             } else if (arg_t->kind == TK_MAP) {
-                pointee_name = strdup(arg_t->name);
+                pointee_name = xstrdup(arg_t->name);
             }
             result = type_pointer(pointee_name);
         }
@@ -6478,7 +6478,7 @@ static GrayType *resolve_struct_value(TypeChecker *checker, AstNode *node) {
             }
         }
         if (binding) {
-            node->data.struct_value.wildcard_binding = strdup(binding);
+            node->data.struct_value.wildcard_binding = xstrdup(binding);
             /* Record instantiation on the struct decl */
             bool already = false;
             for (int ii = 0; ii < sdecl->data.struct_decl.instantiation_count; ii++) {
@@ -6492,7 +6492,7 @@ static GrayType *resolve_struct_value(TypeChecker *checker, AstNode *node) {
                 sdecl->data.struct_decl.instantiations = xrealloc(
                     (void *)sdecl->data.struct_decl.instantiations,
                     sizeof(const char *) * (size_t)(n + 1));
-                sdecl->data.struct_decl.instantiations[n] = strdup(binding);
+                sdecl->data.struct_decl.instantiations[n] = xstrdup(binding);
                 sdecl->data.struct_decl.instantiation_count = n + 1;
             }
             /* Return mangled struct type */
@@ -6502,7 +6502,7 @@ static GrayType *resolve_struct_value(TypeChecker *checker, AstNode *node) {
                 mangled[pos++] = (isalnum((unsigned char)*c) || *c == '_') ? *c : '_';
             }
             mangled[pos] = '\0';
-            result = type_struct(strdup(mangled));
+            result = type_struct(xstrdup(mangled));
         } else {
             result = type_struct(struct_name);
         }
@@ -6653,7 +6653,7 @@ static GrayType *resolve_func_ref(TypeChecker *checker, AstNode *node) {
                 else n = (int)buffer_size - 1;
             }
         }
-        char *encoded = strdup(buffer);
+        char *encoded = xstrdup(buffer);
         result = type_from_name(encoded);
     } else {
         /* Unknown function: fall back to bare-func type
@@ -6795,7 +6795,7 @@ static GrayType *resolve_expression(TypeChecker *checker, AstNode *node) {
                 sym = scope_lookup(checker->current_scope, prefixed);
                 if (sym) {
                     /* Rewrite the label to the prefixed name so codegen finds it */
-                    node->data.label.value = strdup(prefixed);
+                    node->data.label.value = xstrdup(prefixed);
                     /* Mark module as used */
                     for (int mi = 0; mi < checker->import_count; mi++) {
                         if (strcmp(checker->imported_modules[mi], checker->using_modules[using_index]) == 0 ||
@@ -7101,12 +7101,12 @@ static GrayType *resolve_expression(TypeChecker *checker, AstNode *node) {
         }
         GrayType *t = type_alloc();
         t->kind = TK_MAP;
-        t->name = strdup("map");
+        t->name = xstrdup("map");
         if (node->data.map_value.count > 0) {
             GrayType *kt = typetable_get(checker->type_table, node->data.map_value.keys[0]);
             GrayType *vt = typetable_get(checker->type_table, node->data.map_value.values[0]);
-            t->key_type = strdup(kt ? type_name(kt) : "unknown");
-            t->value_type = strdup(vt ? type_name(vt) : "unknown");
+            t->key_type = xstrdup(kt ? type_name(kt) : "unknown");
+            t->value_type = xstrdup(vt ? type_name(vt) : "unknown");
         }
         result = t;
         break;
@@ -7137,7 +7137,7 @@ static GrayType *resolve_expression(TypeChecker *checker, AstNode *node) {
         }
         GrayType *rt = type_alloc();
         rt->kind = TK_INT;
-        rt->name = strdup("Range<int>");
+        rt->name = xstrdup("Range<int>");
         result = rt;
         break;
     }
diff --git a/grayc/src/typechecker/types.c b/grayc/src/typechecker/types.c
index ef75f32..6ef2367 100644
--- a/grayc/src/typechecker/types.c
+++ b/grayc/src/typechecker/types.c
@@ -94,7 +94,7 @@ GrayType *type_array(const char *elem_type) {
     if (existing) return existing;
     GrayType *type = type_alloc();
     type->kind = TK_ARRAY;
-    const char *dup = strdup(elem_type);
+    const char *dup = xstrdup(elem_type);
     type->element_type = dup;
     type->name = dup;
     pool_insert(TK_ARRAY, type->name, type);
@@ -106,7 +106,7 @@ GrayType *type_struct(const char *name) {
     if (existing) return existing;
     GrayType *type = type_alloc();
     type->kind = TK_STRUCT;
-    type->name = strdup(name);
+    type->name = xstrdup(name);
     pool_insert(TK_STRUCT, type->name, type);
     return type;
 }
@@ -116,7 +116,7 @@ GrayType *type_enum(const char *name) {
     if (existing) return existing;
     GrayType *type = type_alloc();
     type->kind = TK_ENUM;
-    type->name = strdup(name);
+    type->name = xstrdup(name);
     pool_insert(TK_ENUM, type->name, type);
     return type;
 }
@@ -126,7 +126,7 @@ GrayType *type_pointer(const char *pointee_type) {
     if (existing) return existing;
     GrayType *type = type_alloc();
     type->kind = TK_POINTER;
-    const char *dup = strdup(pointee_type);
+    const char *dup = xstrdup(pointee_type);
     type->element_type = dup;
     type->name = dup;
     pool_insert(TK_POINTER, type->name, type);
@@ -207,10 +207,10 @@ static GrayFuncSig *parse_func_sig(const char *name) {
             const char *p = raw_params[i];
             if (p[0] == '&') {
                 sig->param_mutable[i] = true;
-                sig->param_types[i] = strdup(p + 1);
+                sig->param_types[i] = xstrdup(p + 1);
             } else {
                 sig->param_mutable[i] = false;
-                sig->param_types[i] = strdup(p);
+                sig->param_types[i] = xstrdup(p);
             }
             free(raw_params[i]);
         }
@@ -238,7 +238,7 @@ static GrayFuncSig *parse_func_sig(const char *name) {
         } else if (strcmp(ret, "void") != 0) {
             sig->return_count = 1;
             sig->return_types = (const char **)xmalloc(sizeof(char *));
-            sig->return_types[0] = strdup(ret);
+            sig->return_types[0] = xstrdup(ret);
         }
     }
     return sig;
@@ -355,7 +355,7 @@ typedef struct {
     const char *name;
     GrayType *singleton;   /* non-NULL: return this singleton directly */
     int alloc_kind;      /* used when singleton is NULL: pool-alloc with this kind */
-    const char *alloc_name; /* if non-NULL, set type->name to this literal instead of strdup(name) */
+    const char *alloc_name; /* if non-NULL, set type->name to this literal instead of xstrdup(name) */
 } BuiltinTypeEntry;
 
 static BuiltinTypeEntry builtin_types[] = {
@@ -403,7 +403,7 @@ GrayType *type_from_name(const char *name) {
         if (existing) return existing;
         GrayType *type = type_alloc();
         type->kind = TK_FUNCTION;
-        type->name = strdup(name);
+        type->name = xstrdup(name);
         type->func_sig = parse_func_sig(name);
         pool_insert(TK_FUNCTION, type->name, type);
         return type;
@@ -419,7 +419,7 @@ GrayType *type_from_name(const char *name) {
         if (existing) return existing;
         GrayType *type = type_alloc();
         type->kind = hit->alloc_kind;
-        type->name = hit->alloc_name ? hit->alloc_name : strdup(name);
+        type->name = hit->alloc_name ? hit->alloc_name : xstrdup(name);
         pool_insert(type->kind, type->name, type);
         return type;
     }
@@ -451,7 +451,7 @@ GrayType *type_from_name(const char *name) {
         if (existing) return existing;
         GrayType *type = type_alloc();
         type->kind = TK_MAP;
-        type->name = strdup(name);
+        type->name = xstrdup(name);
         /* Parse key:value types from "map[string:int]" */
         const char *start = name + 4;
         const char *colon = strchr(start, ':');
diff --git a/grayc/src/util/error.c b/grayc/src/util/error.c
index acea729..35ad335 100644
--- a/grayc/src/util/error.c
+++ b/grayc/src/util/error.c
@@ -173,7 +173,7 @@ static void emit_code_formatted(DiagnosticList *diagnostics, Severity sev, const
     const char *tmpl = lookup_or_placeholder(code);
     char buf[DIAG_FORMAT_BUF];
     vsnprintf(buf, sizeof(buf), tmpl, ap);
-    diagnostic_add(diagnostics, sev, code, strdup(buf), file, line, col_start, end_col, NULL);
+    diagnostic_add(diagnostics, sev, code, xstrdup(buf), file, line, col_start, end_col, NULL);
 }
 
 void diagnostic_error_code_formatted(DiagnosticList *diagnostics, const char *code,
diff --git a/grayc/src/util/xalloc.h b/grayc/src/util/xalloc.h
index bfc1e2f..a79ef56 100644
--- a/grayc/src/util/xalloc.h
+++ b/grayc/src/util/xalloc.h
@@ -1,5 +1,5 @@
 /*
- * xalloc.h — Allocation wrappers (xmalloc, xcalloc, xrealloc) that abort
+ * xalloc.h — Allocation wrappers (xmalloc, xcalloc, xrealloc, xstrdup) that abort
  * on out-of-memory, used throughout the compiler for non-recoverable allocs.
  *
  * Author:  Marshall A Burns (@SchoolyB)
@@ -14,6 +14,7 @@
 #include <stddef.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 static inline void *xrealloc(void *ptr, size_t size) {
     void *p = realloc(ptr, size);
@@ -42,6 +43,18 @@ static inline void *xcalloc(size_t nmemb, size_t size) {
     return p;
 }
 
+static inline char *xstrdup(const char *s) {
+    size_t size = strlen(s) + 1;
+    return memcpy(xmalloc(size), s, size);
+}
+
+static inline char *xstrndup(const char *s, size_t max) {
+    size_t len = strnlen(s, max);
+    char *p = memcpy(xmalloc(len + 1), s, len);
+    p[len] = '\0';
+    return p;
+}
+
 /* Read an entire file, seekable or not, into a malloc'd NUL-terminated string
  * and store its length (without the terminator) in *len_out unless that is NULL.
  * Returns NULL with errno set if it cannot be opened or read completely. */
-- 
2.43.0


From 05e6025402e893589add1c33ab278c8fafbd92ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:45:59 +0000
Subject: [PATCH 63/73] fix: embed fails when the file cannot be read
 completely

---
 grayc/src/codegen/codegen.c | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index ea4cf04..a630f72 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -3678,26 +3678,20 @@ static bool emit_builtin_call(CodeGen *codegen, AstNode *node, const char *func)
             snprintf(resolved, sizeof(resolved), "%s", embed_path);
         }
 
-        FILE *ef = fopen(resolved, "rb");
-        if (!ef) {
-            /* Typechecker validated this; reaching here is an ICE */
-            codegen_internal_error("embed(): file not readable after typechecker validation", __FILE__, __LINE__);
-            return true;
+        /* The type checker only looked whether the file is there. */
+        size_t nread = 0;
+        char *file_buf = read_file_to_string(resolved, &nread);
+        if (!file_buf) {
+            fprintf(stderr, "gray: embed: cannot read '%s': %s\n", resolved, strerror(errno));
+            exit(1);
         }
-        fseek(ef, 0, SEEK_END);
-        long file_size = ftell(ef);
-        fseek(ef, 0, SEEK_SET);
-
-        unsigned char *file_buf = xmalloc((size_t)(file_size > 0 ? file_size : 1));
-        size_t nread = fread(file_buf, 1, (size_t)file_size, ef);
-        fclose(ef);
 
         /* Emit every byte as \xNN — safe because after 2 hex digits the next
          * character is always \ or " so no hex-continuation ambiguity. */
         char *esc = xmalloc((size_t)(nread * 4 + 16));
         size_t esc_len = 0;
         for (size_t i = 0; i < nread; i++) {
-            esc_len += (size_t)snprintf(esc + esc_len, 5, "\\x%02x", file_buf[i]);
+            esc_len += (size_t)snprintf(esc + esc_len, 5, "\\x%02x", (unsigned char)file_buf[i]);
         }
         esc[esc_len] = '\0';
 
-- 
2.43.0


From 88207c8c23e26dda5976264387ec5c9ff1fc8bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:45:59 +0000
Subject: [PATCH 64/73] fix: the code generator starts from defined state

---
 grayc/src/codegen/codegen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index a630f72..fb7a29f 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -9386,6 +9386,9 @@ CodeGen codegen_create(const char *file) {
     codegen.has_c_imports = false;
     codegen.wildcard_binding = NULL;
     codegen.pending_call_typed_sig = NULL;
+    codegen.in_const_decl = false;
+    codegen.current_var_name = NULL;
+    codegen.current_var_type = NULL;
     codegen.scope_arenas = NULL;
     codegen.scope_arena_count = 0;
     codegen.scope_arena_cap = 0;
-- 
2.43.0


From 7dfdf2589a192245b6921273b47422569cff7063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:45:59 +0000
Subject: [PATCH 65/73] fix: a directory import fails when the directory cannot
 be read completely

---
 grayc/src/main.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/grayc/src/main.c b/grayc/src/main.c
index fda91bf..2be30a6 100644
--- a/grayc/src/main.c
+++ b/grayc/src/main.c
@@ -627,7 +627,8 @@ static void mark_imported(const char *path) {
     mark_imported_with_module(path, NULL);
 }
 
-/* Scan a directory for .gray files. Returns count of files found.
+/* Scan a directory for .gray files. Returns count of files found, -1 with errno
+ * set if it cannot be read completely, or -2 if there are more than max_files.
  * Fills paths[] with full file paths (dir_path + "/" + filename). */
 #define MAX_DIR_FILES 256
 static int gray_path_cmp(const void *a, const void *b) {
@@ -640,11 +641,26 @@ static int scan_gray_files(const char *dir_path, char paths[][PATH_BUF_SIZE], in
 
     int count = 0;
     struct dirent *ent;
-    while ((ent = readdir(d)) != NULL && count < max_files) {
+    for (;;) {
+        errno = 0;
+        ent = readdir(d);
+        if (!ent) {
+            if (errno != 0) {
+                int err = errno;
+                closedir(d);
+                errno = err;
+                return -1;
+            }
+            break;
+        }
         const char *name = ent->d_name;
         if (name[0] == '.') continue; /* skip hidden files and . / .. */
         size_t nlen = strlen(name);
         if (nlen < GRAY_EXT_LEN + 1 || strcmp(name + nlen - GRAY_EXT_LEN, GRAY_EXT) != 0) continue;
+        if (count == max_files) {
+            closedir(d);
+            return -2;
+        }
         snprintf(paths[count], PATH_BUF_SIZE, "%s/%s", dir_path, name);
         count++;
     }
@@ -978,9 +994,15 @@ int main(int argc, char **argv) {
 
                         file_list = arena_alloc(arena, sizeof(char[PATH_BUF_SIZE]) * MAX_DIR_FILES);
                         file_count = scan_gray_files(import_path, file_list, MAX_DIR_FILES);
-                        if (file_count == 0) {
+                        if (file_count <= 0) {
                             char msg[MSG_BUF_LARGE];
-                            snprintf(msg, sizeof(msg), "directory '%s' contains no .gray files", item->path);
+                            if (file_count == -1) {
+                                snprintf(msg, sizeof(msg), "cannot read directory '%s': %s", item->path, strerror(errno));
+                            } else if (file_count == -2) {
+                                snprintf(msg, sizeof(msg), "directory '%s' contains more than %d .gray files", item->path, MAX_DIR_FILES);
+                            } else {
+                                snprintf(msg, sizeof(msg), "directory '%s' contains no .gray files", item->path);
+                            }
                             diagnostic_error(diag, "E6003", xstrdup(msg),
                                 input_file, stmt->token.line, stmt->token.column, 0);
                             continue;
-- 
2.43.0


From 1df0fee1af3221835b240646bc6c837aa6b7dc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:15:24 +0000
Subject: [PATCH 66/73] fix: gray fmt finds the lines of raw strings with the
 lexer

Quotes and backticks in comments, character literals and interpolations
were counted as the start or end of a string, so the lines of a raw string
were re-indented and blank lines in one lost their spaces: formatting
changed what the program does.
---
 grayc/src/fmt/fmt.c | 65 +++++++++++++++++++--------------------------
 1 file changed, 28 insertions(+), 37 deletions(-)

diff --git a/grayc/src/fmt/fmt.c b/grayc/src/fmt/fmt.c
index 5f3accd..889317a 100644
--- a/grayc/src/fmt/fmt.c
+++ b/grayc/src/fmt/fmt.c
@@ -21,6 +21,9 @@
 #define FMT_INDENT_WIDTH 4
 #define FMT_ARENA_SIZE   (1024 * 1024)  /* 1 MB — enough for any source file */
 
+/* Depth of a line that continues a raw string: it is re-emitted verbatim. */
+#define FMT_VERBATIM (-2)
+
 /* Count the number of newlines in src to find the maximum line number. */
 static int count_lines(const char *src) {
     int n = 1;
@@ -39,6 +42,10 @@ static int count_lines(const char *src) {
  * brace line gets the outer depth.  TOK_LBRACE increments the depth AFTER
  * the line is recorded, so the opening-brace line itself stays at the current
  * depth and the body lines inside get depth+1.
+ *
+ * The lines on which a raw string continues are FMT_VERBATIM: the whitespace
+ * they start with belongs to the string.  So are the lines after a token the
+ * lexer rejects, since it cannot tell what they are part of.
  */
 static int *build_depth_table(const char *src, const char *filename, int max_line) {
     int *table = calloc(max_line + 2, sizeof(int));
@@ -56,7 +63,12 @@ static int *build_depth_table(const char *src, const char *filename, int max_lin
     int depth = 0;
     Token token;
     while ((token = lexer_next_token(lexer)).type != TOK_EOF) {
-        if (token.type == TOK_ILLEGAL) break;
+        if (token.type == TOK_ILLEGAL) {
+            for (int i = token.line + 1; i <= max_line; i++) {
+                if (i >= 1) table[i] = FMT_VERBATIM;
+            }
+            break;
+        }
         if (token.type == TOK_NEWLINE) continue;
 
         int line = token.line;
@@ -68,7 +80,7 @@ static int *build_depth_table(const char *src, const char *filename, int max_lin
         }
 
         /* Record depth for this line if not yet set */
-        if (table[line] < 0) {
+        if (table[line] == -1) {
             table[line] = depth;
         }
 
@@ -76,6 +88,14 @@ static int *build_depth_table(const char *src, const char *filename, int max_lin
         if (token.type == TOK_LBRACE) {
             depth++;
         }
+
+        /* Raw string: its continuation lines keep their whitespace */
+        if (token.type == TOK_RAW_STRING) {
+            int end = line;
+            for (const char *c = token.literal; *c; c++) {
+                if (*c == '\n' && end < max_line) table[++end] = FMT_VERBATIM;
+            }
+        }
     }
 
     arena_destroy(arena);
@@ -86,7 +106,7 @@ static int *build_depth_table(const char *src, const char *filename, int max_lin
     for (int i = 1; i <= max_line; i++) {
         if (table[i] >= 0) {
             current = table[i];
-        } else {
+        } else if (table[i] != FMT_VERBATIM) {
             table[i] = current;
         }
     }
@@ -94,35 +114,6 @@ static int *build_depth_table(const char *src, const char *filename, int max_lin
     return table;
 }
 
-/*
- * Returns true if `line` (NUL-terminated, with leading whitespace already
- * stripped) is inside a raw string that started on an earlier line.
- * We track this by counting unpaired backticks across the whole source up to
- * the given line number.  An odd count means we are inside a raw string.
- */
-static bool line_is_in_raw_string(const char *src, int target_line) {
-    int line = 1;
-    bool in_raw = false;
-    bool in_str = false;  /* regular double-quoted string */
-    const char *p = src;
-    while (*p && line < target_line) {
-        if (*p == '\n') { line++; p++; continue; }
-        if (in_raw) {
-            if (*p == '`') in_raw = false;
-            p++; continue;
-        }
-        if (in_str) {
-            if (*p == '\\' && *(p + 1)) { p += 2; continue; } /* skip escape */
-            if (*p == '"')  { in_str = false; }
-            p++; continue;
-        }
-        if (*p == '`') { in_raw = true; p++; continue; }
-        if (*p == '"') { in_str = true; p++; continue; }
-        p++;
-    }
-    return in_raw;
-}
-
 int gray_fmt_source(const char *src, const char *filename, FILE *out) {
     int max_line = count_lines(src);
     int *depth_table = build_depth_table(src, filename, max_line);
@@ -147,16 +138,16 @@ int gray_fmt_source(const char *src, const char *filename, FILE *out) {
             content++;
         int content_len = (int)((line_start + line_len) - content);
 
-        if (content_len == 0) {
-            /* Blank line: emit as-is (no indentation) */
-            fputc('\n', out);
-        } else if (line_is_in_raw_string(src, line_num)) {
+        int depth = (line_num <= max_line) ? depth_table[line_num] : 0;
+        if (depth == FMT_VERBATIM) {
             /* Inside a raw string: preserve the original line verbatim */
             fwrite(line_start, 1, line_len, out);
             fputc('\n', out);
+        } else if (content_len == 0) {
+            /* Blank line: emit as-is (no indentation) */
+            fputc('\n', out);
         } else {
             /* Emit corrected indentation + original content */
-            int depth = (line_num <= max_line) ? depth_table[line_num] : 0;
             if (depth < 0) depth = 0;
             for (int i = 0; i < depth * FMT_INDENT_WIDTH; i++) fputc(' ', out);
             fwrite(content, 1, content_len, out);
-- 
2.43.0


From cee3d0520b166e1f70efc43143d63c9ff8438208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:53:40 +0000
Subject: [PATCH 67/73] fix: an arena reuses the blocks left after a reset or a
 scope's end instead of losing them

---
 grayc/src/runtime/runtime.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/grayc/src/runtime/runtime.c b/grayc/src/runtime/runtime.c
index ebdcf68..b6d0789 100644
--- a/grayc/src/runtime/runtime.c
+++ b/grayc/src/runtime/runtime.c
@@ -65,10 +65,17 @@ void *gray_arena_alloc(GrayArena *arena, size_t size) {
         gray_panic_code("P0001", "cannot allocate from a destroyed arena; mem.destroy() was already called on this arena");
     size = ALIGN_UP(size, 8);
     if (arena->current->used + size > arena->current->size) {
-        size_t block_size = arena->default_block_size;
-        if (size > block_size) block_size = size;
-        GrayArenaBlock *block = gray_arena_block_create(block_size);
-        arena->current->next = block;
+        /* Blocks after the current one are left over from before a reset or
+         * the end of a scope and are empty: take the next one if it is large
+         * enough, and otherwise keep it in the chain, behind the new block. */
+        GrayArenaBlock *block = arena->current->next;
+        if (!block || block->size < size) {
+            size_t block_size = arena->default_block_size;
+            if (size > block_size) block_size = size;
+            block = gray_arena_block_create(block_size);
+            block->next = arena->current->next;
+            arena->current->next = block;
+        }
         arena->current = block;
     }
     void *ptr = arena->current->data + arena->current->used;
-- 
2.43.0


From 7da17d1021d398f1a34171a786f6bf9c43505956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:24:15 +0000
Subject: [PATCH 68/73] fix: a request with bare LF line ends keeps its headers
 and body

---
 grayc/src/stdlib/server.c | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/grayc/src/stdlib/server.c b/grayc/src/stdlib/server.c
index 1b60523..4d8a77d 100644
--- a/grayc/src/stdlib/server.c
+++ b/grayc/src/stdlib/server.c
@@ -171,6 +171,14 @@ static bool match_route(const char *pattern, const char *path,
     return false;
 }
 
+/* Find the end of the header block; from is where the search may start */
+static char *find_header_end(char *data, size_t from) {
+    char *crlf = strstr(data + from, "\r\n\r\n");
+    char *lf = strstr(data + from, "\n\n");
+    if (crlf && (!lf || crlf < lf)) return crlf + 4;
+    return lf ? lf + 2 : NULL;
+}
+
 /* Parse HTTP request from raw data */
 static bool parse_request(GrayArena *arena, const char *data, int data_len,
                           GrayRequest *req) {
@@ -211,13 +219,13 @@ static bool parse_request(GrayArena *arena, const char *data, int data_len,
         req->path = gray_string_new(arena, path_start, (int32_t)(second_space - path_start));
     }
 
-    /* Parse headers */
-    const char *header_start = strstr(data, "\r\n");
-    const char *body_separator = strstr(data, "\r\n\r\n");
-    if (header_start) header_start += 2;
+    /* Parse headers; the lines end in CRLF or a bare LF, as read_request() accepts */
+    const char *body_start = find_header_end((char *)data, 0);
+    const char *header_start = strchr(data, '\n');
+    if (header_start) header_start++;
 
-    while (header_start && header_start < body_separator) {
-        const char *end_of_line = strstr(header_start, "\r\n");
+    while (header_start && header_start < body_start) {
+        const char *end_of_line = strchr(header_start, '\n');
         if (!end_of_line) break;
 
         const char *colon = memchr(header_start, ':', end_of_line - header_start);
@@ -226,17 +234,17 @@ static bool parse_request(GrayArena *arena, const char *data, int data_len,
             const char *vstart = colon + 1;
             while (*vstart == ' ') vstart++;
             int32_t value_length = (int32_t)(end_of_line - vstart);
+            if (value_length > 0 && vstart[value_length - 1] == '\r') value_length--;
 
             GrayString key = gray_string_new(arena, header_start, key_length);
             GrayString val = gray_string_new(arena, vstart, value_length);
             gray_map_set(arena, &req->headers, &key, &val);
         }
-        header_start = end_of_line + 2;
+        header_start = end_of_line + 1;
     }
 
     /* Body */
-    if (body_separator) {
-        const char *body_start = body_separator + 4;
+    if (body_start) {
         int32_t body_length = (int32_t)(data_len - (body_start - data));
         if (body_length > 0) {
             req->body = gray_string_new(arena, body_start, body_length);
@@ -246,14 +254,6 @@ static bool parse_request(GrayArena *arena, const char *data, int data_len,
     return true;
 }
 
-/* Find the end of the header block; from is where the search may start */
-static char *find_header_end(char *data, size_t from) {
-    char *crlf = strstr(data + from, "\r\n\r\n");
-    char *lf = strstr(data + from, "\n\n");
-    if (crlf && (!lf || crlf < lf)) return crlf + 4;
-    return lf ? lf + 2 : NULL;
-}
-
 /* Length of the body the header block announces, or minus the status to
  * refuse the request with */
 static long announced_body(const char *headers, const char *end) {
-- 
2.43.0


From d41dd8f00dbb99d354858b50794379bd0e2db17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:25:59 +0000
Subject: [PATCH 69/73] fix: the HTTP client skips interim responses

---
 grayc/src/stdlib/http.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/grayc/src/stdlib/http.c b/grayc/src/stdlib/http.c
index 81996ab..38906ef 100644
--- a/grayc/src/stdlib/http.c
+++ b/grayc/src/stdlib/http.c
@@ -195,13 +195,21 @@ static ResponseState decode_chunked(char *body, int *total, char *data) {
 /* Judge a NUL-terminated response of *total bytes; what follows a complete
  * one is cut off */
 static ResponseState response_state(char *data, int *total, bool no_body) {
-    char *crlf = strstr(data, "\r\n\r\n");
-    char *lf = strstr(data, "\n\n");
-    char *body = crlf && (!lf || crlf < lf) ? crlf + 4 : lf ? lf + 2 : NULL;
-    if (!body) return RESPONSE_PARTIAL;
+    char *body;
+    int status;
+    for (;;) {
+        char *crlf = strstr(data, "\r\n\r\n");
+        char *lf = strstr(data, "\n\n");
+        body = crlf && (!lf || crlf < lf) ? crlf + 4 : lf ? lf + 2 : NULL;
+        if (!body) return RESPONSE_PARTIAL;
 
-    const char *sp = strchr(data, ' ');
-    int status = sp ? atoi(sp + 1) : 0;
+        const char *sp = strchr(data, ' ');
+        status = sp ? atoi(sp + 1) : 0;
+        if (status < 100 || status > 199 || status == 101) break;
+        /* An interim response: the real one follows */
+        *total -= (int)(body - data);
+        memmove(data, body, (size_t)*total + 1);
+    }
     if (no_body || status == 204 || status == 304) {
         *total = (int)(body - data);
         return RESPONSE_COMPLETE;
-- 
2.43.0


From ce198972e009fef898df3894caed5b92df160cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:56:24 +0000
Subject: [PATCH 70/73] fix: the compiler refuses an output path that is one of
 its sources

---
 grayc/src/main.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/grayc/src/main.c b/grayc/src/main.c
index 2be30a6..7fa267b 100644
--- a/grayc/src/main.c
+++ b/grayc/src/main.c
@@ -627,6 +627,20 @@ static void mark_imported(const char *path) {
     mark_imported_with_module(path, NULL);
 }
 
+/* True, with a message, if path names one of the files the program was read from. */
+static bool overwrites_source(const char *path) {
+    struct stat out, src;
+    if (stat(path, &out) != 0) return false;
+    for (int i = 0; i < IMPORT_HASH_BUCKETS; i++) {
+        if (import_hash[i].path && stat(import_hash[i].path, &src) == 0 &&
+            src.st_dev == out.st_dev && src.st_ino == out.st_ino) {
+            fprintf(stderr, "gray: output '%s' would overwrite a source file\n", path);
+            return true;
+        }
+    }
+    return false;
+}
+
 /* Scan a directory for .gray files. Returns count of files found, -1 with errno
  * set if it cannot be read completely, or -2 if there are more than max_files.
  * Fills paths[] with full file paths (dir_path + "/" + filename). */
@@ -1611,7 +1625,7 @@ int main(int argc, char **argv) {
             c_out = c_out_default;
         }
 
-        if (!write_file(c_out, c_code)) {
+        if (overwrites_source(c_out) || !write_file(c_out, c_code)) {
             fprintf(stderr, "gray: failed to write C output: %s\n", c_out);
             free(c_out_default);
             codegen_destroy(&codegen);
@@ -1631,6 +1645,15 @@ int main(int argc, char **argv) {
         return 0;
     }
 
+    if (output_file && overwrites_source(output_file)) {
+        codegen_destroy(&codegen);
+        typechecker_free(checker);
+        arena_destroy(arena);
+        free(source);
+        free(default_output);
+        return 1;
+    }
+
     /* Check that a C compiler is available */
     if (system("cc --version >/dev/null 2>&1") != 0 &&
         system("gcc --version >/dev/null 2>&1") != 0 &&
-- 
2.43.0


From b9f8353c1ce4b691e45fb852922eeddbbf54b623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:02:34 +0000
Subject: [PATCH 71/73] fix: gray watch notices a directory of the program
 being replaced

---
 cli/watch.go | 69 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 59 insertions(+), 10 deletions(-)

diff --git a/cli/watch.go b/cli/watch.go
index 9d6c726..9083dbf 100644
--- a/cli/watch.go
+++ b/cli/watch.go
@@ -73,7 +73,54 @@ const debounceInterval = 100 * time.Millisecond
 type watchSet struct {
 	watcher *fsnotify.Watcher
 	files   map[string]struct{} // kept when the file disappears: it may come back
-	dirs    map[string]struct{}
+	dirs    map[string]bool     // false: gone for now
+}
+
+// scan watches what files returns and reports whether any of it is new. What
+// appears in a directory before its watch is found by looking again.
+func (w *watchSet) scan(files func() []string) bool {
+	isNew := false
+	for n := -1; n != w.watched(); {
+		n = w.watched()
+		for d, ok := range w.dirs {
+			if !ok {
+				w.addDir(d)
+			}
+		}
+		isNew = w.add(files()) || isNew
+	}
+	return isNew
+}
+
+func (w *watchSet) watched() int {
+	n := 0
+	for _, ok := range w.dirs {
+		if ok {
+			n++
+		}
+	}
+	return n
+}
+
+// lost is called for a path that is gone or was moved away. If it is or holds a
+// directory of the set, another one may take its place, whose files are new then.
+// The empty path stands for all of them.
+func (w *watchSet) lost(path string) bool {
+	found := false
+	for d := range w.dirs {
+		if d == path || strings.HasPrefix(d, path+"/") {
+			w.dirs[d] = false
+			found = true
+		}
+	}
+	if found {
+		for f := range w.files {
+			if strings.HasPrefix(f, path+"/") {
+				delete(w.files, f)
+			}
+		}
+	}
+	return found
 }
 
 // add watches files and reports whether any of them is new to the set.
@@ -101,11 +148,9 @@ func (w *watchSet) addFile(f string) bool {
 // addDir is repeated for known directories, which may have been replaced.
 func (w *watchSet) addDir(dir string) {
 	_, known := w.dirs[dir]
-	if err := w.watcher.Add(dir); err == nil {
-		w.dirs[dir] = struct{}{}
-	} else if known {
-		delete(w.dirs, dir)
-	} else {
+	err := w.watcher.Add(dir)
+	w.dirs[dir] = err == nil
+	if err != nil && !known {
 		fmt.Printf("Error watching %s: %v\n", dir, err)
 	}
 }
@@ -113,8 +158,8 @@ func (w *watchSet) addDir(dir string) {
 // watchLoop runs the debounced event loop shared by file and directory watch modes.
 // files returns the current set of files to watch (called before each rebuild).
 func watchLoop(watcher *fsnotify.Watcher, mainFile string, compilerArgs []string, files func() []string) {
-	set := &watchSet{watcher: watcher, files: map[string]struct{}{}, dirs: map[string]struct{}{}}
-	set.add(files())
+	set := &watchSet{watcher: watcher, files: map[string]struct{}{}, dirs: map[string]bool{}}
+	set.scan(files)
 	executeFile(mainFile, compilerArgs)
 
 	// The program runs in this loop, one run at a time: changes made in the
@@ -127,6 +172,9 @@ func watchLoop(watcher *fsnotify.Watcher, mainFile string, compilerArgs []string
 			if !ok {
 				return
 			}
+			if event.Op&(fsnotify.Remove|fsnotify.Rename) != 0 && set.lost(event.Name) {
+				timer = time.After(debounceInterval)
+			}
 			if event.Op&(fsnotify.Write|fsnotify.Create) == 0 {
 				continue
 			}
@@ -143,13 +191,14 @@ func watchLoop(watcher *fsnotify.Watcher, mainFile string, compilerArgs []string
 			}
 			fmt.Printf("Watcher error: %v\n", err)
 			if errors.Is(err, fsnotify.ErrEventOverflow) {
-				// Events were lost, and any file may have changed
+				// Events were lost: any file may have changed, and any directory be gone
+				set.lost("")
 				changed = true
 				timer = time.After(debounceInterval)
 			}
 		case <-timer:
 			timer = nil
-			if set.add(files()) || changed {
+			if set.scan(files) || changed {
 				changed = false
 				executeFile(mainFile, compilerArgs)
 			}
-- 
2.43.0


From c886e37e7647d9e3041fffe85b4ae14184565a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:02:34 +0000
Subject: [PATCH 72/73] fix: gray watch of a directory sees files made in its
 empty or new directories

---
 cli/watch.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/cli/watch.go b/cli/watch.go
index 9083dbf..471ca4f 100644
--- a/cli/watch.go
+++ b/cli/watch.go
@@ -72,6 +72,7 @@ const debounceInterval = 100 * time.Millisecond
 // another one over it, and a watch of the old file would go with it.
 type watchSet struct {
 	watcher *fsnotify.Watcher
+	root    string              // a directory to watch with all below it, or ""
 	files   map[string]struct{} // kept when the file disappears: it may come back
 	dirs    map[string]bool     // false: gone for now
 }
@@ -87,6 +88,15 @@ func (w *watchSet) scan(files func() []string) bool {
 				w.addDir(d)
 			}
 		}
+		if w.root != "" {
+			// New files may appear in any directory, also in one without files so far
+			filepath.Walk(w.root, func(path string, info os.FileInfo, err error) error {
+				if err == nil && info.IsDir() {
+					w.addDir(path)
+				}
+				return nil
+			})
+		}
 		isNew = w.add(files()) || isNew
 	}
 	return isNew
@@ -156,9 +166,10 @@ func (w *watchSet) addDir(dir string) {
 }
 
 // watchLoop runs the debounced event loop shared by file and directory watch modes.
-// files returns the current set of files to watch (called before each rebuild).
-func watchLoop(watcher *fsnotify.Watcher, mainFile string, compilerArgs []string, files func() []string) {
-	set := &watchSet{watcher: watcher, files: map[string]struct{}{}, dirs: map[string]bool{}}
+// files returns the current set of files to watch (called before each rebuild);
+// root is the watched directory, or "" in file mode.
+func watchLoop(watcher *fsnotify.Watcher, mainFile, root string, compilerArgs []string, files func() []string) {
+	set := &watchSet{watcher: watcher, root: root, files: map[string]struct{}{}, dirs: map[string]bool{}}
 	set.scan(files)
 	executeFile(mainFile, compilerArgs)
 
@@ -227,7 +238,7 @@ func watchFile(file string, compilerArgs []string) error {
 	fmt.Println("Press Ctrl+C to stop")
 	fmt.Println()
 
-	watchLoop(watcher, file, compilerArgs, func() []string { return collectFilesToWatch(file) })
+	watchLoop(watcher, file, "", compilerArgs, func() []string { return collectFilesToWatch(file) })
 	return nil
 }
 
@@ -248,7 +259,11 @@ func watchDirectory(dirPath string, compilerArgs []string) error {
 	fmt.Println("Press Ctrl+C to stop")
 	fmt.Println()
 
-	watchLoop(watcher, mainFile, compilerArgs, func() []string { return collectGrayFilesInDir(dirPath) })
+	root, err := filepath.EvalSymlinks(dirPath)
+	if err != nil {
+		return fmt.Errorf("Error resolving path: %v", err)
+	}
+	watchLoop(watcher, mainFile, root, compilerArgs, func() []string { return collectGrayFilesInDir(dirPath) })
 	return nil
 }
 
-- 
2.43.0


From 6458f3a0cbe503f1ec0399918d64197cfd0db12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:02:36 +0000
Subject: [PATCH 73/73] fix: gray watch follows links to directories as the
 compiler does

---
 cli/watch.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/watch.go b/cli/watch.go
index 471ca4f..203dea8 100644
--- a/cli/watch.go
+++ b/cli/watch.go
@@ -290,6 +290,10 @@ func collectFilesToWatch(mainFile string) []string {
 			// Resolve relative to the main file's directory; files of a
 			// directory module import relative to their own
 			for _, base := range []string{dir, filepath.Dir(files[i])} {
+				// The compiler leaves ".." to the system, which follows links first
+				if real, err := filepath.EvalSymlinks(base); err == nil {
+					base = real
+				}
 				resolved := filepath.Join(base, imp)
 				if !strings.HasSuffix(resolved, ".gray") {
 					// Could be a directory module
@@ -353,7 +357,8 @@ func scanImports(filePath string) []string {
 // collectGrayFilesInDir recursively collects all .gray files in a directory
 func collectGrayFilesInDir(dir string) []string {
 	var files []string
-	filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
+	// The slash makes Walk follow dir if it is a link
+	filepath.Walk(dir+"/", func(path string, info os.FileInfo, err error) error {
 		if err != nil {
 			return nil
 		}
-- 
2.43.0

