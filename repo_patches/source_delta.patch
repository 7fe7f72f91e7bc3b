From df3c06625e090569b206aa930fc74e47340d1a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 01/83] fix: report failed allocations as failure (status id
 must not be the success id)

---
 source/c/foreign/sph-sc-lib/sph-sp/helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/helper.h b/source/c/foreign/sph-sc-lib/sph-sp/helper.h
index c10b6c2..25dcb7f 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/helper.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/helper.h
@@ -4,7 +4,7 @@
 
 /* depends on status.h */
 #include <inttypes.h>
-enum { sph_helper_status_id_memory };
+enum { sph_helper_status_id_memory = 1 };
 #define sph_helper_status_group ((uint8_t*)("sph"))
 
 /** add explicit type cast to prevent compiler warning */
-- 
2.43.0


From e73e6d324fb17dcdac9794505325d82f04febe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 02/83] fix: return the status description and name instead of
 an undefined pointer

---
 source/c/foreign/sph-sc-lib/sph-sp/helper.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/helper.c b/source/c/foreign/sph-sc-lib/sph-sp/helper.c
index f44fab7..000fed4 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/helper.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/helper.c
@@ -9,6 +9,7 @@ uint8_t* sph_helper_status_description(status_t a) {
   } else {
     b = "";
   };
+  return (b);
 }
 uint8_t* sph_helper_status_name(status_t a) {
   uint8_t* b;
@@ -17,6 +18,7 @@ uint8_t* sph_helper_status_name(status_t a) {
   } else {
     b = "unknown";
   };
+  return (b);
 }
 
 /** allocation helpers use status-t and have the same interface */
-- 
2.43.0


From 93195710b12d76b4d5eb46e66696459b96981130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 03/83] fix: sp_file_read returns its status

---
 source/c-precompiled/sph-sp/file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index ea0912c..9d715e6 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -115,5 +115,6 @@ status_t sp_file_read(sp_file_t file, sp_time_t sample_count, sp_sample_t** samp
   };
 exit:
   free(file_data);
+  status_return;
 }
 void sp_file_close_read(sp_file_t file) { fclose((file.file)); }
-- 
2.43.0


From 5186b5b2e904be1f0e7d220652365df663952c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 04/83] fix: sp_file_open_read handles unopenable files, sets
 the channel count and closes the file on failure

---
 source/c-precompiled/sph-sp/file.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index 9d715e6..b1d208a 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -70,12 +70,19 @@ status_t sp_file_open_read(uint8_t* path, sp_file_t* file) {
   uint32_t subchunk_id;
   uint32_t subchunk_size;
   file->file = fopen(path, "r");
+  if (!file->file) {
+    status_set_goto(sp_s_group_libc, errno);
+  };
   if (!(fread(header, 44, 1, (file->file)) && (*((uint32_t*)(header)) == wav_string_riff) && (*((uint32_t*)((8 + header))) == wav_string_wav) && (*((uint32_t*)((12 + header))) == wav_string_fmt))) {
     sp_status_set_goto(sp_s_id_file_read);
   };
   if (!((3 == *((uint16_t*)((20 + header)))) && (32 == *((uint16_t*)((34 + header)))))) {
     sp_status_set_goto(sp_s_id_file_not_implemented);
   };
+  file->channel_count = *((uint16_t*)((22 + header)));
+  if (!file->channel_count) {
+    sp_status_set_goto(sp_s_id_file_read);
+  };
   subchunk_id = *((uint32_t*)((36 + header)));
   subchunk_size = *((uint32_t*)((40 + header)));
   while (!(wav_string_data == subchunk_id)) {
@@ -88,6 +95,10 @@ status_t sp_file_open_read(uint8_t* path, sp_file_t* file) {
     };
   };
 exit:
+  if (status_is_failure && file->file) {
+    fclose((file->file));
+    file->file = 0;
+  };
   status_return;
 }
 status_t sp_file_read(sp_file_t file, sp_time_t sample_count, sp_sample_t** samples) {
-- 
2.43.0


From 4727d1e08b5930c89bad770222cb2eb2a0b8d76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 05/83] fix: sp_render_range_file renders the requested range
 instead of always starting at zero

---
 source/c-precompiled/sph-sp/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 2e62223..15f4cef 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -348,12 +348,12 @@ status_t sp_render_range_file(sp_event_t event, sp_time_t start, sp_time_t end,
     if (config.display_progress) {
       printf(("%.1f%\n"), (100 * (i / ((sp_sample_t)(block_end)))));
     };
-    status_require((sp_seq(i, (i + config.block_size), block, (&events))));
+    status_require((sp_seq((start + i), (start + i + config.block_size), block, (&events))));
     status_require((sp_file_write((&file), (block.samples), (config.block_size))));
     sp_block_zero(block);
   };
   if (remainder) {
-    status_require((sp_seq(i, (i + remainder), block, (&events))));
+    status_require((sp_seq((start + i), (start + i + remainder), block, (&events))));
     status_require((sp_file_write((&file), (block.samples), remainder)));
   };
   sp_event_list_free((&events));
-- 
2.43.0


From a3b92cb5d9e9462a7a355a9ba35a789855f0f16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 06/83] fix: sp_render_range_file frees the event and does not
 use an unopened file on failure

---
 source/c-precompiled/sph-sp/file.c |  1 +
 source/c-precompiled/sph-sp/main.c | 13 ++++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index b1d208a..b3af8a9 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -27,6 +27,7 @@ status_t sp_file_open_write(uint8_t* path, sp_channel_count_t channel_count, sp_
   };
   if (!fwrite(header, 40, 1, (file->file))) {
     fclose((file->file));
+    file->file = 0;
     sp_status_set_goto(sp_s_id_file_write);
   };
   fseek((file->file), 4, SEEK_CUR);
diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 15f4cef..414402d 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -339,7 +339,12 @@ status_t sp_render_range_file(sp_event_t event, sp_time_t start, sp_time_t end,
   sp_file_t file;
   sp_block_declare(block);
   sp_declare_event_list(events);
-  status_require((sp_event_list_add((&events), event)));
+  file.file = 0;
+  status = sp_event_list_add((&events), event);
+  if (status_is_failure) {
+    sp_event_free(event);
+    goto exit;
+  };
   status_require((sp_block_new((config.channel_count), (config.block_size), (&block))));
   status_require((sp_file_open_write(path, (config.channel_count), (config.rate), (&file))));
   remainder = ((end - start) % config.block_size);
@@ -356,10 +361,12 @@ status_t sp_render_range_file(sp_event_t event, sp_time_t start, sp_time_t end,
     status_require((sp_seq((start + i), (start + i + remainder), block, (&events))));
     status_require((sp_file_write((&file), (block.samples), remainder)));
   };
-  sp_event_list_free((&events));
 exit:
+  sp_event_list_free((&events));
   sp_block_free((&block));
-  sp_file_close_write((&file));
+  if (file.file) {
+    sp_file_close_write((&file));
+  };
   status_return;
 }
 
-- 
2.43.0


From 59de93984d780e55cd974e560da284e54f01201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 07/83] fix: sp_render_range_block frees the event and the
 block on failure

---
 source/c-precompiled/sph-sp/main.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 414402d..f754f71 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -375,14 +375,21 @@ exit:
    block will be allocated */
 status_t sp_render_range_block(sp_event_t event, sp_time_t start, sp_time_t end, sp_render_config_t config, sp_block_t* out) {
   status_declare;
-  sp_block_t block;
+  sp_block_declare(block);
   sp_declare_event_list(events);
-  status_require((sp_event_list_add((&events), event)));
+  status = sp_event_list_add((&events), event);
+  if (status_is_failure) {
+    sp_event_free(event);
+    goto exit;
+  };
   status_require((sp_block_new((config.channel_count), (end - start), (&block))));
   status_require((sp_seq(start, end, block, (&events))));
-  sp_event_list_free((&events));
   *out = block;
 exit:
+  sp_event_list_free((&events));
+  if (status_is_failure) {
+    sp_block_free((&block));
+  };
   status_return;
 }
 
-- 
2.43.0


From 0018bc47e70386dd36cbf0cff163742ee1c4e68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 08/83] fix: groups and map events that are freed before they
 were prepared free their members

---
 source/c-precompiled/sph-sp/sequencer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.h b/source/c-precompiled/sph-sp/sequencer.h
index d498bd5..8588406 100644
--- a/source/c-precompiled/sph-sp/sequencer.h
+++ b/source/c-precompiled/sph-sp/sequencer.h
@@ -40,14 +40,17 @@
 #define sp_map_event(event_pointer, _config) \
   event_pointer->prepare = sp_map_event_prepare; \
   event_pointer->generate = (_config->isolate ? sp_map_event_isolated_generate : sp_map_event_generate); \
+  event_pointer->free = sp_map_event_free; \
   event_pointer->config = _config
 #define sp_group_event(event_pointer) \
   event_pointer->prepare = sp_group_prepare; \
   event_pointer->generate = sp_group_generate; \
+  event_pointer->free = sp_group_free; \
   event_pointer->config = 0
 #define sp_group_parallel_event(event_pointer) \
   event_pointer->prepare = sp_group_prepare; \
   event_pointer->generate = sp_group_generate_parallel; \
+  event_pointer->free = sp_group_free; \
   event_pointer->config = 0
 #define sp_event_path_samples_srq(event_pointer, out, ...) \
   status_require((sp_path_samples(out, __VA_ARGS__))); \
-- 
2.43.0


From 6897d7c44079ed7a4f6baf593ee25a5fde8422c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 09/83] fix: sp_seq keeps what a failing prepare registered
 with the event so that it is freed

---
 source/c-precompiled/sph-sp/sequencer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 9131451..a9c2bc6 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -262,8 +262,8 @@ status_t sp_seq(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_list_t*
     } else if (end <= e.start) {
       break;
     } else if (e.end > start) {
-      sp_event_prepare_optional_srq(e);
-      *ep = e;
+      sp_event_prepare_optional_srq((*ep));
+      e = *ep;
       status_require(((e.generate)(((start > e.start) ? (start - e.start) : 0), (sp_inline_min(end, (e.end)) - e.start), ((e.start > start) ? sp_block_with_offset(out, (e.start - start)) : out), ep)));
     };
     current = current->next;
-- 
2.43.0


From ffa92ae26a54118b445162785d60e8d50296d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 10/83] fix: sp_event_list_reverse keeps the empty list empty

---
 source/c-precompiled/sph-sp/sequencer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index a9c2bc6..42e3ddd 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -15,6 +15,7 @@ void sp_event_list_display(sp_event_list_t* a) {
 void sp_event_list_reverse(sp_event_list_t** a) {
   sp_event_list_t* current;
   sp_event_list_t* next;
+  current = 0;
   next = *a;
   while (next) {
     current = next;
-- 
2.43.0


From 06c70e5ef6fcf9a3a42bd2ec3f714e5ecf769745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 11/83] fix: sp_seq_parallel waits for all started events
 before it frees anything on failure

---
 source/c-precompiled/sph-sp/sequencer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 42e3ddd..498005d 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -366,6 +366,8 @@ status_t sp_seq_parallel(sp_time_t start, sp_time_t end, sp_block_t out, sp_even
 exit:
   if (sf_array) {
     for (sp_size_t i = 0; (i < allocated); i += 1) {
+      /* on failure, other events might still be processed */
+      sph_future_touch((&((sf_array[i]).future)));
       sp_block_free((&((sf_array[i]).out)));
     };
     free(sf_array);
-- 
2.43.0


From bc64f5de7913015725ed6d98728d347a223f2147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 12/83] fix: sph_future_deinit destroys the thread pool once
 and allows it to be initialized again

---
 source/c/foreign/sph-sc-lib/sph-sp/futures.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/futures.c b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
index 425613d..9ff2bd3 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/futures.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
@@ -44,8 +44,10 @@ void sph_future_new(sph_future_f_t f, void* data, sph_future_t* out) {
    waits till all active futures are finished */
 void sph_future_deinit() {
   if (sph_futures_pool_is_initialized) {
-    sph_thread_pool_finish((&sph_futures_pool), 0, 0);
-    sph_thread_pool_destroy((&sph_futures_pool));
+    /* destroys the pool when all threads have ended */
+    if (0 == sph_thread_pool_finish((&sph_futures_pool), 0, 0)) {
+      sph_futures_pool_is_initialized = 0;
+    };
   };
 }
 
-- 
2.43.0


From 2d55b019e5448388cd0f75cd215cad792f3b766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 13/83] fix: the result of a future is visible to the thread
 that waited for it

---
 source/c/foreign/sph-sc-lib/sph-sp/futures.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/futures.c b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
index 9ff2bd3..9b43557 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/futures.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
@@ -27,7 +27,7 @@ void sph_future_eval(sph_thread_pool_task_t* task) {
   sph_future_t* a;
   a = ((sph_future_t*)((((uint8_t*)(task)) - offsetof(sph_future_t, task))));
   task->data = (a->f)((task->data));
-  a->finished = 1;
+  __atomic_store_n((&(a->finished)), 1, __ATOMIC_RELEASE);
 }
 
 /** prepare a future in out and possibly start evaluation in parallel.
@@ -54,7 +54,7 @@ void sph_future_deinit() {
 /** blocks until future is finished and returns its result */
 void* sph_future_touch(sph_future_t* a) {
   const struct timespec poll_interval = sph_future_default_poll_interval;
-  while (!a->finished) {
+  while (!__atomic_load_n((&(a->finished)), __ATOMIC_ACQUIRE)) {
     nanosleep((&poll_interval), 0);
   };
   return ((a->task.data));
-- 
2.43.0


From 57fe321be358ec8a25892cbf3ced32ca646aa722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 14/83] fix: nested parallel groups do not deadlock when there
 are fewer threads than nesting levels

---
 source/c/foreign/sph-sc-lib/sph-sp/futures.c  |  7 +++++-
 source/c/foreign/sph-sc-lib/sph-sp/queue.h    | 22 +++++++++++++++++++
 .../c/foreign/sph-sc-lib/sph-sp/thread-pool.c | 10 +++++++++
 .../c/foreign/sph-sc-lib/sph-sp/thread-pool.h |  1 +
 4 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/futures.c b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
index 9b43557..96305c4 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/futures.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
@@ -51,9 +51,14 @@ void sph_future_deinit() {
   };
 }
 
-/** blocks until future is finished and returns its result */
+/** blocks until future is finished and returns its result.
+   evaluates the future itself if no thread has started with it. futures can therefore wait for other futures
+   even if all threads are waiting */
 void* sph_future_touch(sph_future_t* a) {
   const struct timespec poll_interval = sph_future_default_poll_interval;
+  if (!__atomic_load_n((&(a->finished)), __ATOMIC_ACQUIRE) && sph_thread_pool_dequeue((&sph_futures_pool), (&(a->task)))) {
+    sph_future_eval((&(a->task)));
+  };
   while (!__atomic_load_n((&(a->finished)), __ATOMIC_ACQUIRE)) {
     nanosleep((&poll_interval), 0);
   };
diff --git a/source/c/foreign/sph-sc-lib/sph-sp/queue.h b/source/c/foreign/sph-sc-lib/sph-sp/queue.h
index 9295ccb..6674b3e 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/queue.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/queue.h
@@ -62,4 +62,26 @@ sph_queue_node_t* sph_queue_deq(sph_queue_t* a) {
   a->size = (a->size - 1);
   return (n);
 }
+
+/** remove a specific node. returns one if the node was in the queue, otherwise zero */
+uint8_t sph_queue_remove(sph_queue_t* a, sph_queue_node_t* node) {
+  sph_queue_node_t* n;
+  sph_queue_node_t* previous;
+  previous = 0;
+  for (n = a->first; n; previous = n, n = n->next) {
+    if (n == node) {
+      if (previous) {
+        previous->next = n->next;
+      } else {
+        a->first = n->next;
+      };
+      if (!n->next) {
+        a->last = previous;
+      };
+      a->size = (a->size - 1);
+      return (1);
+    };
+  };
+  return (0);
+}
 #endif
diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
index 08f19e5..79b15d5 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
@@ -18,6 +18,16 @@ void sph_thread_pool_enqueue(sph_thread_pool_t* a, sph_thread_pool_task_t* task)
   pthread_mutex_unlock((&(a->queue_mutex)));
 }
 
+/** take a task back from the queue if no thread has started to process it yet.
+   returns one if the task was still enqueued. it will then not be processed by the pool */
+uint8_t sph_thread_pool_dequeue(sph_thread_pool_t* a, sph_thread_pool_task_t* task) {
+  uint8_t is_enqueued;
+  pthread_mutex_lock((&(a->queue_mutex)));
+  is_enqueued = sph_queue_remove((&(a->queue)), (&(task->q)));
+  pthread_mutex_unlock((&(a->queue_mutex)));
+  return (is_enqueued);
+}
+
 /** let threads complete all currently enqueued tasks, close the threads and free resources unless no_wait is true.
    if no_wait is true then the call is non-blocking and threads might still be running until they finish the queue after this call.
    thread_pool_finish can be called again without no_wait. with only no_wait thread_pool_destroy will not be called
diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h
index f9a855a..dbeae1a 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h
@@ -31,6 +31,7 @@ typedef void (*sph_thread_pool_task_f_t)(struct sph_thread_pool_task_t*);
 void sph_thread_pool_destroy(sph_thread_pool_t* a);
 void sph_thread_finish(sph_thread_pool_task_t* task);
 void sph_thread_pool_enqueue(sph_thread_pool_t* a, sph_thread_pool_task_t* task);
+uint8_t sph_thread_pool_dequeue(sph_thread_pool_t* a, sph_thread_pool_task_t* task);
 int sph_thread_pool_finish(sph_thread_pool_t* a, uint8_t no_wait, uint8_t discard_queue);
 void* sph_thread_pool_worker(sph_thread_pool_t* a);
 int sph_thread_pool_new(sph_thread_pool_size_t size, sph_thread_pool_t* a);
-- 
2.43.0


From 1cb3c2662edd12ea7d6c819b034532c487ac4ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 15/83] fix: threads of a pool that could not be completed are
 joined so that the pool can be created again

---
 source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
index 79b15d5..b6041c0 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
@@ -101,7 +101,7 @@ int sph_thread_pool_new(sph_thread_pool_size_t size, sph_thread_pool_t* a) {
       if (0 < i) {
         /* try to finish previously created threads */
         a->size = i;
-        sph_thread_pool_finish(a, 1, 0);
+        sph_thread_pool_finish(a, 0, 0);
       };
       goto exit;
     };
-- 
2.43.0


From 3a75996f396abc5d3cbce107cca82b3a511c2797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 16/83] fix: sp_deinitialize can be called again after it or a
 failed sp_initialize freed the tables

---
 source/c-precompiled/sph-sp/main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index f754f71..2113109 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -466,6 +466,8 @@ void sp_deinitialize() {
   };
   free(sp_sine_table);
   free(sp_sine_table_lfo);
+  sp_sine_table = 0;
+  sp_sine_table_lfo = 0;
 }
 #include <sph-sp/path.c>
 
-- 
2.43.0


From dc424c4f7e804c68e36dfa488956e8f8b1c101ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 17/83] fix: sp_block_with_offset returns a block of the
 remaining size

---
 source/c-precompiled/sph-sp/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 2113109..12874e0 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -157,6 +157,7 @@ sp_block_t sp_block_with_offset(sp_block_t a, sp_time_t offset) {
   for (sp_size_t i = 0; (i < a.channel_count); i += 1) {
     (a.samples)[i] += offset;
   };
+  a.size -= offset;
   return (a);
 }
 void sp_block_zero(sp_block_t a) {
-- 
2.43.0


From 69fe70ea32b95451832e855970be4ac038ae6705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 18/83] fix: sp_block_new does not leak memory for empty blocks

---
 source/c-precompiled/sph-sp/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 12874e0..1743ac2 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -132,6 +132,11 @@ status_t sp_block_new(sp_channel_count_t channel_count, sp_time_t size, sp_block
   memreg_init(channel_count);
   sp_sample_t* channel;
   for (sp_size_t i = 0; (i < channel_count); i += 1) {
+    if (!size) {
+      /* sp_block_free does not free empty blocks */
+      (out->samples)[i] = 0;
+      continue;
+    };
     status_require((sph_helper_calloc((size * sizeof(sp_sample_t)), (&channel))));
     memreg_add(channel);
     (out->samples)[i] = channel;
-- 
2.43.0


From 3cefbcbf4783f0cb9ed2843a2b3ce6bc086fdf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 19/83] fix: sp_event_block_generate does not divide by zero
 for empty ranges

---
 source/c-precompiled/sph-sp/sequencer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 498005d..e04f604 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -211,6 +211,9 @@ status_t sp_event_block_generate(sp_time_t resolution, sp_event_block_generate_t
   sp_time_t duration;
   sp_time_t i;
   duration = (end - start);
+  if (!duration) {
+    goto exit;
+  };
   if (duration < resolution) {
     resolution = duration;
   };
-- 
2.43.0


From 2c05908ecafe6654e8547a2f5a33b51a5a8e3955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 20/83] fix: noise events free their buffers and filter states

---
 source/c-precompiled/sph-sp/sequencer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index e04f604..a3c2421 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -700,6 +700,7 @@ status_t sp_noise_event_prepare(sp_event_t* event) {
       };
     };
   };
+  event->free = sp_noise_event_free;
 exit:
   if (status_is_failure) {
     error_memory_free;
-- 
2.43.0


From 4e17e10f08edf701859e7f8cb4b4f9758ec918f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 21/83] fix: noise events do not write past their buffers for
 large blocks or long impulse responses

---
 source/c-precompiled/sph-sp/sequencer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index a3c2421..1357e18 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -676,9 +676,9 @@ status_t sp_noise_event_prepare(sp_event_t* event) {
   if (!filter_mod) {
     c->resolution = duration;
   };
-  /* this limits the largest block that can be safely requested */
+  /* limit the size of the temporary buffers. larger blocks are generated in parts of at most resolution */
+  c->resolution = sp_inline_min((c->resolution), (sp_render_block_seconds * sp_rate));
   temp_length = sp_inline_max(temp_length, (c->resolution));
-  temp_length = sp_inline_min(temp_length, (sp_render_block_seconds * sp_rate));
   /* three buffers: one for the white noise, one for the first channel filter result that may be shared with other channels,
        and one for other channel filter results */
   status_require((sp_malloc_type(temp_length, sp_sample_t, (c->temp))));
-- 
2.43.0


From 8e2cc5db14d53435fde8dc6a16845db2f7b967c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 22/83] fix: sp_group_add and sp_group_append free the event
 and leave the group unchanged on failure

---
 source/c-precompiled/sph-sp/sequencer.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 1357e18..3c2e0e5 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -396,7 +396,8 @@ status_t sp_group_prepare(sp_event_t* group) {
   status_return;
 }
 
-/** events with end zero will be prepared immediately for cases when event.prepare sets end */
+/** events with end zero will be prepared immediately for cases when event.prepare sets end.
+   the event is freed if it could not be prepared or added */
 status_t sp_group_add(sp_event_t* group, sp_event_t event) {
   status_declare;
   if (!event.end) {
@@ -407,6 +408,9 @@ status_t sp_group_add(sp_event_t* group, sp_event_t event) {
     group->end = event.end;
   };
 exit:
+  if (status_is_failure) {
+    sp_event_free(event);
+  };
   status_return;
 }
 status_t sp_group_append(sp_event_t* group, sp_event_t event) {
@@ -416,9 +420,12 @@ status_t sp_group_append(sp_event_t* group, sp_event_t event) {
   };
   event.start += group->end;
   event.end += group->end;
-  group->end = event.end;
   status_require((sp_event_list_add(((sp_event_list_t**)(&(group->config))), event)));
+  group->end = event.end;
 exit:
+  if (status_is_failure) {
+    sp_event_free(event);
+  };
   status_return;
 }
 status_t sp_map_event_config_new_n(sp_time_t count, sp_map_event_config_t** out) { return ((sp_calloc_type(count, sp_map_event_config_t, out))); }
-- 
2.43.0


From 5989174ce37e112de9f341d90b4c29d88ad2a97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 23/83] fix: convolution filter states track function and
 parameters and stay valid on failure

---
 source/c-precompiled/sph-sp/filter.c | 76 +++++++++++-----------------
 1 file changed, 29 insertions(+), 47 deletions(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index e59b0fc..1060c6c 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -16,67 +16,49 @@ void sp_convolution_filter_state_free(sp_convolution_filter_state_t* state) {
    ir-f-arguments can be stack allocated and will be copied to state on change */
 status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void* ir_f_arguments, uint8_t ir_f_arguments_len, sp_convolution_filter_state_t** out_state) {
   status_declare;
-  sp_sample_t* carryover;
-  sp_time_t carryover_alloc_len;
+  sp_time_t carryover_len;
   sp_sample_t* ir;
   sp_time_t ir_len;
   sp_convolution_filter_state_t* state;
-  memreg_init(2);
-  /* create state if not exists. re-use if exists and return early if ir needs not be updated */
-  if (*out_state) {
-    /* existing */
-    state = *out_state;
-    if ((state->ir_f == ir_f) && (ir_f_arguments_len == state->ir_f_arguments_len) && (0 == memcmp((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len))) {
-      /* unchanged */
-      status_return;
-    } else {
-      /* changed */
-      if (ir_f_arguments_len > state->ir_f_arguments_len) {
-        status_require((sph_helper_realloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
-      };
-      if (state->ir) {
-        free((state->ir));
-      };
+  memreg_init(3);
+  state = *out_state;
+  if (state && (state->ir_f == ir_f) && (ir_f_arguments_len == state->ir_f_arguments_len) && (0 == memcmp((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len))) {
+    /* unchanged */
+    status_return;
+  };
+  /* an existing state is only changed after everything that can fail.
+  assumes that ir-len is always greater zero */
+  status_require((ir_f(ir_f_arguments, (&ir), (&ir_len))));
+  memreg_add(ir);
+  if (state) {
+    /* changed */
+    if (ir_f_arguments_len > state->ir_f_arguments_len) {
+      status_require((sph_helper_realloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
     };
   } else {
     /* new */
-    status_require((sph_helper_malloc((sizeof(sp_convolution_filter_state_t)), (&state))));
-    status_require((sph_helper_malloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
+    status_require((sph_helper_calloc((sizeof(sp_convolution_filter_state_t)), (&state))));
     memreg_add(state);
+    status_require((sph_helper_malloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
     memreg_add((state->ir_f_arguments));
-    state->carryover_alloc_len = 0;
-    state->carryover = 0;
-    state->ir_f = ir_f;
-    state->ir_f_arguments_len = ir_f_arguments_len;
   };
-  memcpy((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len);
-  /* assumes that ir-len is always greater zero */
-  status_require((ir_f(ir_f_arguments, (&ir), (&ir_len))));
   /* eventually extend carryover array. the array is never shrunk.
   carryover-len is at least ir-len - 1.
   carryover-alloc-len is the length of the whole array.
   new and extended areas must be set to zero */
-  carryover_alloc_len = (ir_len - 1);
-  if (state->carryover) {
-    carryover = state->carryover;
-    if (ir_len > state->ir_len) {
-      if (carryover_alloc_len > state->carryover_alloc_len) {
-        status_require((sph_helper_realloc((carryover_alloc_len * sizeof(sp_sample_t)), (&carryover))));
-        state->carryover_alloc_len = carryover_alloc_len;
-      };
-      /* in any case reset the extended area */
-      memset(((state->ir_len - 1) + carryover), 0, ((ir_len - state->ir_len) * sizeof(sp_sample_t)));
-    };
-  } else {
-    if (carryover_alloc_len) {
-      status_require((sp_samples_new(carryover_alloc_len, (&carryover))));
-    } else {
-      carryover = 0;
-    };
-    state->carryover_alloc_len = carryover_alloc_len;
+  carryover_len = sp_inline_max((ir_len - 1), (state->carryover_len));
+  if (carryover_len > state->carryover_alloc_len) {
+    status_require((sph_helper_realloc((carryover_len * sizeof(sp_sample_t)), (&(state->carryover)))));
+    state->carryover_alloc_len = carryover_len;
+  };
+  if (carryover_len > state->carryover_len) {
+    sp_samples_zero((state->carryover + state->carryover_len), (carryover_len - state->carryover_len));
   };
-  state->carryover = carryover;
-  state->carryover_len = (ir_len - 1);
+  state->carryover_len = carryover_len;
+  memcpy((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len);
+  state->ir_f = ir_f;
+  state->ir_f_arguments_len = ir_f_arguments_len;
+  free((state->ir));
   state->ir = ir;
   state->ir_len = ir_len;
   *out_state = state;
-- 
2.43.0


From 59a162370e95c13e79fc7551a68d777a84145513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 24/83] fix: convolution filters do not lose carryover when the
 impulse response gets shorter

---
 source/c-precompiled/sph-sp/filter.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index 1060c6c..b6d92a4 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -77,11 +77,16 @@ exit:
    * out-samples: owned by the caller. length must be at least in-len and the number of output samples will be in-len */
 status_t sp_convolution_filter(sp_sample_t* in, sp_time_t in_len, sp_convolution_filter_ir_f_t ir_f, void* ir_f_arguments, uint8_t ir_f_arguments_len, sp_convolution_filter_state_t** out_state, sp_sample_t* out_samples) {
   status_declare;
-  sp_time_t carryover_len = (*out_state ? (*out_state)->carryover_len : 0);
+  sp_time_t carryover_len;
+  sp_time_t carryover_rest;
   /* create/update the impulse response kernel */
   status_require((sp_convolution_filter_state_set(ir_f, ir_f_arguments, ir_f_arguments_len, out_state)));
   /* convolve */
+  carryover_len = (*out_state)->carryover_len;
   sp_convolve(in, in_len, ((*out_state)->ir), ((*out_state)->ir_len), carryover_len, ((*out_state)->carryover), out_samples);
+  /* keep what remains from longer, previous impulse responses */
+  carryover_rest = sp_inline_no_underflow_subtract(carryover_len, in_len);
+  (*out_state)->carryover_len = sp_inline_max(((*out_state)->ir_len - 1), carryover_rest);
 exit:
   status_return;
 }
-- 
2.43.0


From b081ace2a0cb7813321f56abf84ad66be3a55dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 25/83] fix: sp_windowed_sinc_bp_br_ir frees its temporary
 impulse responses

---
 source/c-precompiled/sph-sp/filter.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index b6d92a4..3c6bfff 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -161,6 +161,8 @@ status_t sp_windowed_sinc_bp_br_ir(sp_sample_t cutoff_l, sp_sample_t cutoff_h, s
   sp_time_t end;
   sp_sample_t* out;
   sp_sample_t* over;
+  lp_ir = 0;
+  hp_ir = 0;
   if (is_reject) {
     if (0.0 >= cutoff_l) {
       if (0.5 <= cutoff_h) {
@@ -195,6 +197,8 @@ status_t sp_windowed_sinc_bp_br_ir(sp_sample_t cutoff_l, sp_sample_t cutoff_h, s
     };
     free(over);
     *out_ir = out;
+    lp_ir = 0;
+    hp_ir = 0;
   } else {
     /* meaning of cutoff low/high is switched. cutoff-l leaves higher frequencies */
     if (0.0 >= cutoff_l) {
@@ -216,6 +220,8 @@ status_t sp_windowed_sinc_bp_br_ir(sp_sample_t cutoff_l, sp_sample_t cutoff_h, s
     sp_convolve_one(lp_ir, lp_len, hp_ir, hp_len, (*out_ir));
   };
 exit:
+  free(lp_ir);
+  free(hp_ir);
   status_return;
 }
 
-- 
2.43.0


From 4cb31a8080371c67609ac5612feb5d98c4f1e2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 26/83] fix: sp_moving_average mirrors the end of the input at
 its end

---
 source/c-precompiled/sph-sp/filter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index 3c6bfff..562a4f0 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -332,7 +332,7 @@ void sp_moving_average(sp_sample_t* in, sp_time_t in_size, sp_sample_t* prev, sp
     out[i] = (sum / width);
   };
   for (i = (in_size - radius); (i < in_size); i += 1) {
-    sum = ((sum + (next ? next[(i - (in_size - radius))] : (in[((i + radius + 1) - in_size)] * -1))) - in[(i - radius - 1)]);
+    sum = ((sum + (next ? next[(i - (in_size - radius))] : (in[((2 * in_size) - (i + radius + 2))] * -1))) - in[(i - radius - 1)]);
     out[i] = (sum / width);
   };
 }
-- 
2.43.0


From 0c18672482d610b42b80b6150418e7c1f4a4198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 27/83] fix: fixed size path functions return the status

---
 source/c-precompiled/sph-sp/path.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index fb60807..6b9761c 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -44,14 +44,14 @@ exit:
     sp_sample_t y[2]; \
     y[0] = y1; \
     y[1] = y2; \
-    sp_path_##type_name(out, length, 2, 0, y, 0); \
+    return ((sp_path_##type_name(out, length, 2, 0, y, 0))); \
   } \
   status_t sp_path_##type_name##3(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3) { \
     sp_sample_t y[3]; \
     y[0] = y1; \
     y[1] = y2; \
     y[2] = y3; \
-    sp_path_##type_name(out, length, 3, (&x1), y, 0); \
+    return ((sp_path_##type_name(out, length, 3, (&x1), y, 0))); \
   } \
   status_t sp_path_##type_name##4(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4) { \
     sp_sample_t x[2]; \
@@ -62,7 +62,7 @@ exit:
     y[1] = y2; \
     y[2] = y3; \
     y[3] = y4; \
-    sp_path_##type_name(out, length, 4, x, y, 0); \
+    return ((sp_path_##type_name(out, length, 4, x, y, 0))); \
   } \
   status_t sp_path_##type_name##5(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t x3, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t y5) { \
     sp_sample_t x[3]; \
@@ -75,13 +75,13 @@ exit:
     y[2] = y3; \
     y[3] = y4; \
     y[4] = y5; \
-    sp_path_##type_name(out, length, 5, x, y, 0); \
+    return ((sp_path_##type_name(out, length, 5, x, y, 0))); \
   } \
   status_t sp_path_##type_name##_c##2(type * *out, sp_time_t length, sp_sample_t y1, sp_sample_t y2, sp_sample_t c1) { \
     sp_sample_t y[2]; \
     y[0] = y1; \
     y[1] = y2; \
-    sp_path_##type_name(out, length, 2, 0, y, (&c1)); \
+    return ((sp_path_##type_name(out, length, 2, 0, y, (&c1)))); \
   } \
   status_t sp_path_##type_name##_c##3(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t c1, sp_sample_t c2) { \
     sp_sample_t y[3]; \
@@ -91,7 +91,7 @@ exit:
     y[2] = y3; \
     c[0] = c1; \
     c[1] = c2; \
-    sp_path_##type_name(out, length, 3, (&x1), y, c); \
+    return ((sp_path_##type_name(out, length, 3, (&x1), y, c))); \
   } \
   status_t sp_path_##type_name##_c##4(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3) { \
     sp_sample_t x[2]; \
@@ -106,7 +106,7 @@ exit:
     c[0] = c1; \
     c[1] = c2; \
     c[2] = c3; \
-    sp_path_##type_name(out, length, 4, x, y, c); \
+    return ((sp_path_##type_name(out, length, 4, x, y, c))); \
   } \
   status_t sp_path_##type_name##_c##5(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t x3, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t y5, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3, sp_sample_t c4) { \
     sp_sample_t x[3]; \
@@ -124,7 +124,7 @@ exit:
     c[1] = c2; \
     c[2] = c3; \
     c[3] = c4; \
-    sp_path_##type_name(out, length, 5, x, y, c); \
+    return ((sp_path_##type_name(out, length, 5, x, y, c))); \
   }
 sp_define_path_n(samples, sp_sample_t)
   sp_define_path_n(times, sp_time_t)
-- 
2.43.0


From a0f89ea5c082691af552608dbaed58cb10f8726e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 28/83] fix: sp_path_times frees the temporary array on failure

---
 source/c-precompiled/sph-sp/path.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index 6b9761c..cc8fd28 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -34,9 +34,13 @@ exit:
 status_t sp_path_times(sp_time_t** out, sp_time_t length, sp_path_point_count_t point_count, sp_sample_t* x, sp_sample_t* y, sp_sample_t* c) {
   status_declare;
   sp_sample_t* temp;
+  temp = 0;
   status_require((sp_path_samples((&temp), length, point_count, x, y, c)));
   status_require((sp_samples_to_times_replace(temp, length, out)));
 exit:
+  if (status_is_failure) {
+    free(temp);
+  };
   status_return;
 }
 #define sp_define_path_n(type_name, type) \
-- 
2.43.0


From 748da1e383470cd3b4d19a54f9a51e04498a62d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 29/83] fix: negative path curvatures are not ignored

---
 source/c-precompiled/sph-sp/path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index cc8fd28..19d400c 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -16,12 +16,12 @@ status_t sp_path_samples(sp_sample_t** out, sp_time_t length, sp_path_point_coun
   sp_sample_t yn = y[last_point_index];
   sp_sample_t cn = (c ? c[(last_point_index - 1)] : 0);
   segments[0] = spline_path_move(0, (y[0]));
-  segments[last_point_index] = ((cn < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
+  segments[last_point_index] = ((fabs(cn) < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
   for (sp_path_point_count_t i = 1; (i < last_point_index); i += 1) {
     xn = x[(i - 1)];
     yn = y[i];
     cn = (c ? c[(i - 1)] : 0);
-    segments[i] = ((cn < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
+    segments[i] = ((fabs(cn) < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
   };
   spline_path_set((&path), segments, point_count);
   status_require((sp_samples_new(length, out)));
-- 
2.43.0


From 0f2df095046a3d900b53caadd04c1286af7bdee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 30/83] fix: sp_envelope_zero uses all points and does not
 modify its input

---
 source/c-precompiled/sph-sp/path.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index 19d400c..d56abcb 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -133,19 +133,21 @@ exit:
 sp_define_path_n(samples, sp_sample_t)
   sp_define_path_n(times, sp_time_t)
 
-  /** x, y and c length is point_count minus two.
+  /** x and y length is point_count minus two. c length is point_count minus one.
      x values will be multiplied by length.
      x values will be cumulative (0.1, 0.2) -> 0.3 */
   status_t sp_envelope_zero(sp_sample_t** out, sp_time_t length, sp_path_point_count_t point_count, sp_sample_t* x, sp_sample_t* y, sp_sample_t* c) {
+  sp_sample_t path_x[sp_path_point_count_limit];
   sp_sample_t path_y[sp_path_point_count_limit];
-  x[1] *= length;
+  sp_sample_t xn = 0;
   path_y[0] = 0;
   path_y[(point_count - 1)] = 0;
-  for (sp_path_point_count_t i = 2; (i < (point_count - 1)); i += 1) {
-    x[i] = (x[(i - 1)] + (x[i] * length));
-    path_y[i] = y[i];
+  for (sp_path_point_count_t i = 1; (i < (point_count - 1)); i += 1) {
+    xn += (x[(i - 1)] * length);
+    path_x[(i - 1)] = xn;
+    path_y[i] = y[(i - 1)];
   };
-  return ((sp_path_samples(out, length, point_count, x, path_y, c)));
+  return ((sp_path_samples(out, length, point_count, path_x, path_y, c)));
 }
 #define sp_define_envelope_zero_n(prefix, type_name, type) \
   status_t prefix##3(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t y1) { return ((sp_path_##type_name##3(out, length, (x1 * length), 0, y1, 0))); } \
-- 
2.43.0


From 28b8b58bca4affc7a81cae34bb47eaf22ad03d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 31/83] fix: sp_envelope_scaled uses all points and does not
 modify its input

---
 source/c-precompiled/sph-sp/path.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index d56abcb..4ad1bff 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -168,20 +168,22 @@ sp_define_path_n(samples, sp_sample_t)
   }
 sp_define_envelope_zero_n(sp_envelope_zero, samples, sp_sample_t)
 
-  /** y and c length is point_count.
+  /** y length is point_count. c length is point_count minus one.
      x length is point_count minus two.
      x values will be cumulative (0.1, 0.2) -> 0.3.
      x values will be multiplied by length */
   status_t sp_envelope_scaled(sp_time_t** out, sp_time_t length, sp_path_point_count_t point_count, sp_sample_t y_scalar, sp_sample_t* x, sp_sample_t* y, sp_sample_t* c) {
+  sp_sample_t path_x[sp_path_point_count_limit];
   sp_sample_t path_y[sp_path_point_count_limit];
-  x[1] *= length;
+  sp_sample_t xn = 0;
   path_y[0] = (y_scalar * y[0]);
   path_y[(point_count - 1)] = (y_scalar * y[(point_count - 1)]);
-  for (sp_path_point_count_t i = 2; (i < (point_count - 1)); i += 1) {
-    x[i] = (x[(i - 1)] + (x[i] * length));
+  for (sp_path_point_count_t i = 1; (i < (point_count - 1)); i += 1) {
+    xn += (x[(i - 1)] * length);
+    path_x[(i - 1)] = xn;
     path_y[i] = (y_scalar * y[i]);
   };
-  return ((sp_path_times(out, length, point_count, x, path_y, c)));
+  return ((sp_path_times(out, length, point_count, path_x, path_y, c)));
 }
 #define sp_define_envelope_scaled_n(prefix, type_name, type) \
   status_t prefix##3(type * *out, sp_time_t length, sp_sample_t y_scalar, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3) { return ((sp_path_##type_name##3(out, length, (x1 * length), (y1 * y_scalar), (y2 * y_scalar), (y3 * y_scalar)))); } \
-- 
2.43.0


From 2e0c8c92cd4f286f65789dbe2a4174639a9baa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 32/83] fix: array reverse does not write past the end of the
 output

---
 source/c-precompiled/sph-sp/arrays-template.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index edd31bb..a0bdd86 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -49,7 +49,7 @@
   } \
   void sp_##type_name##_reverse(value_t* in, sp_size_t count, value_t* out) { \
     for (sp_size_t i = 0; (i < count); i += 1) { \
-      out[(count - i)] = in[i]; \
+      out[(count - 1 - i)] = in[i]; \
     }; \
   } \
   sp_bool_t sp_##type_name##_equal(value_t* in, sp_size_t count, value_t value) { \
-- 
2.43.0


From 7d96522341011e4d693497dca9ed25cb72f99d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 33/83] fix: absolute_max of samples is not truncated to an
 integer

---
 source/c-precompiled/sph-sp/arrays-template.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index a0bdd86..04d7786 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -36,11 +36,11 @@
 \
   /** get the maximum value in samples array, disregarding sign */ \
   value_t sp_##type_name##_absolute_max(value_t* in, sp_size_t count) { \
-    sp_time_t temp; \
-    sp_time_t max; \
+    value_t temp; \
+    value_t max; \
     max = 0; \
     for (sp_size_t i = 0; (i < count); i += 1) { \
-      temp = sp_inline_abs((in[i])); \
+      temp = abs((in[i])); \
       if (temp > max) { \
         max = temp; \
       }; \
-- 
2.43.0


From d2299d7df644704bab213627e9d8a1fee3c63fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 34/83] fix: shuffling samples swaps whole values

---
 source/c-precompiled/sph-sp/arrays-template.c | 4 ++--
 source/c-precompiled/sph-sp/arrays-template.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index 04d7786..9b99831 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -107,8 +107,8 @@
       out[i] = sum; \
     }; \
   } \
-  void sp_##type_name##_swap(sp_time_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2) { \
-    sp_time_t temp = in_out[index_1]; \
+  void sp_##type_name##_swap(value_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2) { \
+    value_t temp = in_out[index_1]; \
     in_out[index_1] = in_out[index_2]; \
     in_out[index_2] = temp; \
   } \
diff --git a/source/c-precompiled/sph-sp/arrays-template.h b/source/c-precompiled/sph-sp/arrays-template.h
index 6c30c35..a48cf30 100644
--- a/source/c-precompiled/sph-sp/arrays-template.h
+++ b/source/c-precompiled/sph-sp/arrays-template.h
@@ -17,7 +17,7 @@
   status_t sp_##type_name##_new(sp_size_t count, value_t** out); \
   void sp_##type_name##_copy(value_t* in, sp_size_t count, value_t* out); \
   void sp_##type_name##_cusum(value_t* in, value_t count, value_t* out); \
-  void sp_##type_name##_swap(sp_time_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2); \
+  void sp_##type_name##_swap(value_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2); \
   void sp_##type_name##_shuffle(value_t* in, sp_size_t count); \
   void sp_##type_name##_array_free(value_t** in, sp_size_t count); \
   void sp_##type_name##_additions(value_t start, value_t summand, value_t count, value_t* out); \
-- 
2.43.0


From f323d7a943cc2edfda4e16fb480eba1f40e6cca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 35/83] fix: round_to_multiple rounds to multiples

---
 source/c-precompiled/sph-sp/arrays-template.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index 9b99831..07b6f32 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -10,7 +10,7 @@
   uint8_t sp_##value_type_name##_sort_less(void* a, ssize_t b, ssize_t c) { return ((((value_t*)(a))[b] < ((value_t*)(a))[c])); } \
 \
   /** round to the next integer multiple of base  */ \
-  value_t sp_##value_type_name##_round_to_multiple(value_t a, value_t base) { return (((0 == a) ? base : sp_cheap_round_positive(((a / ((sp_sample_t)(base))) * base)))); } \
+  value_t sp_##value_type_name##_round_to_multiple(value_t a, value_t base) { return (((0 == a) ? base : (base * sp_cheap_round_positive((a / ((sp_sample_t)(base))))))); } \
 \
   /** count must be greater than zero */ \
   value_t sp_##type_name##_min(value_t* in, sp_size_t count) { \
-- 
2.43.0


From 6a56aaceb5152c3933e46173ecd8c42c099af66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 36/83] fix: array and checks the second array

---
 source/c-precompiled/sph-sp/arrays-template.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index 07b6f32..87465d5 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -150,7 +150,7 @@
   /** if a[i] and b[i] greater than limit, take b[i] else 0 */ \
   void sp_##type_name##_and_##type_name(value_t* a, value_t* b, sp_size_t count, value_t limit, value_t* out) { \
     for (sp_size_t i = 0; (i < count); i += 1) { \
-      if ((a[i] >= limit) && (a[i] >= limit)) { \
+      if ((a[i] >= limit) && (b[i] >= limit)) { \
         out[i] = b[i]; \
       } else { \
         out[i] = 0; \
-- 
2.43.0


From 2a6aa808974f15803fb12c6eae468ead43af98b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 37/83] fix: sp_times_extract_in_range only takes values that
 are in range

---
 source/c-precompiled/sph-sp/arrays.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 84d7d77..b7dabea 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -374,8 +374,8 @@ void sp_times_mask(sp_time_t* a, sp_time_t* b, sp_sample_t* coefficients, sp_tim
 void sp_times_extract_in_range(sp_time_t* a, sp_time_t size, sp_time_t min, sp_time_t max, sp_time_t* out, sp_time_t* out_size) {
   *out_size = 0;
   for (sp_size_t i = 0; (i < size); i += 1) {
-    if ((a[i] <= max) || (a[i] >= min)) {
-      out[i] = a[i];
+    if ((a[i] <= max) && (a[i] >= min)) {
+      out[*out_size] = a[i];
       *out_size += 1;
     };
   };
-- 
2.43.0


From f0eb4b61def25caf850c3fcd71ce792586d77bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 38/83] fix: sp_times_scale_sum scales the input

---
 source/c-precompiled/sph-sp/arrays.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index b7dabea..c927954 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -306,9 +306,10 @@ void sp_times_shuffle_swap(void* a, sp_size_t i1, sp_size_t i2) {
 /** adjust all values, keeping relative sizes, so that the sum is n.
    a/out can be the same pointer */
 void sp_times_scale_sum(sp_time_t* in, sp_size_t count, sp_time_t sum, sp_time_t* out) {
-  sp_sample_t factor = (((sp_sample_t)(sum)) / sp_times_sum(in, count));
+  sp_sample_t in_sum = sp_times_sum(in, count);
+  sp_sample_t factor = sp_inline_no_zero_divide((((sp_sample_t)(sum))), in_sum);
   for (sp_size_t i = 0; (i < count); i += 1) {
-    out[i] = sp_cheap_round_positive((out[i] * factor));
+    out[i] = sp_cheap_round_positive((in[i] * factor));
   };
 }
 
-- 
2.43.0


From 4046c7030a6b14dd2c13dbba1cc7e0faead1bf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 39/83] fix: sp_times_scale_y writes to out and does not
 truncate the factor

---
 source/c-precompiled/sph-sp/arrays.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index c927954..372094d 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -422,8 +422,11 @@ void sp_times_limit(sp_time_t* a, sp_time_t count, sp_time_t n, sp_time_t* out)
 /** adjust all values, keeping relative sizes, so that the maximum value is target_y.
    a/out can be the same pointer */
 void sp_times_scale_y(sp_time_t* in, sp_size_t count, sp_time_t target_y, sp_time_t* out) {
-  sp_time_t max = sp_times_absolute_max(in, count);
-  sp_times_multiply(in, count, (target_y / max));
+  sp_sample_t max = sp_times_absolute_max(in, count);
+  sp_sample_t factor = sp_inline_no_zero_divide((((sp_sample_t)(target_y))), max);
+  for (sp_size_t i = 0; (i < count); i += 1) {
+    out[i] = sp_cheap_round_positive((in[i] * factor));
+  };
 }
 
 /** remove count subsequent elements at index from in and write the result to out */
-- 
2.43.0


From 2aec5ec309ef366246937f63ce36bb62717317f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 40/83] fix: sp_samples_scale_y scales to the target

---
 source/c-precompiled/sph-sp/arrays.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 372094d..fdd1bfd 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -554,7 +554,7 @@ void sp_samples_divisions(sp_sample_t start, sp_sample_t divisor, sp_time_t coun
    a/out can be the same pointer */
 void sp_samples_scale_y(sp_sample_t* in, sp_time_t count, sp_sample_t target_y) {
   sp_sample_t max = sp_samples_absolute_max(in, count);
-  sp_samples_multiply(in, count, (count / max));
+  sp_samples_multiply(in, count, (sp_inline_no_zero_divide(target_y, max)));
 }
 
 /** adjust all values, keeping relative sizes, so that the sum is n.
-- 
2.43.0


From f2d8fae6f6286578d525d44b96d7f9e20b6d0852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 41/83] fix: sp_samples_scale_sum writes to out

---
 source/c-precompiled/sph-sp/arrays.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index fdd1bfd..cdfc8e6 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -561,7 +561,10 @@ void sp_samples_scale_y(sp_sample_t* in, sp_time_t count, sp_sample_t target_y)
    a/out can be the same pointer */
 void sp_samples_scale_sum(sp_sample_t* in, sp_size_t count, sp_sample_t target_y, sp_sample_t* out) {
   sp_sample_t sum = sp_samples_sum(in, count);
-  sp_samples_multiply(in, count, (target_y / sum));
+  sp_sample_t factor = sp_inline_no_zero_divide(target_y, sum);
+  for (sp_size_t i = 0; (i < count); i += 1) {
+    out[i] = (in[i] * factor);
+  };
 }
 
 /** interpolate values pointwise between $a and $b with fraction as a fixed interpolation distance 0..1 */
-- 
2.43.0


From eadf50cd1fc70a9350e449a861babf78c0665755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 42/83] fix: sp_times_bits_to_times works in-place

---
 source/c-precompiled/sph-sp/arrays.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index cdfc8e6..e52690a 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -213,19 +213,18 @@ void sp_times_bits_to_times(sp_time_t* a, sp_time_t size, sp_time_t* out) {
   sp_time_t i;
   sp_time_t a_i;
   sp_time_t bits_i;
-  sp_time_t mask;
-  i = 0;
-  a_i = 0;
-  while ((i < size)) {
-    mask = 1;
-    bits_i = 0;
-    while (((bits_i < (sizeof(sp_time_t) * 8)) && (i < size))) {
-      out[i] = ((a[a_i] & mask) ? 1 : 0);
-      mask = (mask << 1);
-      i += 1;
-      bits_i += 1;
+  sp_time_t value;
+  const sp_time_t bits = (sizeof(sp_time_t) * 8);
+  /* from the end because a and out can be the same */
+  i = size;
+  while (i) {
+    a_i = ((i - 1) / bits);
+    value = a[a_i];
+    while ((i > (a_i * bits))) {
+      i -= 1;
+      bits_i = (i - (a_i * bits));
+      out[i] = (1 & (value >> bits_i));
     };
-    a_i += 1;
   };
 }
 
-- 
2.43.0


From 77abb8dcf8ce9f56ad87c7ddf7b25051dab5bfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 43/83] fix: sp_times_compositions does not free an undefined
 pointer on failure

---
 source/c-precompiled/sph-sp/arrays.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index e52690a..1dc4d5f 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -154,6 +154,7 @@ status_t sp_times_compositions(sp_time_t sum, sp_time_t*** out, sp_time_t* out_s
   sp_time_t y;
   sigma = 1;
   o = 0;
+  o_sizes = 0;
   o_used = 0;
   a = 0;
   k = 1;
-- 
2.43.0


From 927a3b414a989b233020e1bd28031718fc43697b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 44/83] fix: median of odd sized arrays is the middle value and
 memory is freed

---
 source/c-precompiled/sph-sp/statistics.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index 190ce7d..5503deb 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -86,7 +86,8 @@
     }; \
     memcpy(temp, a, (size * sizeof(value_t))); \
     quicksort(sort_less, sort_swap, temp, 0, (size - 1)); \
-    *out = ((size & 1) ? temp[((size / 2) - 1)] : ((temp[(size / 2)] + temp[((size / 2) - 1)]) / 2.0)); \
+    *out = ((size & 1) ? temp[(size / 2)] : ((((sp_sample_t)(temp[(size / 2)])) + temp[((size / 2) - 1)]) / 2.0)); \
+    free(temp); \
     return (0); \
   }
 #define define_sp_stat_inharmonicity(name, value_t) \
-- 
2.43.0


From 5e7c7dac49d87aca436ff7945e07dea9c28a9b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 45/83] fix: sp_samples_scale_to_times maps the largest value
 to max

---
 source/c-precompiled/sph-sp/statistics.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index 5503deb..7f18fa4 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -193,11 +193,13 @@ define_sp_stat_range(sp_stat_samples_range, sp_sample_t)
   void sp_samples_scale_to_times(sp_sample_t* a, sp_time_t size, sp_time_t max, sp_time_t* out) {
   sp_sample_t range[3];
   sp_sample_t addition;
+  sp_sample_t factor;
   /* returns min, max, range */
   sp_stat_samples_range(a, size, range);
   addition = ((0 > range[0]) ? fabs((range[0])) : 0);
+  factor = sp_inline_no_zero_divide(max, (range[1] + addition));
   for (sp_size_t i = 0; (i < size); i += 1) {
-    out[i] = sp_cheap_round_positive(((a[i] + addition) * (max / range[2])));
+    out[i] = sp_cheap_round_positive(((a[i] + addition) * factor));
   };
 }
 uint8_t sp_stat_samples_mean(sp_sample_t* a, sp_time_t size, sp_sample_t* out) {
-- 
2.43.0


From 4b65f520da48593275eaeb2fe01d45442ee5b1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 46/83] fix: sp_permutations_max divides by the factorial

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 1743ac2..54bbb95 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -574,5 +574,5 @@ sp_time_t sp_time_factorial(sp_time_t n) {
 
 /** return the maximum number of possible distinct selections from a set of length "set-size" */
 sp_size_t sp_set_sequence_max(sp_size_t set_size, sp_size_t selection_size) { return (((0 == set_size) ? 0 : sp_time_expt(set_size, selection_size))); }
-sp_size_t sp_permutations_max(sp_size_t set_size, sp_size_t selection_size) { return ((sp_time_factorial(set_size) / (set_size - selection_size))); }
+sp_size_t sp_permutations_max(sp_size_t set_size, sp_size_t selection_size) { return ((sp_time_factorial(set_size) / sp_time_factorial((set_size - selection_size)))); }
 sp_size_t sp_compositions_max(sp_size_t sum) { return ((sp_time_expt(2, (sum - 1)))); }
-- 
2.43.0


From bd456b4cb3299f76880b15bb698e58651e6bbd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 47/83] fix: sp_sine_period fits a full period into odd sizes

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 54bbb95..eb2e74c 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -196,7 +196,7 @@ sp_time_t sp_phase_float(sp_time_t current, sp_sample_t change, sp_time_t cycle)
    can be used to create lookup tables */
 void sp_sine_period(sp_time_t size, sp_sample_t* out) {
   for (sp_size_t i = 0; (i < size); i += 1) {
-    out[i] = sin((i * (M_PI / (size / 2))));
+    out[i] = sin((i * ((2 * M_PI) / size)));
   };
 }
 
-- 
2.43.0


From 1ed099640b982aa13c13d034040ee5b6a423bcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 48/83] fix: sp_wave without amod multiplies by the amplitude
 only once

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index eb2e74c..79b8fed 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -204,7 +204,7 @@ void sp_sine_period(sp_time_t size, sp_sample_t* out) {
 void sp_wave(sp_time_t size, sp_sample_t* wvf, sp_time_t wvf_size, sp_sample_t amp, sp_sample_t* amod, sp_time_t frq, sp_time_t* fmod, sp_time_t* phs_state, sp_sample_t* out) {
   sp_time_t phs = (phs_state ? *phs_state : 0);
   for (sp_size_t i = 0; (i < size); i += 1) {
-    out[i] += (amp * sp_optional_array_get(amod, amp, i) * wvf[phs]);
+    out[i] += (amp * sp_optional_array_get(amod, 1, i) * wvf[phs]);
     phs += sp_optional_array_get(fmod, frq, i);
     if (phs >= wvf_size) {
       phs = (phs % wvf_size);
-- 
2.43.0


From 4fc142f0d701dec416b8861c3beba5821cbbee50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 49/83] fix: sp_render_file frees the event when it could not
 be prepared

---
 source/c-precompiled/sph-sp/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 79b8fed..650580c 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -407,8 +407,9 @@ status_t sp_render_file(sp_event_t event, uint8_t* path) {
     sp_event_prepare_optional_srq(event);
   };
   printf("rendering %lu seconds to file %s\n", (event.end / sp_rate), path);
-  status_require((sp_render_range_file(event, 0, (event.end), (sp_render_config(sp_channel_count, sp_rate, (sp_render_block_seconds * sp_rate), 1)), path)));
+  return ((sp_render_range_file(event, 0, (event.end), (sp_render_config(sp_channel_count, sp_rate, (sp_render_block_seconds * sp_rate), 1)), path)));
 exit:
+  sp_event_free(event);
   status_return;
 }
 
-- 
2.43.0


From afccf4609ff4e303a43c50f5e61f47cdb0bac152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 50/83] fix: writing zero samples to a file is not a failure

---
 source/c-precompiled/sph-sp/file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index b3af8a9..1c2214c 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -57,7 +57,7 @@ status_t sp_file_write(sp_file_t* file, sp_sample_t** samples, sp_time_t sample_
       file_data[((i * channel_count) + j)] = (samples[j])[i];
     };
   };
-  if (!fwrite(file_data, interleaved_size, 1, (file->file))) {
+  if (interleaved_size && !fwrite(file_data, interleaved_size, 1, (file->file))) {
     sp_status_set_goto(sp_s_id_file_write);
   };
   file->data_size += interleaved_size;
-- 
2.43.0


From da8f3cc15dc26cccd357afbbebd8831ea27ddf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 51/83] fix: bezier path segments are complete for parts of a
 segment and fractional positions

---
 .../c/foreign/sph-sc-lib/sph-sp/spline-path.c | 56 ++++++++-----------
 1 file changed, 23 insertions(+), 33 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 2ccec1c..758aa5f 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -164,51 +164,41 @@ void spline_path_beziern_generate(spline_path_value_t (*interpolator)(spline_pat
   spline_path_point_t p_start;
   spline_path_value_t s_size;
   spline_path_value_t t;
-  size_t b_size;
-  size_t x;
-  size_t x_previous;
+  spline_path_value_t y;
   spline_path_value_t y_previous;
   size_t i;
   size_t j;
-  spline_path_value_t y;
+  size_t x;
+  size_t x_previous;
+  if (start >= end) {
+    return;
+  };
   p_start = (s->points)[0];
   p_end = (s->points)[(s->points_count - 1)];
-  b_size = (spline_path_bezier_resolution * (end - start));
   s_size = (spline_path_bezier_resolution * (p_end.x - p_start.x));
-  for (i = (start - p_start.x), x_previous = start; ((i < b_size) || (x < end)); i += 1, x_previous = x) {
-    t = (i / s_size);
+  x_previous = p_start.x;
+  y_previous = p_start.y;
+  if (x_previous == start) {
+    out[0] = y_previous;
+  };
+  /* always from the beginning of the segment so that the result does not depend on start */
+  for (i = 0; ((x_previous < end) && (i <= ceil(s_size))); i += 1) {
+    t = ((i < s_size) ? (i / s_size) : 1);
     mt = (1.0 - t);
     x = round((interpolator(t, mt, (s->points), (offsetof(spline_path_point_t, x)))));
     y = interpolator(t, mt, (s->points), (offsetof(spline_path_point_t, y)));
-    if (x < end) {
-      out[(x - start)] = y;
-    };
-    if (2 > (x - x_previous)) {
-      continue;
-    };
-    if (start < x_previous) {
-      y_previous = out[(x_previous - start)];
-    } else {
-      /* gap at the beginning. find value for x before start */
-      for (j = i; j; j -= 1) {
-        t = (j / s_size);
-        mt = (1.0 - t);
-        x_previous = round((interpolator(t, mt, (s->points), (offsetof(spline_path_point_t, x)))));
-        if (x_previous < x) {
-          break;
-        };
-      };
-      if (j) {
-        y_previous = p_start.y;
-      } else {
-        y_previous = p_start.y;
-        x_previous = p_start.x;
+    for (j = (x_previous + 1); ((j < x) && (j < end)); j += 1) {
+      /* gap */
+      if (start <= j) {
+        t = ((j - x_previous) / ((spline_path_value_t)((x - x_previous))));
+        out[(j - start)] = linearly_interpolate(y_previous, y, t);
       };
     };
-    for (j = 1; (j < (x - x_previous)); j += 1) {
-      t = (j / ((spline_path_value_t)((x - x_previous))));
-      out[((x_previous + j) - start)] = linearly_interpolate(y_previous, y, t);
+    if ((start <= x) && (x < end)) {
+      out[(x - start)] = y;
     };
+    x_previous = x;
+    y_previous = y;
   };
 }
 spline_path_value_t spline_path_bezier1_interpolate_points(spline_path_value_t t, spline_path_value_t mt, spline_path_point_t* points, size_t field_offset) { return ((spline_path_bezier1_interpolate(t, mt, (spline_path_points_get_with_offset(points, 0, field_offset)), (spline_path_points_get_with_offset(points, 1, field_offset)), (spline_path_points_get_with_offset(points, 2, field_offset))))); }
-- 
2.43.0


From 990d92a0951a7c7f9d933c2872f6cffb5d1238fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 52/83] fix: reading a path again from a later start does not
 skip segments

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 758aa5f..d8a300b 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -21,15 +21,19 @@ void spline_path_get(spline_path_t* path, size_t start, size_t end, spline_path_
   size_t s_start;
   size_t s_end;
   size_t out_start;
-  for (spline_path_segment_count_t i = ((start < path->previous_start) ? 0 : path->current_segment_index); (i < path->segments_count); path->current_segment_index = i, i += 1) {
+  if (start < path->previous_start) {
+    path->current_segment_index = 0;
+  };
+  path->previous_start = start;
+  for (spline_path_segment_count_t i = path->current_segment_index; (i < path->segments_count); i += 1) {
     s = (path->segments + i);
     s_start = ((s->points)[0]).x;
     s_end = ((s->points)[(s->points_count - 1)]).x;
-    path->previous_start = start;
     if (s_start > end) {
       break;
     };
     if (s_end < start) {
+      path->current_segment_index = i;
       continue;
     };
     out_start = ((s_start > start) ? (s_start - start) : 0);
-- 
2.43.0


From dc9295c46f50b50a8d1d4d59e23bed4d87803083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 53/83] fix: curved path segments to lower values stay in the
 bounds of their points

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index d8a300b..d90dc56 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -310,18 +310,18 @@ spline_path_point_t spline_path_perpendicular_point(spline_path_point_t p1, spli
   } else {
     /* border points */
     if (d.x > 0) {
-      b1.x = p2.x;
-      b2.x = p1.x;
+      b1.x = fmax((p1.x), (p2.x));
+      b2.x = fmin((p1.x), (p2.x));
     } else {
-      b1.x = p1.x;
-      b2.x = p2.x;
+      b1.x = fmin((p1.x), (p2.x));
+      b2.x = fmax((p1.x), (p2.x));
     };
     if (d.y > 0) {
-      b1.y = p2.y;
-      b2.y = p1.y;
+      b1.y = fmax((p1.y), (p2.y));
+      b2.y = fmin((p1.y), (p2.y));
     } else {
-      b1.y = p1.y;
-      b2.y = p2.y;
+      b1.y = fmin((p1.y), (p2.y));
+      b2.y = fmax((p1.y), (p2.y));
     };
     t1.x = ((b1.x - c.x) / d.x);
     t1.y = ((b1.y - c.y) / d.y);
-- 
2.43.0


From f035d6a9d299a4d421f0fa9a80eb4fdc909ccf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 54/83] fix: linear path segments between fractional positions
 do not depend on where reading starts

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index d90dc56..b52340e 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -148,13 +148,12 @@ void spline_path_line_generate(size_t start, size_t end, spline_path_segment_t*
   spline_path_point_t p_end;
   spline_path_value_t t;
   spline_path_value_t s_size;
-  size_t s_offset;
   p_start = (s->points)[0];
   p_end = (s->points)[1];
   s_size = (p_end.x - p_start.x);
-  s_offset = (start - p_start.x);
   for (size_t i = 0; (i < (end - start)); i += 1) {
-    t = ((i + s_offset) / s_size);
+    /* the first position is before the start point if that is fractional */
+    t = fmax(0, (((i + start) - p_start.x) / s_size));
     out[i] = linearly_interpolate((p_start.y), (p_end.y), t);
   };
 }
-- 
2.43.0


From e48b13592a13c409baadc5c39936fd903030ccf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 55/83] fix: a path used as path segment is drawn over its
 whole length

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index b52340e..5fc24a6 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -61,6 +61,7 @@ size_t spline_path_size(spline_path_t path) {
 }
 uint8_t spline_path_path_prepare(spline_path_segment_t* s) {
   (s->points)[1] = spline_path_end((*((spline_path_t*)(s->data))));
+  ((s->points)[1]).x += (s->points)->x;
   return (0);
 }
 uint8_t spline_path_constant_prepare(spline_path_segment_t* s) {
@@ -246,7 +247,7 @@ spline_path_segment_t spline_path_path(spline_path_t path) {
   };
   s.free = free;
   s.generate = spline_path_path_generate;
-  s.points_count = 1;
+  s.points_count = 2;
   s.prepare = spline_path_path_prepare;
   return (s);
 }
-- 
2.43.0


From abb00a52466efc0e7b0d0dc1dd81f571642489ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 56/83] fix: sp_times_permutations permutes the given set and
 does not modify it

---
 source/c-precompiled/sph-sp/arrays.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 1dc4d5f..32f65e6 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -85,8 +85,8 @@ status_t sp_times_permutations(sp_time_t size, sp_time_t* set, sp_time_t set_siz
   srq((sp_times_new(size, (&b))));
   temp_out[0] = b;
   temp_out_used_size = 1;
-  sp_times_copy(a, size, set);
-  sp_times_copy(b, size, a);
+  sp_times_copy(set, size, a);
+  sp_times_copy(a, size, b);
   while ((i < size)) {
     if (s[i] < i) {
       if (i & 1) {
-- 
2.43.0


From 91378ec503fe5f8b04dd3456623363c8d994908c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 57/83] fix: sp_times_permutations does not read an undefined
 count when memory is exhausted

---
 source/c-precompiled/sph-sp/arrays.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 32f65e6..f07c415 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -77,6 +77,7 @@ status_t sp_times_permutations(sp_time_t size, sp_time_t* set, sp_time_t set_siz
   b = 0;
   s = 0;
   temp_out = 0;
+  temp_out_used_size = 0;
   i = 0;
   temp_out_size = sp_time_factorial(size);
   srq((sp_times_new(size, (&a))));
-- 
2.43.0


From c9f513e845befab5c9d3983a06db6aa35661dd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 58/83] fix: sp_times_random_discrete_unique writes from the
 start of out if size is greater than the distribution

---
 source/c-precompiled/sph-sp/arrays.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index f07c415..11ef7cb 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -336,7 +336,8 @@ uint8_t sp_times_contains(sp_time_t* in, sp_size_t count, sp_time_t value) {
 void sp_times_random_discrete_unique(sp_time_t* cudist, sp_time_t cudist_size, sp_time_t size, sp_time_t* out) {
   sp_time_t a;
   sp_time_t remaining;
-  remaining = sp_inline_min(size, cudist_size);
+  size = sp_inline_min(size, cudist_size);
+  remaining = size;
   while (remaining) {
     a = sp_time_random_discrete(cudist, cudist_size);
     if (sp_times_contains(out, (size - remaining), a)) {
-- 
2.43.0


From 2020b461ee9645e0c73991ab056cf9a07ae9cda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 59/83] fix: sp_samples_limit_abs uses the absolute limit

---
 source/c-precompiled/sph-sp/arrays.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 11ef7cb..f7f9e92 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -580,6 +580,7 @@ void sp_samples_blend(sp_sample_t* a, sp_sample_t* b, sp_sample_t fraction, sp_t
    in and out can be the same address */
 void sp_samples_limit_abs(sp_sample_t* in, sp_time_t count, sp_sample_t limit, sp_sample_t* out) {
   sp_sample_t value;
+  limit = fabs(limit);
   for (sp_size_t i = 0; (i < count); i += 1) {
     value = in[i];
     if (0 > value) {
-- 
2.43.0


From 1b8bce7325cc89686ab49c47ba60f14ac036ecf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 60/83] fix: quicksort does not read before the start of the
 array

---
 source/c/foreign/sph-sc-lib/sph-sp/quicksort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h b/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
index f6438c8..52a11ac 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
@@ -12,7 +12,7 @@ void quicksort(uint8_t (*less_p)(void*, ssize_t, ssize_t), void (*swap)(void*, s
   ssize_t pivot = (left + ((right - left) / 2));
   ssize_t l = left;
   ssize_t r = right;
-  while (1) {
+  while ((l <= r)) {
     while (less_p(array, l, pivot)) {
       l = (1 + l);
     };
-- 
2.43.0


From 96abe6c18b54791dad1ce8d690bd9d2fb36579aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 61/83] fix: event allocation macros free memory that can not
 be registered with the event

---
 source/c-precompiled/sph-sp/sequencer.h | 68 ++++++++++++++-----------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.h b/source/c-precompiled/sph-sp/sequencer.h
index 8588406..9fe9a95 100644
--- a/source/c-precompiled/sph-sp/sequencer.h
+++ b/source/c-precompiled/sph-sp/sequencer.h
@@ -22,6 +22,14 @@
   }
 #define sp_event_memory_array_add array3_add
 #define sp_event_memory_add(event, address) sp_event_memory_add_with_handler(event, address, free)
+
+/** register memory with the event or free it if that is not possible */
+#define sp_event_memory_add_srq(event_pointer, address) \
+  status = sp_event_memory_add(event_pointer, address); \
+  if (status_is_failure) { \
+    free(address); \
+    goto exit; \
+  }
 #define sp_event_memory_fixed_add(event, address) sp_event_memory_fixed_add_with_handler(event, address, free)
 #define sp_wave_event_config_new(out) sp_wave_event_config_new_n(1, out)
 #define sp_map_event_config_new(out) sp_map_event_config_new_n(1, out)
@@ -54,94 +62,94 @@
   event_pointer->config = 0
 #define sp_event_path_samples_srq(event_pointer, out, ...) \
   status_require((sp_path_samples(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_samples3_srq(event_pointer, out, ...) \
   status_require((sp_path_samples3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_samples4_srq(event_pointer, out, ...) \
   status_require((sp_path_samples4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_samples5_srq(event_pointer, out, ...) \
   status_require((sp_path_samples5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_samples_c3_srq(event_pointer, out, ...) \
   status_require((sp_path_samples_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_samples_c4_srq(event_pointer, out, ...) \
   status_require((sp_path_samples_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_samples_c5_srq(event_pointer, out, ...) \
   status_require((sp_path_samples_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_times_srq(event_pointer, out, ...) \
   status_require((sp_path_times(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_times3_srq(event_pointer, out, ...) \
   status_require((sp_path_times3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_times4_srq(event_pointer, out, ...) \
   status_require((sp_path_times4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_times5_srq(event_pointer, out, ...) \
   status_require((sp_path_times5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_times_c3_srq(event_pointer, out, ...) \
   status_require((sp_path_times_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_times_c4_srq(event_pointer, out, ...) \
   status_require((sp_path_times_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_times_c5_srq(event_pointer, out, ...) \
   status_require((sp_path_times_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_zero_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_zero3_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_zero4_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_zero5_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_zero_c3_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_zero_c4_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_zero_c5_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled3_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled4_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled5_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled_c3_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled_c4_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled_c5_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_alloc_srq(event_pointer, allocator, size, pointer_address) \
   status_require((allocator(size, pointer_address))); \
-  status_require((sp_event_memory_add(event_pointer, (*pointer_address))))
+  sp_event_memory_add_srq(event_pointer, (*pointer_address))
 #define sp_event_malloc_srq(event_pointer, size, pointer_address) \
   status_require((sph_helper_malloc(size, pointer_address))); \
-  status_require((sp_event_memory_add(event_pointer, (*pointer_address))))
+  sp_event_memory_add_srq(event_pointer, (*pointer_address))
 #define sp_event_malloc_type_n_srq(event_pointer, count, type, pointer_address) sp_event_malloc_srq(event_pointer, (count * sizeof(type)), pointer_address)
 #define sp_event_malloc_type_srq(event_pointer, type, pointer_address) sp_event_malloc_type_n_srq(event_pointer, 1, type, pointer_address)
 #define sp_event_samples_srq(event_pointer, size, pointer_address) sp_event_alloc_srq(event_pointer, sp_samples_new, size, pointer_address)
-- 
2.43.0


From 42c4959988e0d4b074ca86f0ba0d99bfd7a8d708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 62/83] fix: finishing a thread pool again after no_wait or a
 failed allocation does not leak tasks

---
 source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
index b6041c0..f2dbc36 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
@@ -58,6 +58,13 @@ int sph_thread_pool_finish(sph_thread_pool_t* a, uint8_t no_wait, uint8_t discar
       if (0 == pthread_join(((a->threads)[i]), (&exit_value))) {
         a->size = (a->size - 1);
         if (0 == a->size) {
+          /* tasks of previous calls with no_wait or that failed, for which no thread is left */
+          while (a->queue.size) {
+            task = sph_queue_get((sph_queue_deq((&(a->queue)))), sph_thread_pool_task_t, q);
+            if (sph_thread_finish == task->f) {
+              free(task);
+            };
+          };
           sph_thread_pool_destroy(a);
         };
       };
-- 
2.43.0


From 54ef87ace693e621c9fc5dc83ece120b789c112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 63/83] fix: failing to complete a file when it is closed is
 reported

---
 source/c-precompiled/sph-sp/file.c | 15 +++++++++------
 source/c-precompiled/sph-sp/main.c |  6 +++++-
 source/c-precompiled/sph-sp/main.h |  2 +-
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index 1c2214c..1c65dba 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -34,14 +34,17 @@ status_t sp_file_open_write(uint8_t* path, sp_channel_count_t channel_count, sp_
 exit:
   status_return;
 }
-void sp_file_close_write(sp_file_t* file) {
+status_t sp_file_close_write(sp_file_t* file) {
+  status_declare;
   uint32_t chunk_size;
   chunk_size = (36 + file->data_size);
-  fseek((file->file), 4, SEEK_SET);
-  fwrite((&chunk_size), 4, 1, (file->file));
-  fseek((file->file), 40, SEEK_SET);
-  fwrite((&(file->data_size)), 4, 1, (file->file));
-  fclose((file->file));
+  if (fseek((file->file), 4, SEEK_SET) || !fwrite((&chunk_size), 4, 1, (file->file)) || fseek((file->file), 40, SEEK_SET) || !fwrite((&(file->data_size)), 4, 1, (file->file))) {
+    sp_status_set(sp_s_id_file_write);
+  };
+  if (fclose((file->file))) {
+    sp_status_set(sp_s_id_file_write);
+  };
+  status_return;
 }
 status_t sp_file_write(sp_file_t* file, sp_sample_t** samples, sp_time_t sample_count) {
   status_declare;
diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 650580c..d1259d4 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -339,6 +339,7 @@ sp_render_config_t sp_render_config(sp_channel_count_t channel_count, sp_time_t
 /** render an event with sp_seq to a file. the file is created or overwritten */
 status_t sp_render_range_file(sp_event_t event, sp_time_t start, sp_time_t end, sp_render_config_t config, uint8_t* path) {
   status_declare;
+  status_t close_status;
   sp_time_t block_end;
   sp_time_t remainder;
   sp_time_t i;
@@ -371,7 +372,10 @@ exit:
   sp_event_list_free((&events));
   sp_block_free((&block));
   if (file.file) {
-    sp_file_close_write((&file));
+    close_status = sp_file_close_write((&file));
+    if (status_is_success) {
+      status = close_status;
+    };
   };
   status_return;
 }
diff --git a/source/c-precompiled/sph-sp/main.h b/source/c-precompiled/sph-sp/main.h
index 5b54b2c..69ac748 100644
--- a/source/c-precompiled/sph-sp/main.h
+++ b/source/c-precompiled/sph-sp/main.h
@@ -135,7 +135,7 @@ void sp_deinitialize();
 int sp_ffti(sp_time_t input_len, double* input_or_output_real, double* input_or_output_imag);
 int sp_fft(sp_time_t input_len, double* input_or_output_real, double* input_or_output_imag);
 void sp_file_close_read(sp_file_t file);
-void sp_file_close_write(sp_file_t* file);
+status_t sp_file_close_write(sp_file_t* file);
 status_t sp_file_open_read(uint8_t* path, sp_file_t* file);
 status_t sp_file_open_write(uint8_t* path, sp_channel_count_t channel_count, sp_time_t sample_rate, sp_file_t* file);
 status_t sp_file_read(sp_file_t file, sp_time_t sample_count, sp_sample_t** samples);
-- 
2.43.0


From 0b2280350cfb297a7b944a778980c9d3d467c21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:39 +0000
Subject: [PATCH 64/83] fix: sp_rad_to_hz is the inverse of sp_hz_to_rad

---
 source/c-precompiled/sph-sp/main.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.h b/source/c-precompiled/sph-sp/main.h
index 69ac748..2a77d8f 100644
--- a/source/c-precompiled/sph-sp/main.h
+++ b/source/c-precompiled/sph-sp/main.h
@@ -64,7 +64,7 @@
 #define sp_samples_to_hz(x) ((sp_time_t)((sp_rate / x)))
 #define sp_hz_to_factor(x) (((sp_sample_t)(x)) / ((sp_sample_t)(sp_rate)))
 #define sp_hz_to_rad(a) (2 * M_PI * a)
-#define sp_rad_to_hz(a) ((M_PI / 2) * a)
+#define sp_rad_to_hz(a) (a / (2 * M_PI))
 #define sp_factor_to_hz(x) ((sp_time_t)((x * sp_rate)))
 #define sp_optional_array_get(array, fixed, index) (array ? array[index] : fixed)
 #define sp_sample_to_unit(a) ((1 + a) / 2.0)
-- 
2.43.0


From 1fc289b75e0b253c16d1e26b0af2d1c2fb8a6dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:39 +0000
Subject: [PATCH 65/83] fix: sp_square is periodic for times greater than half
 the range of sp_time_t

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index d1259d4..cfc7a1b 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -491,7 +491,7 @@ sp_sample_t sp_triangle(sp_time_t t, sp_time_t a, sp_time_t b) {
   remainder = (t % (a + b));
   return (((remainder < a) ? (remainder * (1 / ((sp_sample_t)(a)))) : ((((sp_sample_t)(b)) - (remainder - ((sp_sample_t)(a)))) * (1 / ((sp_sample_t)(b))))));
 }
-sp_sample_t sp_square(sp_time_t t, sp_time_t size) { return (((((2 * t) % (2 * size)) < size) ? -1 : 1)); }
+sp_sample_t sp_square(sp_time_t t, sp_time_t size) { return ((((2 * (t % size)) < size) ? -1 : 1)); }
 
 /** convert a pan value between 0..channel_count to a volume factor.
    values are interpreted as split between even and odd numbers, from channel..(channel + 1),
-- 
2.43.0


From cfa39efe771c4b87450321ed0c3ad598dd2e6770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:39 +0000
Subject: [PATCH 66/83] fix: sp_pan_to_amp returns factors between 0 and 1 for
 channels after the first two

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index cfc7a1b..fe33795 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -500,7 +500,7 @@ sp_sample_t sp_square(sp_time_t t, sp_time_t size) { return ((((2 * (t % size))
    1: first channel muted
    0.75: first channel 50%
    0.25: second channel 50% */
-sp_sample_t sp_pan_to_amp(sp_sample_t value, sp_channel_count_t channel) { return (((1 & channel) ? (sp_inline_limit(value, (channel - 1), (channel - 0.5)) / 0.5) : (1 - ((sp_inline_limit(value, (channel + 0.5), (channel + 1)) - 0.5) / 0.5)))); }
+sp_sample_t sp_pan_to_amp(sp_sample_t value, sp_channel_count_t channel) { return (((1 & channel) ? ((sp_inline_limit(value, (channel - 1), (channel - 0.5)) - (channel - 1)) / 0.5) : (1 - ((sp_inline_limit(value, (channel + 0.5), (channel + 1)) - (channel + 0.5)) / 0.5)))); }
 
 /** untested. return normally distributed numbers in range */
 sp_time_t sp_normal_random(sp_time_t min, sp_time_t max) {
-- 
2.43.0


From 8bc3cd0a3d4abb75f55fdfe34facd7f599cf2de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 67/83] fix: ensure_trailing_slash returns the string with the
 slash instead of an empty string

---
 source/c/foreign/sph-sc-lib/sph-sp/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/string.h b/source/c/foreign/sph-sc-lib/sph-sp/string.h
index 08f818f..dcfb8c9 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/string.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/string.h
@@ -16,7 +16,7 @@ uint8_t ensure_trailing_slash(uint8_t* a, uint8_t** result) {
     };
     memcpy(new_a, a, a_len);
     memcpy((new_a + a_len), "/", 1);
-    *new_a = 0;
+    *(new_a + (1 + a_len)) = 0;
     *result = new_a;
     return (2);
   };
-- 
2.43.0


From 5614a66caffc0d3e563ba8a1eb94a4bf574d6226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 68/83] fix: dirname_2 always returns a new string that can be
 freed

---
 source/c/foreign/sph-sc-lib/sph-sp/filesystem.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h b/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
index bd9db80..ac40b6f 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
@@ -10,7 +10,9 @@
 /** like posix dirname, but never modifies its argument and always returns a new string */
 uint8_t* dirname_2(uint8_t* a) {
   uint8_t* path_copy = string_clone(a);
-  return ((dirname(path_copy)));
+  uint8_t* result = (path_copy ? string_clone((dirname(path_copy))) : 0);
+  free(path_copy);
+  return (result);
 }
 
 /** return 1 if the path exists or has been successfully created */
-- 
2.43.0


From 1b0350550d074eb2d5a7b1e673544406cd0d8dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 69/83] fix: ensure_directory_structure checks if the directory
 exists after trying to create it

---
 source/c/foreign/sph-sc-lib/sph-sp/filesystem.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h b/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
index ac40b6f..4457a6e 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
@@ -21,8 +21,8 @@ uint8_t ensure_directory_structure(uint8_t* path, mode_t mkdir_mode) {
     return (1);
   } else {
     uint8_t* path_dirname = dirname_2(path);
-    uint8_t status = ensure_directory_structure(path_dirname, mkdir_mode);
+    uint8_t status = (path_dirname && ensure_directory_structure(path_dirname, mkdir_mode));
     free(path_dirname);
-    return ((status && ((EEXIST == errno) || (0 == mkdir(path, mkdir_mode)))));
+    return ((status && ((0 == mkdir(path, mkdir_mode)) || (EEXIST == errno))));
   };
 }
-- 
2.43.0


From 7dc43fb6f26682c6359643a7fb51c49b40c2f078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 70/83] fix: float sums do not lose small values when large
 negative and positive values cancel out

---
 source/c/foreign/sph-sc-lib/sph-sp/float.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/float.h b/source/c/foreign/sph-sc-lib/sph-sp/float.h
index aeeff8c..cc3c06f 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/float.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/float.h
@@ -14,7 +14,7 @@
       len = (len - 1); \
       element = numbers[len]; \
       temp = (result + element); \
-      correction = (correction + ((result >= element) ? ((result - temp) + element) : ((element - temp) + result))); \
+      correction = (correction + ((fabs(result) >= fabs(element)) ? ((result - temp) + element) : ((element - temp) + result))); \
       result = temp; \
     }; \
     return ((correction + result)); \
-- 
2.43.0


From 0827e8704b7c85d734f8f76ceb6fa14abee2a0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:20 +0000
Subject: [PATCH 71/83] fix: plot data functions do not use files that can not
 be created

---
 source/c-precompiled/sph-sp/plot.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/c-precompiled/sph-sp/plot.c b/source/c-precompiled/sph-sp/plot.c
index ca4bfce..f03eb3a 100644
--- a/source/c-precompiled/sph-sp/plot.c
+++ b/source/c-precompiled/sph-sp/plot.c
@@ -9,6 +9,9 @@ void sp_plot_samples_to_file(sp_sample_t* a, sp_time_t a_size, uint8_t* path) {
   FILE* file;
   sp_time_t i;
   file = fopen(path, "w");
+  if (!file) {
+    return;
+  };
   for (i = 0; (i < a_size); i = (1 + i)) {
     fprintf(file, ("%.3f\n"), (a[i]));
   };
@@ -18,6 +21,9 @@ void sp_plot_times_to_file(sp_time_t* a, sp_time_t a_size, uint8_t* path) {
   FILE* file;
   sp_time_t i;
   file = fopen(path, "w");
+  if (!file) {
+    return;
+  };
   for (i = 0; (i < a_size); i += 1) {
     fprintf(file, "%lu\n", (a[i]));
   };
-- 
2.43.0


From a9be50f4bac4475016bc3a8430dd501e2df241bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:20 +0000
Subject: [PATCH 72/83] fix: sp_plot_spectrum_to_file frees its memory when it
 fails

---
 source/c-precompiled/sph-sp/plot.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/plot.c b/source/c-precompiled/sph-sp/plot.c
index f03eb3a..8e0d4a5 100644
--- a/source/c-precompiled/sph-sp/plot.c
+++ b/source/c-precompiled/sph-sp/plot.c
@@ -94,17 +94,22 @@ void sp_plot_spectrum_to_file(sp_sample_t* a, sp_time_t a_size, uint8_t* path) {
   };
   real = malloc((sizeof(sp_sample_t) * a_size));
   if (!real) {
+    free(imag);
     return;
   };
   memcpy(real, a, (sizeof(sp_sample_t) * a_size));
   if (sp_fft(a_size, real, imag)) {
-    return;
+    goto exit;
   };
   file = fopen(path, "w");
+  if (!file) {
+    goto exit;
+  };
   for (i = 0; (i < a_size); i = (1 + i)) {
     fprintf(file, ("%.3f\n"), (2 * (sqrt(((real[i] * real[i]) + (imag[i] * imag[i]))) / a_size)));
   };
   fclose(file);
+exit:
   free(imag);
   free(real);
 }
-- 
2.43.0


From fb99304fff333b6e3dfe95b2e6718c585e773aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:42 +0000
Subject: [PATCH 73/83] fix: sp_event_list_validate ends for lists with cycles

---
 source/c-precompiled/sph-sp/sequencer.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 3c2e0e5..d91d2e3 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -54,11 +54,15 @@ void sp_event_list_validate(sp_event_list_t* a) {
       printf("circular list entry at index %lu, element %lu\n", i, b);
       exit(1);
     };
-    sp_event_list_find_duplicate(a, b);
     i += 1;
     c = b;
     b = b->next;
   };
+  b = a;
+  while (b) {
+    sp_event_list_find_duplicate(a, b);
+    b = b->next;
+  };
 }
 
 /** removes the list element and frees the event, without having to search in the list.
-- 
2.43.0


From b5c759253dce15d1d128f7559943aef53d3c63d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:18 +0000
Subject: [PATCH 74/83] fix: sp_render_plot frees the rendered samples and the
 event if it could not be prepared

---
 source/c-precompiled/sph-sp/main.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index fe33795..f291d9c 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -430,9 +430,14 @@ status_t sp_render_plot(sp_event_t event) {
   } else {
     printf("rendering %lu seconds to plot\n", (event.end / sp_rate));
   };
-  status_require((sp_render_range_block(event, 0, (event.end), (sp_render_config(sp_channel_count, sp_rate, (sp_render_block_seconds * sp_rate), 1)), (&block))));
-  sp_plot_samples(((block.samples)[0]), (event.end));
+  status = sp_render_range_block(event, 0, (event.end), (sp_render_config(sp_channel_count, sp_rate, (sp_render_block_seconds * sp_rate), 1)), (&block));
+  if (status_is_success) {
+    sp_plot_samples(((block.samples)[0]), (event.end));
+    sp_block_free((&block));
+  };
+  status_return;
 exit:
+  sp_event_free(event);
   status_return;
 }
 sp_random_state_t sp_random_state_new(sp_time_t seed) {
-- 
2.43.0


From ec64c8827a5aa4e27217b334c55174dc89acda76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:02 +0000
Subject: [PATCH 75/83] fix: sp_render_plot displays the duration in
 milliseconds

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index f291d9c..9b2a04b 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -426,7 +426,7 @@ status_t sp_render_plot(sp_event_t event) {
     sp_event_prepare_optional_srq(event);
   };
   if (event.end && (event.end < sp_rate)) {
-    printf("rendering %lu milliseconds to plot\n", (event.end / sp_rate / 1000));
+    printf("rendering %lu milliseconds to plot\n", (1000 * ((uint64_t)(event.end)) / sp_rate));
   } else {
     printf("rendering %lu seconds to plot\n", (event.end / sp_rate));
   };
-- 
2.43.0


From ee7b31bf61184d73965beb2485e45c1bb4594cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:55 +0000
Subject: [PATCH 76/83] fix: displaying empty arrays does not read their first
 value

---
 source/c-precompiled/sph-sp/arrays.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index f7f9e92..225f68f 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -20,7 +20,9 @@ sp_time_t sp_times_sum(sp_time_t* a, sp_time_t size) {
 
 /** display a time array in one line */
 void sp_times_display(sp_time_t* in, sp_size_t count) {
-  printf("%lu", (in[0]));
+  if (count) {
+    printf("%lu", (in[0]));
+  };
   for (sp_size_t i = 1; (i < count); i += 1) {
     printf(" %lu", (in[i]));
   };
@@ -490,7 +492,9 @@ exit:
 arrays_template(sp_sample_t, sample, samples, sp_subtract, fabs);
 /** display a sample array in one line */
 void sp_samples_display(sp_sample_t* in, sp_size_t count) {
-  printf(("%.5f"), (in[0]));
+  if (count) {
+    printf(("%.5f"), (in[0]));
+  };
   for (sp_size_t i = 1; (i < count); i += 1) {
     printf((" %.5f"), (in[i]));
   };
-- 
2.43.0


From d7ea2e117c3f202fd8d89d76e39160afce86f740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:39 +0000
Subject: [PATCH 77/83] fix: make_seamless functions interpolate progressively
 and do not read past the end

---
 source/c-precompiled/sph-sp/arrays.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 225f68f..1fad81e 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -397,7 +397,7 @@ void sp_times_make_seamless_right(sp_time_t* a, sp_time_t a_count, sp_time_t* b,
     out[i] = a[i];
   };
   for (sp_size_t i = 0; (i < count); i += 1) {
-    out[(i + start)] = sp_time_interpolate_linear((a[(i + start)]), (b[(count - (1 + i))]), ((1 + i) / count));
+    out[(i + start)] = sp_time_interpolate_linear((a[(i + start)]), (b[(count - (1 + i))]), ((1 + i) / ((sp_sample_t)(count))));
   };
 }
 
@@ -409,9 +409,9 @@ void sp_times_make_seamless_left(sp_time_t* a, sp_time_t a_count, sp_time_t* b,
   count = sp_inline_min(b_count, (a_count / 2));
   start = (a_count - count);
   for (sp_size_t i = 0; (i < count); i += 1) {
-    out[i] = sp_time_interpolate_linear((b[i]), (a[(a_count - i)]), ((1 + i) / count));
+    out[i] = sp_time_interpolate_linear((b[i]), (a[(a_count - (1 + i))]), ((count - i) / ((sp_sample_t)(count))));
   };
-  for (i = (count - 1); (i < b_count); i += 1) {
+  for (i = count; (i < b_count); i += 1) {
     out[i] = b[i];
   };
 }
-- 
2.43.0


From fc12f6e193067754120880885735878cee35d199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:39 +0000
Subject: [PATCH 78/83] fix: sp_time_harmonize and sp_time_deharmonize use the
 nearest multiple

---
 source/c-precompiled/sph-sp/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 9b2a04b..5923f20 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -521,7 +521,7 @@ sp_time_t sp_normal_random(sp_time_t min, sp_time_t max) {
    for example, amount 1.0 rounds fully, amount 0.0 does not round at all, amount 0.5 rounds half-way */
 sp_time_t sp_time_harmonize(sp_time_t a, sp_time_t base, sp_sample_t amount) {
   sp_time_t nearest;
-  nearest = ((((a + base) - 1) / base) * base);
+  nearest = (((a + (base / 2)) / base) * base);
   return (((a > nearest) ? (a - (amount * (a - nearest))) : (a + (amount * (nearest - a)))));
 }
 
@@ -529,7 +529,7 @@ sp_time_t sp_time_harmonize(sp_time_t a, sp_time_t base, sp_sample_t amount) {
 sp_time_t sp_time_deharmonize(sp_time_t a, sp_time_t base, sp_sample_t amount) {
   sp_time_t nearest;
   sp_sample_t distance_ratio;
-  nearest = ((((a + base) - 1) / base) * base);
+  nearest = (((a + (base / 2)) / base) * base);
   distance_ratio = ((base - sp_inline_absolute_difference(a, nearest)) / ((sp_sample_t)(base)));
   amount = (amount * distance_ratio * (1 + sp_time_random_bounded((base / 2))));
   if ((a > nearest) || (a < amount)) {
-- 
2.43.0


From 40dd2650d60130dfeb4d9a4a0caef526d5a695ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:35 +0000
Subject: [PATCH 79/83] fix: sums in sp_stat_times_mean and
 sp_stat_times_center do not wrap around

---
 source/c-precompiled/sph-sp/statistics.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index 7f18fa4..141264a 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -145,25 +145,25 @@ sp_time_t sp_stat_repetition_max(sp_time_t size, sp_time_t width) { return ((sp_
    the weighted position coordinates of the distributed mass defines its coordinates.
    sum(n * x(n)) / sum(x(n)) */
 uint8_t sp_stat_times_center(sp_time_t* a, sp_time_t size, sp_sample_t* out) {
-  sp_time_t sum;
-  sp_time_t index_sum;
+  sp_sample_t sum;
+  sp_sample_t index_sum;
   index_sum = 0;
   sum = a[0];
   for (sp_size_t i = 0; (i < size); i += 1) {
     sum += a[i];
-    index_sum += (i * a[i]);
+    index_sum += (i * ((sp_sample_t)(a[i])));
   };
-  *out = (index_sum / ((sp_sample_t)(sum)));
+  *out = (index_sum / sum);
   return (0);
 }
 define_sp_stat_range(sp_stat_times_range, sp_time_t)
   uint8_t sp_stat_times_mean(sp_time_t* a, sp_time_t size, sp_sample_t* out) {
-  sp_time_t sum;
+  sp_sample_t sum;
   sum = 0;
   for (sp_size_t i = 0; (i < size); i += 1) {
     sum += a[i];
   };
-  *out = (sum / ((sp_sample_t)(size)));
+  *out = (sum / size);
   return (0);
 }
 define_sp_stat_deviation(sp_stat_times_deviation, sp_stat_times_mean, sp_time_t)
-- 
2.43.0


From 292d8f57d11fdcfcb21c3c731ed6c57336e871b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:25 +0000
Subject: [PATCH 80/83] fix: sp_permutations_max does not overflow when the
 factorial of the set size does

---
 source/c-precompiled/sph-sp/main.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 5923f20..bb7ad1f 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -584,5 +584,11 @@ sp_time_t sp_time_factorial(sp_time_t n) {
 
 /** return the maximum number of possible distinct selections from a set of length "set-size" */
 sp_size_t sp_set_sequence_max(sp_size_t set_size, sp_size_t selection_size) { return (((0 == set_size) ? 0 : sp_time_expt(set_size, selection_size))); }
-sp_size_t sp_permutations_max(sp_size_t set_size, sp_size_t selection_size) { return ((sp_time_factorial(set_size) / sp_time_factorial((set_size - selection_size)))); }
+sp_size_t sp_permutations_max(sp_size_t set_size, sp_size_t selection_size) {
+  sp_size_t result = 1;
+  for (sp_size_t i = 0; (i < selection_size); i += 1) {
+    result *= (set_size - i);
+  };
+  return (result);
+}
 sp_size_t sp_compositions_max(sp_size_t sum) { return ((sp_time_expt(2, (sum - 1)))); }
-- 
2.43.0


From af899977414f032e634fe9bb8656441fefa65bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:53 +0000
Subject: [PATCH 81/83] fix: sph_thread_pool_new fails for more threads than a
 pool has space for

---
 source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c | 3 +++
 source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h | 1 +
 2 files changed, 4 insertions(+)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
index f2dbc36..aa7e53e 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
@@ -96,6 +96,9 @@ int sph_thread_pool_new(sph_thread_pool_size_t size, sph_thread_pool_t* a) {
   sph_thread_pool_size_t i;
   pthread_attr_t attr;
   int error;
+  if (sph_thread_pool_thread_limit < size) {
+    return (EINVAL);
+  };
   error = 0;
   sph_queue_init((&(a->queue)));
   pthread_mutex_init((&(a->queue_mutex)), 0);
diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h
index dbeae1a..e608117 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h
@@ -2,6 +2,7 @@
 #ifndef sph_thread_pool_h
 #define sph_thread_pool_h
 
+#include <errno.h>
 #include <pthread.h>
 /* thread-pool that uses pthread condition variables to pause unused threads.
    based on the design of thread-pool.scm from sph-lib which has been stress tested in servers and digital signal processing.
-- 
2.43.0


From 506518ca5c2302917c4f5165a676290a3cb0cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:00 +0000
Subject: [PATCH 82/83] fix: registering memory with an event after reserving
 no space fails and frees the register

---
 source/c-precompiled/sph-sp/sequencer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index d91d2e3..1c023b5 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -171,7 +171,7 @@ status_t sp_event_memory_ensure(sp_event_t* a, sp_time_t additional_size) {
       sp_memory_error;
     };
   } else {
-    if (sp_memory_new(additional_size, (&(a->memory)))) {
+    if (sp_memory_new((sp_inline_max(1, additional_size)), (&(a->memory)))) {
       sp_memory_error;
     } else {
       if (!a->free) {
-- 
2.43.0


From 49740e8b95223103bea39429b990628bc1a59858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:48 +0000
Subject: [PATCH 83/83] fix: noise events can be prepared again with the same
 configuration

after a failed prepare or after the event was freed, the configuration still referred to freed filter states
---
 source/c-precompiled/sph-sp/sequencer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 1c023b5..c30ebe6 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -634,6 +634,11 @@ status_t sp_noise_event_prepare(sp_event_t* event) {
   sp_time_t temp_length;
   error_memory_init((3 + sp_channel_count_limit));
   c = event->config;
+  /* the config might have been used before and contain freed addresses */
+  c->temp[2] = 0;
+  for (sp_size_t i = 0; (i < c->channel_count); i += 1) {
+    ((c->channel_config)[i]).filter_state = 0;
+  };
   c->random_state = sp_random_state_new((sp_time_random_primitive((&sp_random_state))));
   cc = c->channel_config;
   duration = (event->end - event->start);
-- 
2.43.0

