From c2ff31c7e607c08734d29f5a81f3f6401183f3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:18 +0000
Subject: [PATCH 01/13] fix: do not overwrite a pending external task when
 several threads use RUN

A failed compare-exchange stores the current value in exp, so the next
attempt replaced the external task of another thread, which then waited
forever.
---
 src/lace.c   | 6 ++++--
 src/lace14.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 29019f6..fb340cb 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -577,8 +577,9 @@ lace_run_task(Task *task)
         external_task_counter++;
         pthread_mutex_unlock(&external_task_lock);
 
+        // wait until no other external task is offered (exp is overwritten on failure)
         ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
@@ -624,8 +625,9 @@ lace_run_task_exclusive(Task *task)
         }
         pthread_mutex_unlock(&external_task_lock);
 
+        // wait until no other external task is offered (exp is overwritten on failure)
         ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
diff --git a/src/lace14.c b/src/lace14.c
index deb232b..5e55b42 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -577,8 +577,9 @@ lace_run_task(Task *task)
         external_task_counter++;
         pthread_mutex_unlock(&external_task_lock);
 
+        // wait until no other external task is offered (exp is overwritten on failure)
         ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
@@ -624,8 +625,9 @@ lace_run_task_exclusive(Task *task)
         }
         pthread_mutex_unlock(&external_task_lock);
 
+        // wait until no other external task is offered (exp is overwritten on failure)
         ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
-- 
2.43.0


From a911e4a15eb8d1d55fedf4c8f7f692d3eab8593a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:18 +0000
Subject: [PATCH 02/13] fix: mark the slot of a dropped task as empty

DROP left the slot of an unstolen task marked as in use, so lace_get_head
(RUN, NEWFRAME, TOGETHER, LACE_VARS inside a worker) continued above it and
the dropped task could still be shared, stolen and executed.
---
 src/lace.h   | 2 ++
 src/lace.sh  | 2 ++
 src/lace14.h | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/lace.h b/src/lace.h
index fe99dea..19ec73d 100644
--- a/src/lace.h
+++ b/src/lace.h
@@ -694,6 +694,7 @@ static __attribute__((noinline))
 void lace_drop_slow(WorkerP *w, Task *__dq_head)
 {
     if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);
+    else atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
 }
 
 static inline __attribute__((unused))
@@ -701,6 +702,7 @@ void lace_drop(WorkerP *w, Task *__dq_head)
 {
     if (likely(0 == w->_public->movesplit)) {
         if (likely(w->split <= __dq_head)) {
+            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
             return;
         }
     }
diff --git a/src/lace.sh b/src/lace.sh
index b534023..8c82a4c 100755
--- a/src/lace.sh
+++ b/src/lace.sh
@@ -701,6 +701,7 @@ static __attribute__((noinline))
 void lace_drop_slow(WorkerP *w, Task *__dq_head)
 {
     if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);
+    else atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
 }
 
 static inline __attribute__((unused))
@@ -708,6 +709,7 @@ void lace_drop(WorkerP *w, Task *__dq_head)
 {
     if (likely(0 == w->_public->movesplit)) {
         if (likely(w->split <= __dq_head)) {
+            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
             return;
         }
     }
diff --git a/src/lace14.h b/src/lace14.h
index 085fb59..53dba42 100644
--- a/src/lace14.h
+++ b/src/lace14.h
@@ -694,6 +694,7 @@ static __attribute__((noinline))
 void lace_drop_slow(WorkerP *w, Task *__dq_head)
 {
     if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);
+    else atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
 }
 
 static inline __attribute__((unused))
@@ -701,6 +702,7 @@ void lace_drop(WorkerP *w, Task *__dq_head)
 {
     if (likely(0 == w->_public->movesplit)) {
         if (likely(w->split <= __dq_head)) {
+            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
             return;
         }
     }
-- 
2.43.0


From 6ab11149f953c7ebc65be9cfedeea799cffabe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:18 +0000
Subject: [PATCH 03/13] fix: create worker threads detached, so lace_stop does
 not leak them

---
 src/lace.c   | 3 +++
 src/lace14.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/lace.c b/src/lace.c
index fb340cb..534122f 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -889,6 +889,9 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     pthread_attr_t worker_attr;
     pthread_attr_init(&worker_attr);
 
+    // Workers are never joined, so let them release their resources when they end
+    pthread_attr_setdetachstate(&worker_attr, PTHREAD_CREATE_DETACHED);
+
     // Set the stack size
     if (stacksize != 0) {
         pthread_attr_setstacksize(&worker_attr, stacksize);
diff --git a/src/lace14.c b/src/lace14.c
index 5e55b42..a82e0dd 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -889,6 +889,9 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     pthread_attr_t worker_attr;
     pthread_attr_init(&worker_attr);
 
+    // Workers are never joined, so let them release their resources when they end
+    pthread_attr_setdetachstate(&worker_attr, PTHREAD_CREATE_DETACHED);
+
     // Set the stack size
     if (stacksize != 0) {
         pthread_attr_setstacksize(&worker_attr, stacksize);
-- 
2.43.0


From f601039f8146d97696ef8f161a198e2d70c430e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:18 +0000
Subject: [PATCH 04/13] fix: lace_start(n, 0) uses the default deque size after
 an earlier custom size

---
 src/lace.c   | 11 ++++++++---
 src/lace14.c | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 534122f..57f6052 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -74,6 +74,11 @@ static Worker **workers = NULL;
 static size_t stacksize = 0; // 0 means just take default
 static size_t default_dqsize = 100000;
 
+/**
+ * Size of the task deque of each worker, set by lace_start
+ */
+static size_t workers_dqsize = 0;
+
 /**
  * Verbosity flag, set with lace_set_verbosity
  */
@@ -442,7 +447,7 @@ lace_init_worker(unsigned int worker)
 
     // Initialize private worker data
     w->_public = wt;
-    w->end = w->dq + default_dqsize;
+    w->end = w->dq + workers_dqsize;
     w->split = w->dq;
     w->allstolen = 0;
     w->worker = worker;
@@ -837,8 +842,8 @@ lace_start(unsigned int _n_workers, size_t dqsize)
 
     // Initialize globals
     n_workers = _n_workers == 0 ? n_pus : _n_workers;
-    if (dqsize != 0) default_dqsize = dqsize;
-    else dqsize = default_dqsize;
+    if (dqsize == 0) dqsize = default_dqsize;
+    workers_dqsize = dqsize;
     lace_quits = 0;
     atomic_store_explicit(&workers_running, 0, memory_order_relaxed);
 
diff --git a/src/lace14.c b/src/lace14.c
index a82e0dd..11ee1a4 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -74,6 +74,11 @@ static Worker **workers = NULL;
 static size_t stacksize = 0; // 0 means just take default
 static size_t default_dqsize = 100000;
 
+/**
+ * Size of the task deque of each worker, set by lace_start
+ */
+static size_t workers_dqsize = 0;
+
 /**
  * Verbosity flag, set with lace_set_verbosity
  */
@@ -442,7 +447,7 @@ lace_init_worker(unsigned int worker)
 
     // Initialize private worker data
     w->_public = wt;
-    w->end = w->dq + default_dqsize;
+    w->end = w->dq + workers_dqsize;
     w->split = w->dq;
     w->allstolen = 0;
     w->worker = worker;
@@ -837,8 +842,8 @@ lace_start(unsigned int _n_workers, size_t dqsize)
 
     // Initialize globals
     n_workers = _n_workers == 0 ? n_pus : _n_workers;
-    if (dqsize != 0) default_dqsize = dqsize;
-    else dqsize = default_dqsize;
+    if (dqsize == 0) dqsize = default_dqsize;
+    workers_dqsize = dqsize;
     lace_quits = 0;
     atomic_store_explicit(&workers_running, 0, memory_order_relaxed);
 
-- 
2.43.0


From 477ddff6069930550f5dbefe57c857977f591950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:18 +0000
Subject: [PATCH 05/13] fix: lace_get_head does not read beyond a deque of
 fewer than 4 tasks

---
 src/lace.c   | 9 ++++-----
 src/lace14.c | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 57f6052..3ded39c 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -168,11 +168,10 @@ lace_get_head(WorkerP *self)
 {
     Task *dq = self->dq;
 
-    /* First check the first tasks linearly */
-    if (dq[0].thief == 0) return dq;
-    if (dq[1].thief == 0) return dq+1;
-    if (dq[2].thief == 0) return dq+2;
-    if (dq[3].thief == 0) return dq+3;
+    /* First check the first tasks linearly (the deque may have fewer than 4 tasks) */
+    for (Task *t = dq; t < dq+4; t++) {
+        if (t == self->end || t->thief == 0) return t;
+    }
 
     /* Then fast search for a low/high bound using powers of 2: 4, 8, 16... */
     size_t low = 2;
diff --git a/src/lace14.c b/src/lace14.c
index 11ee1a4..b9a9918 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -168,11 +168,10 @@ lace_get_head(WorkerP *self)
 {
     Task *dq = self->dq;
 
-    /* First check the first tasks linearly */
-    if (dq[0].thief == 0) return dq;
-    if (dq[1].thief == 0) return dq+1;
-    if (dq[2].thief == 0) return dq+2;
-    if (dq[3].thief == 0) return dq+3;
+    /* First check the first tasks linearly (the deque may have fewer than 4 tasks) */
+    for (Task *t = dq; t < dq+4; t++) {
+        if (t == self->end || t->thief == 0) return t;
+    }
 
     /* Then fast search for a low/high bound using powers of 2: 4, 8, 16... */
     size_t low = 2;
-- 
2.43.0


From 6359243fa52bd72b8fdd3f13af6b9c019a486bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:19 +0000
Subject: [PATCH 06/13] fix: pass LACE_USE_MMAP and LACE_USE_HWLOC to the code

The two CMake options were never written to lace_config.h, so they had no
effect.
---
 src/lace_config.h.in | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lace_config.h.in b/src/lace_config.h.in
index 21560fd..398eec4 100644
--- a/src/lace_config.h.in
+++ b/src/lace_config.h.in
@@ -2,3 +2,5 @@
 #cmakedefine01 LACE_COUNT_TASKS
 #cmakedefine01 LACE_COUNT_STEALS
 #cmakedefine01 LACE_COUNT_SPLITS
+#cmakedefine01 LACE_USE_MMAP
+#cmakedefine01 LACE_USE_HWLOC
-- 
2.43.0


From aaec0fb13a499c8b04a44dfc53899e69b76cc066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:19 +0000
Subject: [PATCH 07/13] fix: report failure to create a worker thread instead
 of hanging later

---
 src/lace.c   | 5 ++++-
 src/lace14.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 3ded39c..0921ac1 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -938,7 +938,10 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     /* Spawn all workers */
     for (unsigned int i=0; i<n_workers; i++) {
         pthread_t res;
-        pthread_create(&res, &worker_attr, lace_worker_thread, (void*)(size_t)i);
+        if (pthread_create(&res, &worker_attr, lace_worker_thread, (void*)(size_t)i) != 0) {
+            fprintf(stderr, "Lace error: unable to create a worker thread!\n");
+            exit(1);
+        }
     }
 
     /* Make sure we start resumed */
diff --git a/src/lace14.c b/src/lace14.c
index b9a9918..29c3466 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -938,7 +938,10 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     /* Spawn all workers */
     for (unsigned int i=0; i<n_workers; i++) {
         pthread_t res;
-        pthread_create(&res, &worker_attr, lace_worker_thread, (void*)(size_t)i);
+        if (pthread_create(&res, &worker_attr, lace_worker_thread, (void*)(size_t)i) != 0) {
+            fprintf(stderr, "Lace error: unable to create a worker thread!\n");
+            exit(1);
+        }
     }
 
     /* Make sure we start resumed */
-- 
2.43.0


From 2401e05bd0420498f4cb0b7f990a4c0dfd1c9c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:19 +0000
Subject: [PATCH 08/13] fix: RUN and suspended workers keep waiting when a
 signal interrupts sem_wait

---
 src/lace.c   | 17 +++++++++++++----
 src/lace14.c | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 0921ac1..4d7f681 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -468,6 +468,15 @@ lace_init_worker(unsigned int worker)
 #endif
 }
 
+/**
+ * Wait on a semaphore, also when signal handlers interrupt sem_wait.
+ */
+static void
+lace_sem_wait(sem_t *sem)
+{
+    while (sem_wait(sem) != 0) {}
+}
+
 static atomic_int must_suspend = 0;
 static sem_t suspend_semaphore;
 static atomic_int lace_awaken_count = 0;
@@ -585,7 +594,7 @@ lace_run_task(Task *task)
         ExtTask *exp = 0;
         while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
-        sem_wait(&et.sem);
+        lace_sem_wait(&et.sem);
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -633,7 +642,7 @@ lace_run_task_exclusive(Task *task)
         ExtTask *exp = 0;
         while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
-        sem_wait(&et.sem);
+        lace_sem_wait(&et.sem);
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -742,7 +751,7 @@ VOID_TASK_1(lace_steal_loop, atomic_int*, quit)
 
         if (unlikely(atomic_load_explicit(&must_suspend, memory_order_acquire))) {
             workers_running -= 1;
-            sem_wait(&suspend_semaphore);
+            lace_sem_wait(&suspend_semaphore);
             lace_barrier(); // ensure we're all back before continuing
             workers_running += 1;
         }
@@ -765,7 +774,7 @@ lace_worker_thread(void* arg)
     lace_pin_worker();
 
     // Wait for the first time we are resumed
-    sem_wait(&suspend_semaphore);
+    lace_sem_wait(&suspend_semaphore);
 
     // Signal that we are running
     workers_running += 1;
diff --git a/src/lace14.c b/src/lace14.c
index 29c3466..e540dd6 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -468,6 +468,15 @@ lace_init_worker(unsigned int worker)
 #endif
 }
 
+/**
+ * Wait on a semaphore, also when signal handlers interrupt sem_wait.
+ */
+static void
+lace_sem_wait(sem_t *sem)
+{
+    while (sem_wait(sem) != 0) {}
+}
+
 static atomic_int must_suspend = 0;
 static sem_t suspend_semaphore;
 static atomic_int lace_awaken_count = 0;
@@ -585,7 +594,7 @@ lace_run_task(Task *task)
         ExtTask *exp = 0;
         while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
-        sem_wait(&et.sem);
+        lace_sem_wait(&et.sem);
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -633,7 +642,7 @@ lace_run_task_exclusive(Task *task)
         ExtTask *exp = 0;
         while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
-        sem_wait(&et.sem);
+        lace_sem_wait(&et.sem);
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -742,7 +751,7 @@ VOID_TASK_1(lace_steal_loop, atomic_int*, quit)
 
         if (unlikely(atomic_load_explicit(&must_suspend, memory_order_acquire))) {
             workers_running -= 1;
-            sem_wait(&suspend_semaphore);
+            lace_sem_wait(&suspend_semaphore);
             lace_barrier(); // ensure we're all back before continuing
             workers_running += 1;
         }
@@ -765,7 +774,7 @@ lace_worker_thread(void* arg)
     lace_pin_worker();
 
     // Wait for the first time we are resumed
-    sem_wait(&suspend_semaphore);
+    lace_sem_wait(&suspend_semaphore);
 
     // Signal that we are running
     workers_running += 1;
-- 
2.43.0


From 9b00ff15b8c6f353aa3e78790d7ae836e7ffa3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:19 +0000
Subject: [PATCH 09/13] fix: no division by zero in the PIE report when Lace
 ran for less than 1 ms

---
 src/lace.c   | 5 ++---
 src/lace14.c | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 4d7f681..7e7e8c0 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1058,15 +1058,14 @@ lace_count_report_file(FILE *file)
 #if LACE_PIE_TIMES
     count_at_end = gethrtime();
 
-    uint64_t count_per_ms = (count_at_end - count_at_start) / (us_elapsed() / 1000);
-    double dcpm = (double)count_per_ms;
+    double dcpm = (double)(count_at_end - count_at_start) / ((double)us_elapsed() / 1000.0);
 
     uint64_t sum_count;
     sum_count = ctr_all[CTR_init] + ctr_all[CTR_wapp] + ctr_all[CTR_lapp] + ctr_all[CTR_wsteal] + ctr_all[CTR_lsteal]
               + ctr_all[CTR_close] + ctr_all[CTR_wstealsucc] + ctr_all[CTR_lstealsucc] + ctr_all[CTR_wsignal]
               + ctr_all[CTR_lsignal];
 
-    fprintf(file, "Measured clock (tick) frequency: %.2f GHz\n", count_per_ms / 1000000.0);
+    fprintf(file, "Measured clock (tick) frequency: %.2f GHz\n", dcpm / 1000000.0);
     fprintf(file, "Aggregated time per pie slice, total time: %.2f CPU seconds\n\n", sum_count / (1000*dcpm));
 
     for (i=0;i<n_workers;i++) {
diff --git a/src/lace14.c b/src/lace14.c
index e540dd6..945db9b 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1058,15 +1058,14 @@ lace_count_report_file(FILE *file)
 #if LACE_PIE_TIMES
     count_at_end = gethrtime();
 
-    uint64_t count_per_ms = (count_at_end - count_at_start) / (us_elapsed() / 1000);
-    double dcpm = (double)count_per_ms;
+    double dcpm = (double)(count_at_end - count_at_start) / ((double)us_elapsed() / 1000.0);
 
     uint64_t sum_count;
     sum_count = ctr_all[CTR_init] + ctr_all[CTR_wapp] + ctr_all[CTR_lapp] + ctr_all[CTR_wsteal] + ctr_all[CTR_lsteal]
               + ctr_all[CTR_close] + ctr_all[CTR_wstealsucc] + ctr_all[CTR_lstealsucc] + ctr_all[CTR_wsignal]
               + ctr_all[CTR_lsignal];
 
-    fprintf(file, "Measured clock (tick) frequency: %.2f GHz\n", count_per_ms / 1000000.0);
+    fprintf(file, "Measured clock (tick) frequency: %.2f GHz\n", dcpm / 1000000.0);
     fprintf(file, "Aggregated time per pie slice, total time: %.2f CPU seconds\n\n", sum_count / (1000*dcpm));
 
     for (i=0;i<n_workers;i++) {
-- 
2.43.0


From e937c5fe85fd89c0f42b0baf9ccf3f365558d752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:12 +0000
Subject: [PATCH 10/13] fix: lace_stop destroys the hwloc topology that
 lace_start loads

---
 src/lace.c   | 4 ++++
 src/lace14.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/lace.c b/src/lace.c
index 7e7e8c0..170a759 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1148,6 +1148,10 @@ void lace_stop()
     workers = 0;
     workers_p = 0;
     workers_memory = 0;
+
+#if LACE_USE_HWLOC
+    hwloc_topology_destroy(topo);
+#endif
 }
 
 /**
diff --git a/src/lace14.c b/src/lace14.c
index 945db9b..306f364 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1148,6 +1148,10 @@ void lace_stop()
     workers = 0;
     workers_p = 0;
     workers_memory = 0;
+
+#if LACE_USE_HWLOC
+    hwloc_topology_destroy(topo);
+#endif
 }
 
 /**
-- 
2.43.0


From ec33bb81bc3bba3bbe16e0438f666de889269e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:32 +0000
Subject: [PATCH 11/13] fix: restore the private split pointer after an
 interrupt

If a queue became all stolen while shrinking, the public split is below the
private one. Restoring the private split from the public split let a later
SYNC run a task inline that a thief had already taken.
---
 src/lace.c   | 5 ++++-
 src/lace14.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 170a759..d758f26 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1167,6 +1167,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
 {
     TailSplitNA old;
     uint8_t old_as;
+    Task *old_split;
 
     // save old tail, split, allstolen and initiate new frame
     {
@@ -1184,6 +1185,8 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
         ts_new.ts.split = __lace_dq_head - __lace_worker->dq;
         wt->ts.v = ts_new.v;
 
+        // the private split differs from the public split if all tasks were stolen while shrinking
+        old_split = __lace_worker->split;
         __lace_worker->split = __lace_dq_head;
         __lace_worker->allstolen = 1;
     }
@@ -1202,7 +1205,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
         Worker *wt = __lace_worker->_public;
         wt->allstolen = old_as;
         wt->ts.v = old.v;
-        __lace_worker->split = __lace_worker->dq + old.ts.split;
+        __lace_worker->split = old_split;
         __lace_worker->allstolen = old_as;
     }
 }
diff --git a/src/lace14.c b/src/lace14.c
index 306f364..fc307d9 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1167,6 +1167,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
 {
     TailSplitNA old;
     uint8_t old_as;
+    Task *old_split;
 
     // save old tail, split, allstolen and initiate new frame
     {
@@ -1184,6 +1185,8 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
         ts_new.ts.split = __lace_dq_head - __lace_worker->dq;
         wt->ts.v = ts_new.v;
 
+        // the private split differs from the public split if all tasks were stolen while shrinking
+        old_split = __lace_worker->split;
         __lace_worker->split = __lace_dq_head;
         __lace_worker->allstolen = 1;
     }
@@ -1202,7 +1205,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
         Worker *wt = __lace_worker->_public;
         wt->allstolen = old_as;
         wt->ts.v = old.v;
-        __lace_worker->split = __lace_worker->dq + old.ts.split;
+        __lace_worker->split = old_split;
         __lace_worker->allstolen = old_as;
     }
 }
-- 
2.43.0


From be72a167bbdb301a61cb664d3bb7596f4fc72519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:02 +0000
Subject: [PATCH 12/13] fix: TASK_IS_STOLEN and TASK_IS_COMPLETED compile in
 C++

---
 src/lace.h   | 4 ++--
 src/lace.sh  | 4 ++--
 src/lace14.h | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lace.h b/src/lace.h
index 19ec73d..32975fa 100644
--- a/src/lace.h
+++ b/src/lace.h
@@ -258,12 +258,12 @@ void lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head);
 /**
  * True if the given task is stolen, False otherwise.
  */
-#define TASK_IS_STOLEN(t) ((size_t)t->thief > 1)
+#define TASK_IS_STOLEN(t) ((size_t)(Worker*)t->thief > 1)
 
 /**
  * True if the given task is completed, False otherwise.
  */
-#define TASK_IS_COMPLETED(t) ((size_t)t->thief == 2)
+#define TASK_IS_COMPLETED(t) ((size_t)(Worker*)t->thief == 2)
 
 /**
  * Retrieves a pointer to the result of the given task.
diff --git a/src/lace.sh b/src/lace.sh
index 8c82a4c..a2728ff 100755
--- a/src/lace.sh
+++ b/src/lace.sh
@@ -265,12 +265,12 @@ void lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head);
 /**
  * True if the given task is stolen, False otherwise.
  */
-#define TASK_IS_STOLEN(t) ((size_t)t->thief > 1)
+#define TASK_IS_STOLEN(t) ((size_t)(Worker*)t->thief > 1)
 
 /**
  * True if the given task is completed, False otherwise.
  */
-#define TASK_IS_COMPLETED(t) ((size_t)t->thief == 2)
+#define TASK_IS_COMPLETED(t) ((size_t)(Worker*)t->thief == 2)
 
 /**
  * Retrieves a pointer to the result of the given task.
diff --git a/src/lace14.h b/src/lace14.h
index 53dba42..6d1dc8c 100644
--- a/src/lace14.h
+++ b/src/lace14.h
@@ -258,12 +258,12 @@ void lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head);
 /**
  * True if the given task is stolen, False otherwise.
  */
-#define TASK_IS_STOLEN(t) ((size_t)t->thief > 1)
+#define TASK_IS_STOLEN(t) ((size_t)(Worker*)t->thief > 1)
 
 /**
  * True if the given task is completed, False otherwise.
  */
-#define TASK_IS_COMPLETED(t) ((size_t)t->thief == 2)
+#define TASK_IS_COMPLETED(t) ((size_t)(Worker*)t->thief == 2)
 
 /**
  * Retrieves a pointer to the result of the given task.
-- 
2.43.0


From 054da691b1e7b0bee7e83fda11ed7af4b4842e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:11 +0000
Subject: [PATCH 13/13] fix: headers with LACE_PIE_TIMES compile in strict C11

---
 src/lace.h   | 2 +-
 src/lace.sh  | 2 +-
 src/lace14.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lace.h b/src/lace.h
index 32975fa..b3604d4 100644
--- a/src/lace.h
+++ b/src/lace.h
@@ -321,7 +321,7 @@ void lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head);
 static inline uint64_t gethrtime()
 {
     uint32_t hi, lo;
-    asm volatile ("rdtsc" : "=a"(lo), "=d"(hi) :: "memory");
+    __asm__ volatile ("rdtsc" : "=a"(lo), "=d"(hi) :: "memory");
     return (uint64_t)hi<<32 | lo;
 }
 #endif
diff --git a/src/lace.sh b/src/lace.sh
index a2728ff..76b5e38 100755
--- a/src/lace.sh
+++ b/src/lace.sh
@@ -328,7 +328,7 @@ void lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head);
 static inline uint64_t gethrtime()
 {
     uint32_t hi, lo;
-    asm volatile ("rdtsc" : "=a"(lo), "=d"(hi) :: "memory");
+    __asm__ volatile ("rdtsc" : "=a"(lo), "=d"(hi) :: "memory");
     return (uint64_t)hi<<32 | lo;
 }
 #endif
diff --git a/src/lace14.h b/src/lace14.h
index 6d1dc8c..87c0a3b 100644
--- a/src/lace14.h
+++ b/src/lace14.h
@@ -321,7 +321,7 @@ void lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head);
 static inline uint64_t gethrtime()
 {
     uint32_t hi, lo;
-    asm volatile ("rdtsc" : "=a"(lo), "=d"(hi) :: "memory");
+    __asm__ volatile ("rdtsc" : "=a"(lo), "=d"(hi) :: "memory");
     return (uint64_t)hi<<32 | lo;
 }
 #endif
-- 
2.43.0

