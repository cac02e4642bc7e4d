From 4329ce80d205b49168920a19b1f17c493f3c92df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 01/78] fix: report an error condition alone to the waiter of a
 descriptor

A full pipe whose reader closes reports EPOLLERR without EPOLLOUT; the callback was never run.
---
 src/epoll.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/epoll.c b/src/epoll.c
index 09a33f0..0039331 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -162,7 +162,9 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 			&& (target->events & EVENTS_READWRITE) != 0) {
 			int revents = ((event->events & EPOLLIN) != 0 ? EVENTS_READ : 0)
 				| ((event->events & EPOLLOUT) != 0 ? EVENTS_WRITE : 0)
-				| ((event->events & EPOLLHUP) != 0 ? EVENTS_CLOSED : 0);
+				| ((event->events & EPOLLHUP) != 0 ? EVENTS_CLOSED : 0)
+				/* an error alone, e.g. a full pipe without readers, must wake the waiter */
+				| ((event->events & EPOLLERR) != 0 ? (target->events & EVENTS_READWRITE) : 0);
 			if (target->is_pathwatcher) {
 				char *buffer = events_malloc(Kb(8) + sizeof(inotify_t));
 				if (!is_empty(buffer)) {
-- 
2.43.0


From 732319c30d991f87d6fb7ffe49092eacc3fd0c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 02/78] fix: follow changes made by callbacks to the timeout
 slot being processed

A callback that cancelled, removed or re-armed another descriptor of the same slot still had the stale copy acted on.
---
 src/events.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/events.c b/src/events.c
index f988d59..5a8eec2 100644
--- a/src/events.c
+++ b/src/events.c
@@ -774,6 +774,7 @@ void events_deinit_loop_internal(events_t *loop) {
 
 EVENTS_INLINE void events_handle_timeout_internal(events_t *loop) {
 	size_t i, j, k;
+	unsigned short bit;
 	for (
 		;loop->timeout.base_time <= loop->now - loop->timeout.resolution
 		;loop->timeout.base_idx = (loop->timeout.base_idx + 1) % EVENTS_TIMEOUT_VEC_SIZE,
@@ -788,12 +789,12 @@ EVENTS_INLINE void events_handle_timeout_internal(events_t *loop) {
 			if (vv != 0) {
 				for (j = i * EVENTS_SHORT_BITS; vv != 0; j++, vv <<= 1) {
 					if (vv < 0) {
-						short v = vec[j];
-						assert(v != 0);
-						for (k = j * EVENTS_SHORT_BITS; v != 0; k++, v <<= 1) {
-							if (v < 0) {
+						/* callbacks may cancel or move the timeouts still pending in this slot */
+						for (k = j * EVENTS_SHORT_BITS, bit = (unsigned short)SHRT_MIN; bit != 0; k++, bit >>= 1) {
+							if (vec[j] & bit) {
 								events_fd_t *fd = events_target(k);
 								assert(fd->loop_id == loop->loop_id);
+								vec[j] &= ~bit;
 								fd->timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED;
 								events_id_t loop_id = loop->loop_id;
 								(*fd->callback)(k, EVENTS_TIMEOUT, fd->cb_arg);
@@ -801,7 +802,6 @@ EVENTS_INLINE void events_handle_timeout_internal(events_t *loop) {
 									return;
 							}
 						}
-						vec[j] = 0;
 					}
 				}
 				vec_of_vec[i] = 0;
-- 
2.43.0


From f161560a503e974b78906121593219d9d767efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 03/78] fix: timers and sleeps no longer follow steps of the
 wall clock

---
 src/events.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/events.c b/src/events.c
index 5a8eec2..28ff29c 100644
--- a/src/events.c
+++ b/src/events.c
@@ -811,12 +811,7 @@ EVENTS_INLINE void events_handle_timeout_internal(events_t *loop) {
 }
 
 static EVENTS_INLINE uint64_t events_nsec(void) {
-	struct timeval tv;
-
-	if (events_timeofday(&tv, 0) < 0)
-		return -1;
-
-	return (uint64_t)tv.tv_sec * 1000 * 1000 * 1000 + tv.tv_usec * 1000;
+	return events_now();
 }
 
 #	if defined(__APPLE__) || defined(__MACH__)
-- 
2.43.0


From a66309298949e93f05210a1b3e3afed07b7e51c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 04/78] fix: timers longer than 2147 ms overflowed

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 28ff29c..0ba06ae 100644
--- a/src/events.c
+++ b/src/events.c
@@ -884,7 +884,7 @@ static actor_t *events_actor_timeout(events_t *loop, int ms, actor_cb timer, voi
 		: timeout;
 
 	if (actor_running != NULL) {
-		when = (size_t)(events_nsec() + ms * 1000000);
+		when = (size_t)(events_nsec() + (uint64_t)ms * 1000000);
 		for (t = loop->timers->head; t != NULL && t->alarmtime < when; t = t->next)
 			;
 
-- 
2.43.0


From 8733a0cb6b6561d0413ae26728863afe7bddc435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 05/78] fix: delay() truncated before dividing

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 0ba06ae..68c345e 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1386,7 +1386,7 @@ EVENTS_INLINE uint32_t delay(uint32_t ms) {
 	add_timeout(__thrd()->running, __thrd()->running, ms, now);
 	task_switch(__thrd()->current_handle);
 
-	return (uint32_t)(events_nsec() - now) / 1000000;
+	return (uint32_t)((events_nsec() - now) / 1000000);
 }
 
 static void wait_cb(fds_t fd, int event, void *arg) {
-- 
2.43.0


From 8f9068bb73e4709e021f8d0649d865af093396f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 06/78] fix: repeating or clearing a pending timer

events_repeat_actor on a timer still in the list linked it twice, events_clear_actor did not stop it,
and a timer whose callback no longer asked for another run kept its loop alive forever.
---
 src/events.c          | 24 ++++++++++++++++++++++++
 src/events_internal.h |  1 +
 2 files changed, 25 insertions(+)

diff --git a/src/events.c b/src/events.c
index 68c345e..b1cb2a5 100644
--- a/src/events.c
+++ b/src/events.c
@@ -810,6 +810,7 @@ EVENTS_INLINE void events_handle_timeout_internal(events_t *loop) {
 	}
 }
 
+/* timers and sleeps must not follow steps of the wall clock */
 static EVENTS_INLINE uint64_t events_nsec(void) {
 	return events_now();
 }
@@ -917,7 +918,22 @@ static actor_t *events_actor_timeout(events_t *loop, int ms, actor_cb timer, voi
 	return t;
 }
 
+/* Takes a still pending `actor` off its loop's timers. */
+static bool events_actor_unlink(actor_t *actor) {
+	timerlist_t *l = actor->loop->timers;
+	actor_t *t = l->head;
+	while (t != NULL && t != actor)
+		t = t->next;
+
+	if (t == NULL)
+		return false;
+
+	dequeue(l, t);
+	return true;
+}
+
 EVENTS_INLINE actor_t *events_repeat_actor(actor_t *actor, int ms) {
+	(void)events_actor_unlink(actor);
 	actor->repeating = 1;
 	actor->loop->active_timers--;
 	return events_actor_timeout(actor->loop, ms, actor->actor, actor->args, actor);
@@ -925,6 +941,10 @@ EVENTS_INLINE actor_t *events_repeat_actor(actor_t *actor, int ms) {
 
 EVENTS_INLINE void events_clear_actor(actor_t *actor) {
 	actor->repeating = 0;
+	if (events_actor_unlink(actor) && !actor->running) {
+		actor->loop->active_timers--;
+		events_free(actor);
+	}
 }
 
 EVENTS_INLINE actor_t *events_actor(events_t *loop, int ms, actor_cb timer, void *args) {
@@ -958,7 +978,11 @@ static int events_execute(events_t *loop, int max_wait) {
 	l = loop->timers;
 	while ((t = l->head) && now >= t->alarmtime) {
 		dequeue(l, t);
+		/* one off, unless the callback asks for another run */
+		t->repeating = 0;
+		t->running = 1;
 		t->actor(t, t->args);
+		t->running = 0;
 		if (!t->repeating) {
 			events_free(t);
 			loop->active_timers--;
diff --git a/src/events_internal.h b/src/events_internal.h
index 8c55633..4e07ad8 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -294,6 +294,7 @@ struct sys_events_s {
 
 struct actors_s {
 	int repeating;
+	int running;
 	size_t alarmtime;
 	actor_cb actor;
 	void *args;
-- 
2.43.0


From efb8a784ce2a456bcc705598d58a382595e0be6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 07/78] fix: sleepers are served even while other tasks keep
 yielding

---
 src/events.c | 28 ++--------------------------
 1 file changed, 2 insertions(+), 26 deletions(-)

diff --git a/src/events.c b/src/events.c
index b1cb2a5..5d32a34 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1193,11 +1193,6 @@ void task_func(void) {
 	task_done(); /* called only if coroutine function returns */
 }
 
-static EVENTS_INLINE void task_sleep_switch(void) {
-	task_switch(__thrd()->sleep_handle);
-	task_scheduler_switch();
-}
-
 /* Returns task status state string. */
 static EVENTS_INLINE const char *task_state(int status) {
 	switch (status) {
@@ -1330,9 +1325,8 @@ static void *task_wait_system(void *v) {
 #ifdef _WIN32
 		__thrd()->active_timer++;
 #endif
-		/* let everyone else run */
-		while (task_yielding_active() > 0)
-			;
+		/* let everyone else run, sleepers are due even if some never stop to */
+		(void)task_yielding_active();
 #ifdef _WIN32
 		__thrd()->active_timer--;
 #endif
@@ -2379,15 +2373,6 @@ EVENTS_INLINE void resume(tasks_t *co) {
 			suspend();
 		else
 			task_switch(co);
-		if (active_task() == atexit_ctr_c_task && __thrd()->sleep_count == 1) {
-#ifndef _WIN32
-			__thrd()->active_timer++;
-#endif
-			task_sleep_switch();
-#ifndef _WIN32
-			__thrd()->active_timer--;
-#endif
-		}
 	}
 }
 
@@ -2397,15 +2382,6 @@ EVENTS_INLINE void yield(void) {
 	t->ready = true;
 	enqueue(l, t);
 	suspend();
-	if (active_task() == atexit_ctr_c_task && __thrd()->sleep_count == 1) {
-#ifndef _WIN32
-		__thrd()->active_timer++;
-#endif
-		task_sleep_switch();
-#ifndef _WIN32
-		__thrd()->active_timer--;
-#endif
-	}
 }
 
 EVENTS_INLINE void tasks_stack_check(int n) {
-- 
2.43.0


From 52836650aa9618ef56407369315b45222593321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 08/78] fix: a woken sleeper's waiter is enqueued once

---
 src/events.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/events.c b/src/events.c
index 5d32a34..90526df 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1354,10 +1354,10 @@ static void *task_wait_system(void *v) {
 				t->ready = true;
 				enqueue(l, t);
 				if (t->sleeping != NULL) {
-					t = t->sleeping;
-					t->ready = true;
+					tasks_t *waiter = t->sleeping;
 					t->sleeping = NULL;
-					enqueue(l, t);
+					waiter->ready = true;
+					enqueue(l, waiter);
 				}
 			}
 		}
-- 
2.43.0


From 9eabd4210d8d514fdcd6133807a4dd0a4280a981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 09/78] fix: waitgroup uses its own loop variable

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 90526df..a431b79 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2179,7 +2179,7 @@ static void __thrd_waitfor(events_deque_t *q) {
 	yield();
 	while ($size(q->jobs) > 0) {
 		foreach(group in q->jobs) {
-			co = (tasks_t *)task.object;
+			co = (tasks_t *)group.object;
 			if (task_is_terminated(co)) {
 				$remove(q->jobs, igroup);
 				if (co->results != NULL)
-- 
2.43.0


From 0d14c766dcab6ddc9d4feb1ff36d03ef83d9f86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 10/78] fix: generators stay valid until shutdown and are
 queued once

---
 src/events.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/events.c b/src/events.c
index a431b79..8360559 100644
--- a/src/events.c
+++ b/src/events.c
@@ -305,6 +305,8 @@ EVENTS_INLINE void events_deinit(void) {
 			foreach_back(t in sys_event.gc) {
 				if (is_data(t.object))
 					$delete(t.object);
+				else if (data_type(t.object) == DATA_GENERATOR)
+					events_free(t.object);
 				else if (is_ptr_usable(t.object)
 					&& ((tasks_t *)t.object)->magic_number == TASK_MAGIC_NUMBER) {
 #if defined(_WIN32) && defined(USE_FIBER)
@@ -1183,6 +1185,8 @@ void task_awaitable(void) {
 	tasks_t *co = active_task();
 	param_t args = (param_t)co->args;
 	tasks_result_set(co, co->func(args));
+	if (co->is_generator)
+		co->generator->context = NULL;
 	data_delete(args);
 	deferred_unwind(co->garbage);
 	co->garbage = null;
@@ -1610,8 +1614,8 @@ generator_t generator(param_func_t fn, size_t num_of, ...) {
 			gen->type = DATA_GENERATOR;
 			t->generator = gen;
 			t->is_generator = true;
-			t->garbage = array();
-			$append(t->garbage, gen);
+			/* consumers may ask again after the last value, until `events_deinit()` */
+			data_gc(gen);
 		}
 	}
 
@@ -1636,17 +1640,12 @@ values_t yielded(generator_t gen) {
 	if (data_type(gen) != DATA_GENERATOR)
 		return data_values_empty->value;
 
-	while (!gen->is_ready && !gen->context->halt) {
-		if (gen->context->status == TASK_SUSPENDED) {
-			tasklist_t *l = __thrd()->run_queue;
-			enqueue(l, gen->context);
-		}
-
+	while (!gen->is_ready && !is_empty(gen->context)) {
 		active_info();
 		yield();
 	}
 
-	if (data_type(gen) != DATA_GENERATOR || (gen->context->halt && !gen->is_ready))
+	if (!gen->is_ready)
 		return data_values_empty->value;
 
 	active_task()->gen_id = gen->rid;
-- 
2.43.0


From 5c0cfeccb9ec9e1e1a73569934b25ab8f10069f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:53 +0000
Subject: [PATCH 11/78] fix: waiting for a group no longer queues members twice
 or miscounts tasks

---
 src/events.c | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/events.c b/src/events.c
index 8360559..2ad81ec 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2187,9 +2187,7 @@ static void __thrd_waitfor(events_deque_t *q) {
 				co->waiting = false;
 				task_delete(co);
 			} else {
-				if (co->status == TASK_NORMAL) {
-					enqueue(l, co);
-				} else if (co->status == TASK_SLEEPING) {
+				if (co->status == TASK_SLEEPING) {
 					is_sleeping = true;
 					co->sleeping = __thrd()->running;
 					suspend();
@@ -2250,9 +2248,7 @@ array_t waitfor(waitgroup_t wg) {
 					worker->waiting = false;
 					task_delete(worker);
 				} else {
-					if (worker->status == TASK_NORMAL) {
-						enqueue(l, worker);
-					} else if (worker->status == TASK_SLEEPING) {
+					if (worker->status == TASK_SLEEPING) {
 						is_sleeping = true;
 						worker->sleeping = __thrd()->running;
 						suspend();
@@ -2294,9 +2290,7 @@ array_t tasks_wait(task_group_t *wg) {
 	}
 
 	tasks_t *worker, *t = active_task();
-	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = NULL;
-	bool is_sleeping = false;
 	if (t->group_active && t->task_group == wg && !t->task_group->threaded) {
 		t->group_active = false;
 		t->group_finish = true;
@@ -2313,10 +2307,7 @@ array_t tasks_wait(task_group_t *wg) {
 					worker->waiting = false;
 					task_delete(worker);
 				} else {
-					if (worker->status == TASK_NORMAL) {
-						enqueue(l, worker);
-					} else if (worker->status == TASK_SLEEPING) {
-						is_sleeping = true;
+					if (worker->status == TASK_SLEEPING) {
 						worker->sleeping = __thrd()->running;
 						suspend();
 					}
@@ -2339,8 +2330,6 @@ array_t tasks_wait(task_group_t *wg) {
 		wg->group = NULL;
 		memset(wg, DATA_INVALID, sizeof(data_types));
 		events_free(wg);
-		if (!is_sleeping)
-			__thrd()->task_count--;
 	}
 
 	return wgr;
-- 
2.43.0


From 21704798495f77ff90ee87415499e33c1241f822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 12/78] fix: creating tasks in several threads at once
 corrupted the results table

---
 src/events.c          | 37 ++++++++++++++++++++++++++-----------
 src/events_internal.h |  1 +
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/events.c b/src/events.c
index 2ad81ec..3b46c3f 100644
--- a/src/events.c
+++ b/src/events.c
@@ -353,7 +353,11 @@ EVENTS_INLINE void events_deinit(void) {
 			events_free(r[i]);
 
 		atomic_init(&sys_event.results, NULL);
-		events_free((void *)r);
+		while (r != NULL) {
+			results_data_t *table = r - 1;
+			r = (results_data_t *)*table;
+			events_free((void *)table);
+		}
 	}
 
 	if (events_fsevents_tasks != null) {
@@ -1170,7 +1174,6 @@ static EVENTS_INLINE void tasks_result_set(tasks_t *co, void *data) {
 			results[co->rid]->is_terminated = true;
 			co->status = TASK_FINISH;
 		}
-		atomic_store_explicit(&sys_event.results, results, memory_order_release);
 	}
 }
 
@@ -1661,21 +1664,35 @@ static EVENTS_INLINE void task_yielding(tasks_t *co) {
 }
 
 static results_data_t tasks_create_result(void) {
-	results_data_t result, *results;
-	size_t id = atomic_fetch_add(&sys_event.result_id_generate, 1);
+	results_data_t result, *results, *table;
+	size_t id;
 	result = (results_data_t)events_malloc(sizeof(_results_data_t));
-	results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
-	if (id % sys_event.queue_size == 0 || results == NULL)
-		results = events_realloc(results, (id + sys_event.queue_size) * sizeof(results[0]));
-
 	result->is_ready = false;
 	result->is_terminated = false;
 	result->is_canceled = false;
-	result->id = id;
 	result->result.object = NULL;
 	result->type = DATA_RESULT;
+
+	/* any thread creates tasks, other threads read the table without a lock */
+	atomic_lock(&sys_event.lock);
+	id = atomic_load(&sys_event.result_id_generate);
+	results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
+	if (results == NULL || id == sys_event.results_size) {
+		/* a table in use is never freed before `events_deinit()`, it's linked in front */
+		sys_event.results_size = results == NULL ? sys_event.queue_size : id * 2;
+		table = (results_data_t *)events_calloc(sys_event.results_size + 1, sizeof(results[0]));
+		*table = (results_data_t)results;
+		table++;
+		if (results != NULL)
+			memcpy(table, results, id * sizeof(results[0]));
+		results = table;
+	}
+
+	result->id = id;
 	results[id] = result;
 	atomic_store_explicit(&sys_event.results, results, memory_order_release);
+	atomic_store(&sys_event.result_id_generate, id + 1);
+	atomic_unlock(&sys_event.lock);
 	return result;
 }
 
@@ -1792,7 +1809,6 @@ uint32_t task_push(tasks_t *t, bool has_result) {
 			if (has_result) {
 				results_data_t *results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
 				results[t->rid]->tid = t->tid;
-				atomic_store_explicit(&sys_event.results, results, memory_order_release);
 			}
 
 			enqueue_tasks(t);
@@ -1844,7 +1860,6 @@ EVENTS_INLINE void task_set_canceled(uint32_t id) {
 	if ((int)id > 0 && id < (uint32_t)atomic_load(&sys_event.result_id_generate)) {
 		results_data_t *results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
 		results[id]->is_canceled = true;
-		atomic_store_explicit(&sys_event.results, results, memory_order_release);
 	}
 }
 
diff --git a/src/events_internal.h b/src/events_internal.h
index 4e07ad8..ee4926e 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -253,6 +253,7 @@ struct sys_events_s {
 	int max_fd;
 	size_t cpu_count;
 	size_t queue_size;
+	size_t results_size; /* #of elements in results, guarded by lock */
 	size_t timeout_vec_size; /* #of elements in events_t.timeout.vec[0] */
 	size_t timeout_vec_of_vec_size; /* ... in timeout.vec_of_vec[0] */
 #if defined(_WIN32)
-- 
2.43.0


From 192dc013efe6f5edd8a2e929dec591cf6027359f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 13/78] fix: an array that grew moved away from its owner

---
 include/arrays.h | 26 +++++++++++++-------------
 src/arrays.c     | 15 ++++++++++-----
 src/async_tls.c  |  2 +-
 3 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/include/arrays.h b/include/arrays.h
index 9463abe..b10b6cc 100644
--- a/include/arrays.h
+++ b/include/arrays.h
@@ -199,10 +199,10 @@ C_API array_t array(void);
 C_API array_t arrays(size_t, ...);
 C_API array_t data_ex(size_t, va_list);
 C_API array_t data_copy(array_t des, array_t src);
-C_API void data_append(array_t, void *);
+C_API array_t data_append(array_t, void *);
 C_API values_t data_pop(array_t arr);
 C_API values_t data_shift(array_t arr);
-C_API void data_append_item(array_t arr, ...);
+C_API array_t data_append_item(array_t arr, ...);
 C_API void data_delete(array_t);
 C_API void data_remove(array_t, size_t);
 
@@ -212,7 +212,7 @@ C_API tuple_t data_tuple(array_t);
 C_API array_t data_reset(array_t);
 C_API size_t data_size(array_t);
 C_API size_t data_capacity(array_t);
-C_API void data_reserve(array_t, size_t);
+C_API array_t data_reserve(array_t, size_t);
 C_API atomic_spinlock *data_lock(array_t);
 C_API size_t data_queue_size(void);
 C_API data_types data_type(void *self);
@@ -248,15 +248,15 @@ C_API range_t range_char(const char *text);
 #ifndef $append
 /* Collect references for global cleanup. */
 #define $gc(ptr) 						data_gc((void *)ptr)
-#define $append(arr, value) 			data_append((array_t)arr, (void *)value)
-#define $append_double(arr, value) 		data_append_item((array_t)arr, DATA_DOUBLE, (double)value)
-#define $append_unsigned(arr, value)	data_append_item((array_t)arr, DATA_MAXSIZE, (size_t)value)
-#define $append_signed(arr, value) 		data_append_item((array_t)arr, DATA_LLONG, (int64_t)value)
-#define $append_string(arr, value) 		data_append_item((array_t)arr, DATA_STRING, (char *)value)
-#define $append_func(arr, value) 		data_append_item((array_t)arr, DATA_FUNC, (data_func_t)value)
-#define $append_char(arr, value) 		data_append_item((array_t)arr, DATA_CHAR, (char)value)
-#define $append_bool(arr, value) 		data_append_item((array_t)arr, DATA_BOOL, (bool)value)
-#define $append_short(arr, value) 		data_append_item((array_t)arr, DATA_SHORT, (short)value)
+#define $append(arr, value) 			((arr) = data_append((array_t)arr, (void *)value))
+#define $append_double(arr, value) 		((arr) = data_append_item((array_t)arr, DATA_DOUBLE, (double)value))
+#define $append_unsigned(arr, value)	((arr) = data_append_item((array_t)arr, DATA_MAXSIZE, (size_t)value))
+#define $append_signed(arr, value) 		((arr) = data_append_item((array_t)arr, DATA_LLONG, (int64_t)value))
+#define $append_string(arr, value) 		((arr) = data_append_item((array_t)arr, DATA_STRING, (char *)value))
+#define $append_func(arr, value) 		((arr) = data_append_item((array_t)arr, DATA_FUNC, (data_func_t)value))
+#define $append_char(arr, value) 		((arr) = data_append_item((array_t)arr, DATA_CHAR, (char)value))
+#define $append_bool(arr, value) 		((arr) = data_append_item((array_t)arr, DATA_BOOL, (bool)value))
+#define $append_short(arr, value) 		((arr) = data_append_item((array_t)arr, DATA_SHORT, (short)value))
 #define $copy(des, src) 				data_copy((array_t)des, (array_t)src)
 #define $remove(arr, index) 			data_remove((array_t)arr, index)
 #define $pop(arr) 						data_pop((array_t)arr)
@@ -267,7 +267,7 @@ C_API range_t range_char(const char *text);
 #define $delete(arr) 					data_delete((array_t)arr)
 #define $capacity(arr) 					data_capacity((array_t)arr)
 #define $lock(arr) 						data_lock((array_t)arr)
-#define $reserve(arr, cap)				data_reserve((array_t)arr, (size_t)cap)
+#define $reserve(arr, cap)				((arr) = data_reserve((array_t)arr, (size_t)cap))
 #endif
 
 #define trim_at(str, pos) (char *)((uintptr_t)(str) + (pos))
diff --git a/src/arrays.c b/src/arrays.c
index cc0ff10..91b5da8 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -124,9 +124,11 @@ EVENTS_INLINE atomic_spinlock *data_lock(array_t v) {
 	return &array_mutex(v);
 }
 
-EVENTS_INLINE void data_reserve(array_t v, size_t capacity) {
+EVENTS_INLINE array_t data_reserve(array_t v, size_t capacity) {
 	if (v && capacity)
 		array_reserve(v, capacity);
+
+	return v;
 }
 
 EVENTS_INLINE void data_remove(array_t arr, size_t i) {
@@ -150,7 +152,7 @@ EVENTS_INLINE void data_delete(array_t arr) {
 	}
 }
 
-EVENTS_INLINE void data_append(array_t arr, void *value) {
+EVENTS_INLINE array_t data_append(array_t arr, void *value) {
 	if (array_type(arr) == DATA_TUPLE)
 		throw(logic_error);
 
@@ -162,6 +164,7 @@ EVENTS_INLINE void data_append(array_t arr, void *value) {
 
 	arr[array_length(arr)].object = value;
 	array_set_size(arr, array_length(arr) + 1);
+	return arr;
 }
 
 EVENTS_INLINE values_t data_pop(array_t arr) {
@@ -194,7 +197,7 @@ EVENTS_INLINE values_t data_shift(array_t arr) {
 	return data_values_empty->value;
 }
 
-void data_append_item(array_t arr, ...) {
+array_t data_append_item(array_t arr, ...) {
 	if (array_type(arr) == DATA_TUPLE)
 		throw(logic_error);
 
@@ -229,6 +232,7 @@ void data_append_item(array_t arr, ...) {
 	}
 	va_end(ap);
 	array_set_size(arr, index + 1);
+	return arr;
 }
 
 EVENTS_INLINE array_t data_copy(array_t des, array_t src) {
@@ -302,9 +306,10 @@ array_t arrays(size_t count, ...) {
 }
 
 EVENTS_INLINE void data_gc(void *ptr) {
-	atomic_lock($lock(sys_event.gc));
+	/* not its own lock, that moves when it grows */
+	atomic_lock(&sys_event.lock);
 	$append(sys_event.gc, ptr);
-	atomic_unlock($lock(sys_event.gc));
+	atomic_unlock(&sys_event.lock);
 }
 
 EVENTS_INLINE array_t array(void) {
diff --git a/src/async_tls.c b/src/async_tls.c
index 670714e..5da1be1 100644
--- a/src/async_tls.c
+++ b/src/async_tls.c
@@ -422,7 +422,7 @@ static array_t thrd_return(array_t args, size_t numof, ...) {
 		$reset(args);
 		va_start(ap, numof);
 		for (i = 0; i < numof; i++)
-			data_append(args, va_arg(ap, void *));
+			$append(args, va_arg(ap, void *));
 		va_end(ap);
 
 		return args;
-- 
2.43.0


From 5ecbc96d98304259ffea2cc43999e6bee39628b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 14/78] fix: tasks of a growing pool queue were read after free

---
 src/deque.c           | 15 ++++++++-------
 src/events_internal.h |  3 ++-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/deque.c b/src/deque.c
index 94daaf3..4b37bc0 100644
--- a/src/deque.c
+++ b/src/deque.c
@@ -50,6 +50,7 @@ void deque_resize(events_deque_t *q) {
 		abort();
 
 	atomic_init(&new->size, new_size);
+	new->prev = a;
 	size_t i, t = atomic_load_explicit(&q->top, memory_order_relaxed);
 	size_t b = atomic_load_explicit(&q->bottom, memory_order_relaxed);
 	for (i = t; i < b; i++)
@@ -64,13 +65,11 @@ void deque_resize(events_deque_t *q) {
 	 *
 	 * In our context, the responsible deallocation of *a cannot occur at this
 	 * point, as another thread could potentially be in the process of reading
-	 * from it. Thus, we opt to abstain from freeing *a in this context,
-	 * resulting in memory leakage. It is worth noting that our expansion
+	 * from it. Thus, *a is kept until `deque_free`. It is worth noting that our expansion
 	 * strategy for these queues involves consistent doubling of their size;
-	 * this design choice ensures that any leaked memory remains bounded by the
+	 * this design choice ensures that any kept memory remains bounded by the
 	 * memory actively employed by the functional queues.
 	 */
-	events_free(a);
 }
 
 tasks_t *deque_take(events_deque_t *q) {
@@ -132,12 +131,14 @@ tasks_t *deque_steal(events_deque_t *q) {
 }
 
 void deque_free(events_deque_t *q) {
-	deque_array_t *a = NULL;
+	deque_array_t *a = NULL, *prev;
 	if (q != NULL) {
 		a = atomic_get(deque_array_t *, &q->array);
-		if (a != NULL) {
-			atomic_store(&q->array, NULL);
+		atomic_store(&q->array, NULL);
+		while (a != NULL) {
+			prev = a->prev;
 			events_free((void *)a);
+			a = prev;
 		}
 
 		memset(q, 0, sizeof(*q));
diff --git a/src/events_internal.h b/src/events_internal.h
index ee4926e..cfea26b 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -148,8 +148,9 @@ enum {
 typedef char events_cacheline_t[__ATOMIC_CACHE_LINE];
 
 make_atomic(tasks_t *, atomic_tasks_t)
-typedef struct {
+typedef struct deque_array_s {
 	atomic_size_t size;
+	struct deque_array_s *prev; /* smaller array it replaced */
 	atomic_tasks_t buffer[];
 } deque_array_t;
 make_atomic(deque_array_t *, atomic_task_array_t)
-- 
2.43.0


From 5dd61bb560a2960fe063af66b13c68cd4185a529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 15/78] fix: pool tasks lost or read after free, waitgroups of
 any size one after another

Several threads can add to the same queue, so adding takes the lock. go() no
longer reads a task that could be over already. A waitgroup with fewer members
than its capacity, a second waitgroup, and members waiting for tasks queued to
the same thread work.
---
 src/events.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/events.c b/src/events.c
index 3b46c3f..d8e3405 100644
--- a/src/events.c
+++ b/src/events.c
@@ -117,6 +117,7 @@ static void task_sleep_switch(void);
 static int tasks_schedulering(bool do_io);
 static void *task_wait_system(void *v);
 static void enqueue_tasks(tasks_t *t);
+static bool task_take(events_deque_t *queue);
 
 #include "deque.c"
 #include "asm.c"
@@ -1670,6 +1671,7 @@ static results_data_t tasks_create_result(void) {
 	result->is_ready = false;
 	result->is_terminated = false;
 	result->is_canceled = false;
+	result->tid = __thrd()->thrd_id;
 	result->result.object = NULL;
 	result->type = DATA_RESULT;
 
@@ -1780,12 +1782,18 @@ tasks_t *create_task(size_t heapsize, data_func_t func, void *args, bool is_thre
 }
 
 uint32_t task_push(tasks_t *t, bool has_result) {
+	/* once enqueued for another thread, the task could be over and gone already */
+	uint32_t id = TASK_ERRED;
+	if (t != NULL)
+		id = has_result ? t->rid : t->cid;
+
 	if (t && t->status == TASK_SUSPENDED && t->cid == DATA_INVALID) {
 		tasks_t *c = active_task();
 		bool is_group = false;
 		t->cid = (uint32_t)atomic_fetch_add(&sys_event.id_generate, 1) + 1;
 		t->rid = (has_result) ? tasks_create_result()->id : NO_RESULT;
 		t->taken = false;
+		id = has_result ? t->rid : t->cid;
 
 		/* keep track of tasks in waitgroup */
 		if (c->group_active && c->task_group != NULL && !c->group_finish) {
@@ -1815,7 +1823,7 @@ uint32_t task_push(tasks_t *t, bool has_result) {
 		}
 	}
 
-	return (t == NULL) ? TASK_ERRED : (has_result ? t->rid : t->cid);
+	return id;
 }
 
 static void accept_client_handler(param_t args) {
@@ -1835,8 +1843,6 @@ EVENTS_INLINE void accept_handler(client_cb connected, int client) {
 		tasks_t *t = create_task(Kb(32), (data_func_t)accept_client_handler, params, true, true);
 		if (!is_empty(t)) {
 			task_push(t, false);
-			events_deque_t *q = sys_event.local[t->tid];
-			atomic_flag_test_and_set(&q->started);
 			yield();
 		} else {
 			$delete(params);
@@ -2054,7 +2060,7 @@ static void tasks_poster(waitgroup_t wg) {
 			for (i = 0; i < $size(sys_event.tasks_cpu_idx); i++) {
 				k = sys_event.tasks_cpu_idx[i].u_int;
 				events_deque_t *q = sys_event.local[k];
-				for (c = 0; c < wg->capacity; c++) {
+				for (c = 0; c < wg->capacity && $size(wg->group) > 0; c++) {
 					tasks_t *t = (tasks_t *)$pop(wg->group).object;
 					t->tid = k;
 					$append(q->jobs, t);
@@ -2104,8 +2110,6 @@ void go_guard(size_t stacksize, guarded_func_t fn, defer_cb cleanup, void *any)
 		tasks_t *t = create_task(stacksize, (data_func_t)_os_guarded, params, true, true);
 		if (!is_empty(t)) {
 			task_push(t, false);
-			events_deque_t *q = sys_event.local[t->tid];
-			atomic_flag_test_and_set(&q->started);
 			yield();
 		} else {
 			$delete(params);
@@ -2192,6 +2196,8 @@ static void __thrd_waitfor(events_deque_t *q) {
 
 	yield();
 	while ($size(q->jobs) > 0) {
+		/* members could be waiting for others queued to this thread */
+		task_take(q);
 		foreach(group in q->jobs) {
 			co = (tasks_t *)group.object;
 			if (task_is_terminated(co)) {
@@ -2215,7 +2221,6 @@ static void __thrd_waitfor(events_deque_t *q) {
 		igroup = 0;
 	}
 
-	__thrd()->task_count--;
 	atomic_lock($lock(wg->group));
 	wg->count--;
 	atomic_unlock($lock(wg->group));
@@ -2235,6 +2240,8 @@ array_t waitfor(waitgroup_t wg) {
 		t->group_active = false;
 		t->group_finish = true;
 		wgr = array();
+		/* threads share it, it must not move */
+		$reserve(wgr, $size(wg->group) + 1);
 		wg->results = wgr;
 		tasks_poster(wg);
 		foreach(co in wg->group) {
@@ -2279,6 +2286,9 @@ array_t waitfor(waitgroup_t wg) {
 		while ((int)wg->count > 0)
 			yield();
 
+		/* the last thread could still be holding it */
+		atomic_lock($lock(wg->group));
+		atomic_unlock($lock(wg->group));
 		if ($size(wgr) == 0) {
 			$delete(wgr);
 			wgr = NULL;
@@ -2291,8 +2301,6 @@ array_t waitfor(waitgroup_t wg) {
 		wg->group = NULL;
 		memset(wg, DATA_INVALID, sizeof(data_types));
 		events_free(wg);
-		if (!is_sleeping)
-			__thrd()->task_count--;
 	}
 
 	return wgr;
@@ -2480,9 +2488,11 @@ static void enqueue_tasks(tasks_t *t) {
 	atomic_thread_fence(memory_order_seq_cst);
 	atomic_lock(&sys_event.lock);
 	events_deque_t *queue = sys_event.local[t->tid];
-	atomic_unlock(&sys_event.lock);
+	/* a queue has one owner at its end, other threads could be adding too */
 	deque_push(queue, t);
 	atomic_fetch_add(&queue->available, 1);
+	atomic_flag_test_and_set(&queue->started);
+	atomic_unlock(&sys_event.lock);
 }
 
 static void __tasks_pool_main(param_t args) {
-- 
2.43.0


From 36c2850f2ee6899cb1b2984853852f7a118c53c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 16/78] fix: small numbers in memory next to a block passed for
 the type marks of arrays and deferred calls

---
 include/arrays.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/arrays.h b/include/arrays.h
index b10b6cc..dffb029 100644
--- a/include/arrays.h
+++ b/include/arrays.h
@@ -57,7 +57,8 @@ typedef enum {
 	DATA_CHAR_P,
 	DATA_CONST_CHAR,
 	DATA_STRING,
-	DATA_OBJ,
+	/* From here on marks in memory, looked for where there might be none, no number to meet by chance. */
+	DATA_OBJ = 0x6ea7a0d0,
 	DATA_PTR,
 	DATA_RESULT,
 	DATA_POOL,
-- 
2.43.0


From 683f5181a6f7bcd7e88126e10432fb4a84d999d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 17/78] fix: guard sections and try blocks of threads and tasks
 that interleave shared one state

---
 include/except.h      |  7 +++++--
 src/events.c          |  5 +++++
 src/events_internal.h | 13 +++++++++++++
 src/except.c          | 38 ++++++++++++++++++++++++++++++++++++--
 4 files changed, 59 insertions(+), 4 deletions(-)

diff --git a/include/except.h b/include/except.h
index b215fde..4b93a66 100644
--- a/include/except.h
+++ b/include/except.h
@@ -429,8 +429,11 @@ C_API ex_unwind_func exception_unwind_func;
 C_API ex_terminate_func exception_terminate_func;
 C_API ex_terminate_func exception_ctrl_c_func;
 
-C_API ex_setup_func guard_setup_func;
-C_API ex_unwind_func guard_unwind_func;
+/* The `guard` hooks in force, every thread and every task has its own. */
+C_API ex_setup_func *guard_setup_hook(void);
+C_API ex_unwind_func *guard_unwind_hook(void);
+#define guard_setup_func	(*guard_setup_hook())
+#define guard_unwind_func	(*guard_unwind_hook())
 C_API ex_terminate_func guard_ctrl_c_func;
 C_API ex_terminate_func guard_terminate_func;
 
diff --git a/src/events.c b/src/events.c
index d8e3405..3bfa642 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1462,6 +1462,7 @@ void task_switch(tasks_t *handle) {
 	if (__thrd()->current_handle->status != TASK_SLEEPING)
 		__thrd()->current_handle->status = TASK_NORMAL;
 
+	ex_switch(coro_previous_handle->except, handle->except);
 	SwitchToFiber(handle->type->fiber);
 }
 
@@ -1483,6 +1484,7 @@ void task_switch(tasks_t *co) {
 		if (__thrd()->current_handle->status != TASK_SLEEPING)
 			__thrd()->current_handle->status = TASK_NORMAL;
 
+		ex_switch(task_previous_handle->except, co->except);
 		siglongjmp(((coroutine_t *)__thrd()->active_handle)->sig_ctx, 1);
 	}
 }
@@ -1559,6 +1561,7 @@ void task_switch(tasks_t *co) {
 	if (__thrd()->current_handle->status != TASK_SLEEPING)
 		__thrd()->current_handle->status = TASK_NORMAL;
 
+	ex_switch(task_previous_handle->except, co->except);
 	if (swapcontext((ucontext_t *)__thrd()->current_handle, (ucontext_t *)__thrd()->active_handle))
 		perror("Error! `swapcontext`");
 }
@@ -1575,6 +1578,7 @@ EVENTS_INLINE void task_switch(tasks_t *co) {
 	if (__thrd()->current_handle->status != TASK_SLEEPING)
 		__thrd()->current_handle->status = TASK_NORMAL;
 
+	ex_switch(task_previous_handle->except, co->except);
 	coro_swap(__thrd()->active_handle, task_previous_handle);
 }
 #endif
@@ -1765,6 +1769,7 @@ tasks_t *create_task(size_t heapsize, data_func_t func, void *args, bool is_thre
 	co->sleeping = NULL;
 	co->task_group = NULL;
 	co->scope = NULL;
+	memset(co->except, 0, sizeof(co->except));
 	co->garbage = NULL;
 	co->generator = NULL;
 	co->results = NULL;
diff --git a/src/events_internal.h b/src/events_internal.h
index cfea26b..06f9615 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -168,6 +168,14 @@ typedef struct events_deque_s {
 	atomic_task_array_t array;
 } events_deque_t;
 
+/* What's in force for exceptions: innermost `try` block, and `guard` section. */
+typedef struct ex_switch_s {
+	ex_context_t *ctx;
+	void *arena;
+	ex_setup_func setup;
+	ex_unwind_func unwind;
+} ex_switch_t;
+
 struct _future {
 	data_types type;
 	int id;
@@ -459,6 +467,8 @@ struct events_task_s {
 	array_t garbage;
 	data_func_t func;
 	void *args;
+	/* Exception state, while not running. */
+	ex_switch_t except[1];
 	void *user_data;
 	values_t *results;
 	char err_buf[ERR_BUF + 1];
@@ -514,6 +524,9 @@ typedef struct tasklist_s {
 struct ex_memory_s {
 	void *arena;
 	data_types status;
+/* Leaves the exception state of one task, and takes up that of another on the same thread. */
+void ex_switch(ex_switch_t *from, ex_switch_t *to);
+
 	int threading;
 	bool is_recovered;
 	bool is_protected;
diff --git a/src/except.c b/src/except.c
index 794e5b0..6493dc4 100644
--- a/src/except.c
+++ b/src/except.c
@@ -60,6 +60,7 @@ EX_EXCEPTION(bad_alloc);
 
 thrd_static(ex_memory_t, __scope, null)
 thrd_static(ex_context_t, except, null)
+thrd_static(ex_switch_t, guard_hooks, null)
 
 static volatile sig_atomic_t got_signal = false;
 static volatile sig_atomic_t got_uncaught_exception = false;
@@ -78,8 +79,6 @@ ex_terminate_func exception_terminate_func = null;
 static bool exception_signal_set = false;
 static ex_memory_t *atexit_ctr_c_unwind = null;
 
-ex_setup_func guard_setup_func = null;
-ex_unwind_func guard_unwind_func = null;
 ex_terminate_func guard_ctrl_c_func = null;
 ex_terminate_func guard_terminate_func = null;
 
@@ -397,6 +396,41 @@ static void scope_unwind_set(ex_context_t *ctx, const char *ex, const char *mess
 	ex_unwind_set(ctx, scope->is_protected);
 }
 
+EVENTS_INLINE ex_setup_func *guard_setup_hook(void) {
+	return &guard_hooks()->setup;
+}
+
+EVENTS_INLINE ex_unwind_func *guard_unwind_hook(void) {
+	return &guard_hooks()->unwind;
+}
+
+void ex_switch(ex_switch_t *from, ex_switch_t *to) {
+	ex_context_t *ctx = ex_local();
+	ex_memory_t *scope = scope_local();
+
+	from->ctx = ctx;
+	from->setup = guard_setup_func;
+	from->unwind = guard_unwind_func;
+	from->arena = is_empty(scope) ? null : scope->arena;
+	if (!is_empty(to->ctx)) {
+		ctx = to->ctx;
+	} else if (!is_empty(ctx)) {
+		/* Not in any `try` block yet. */
+		while (!is_empty(ctx->next))
+			ctx = ctx->next;
+	}
+
+	if (ctx != from->ctx)
+		ex_update(ctx);
+
+	guard_setup_func = to->setup;
+	guard_unwind_func = to->unwind;
+	if (!is_empty(scope) && scope->arena != to->arena) {
+		scope->arena = to->arena;
+		scope->status = is_empty(to->arena) ? DATA_UNGUARDED_STATUS : DATA_GUARDED_STATUS;
+	}
+}
+
 EVENTS_INLINE ex_context_t *ex_local(void) {
     thrd_local_return(ex_context_t *, except)
 }
-- 
2.43.0


From d1cba03bc378c3598695ff44e1a64dbe6a32dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 18/78] fix: promises freed under their waiters, outcomes of
 jobs and thread futures lost or mixed up

---
 include/except.h      |  3 ++-
 src/events.c          | 10 +++++----
 src/events_internal.h | 13 ++++++-----
 src/future.c          | 51 ++++++++++++++++++++++++++++++++-----------
 4 files changed, 54 insertions(+), 23 deletions(-)

diff --git a/include/except.h b/include/except.h
index 4b93a66..54b645b 100644
--- a/include/except.h
+++ b/include/except.h
@@ -356,7 +356,8 @@ will mark exception handled, if `true`.
         scope_unwind((_g_scope)->scope);		\
     } catch_if {                             	\
         scope_unwind((_g_scope)->scope);		\
-		if (!(_g_scope)->scope->is_recovered && try_caught(try_message())) {	\
+		if (!(_g_scope)->scope->is_recovered) {	\
+            ex_err.state = ex_catch_st;			\
             promise_erred(error, ex_err);		\
 		} 										\
     } finally {                                 \
diff --git a/src/events.c b/src/events.c
index 3bfa642..9c95e48 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2654,12 +2654,14 @@ static int __future_wrapper(void *arg) {
 			promise *worker = (promise *)$shift(queue->jobs).object;
 			atomic_unlock(&work->mutex);
 
-			if (worker && worker->func)
-				res->object = worker->func(worker->args);
+			/* The owner can free the promise as soon as it's set, only the arguments are ours. */
+			param_t args = worker->args;
+			worker->args = NULL;
+			res->object = (worker->func) ? worker->func(args) : NULL;
 			promise_set(worker, res->object);
 
-			$delete(worker->args);
-			if (is_data(res->object) && is_empty(scope_local()->local))
+			$delete(args);
+			if (is_data(res->object) && is_empty(scope_init()->local))
 				$delete(res->object);
 
 			scope_unwind(scope_local());
diff --git a/src/events_internal.h b/src/events_internal.h
index 06f9615..c3e52a0 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -199,6 +199,9 @@ struct _promise {
 	param_func_t func;
 	data_values_t result[1];
 	ex_memory_t *scope;
+	void *err;
+	const char *panic;
+	atomic_size_t refs;
 	atomic_spinlock mutex;
 	atomic_flag done;
 };
@@ -464,11 +467,11 @@ struct events_task_s {
 	generator_t generator;
 	task_group_t *task_group;
 	ex_memory_t *scope;
+	/* Exception state, while not running. */
+	ex_switch_t except[1];
 	array_t garbage;
 	data_func_t func;
 	void *args;
-	/* Exception state, while not running. */
-	ex_switch_t except[1];
 	void *user_data;
 	values_t *results;
 	char err_buf[ERR_BUF + 1];
@@ -521,12 +524,12 @@ typedef struct tasklist_s {
 	tasks_t *tail;
 } tasklist_t;
 
-struct ex_memory_s {
-	void *arena;
-	data_types status;
 /* Leaves the exception state of one task, and takes up that of another on the same thread. */
 void ex_switch(ex_switch_t *from, ex_switch_t *to);
 
+struct ex_memory_s {
+	void *arena;
+	data_types status;
 	int threading;
 	bool is_recovered;
 	bool is_protected;
diff --git a/src/future.c b/src/future.c
index d291fc5..cbabe79 100644
--- a/src/future.c
+++ b/src/future.c
@@ -16,6 +16,13 @@ static future_t future_create(thrd_func_t func, void *args) {
     return fut;
 }
 
+/* The owner, and every `queue_work_handler` still looking, hold one reference each. */
+static void promise_release(void *data) {
+	promise *p = (promise *)data;
+	if (atomic_fetch_sub(&p->refs, 1) == 1)
+		events_free(p);
+}
+
 static EVENTS_INLINE data_values_t *promise_get(promise *p) {
 	while (!atomic_flag_load(&p->done))
 		os_sleep(0);
@@ -25,8 +32,8 @@ static EVENTS_INLINE data_values_t *promise_get(promise *p) {
 
 void promise_erred(promise *p, ex_context_t err) {
 	atomic_lock(&p->mutex);
-	p->scope->err = (void *)err.ex;
-	p->scope->_panic = err._panic;
+	p->err = (void *)err.ex;
+	p->panic = err._panic;
 	atomic_unlock(&p->mutex);
 	atomic_flag_test_and_set(&p->done);
 }
@@ -60,6 +67,9 @@ EVENTS_INLINE values_t promise_wait(promise *p) {
 	while (is_promise(p) && !atomic_flag_load(&p->done))
 		yield_active_info();
 
+	if (is_promise(p) && p->erred)
+		errno = p->erred;
+
 	return p->result->value;
 }
 
@@ -70,7 +80,7 @@ EVENTS_INLINE void promise_clean(promise *p) {
 			p->args = null;
 		}
 
-		events_free(p);
+		promise_release(p);
 	}
 }
 
@@ -100,7 +110,8 @@ static int _thrd_wrapper(void *arg) {
 #endif
 
 	scope_init()->local = (void *)f->promise->args;
-	f->promise->scope->err = null;
+	f->promise->err = null;
+	f->promise->panic = null;
 	f->promise->erred = 0;
 
 	guard {
@@ -109,6 +120,10 @@ static int _thrd_wrapper(void *arg) {
 		promise_set(f->promise, res->object);
 	} guarded_exception(f->promise);
 
+	/* A recovered exception, nothing to report, but it's finished. */
+	if (!thrd_is_done(f))
+		promise_set(f->promise, null);
+
 	scope_unwind(scope_local());
 #ifdef RP_MALLOC_H
 	rpmalloc_thread_finalize(1);
@@ -137,7 +152,7 @@ future_t thrd_async(thrd_func_t fn, size_t num_of_args, ...) {
 values_t thrd_get(future_t f) {
 	if (data_type(f) == DATA_FUTURE) {
 		data_values_t *r = promise_get(f->promise);
-		if (os_join(f->thread, 0, NULL) == 0) {
+		if (os_join(f->thread, (uint32_t)-1, NULL) == 0) {
 			f->type = DATA_RESULT;
 			atomic_flag_clear(&f->promise->mutex);
 			atomic_flag_clear(&f->promise->done);
@@ -147,9 +162,9 @@ values_t thrd_get(future_t f) {
 			if (f->promise->erred)
 				errno = f->promise->erred;
 
-			if (!is_empty(f->promise->scope->err)) {
-				ex_throw(f->promise->scope->err,
-					"unknown", 0, "_thrd_wrapper", f->promise->scope->_panic, f->promise->scope->backtrace);
+			if (!is_empty(f->promise->err)) {
+				ex_throw((const char *)f->promise->err,
+					"unknown", 0, "_thrd_wrapper", f->promise->panic, f->promise->scope->backtrace);
 			}
 		}
 
@@ -263,6 +278,8 @@ static void queue_work_handler(param_t args) {
 
 	if (job->erred)
 		errno = job->erred;
+
+	promise_release(job);
 }
 
 promise *alloc_promise(void) {
@@ -270,7 +287,9 @@ promise *alloc_promise(void) {
 	if (!is_empty(f = (promise *)events_malloc(_mem_align_up(sizeof(promise), 2)))) {
 		f->args = null;
 		f->result->is_array = false;
-		f->result->value.integer = 0;
+		f->result->value.object = null;
+		atomic_init(&f->refs, 1);
+		f->erred = 0;
 		atomic_flag_clear(&f->mutex);
 		atomic_flag_clear(&f->done);
 		f->type = DATA_PROMISE;
@@ -295,7 +314,7 @@ promise *promise_work(promise *f, param_func_t fn, size_t num_args, ...) {
 			f->args = args;
 			f->func = fn;
 			f->result->extended = null;
-			f->result->value.integer = 0;
+			f->result->value.object = null;
 			f->result->is_array = false;
 			atomic_flag_clear(&f->mutex);
 			atomic_flag_clear(&f->done);
@@ -314,8 +333,10 @@ promise *promise_work(promise *f, param_func_t fn, size_t num_args, ...) {
 			}
 
 			array_t data = arrays(2, thrd, f);
+			atomic_fetch_add(&f->refs, 1);
 			tasks_t *t = create_task(Kb(32), (data_func_t)queue_work_handler, data, false, true);
 			if (task_push(t, false) == TASK_ERRED) {
+				promise_release(f);
 				promise_clean(f);
 				if (!is_empty(data))
 					$delete(data);
@@ -349,6 +370,7 @@ promise *queue_work(future *thrd, param_func_t fn, size_t num_args, ...) {
 			f->args = args;
 			f->func = fn;
 			f->result->is_array = false;
+			atomic_init(&f->refs, 2);
 			atomic_flag_clear(&f->mutex);
 			atomic_flag_clear(&f->done);
 			/* determent which thread tasks pool receive next `future` job. */
@@ -396,7 +418,7 @@ void queue_wait(array_t work, then_cb then) {
 			foreach(worker in work) {
 				if (!queue_is_valid(worker.object)) {
 					if (!is_empty(then)) {
-						defer_free(worker.object);
+						defer(promise_release, worker.object);
 						promise *value = (promise *)worker.object;
 						if (value->result->is_array == 1) {
 							tuple_t result = (tuple_t)value->result->value.object;
@@ -433,8 +455,11 @@ values_t queue_get(void *self) {
 		while (!atomic_flag_load(&p->done))
 			yield_active_info();
 
+		if (p->erred)
+			errno = p->erred;
+
 		if (p->result->is_array == 1) {
-			defer_free(p);
+			defer(promise_release, p);
 			defer_free(p->result->value.object);
 			p->result->is_array = DATA_INVALID;
 			return *(tuple_t)(p->result->value.object);
@@ -442,7 +467,7 @@ values_t queue_get(void *self) {
 
 		if (p->result->is_array == 0) {
 			p->result->is_array = DATA_INVALID;
-			defer_free(p);
+			defer(promise_release, p);
 			return p->result->value;
 		}
 	}
-- 
2.43.0


From 4d01cffc28279bcd91c43d8bd2d4688fcd8e1012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:32 +0000
Subject: [PATCH 19/78] fix: signals that arrive together or during another
 callback ended the program, loops mistook a signal for the descriptor of its
 number

---
 src/events.c          | 16 +++++++----
 src/events_internal.h |  2 +-
 src/os_unix.c         | 62 +++++++++++++++++++++++++++----------------
 3 files changed, 51 insertions(+), 29 deletions(-)

diff --git a/src/events.c b/src/events.c
index 9c95e48..c1de9ca 100644
--- a/src/events.c
+++ b/src/events.c
@@ -559,11 +559,16 @@ int events_add(events_t *loop, fds_t sfd, int event, int timeout_in_secs,
 #endif
 	target = events_target(fd);
 	if (event == EVENTS_SIGNAL) {
+		events_t *old = target->signal_set ? events_signals()[target->signal_idx].loop : NULL;
 		if ((sig_idx = events_add_signal(fd, callback, cb_arg)) >= 0) {
 			loop->signal_handlers = events_signals();
-			loop->active_signals++;
+			atomic_fetch_add(&loop->active_signals, 1);
+			if (old != NULL)
+				atomic_fetch_sub(&old->active_signals, 1);
+
 			loop->signal_handlers[sig_idx].loop = loop;
-			target->loop = loop;
+			if (target->loop_id == 0)
+				target->loop = loop;
 			target->signal_idx = sig_idx;
 			target->signal_set = true;
 			return 0;
@@ -622,10 +627,11 @@ int events_del(fds_t sfd) {
 	if (target->signal_set) {
 		signal_handlers = events_signals();
 		if (signal_handlers[target->signal_idx].sig == fd
-			&& signal_handlers[target->signal_idx].is_running) {
+			&& (signal_handlers[target->signal_idx].is_running || target->loop_id == 0)) {
+			loop = signal_handlers[target->signal_idx].loop;
 			events_del_signal(fd, target->signal_idx);
 			target->signal_set = false;
-			target->loop->active_signals--;
+			atomic_fetch_sub(&loop->active_signals, 1);
 			return 0;
 		}
 	}
@@ -961,7 +967,7 @@ EVENTS_INLINE actor_t *events_actor(events_t *loop, int ms, actor_cb timer, void
 EVENTS_INLINE events_t *events_loop(fds_t sfd) {
 	assert(EVENTS_IS_INITD_AND_FD_IN_RANGE(socket2fd(sfd)));
 	events_fd_t *target = events_target(socket2fd(sfd));
-	return (target->signal_set)
+	return (target->signal_set && target->loop_id == 0)
 		? events_signals()[target->signal_idx].loop : target->loop;
 }
 
diff --git a/src/events_internal.h b/src/events_internal.h
index c3e52a0..5bc44bf 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -325,7 +325,7 @@ struct events_loop_s {
 	/* read only */
 	events_id_t loop_id;
 	int inotify_fd;
-	size_t active_signals;
+	atomic_size_t active_signals;
 	size_t active_descriptors;
 	size_t active_io;
 	size_t active_timers;
diff --git a/src/os_unix.c b/src/os_unix.c
index d37cd46..c88c428 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -18,7 +18,9 @@
 static void clear_pseudo_events(void);
 static sigset_t events_siglock, events_siglock_all;
 static struct sigaction events_sig_sa = {0}, events_sig_osa = {0};
-static volatile sig_atomic_t signal_running = false;
+static atomic_flag signal_running = ATOMIC_FLAG_INIT;
+static atomic_size_t events_sig_waiting = 0;
+static atomic_size_t events_sig_count[NSIG] = {0};
 static sys_signal_t events_sig[max_event_sig] = {0};
 volatile sig_atomic_t events_got_signal = 0;
 
@@ -646,39 +648,47 @@ int exec_wait(process_t ps, uint32_t timeout_ms, int *exit_code) {
 	return 0;
 }
 
-static void events_sig_handler(int sig) {
-	if (signal_running)
-		exit(1);
-
-	signal_running = true;
+static void events_sig_run(int sig) {
 	int i;
-
-	events_sigblock;
-	events_got_signal++;
 	for (i = 0; i < max_event_sig; i++) {
 		if (events_sig[i].sig == sig && events_sig[i].proc != NULL) {
-			events_got_signal--;
 			events_sig[i].is_running = true;
 			events_sig[i].proc(sig, EVENTS_SIGNAL, events_sig[i].data);
 			events_sig[i].is_running = false;
 			break;
 		}
 	}
-	events_sigunblock;
-	signal_running = false;
+}
+
+static void events_sig_handler(int sig) {
+	int i;
+
+	/* Other threads can take a signal meanwhile, it's left to who is running callbacks. */
+	atomic_fetch_add(&events_sig_count[sig], 1);
+	atomic_fetch_add(&events_sig_waiting, 1);
+	while (atomic_load(&events_sig_waiting) > 0 && !atomic_flag_test_and_set(&signal_running)) {
+		for (i = 1; i < NSIG; i++) {
+			while (atomic_load(&events_sig_count[i]) > 0) {
+				atomic_fetch_sub(&events_sig_count[i], 1);
+				atomic_fetch_sub(&events_sig_waiting, 1);
+				events_sig_run(i);
+			}
+		}
+		atomic_flag_clear(&signal_running);
+	}
 }
 
 void events_del_signal(int sig, int i) {
 	if (events_sig[i].sig == sig) {
-		events_sig[i].proc = NULL;
-		events_sig[i].is_running = false;
-		events_sig[i].data = NULL;
-		events_sig[i].sig = -1;
 		events_sig_sa.sa_handler = SIG_DFL;
 		if (sigemptyset(&events_sig_sa.sa_mask) != 0)
 			cerr("Cannot setup handler for signal no %d"CLR_LN, sig);
 		else if (sigaction(sig, &events_sig_sa, NULL) != 0)
 			cerr("Cannot restore handler for signal no %d"CLR_LN, sig);
+		events_sig[i].is_running = false;
+		events_sig[i].data = NULL;
+		events_sig[i].sig = -1;
+		events_sig[i].proc = NULL;
 	}
 }
 
@@ -689,6 +699,11 @@ sys_signal_t *events_signals(void) {
 int events_add_signal(int sig, sig_cb proc, void *data) {
 	int i;
 	for (i = 0; i < max_event_sig; i++) {
+		if (events_sig[i].proc && events_sig[i].sig == sig)
+			break;
+	}
+
+	for (i = (i == max_event_sig) ? 0 : i; i < max_event_sig; i++) {
 		if (!events_sig[i].proc || events_sig[i].sig == sig)
 			break;
 	}
@@ -706,20 +721,21 @@ int events_add_signal(int sig, sig_cb proc, void *data) {
 	 */
 	events_sig_sa.sa_handler = events_sig_handler;
 	events_sig_sa.sa_flags = SA_RESTART;
-	if (sigemptyset(&events_sig_sa.sa_mask) != 0) {
+	events_sig[i].data = data;
+	events_sig[i].loop = NULL;
+	events_sig[i].is_running = false;
+	events_sig[i].sig = sig;
+	events_sig[i].proc = proc;
+	if (sigfillset(&events_sig_sa.sa_mask) != 0) {
 		cerr("Cannot setup handler for signal no (%d)"CLR_LN, sig);
+		events_sig[i].proc = NULL;
 		events_sigunblock;
 		return -1;
 	} else if (sigaction(sig, &events_sig_sa, NULL) != 0) {
 		cerr("Cannot install handler for signal no (%d)"CLR_LN, sig);
+		events_sig[i].proc = NULL;
 		events_sigunblock;
 		return -1;
-	} else {
-		events_sig[i].proc = proc;
-		events_sig[i].data = data;
-		events_sig[i].loop = NULL;
-		events_sig[i].is_running = false;
-		events_sig[i].sig = sig;
 	}
 	events_sigunblock;
 	return i;
-- 
2.43.0


From 577a6fc7a840a76ea2b9e630e6e68e7855a089ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:33 +0000
Subject: [PATCH 20/78] fix: catch_if ran twice and hid finally, caught()
 compared another exception, deferred calls ran early or never

---
 src/events.c | 10 +++-------
 src/except.c | 37 +++++++++++++++++++++----------------
 2 files changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/events.c b/src/events.c
index c1de9ca..5eca4a0 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1939,13 +1939,9 @@ static int _defer_init(void *ptr) {
 		return TASK_ERRED;
 
 	ex_memory_t *scope = null;
-	if (tasks_is_active()) {
-		tasks_t *t = null;
-		if (!is_empty(__thrd()->running))
-			t = __thrd()->running;
-		else
-			t = active_task();
-
+	/* Outside of any task it's up to the scope of the thread, or job, when to run it. */
+	if (tasks_is_active() && !is_empty(__thrd()->running)) {
+		tasks_t *t = __thrd()->running;
 		if (!is_empty(t->scope) && is_ptr_usable(t->scope) && is_data(t->scope->defer_arr)) {
 			scope = t->scope;
 			atomic_lock($lock(scope->defer_arr));
diff --git a/src/except.c b/src/except.c
index 6493dc4..87cc6be 100644
--- a/src/except.c
+++ b/src/except.c
@@ -899,6 +899,7 @@ EVENTS_INLINE ex_error_t *try_updating_err(ex_error_t *err, ex_context_t *ex_err
     err->name = ex_err->ex;
 #endif
     err->file = ex_err->file;
+    err->function = ex_err->function;
     err->backtrace = ex_err->backtrace;
     err->line = ex_err->line;
 	err->is_caught = ex_err->state == ex_catch_st;
@@ -971,7 +972,7 @@ bool try_next(ex_error_t *err, ex_context_t *ex_err) {
 bool try_catching(char *type, ex_error_t *err, ex_context_t *ex_err) {
     /* check if this CATCH block can handle current exception */
     bool status = false;
-    if (ex_err->state == ex_throw_st) {
+    if (ex_err->state == ex_throw_st && err->stage == ex_throw_st) {
         try_updating_err(err, ex_err);
         if (str_is("_if", type)) {
             status = true;
@@ -998,21 +999,16 @@ EVENTS_INLINE bool try_finallying(ex_error_t *err, ex_context_t *ex_err) {
 
 bool try_caught(const char *err) {
 	ex_memory_t *scope = scope_local();
-	if (!is_empty(scope)) {
-		const char *exception = !is_empty(scope->_panic) ? scope->_panic : scope->err;
-		if ((scope->is_recovered = str_is(err, exception)))
-			ex_local()->state = ex_catch_st;
-
-		return scope->is_recovered;
-	}
+	ex_context_t *ctx = ex_local();
+	/* The scope has the last exception of the thread, which might not be the one of this block. */
+	bool is_match = str_is(err, !is_empty((void *)ctx->_panic) ? ctx->_panic : ctx->ex);
+	if (!is_empty(scope))
+		scope->is_recovered = is_match;
 
-	const char *exception = !is_empty(ex_local()->_panic) ? ex_local()->_panic : ex_local()->ex;
-	if (str_is(err, exception)) {
-		ex_local()->state = ex_catch_st;
-		return true;
-	}
+	if (is_match)
+		ctx->state = ex_catch_st;
 
-	return false;
+	return is_match;
 }
 
 EVENTS_INLINE const char *try_message(void) {
@@ -1051,6 +1047,9 @@ ex_memory_t *scope_init(void) {
 			atexit_ctr_c_unwind = scope;
 
 		atexit(scope_destroy);
+	} else if (is_empty(scope->defer_arr)) {
+		/* Was unwound, and is in use again. */
+		scope->defer_arr = array();
 	}
 
 	return scope;
@@ -1081,6 +1080,12 @@ void scope_unwind(ex_memory_t *scope) {
 	bool defer_ran = false;
 	size_t i;
 
+	/* Not ended by an exception, the ones before have been handled. */
+	if (scope->status == DATA_GUARDED_STATUS && ex_init()->state == ex_try_st) {
+		scope->err = null;
+		scope->_panic = null;
+	}
+
 	scope->is_recovered = is_empty(scope->err);
 	foreach_back(arr in scope->defer_arr) {
 		if (is_ptr_usable(arr.object)) {
@@ -1141,7 +1146,6 @@ void *fence(void *ptr, func_t func) {
 		return null;
 
 	ex_memory_t *scope = get_scope();
-	ex_protect_ptr(scope->protector, ptr, func);
 	scope->is_protected = true;
 	scope_deferred(scope, func, ptr);
 
@@ -1223,7 +1227,8 @@ void guard_set(ex_context_t *ctx, const char *ex, const char *message) {
         scope->_panic = message;
         ctx->is_guarded = true;
         ex_swap_set(ctx, (void*)scope);
-        ex_unwind_set(ctx, scope->is_protected);
+        /* The section unwinds when it ends, an inner block might handle the exception. */
+        ex_unwind_set(ctx, false);
     }
 }
 
-- 
2.43.0


From 887fc47d3109cad0dddaa713ea8f23b4a44e3083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:36 +0000
Subject: [PATCH 21/78] fix: a failing registration no longer aborts or hangs
 the waiting task

---
 src/epoll.c  | 6 ++++--
 src/events.c | 7 ++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index 0039331..ed407ff 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -121,8 +121,10 @@ int events_update_internal(events_t *_loop, int fd, int event) {
 	} else {
 		SET(EPOLL_CTL_MOD, 0);
 		if (epoll_ret != 0) {
-			assert(errno == ENOENT);
-			SET(EPOLL_CTL_ADD, 1);
+			if (errno == ENOENT)
+				SET(EPOLL_CTL_ADD, 0);
+			if (epoll_ret != 0)
+				return -1;
 		}
 	}
 
diff --git a/src/events.c b/src/events.c
index 5eca4a0..8981f36 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1441,7 +1441,12 @@ void async_wait(int fd, int rw) {
 			break;
 	}
 
-	events_add(__thrd()->loop, fd, bits, 0, wait_cb, (void *)__thrd()->running);
+	/* Nothing would ever resume the task, let the others run and the caller try again. */
+	if (events_add(__thrd()->loop, fd, bits, 0, wait_cb, (void *)__thrd()->running) < 0) {
+		yield();
+		return;
+	}
+
 	task_switch(__thrd()->current_handle);
 }
 
-- 
2.43.0


From dd4322dd7cb417ccd31f5727817ede625fb37797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 22/78] fix: two tasks can wait on one descriptor

---
 src/events.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/events.c b/src/events.c
index 8981f36..91ea6ec 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1441,8 +1441,10 @@ void async_wait(int fd, int rw) {
 			break;
 	}
 
-	/* Nothing would ever resume the task, let the others run and the caller try again. */
-	if (events_add(__thrd()->loop, fd, bits, 0, wait_cb, (void *)__thrd()->running) < 0) {
+	/* Nothing would ever resume the task, or another task waiting on this descriptor would
+	lose its registration: let the others run and the caller try again. */
+	if ((EVENTS_IS_INITD_AND_FD_IN_RANGE(fd) && events_is_registered(NULL, fd))
+		|| events_add(__thrd()->loop, fd, bits, 0, wait_cb, (void *)__thrd()->running) < 0) {
 		yield();
 		return;
 	}
-- 
2.43.0


From ae01d61816d00b389c87fcc72da42ab83feae802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:54 +0000
Subject: [PATCH 23/78] fix: async_connect reports why it failed and waits on a
 full backlog

---
 src/async_io.c | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 7f891c7..7855bc8 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -252,7 +252,10 @@ fds_t async_connect(char *hostname, int port, int protocol) {
 		uds->addr->sun.sun_family = AF_UNIX;
 		uds->socket= fd;
 		uds->type = DATA_UNIX;
-		err = connect(fd, (struct sockaddr *)&uds->addr->sun, sizeof(uds->addr->sun));
+		/* With a full backlog nothing is in progress. */
+		while ((err = connect(fd, (struct sockaddr *)&uds->addr->sun, sizeof(uds->addr->sun))) < 0
+			&& os_geterror() == EAGAIN)
+			yield();
 		memset(&usa, 0, sizeof(usa));
 		sa = &usa;
 		sn = sizeof(sa->sun);
@@ -269,30 +272,35 @@ fds_t async_connect(char *hostname, int port, int protocol) {
 		memcpy(&sa->storage, &usa.storage, sizeof(usa.storage));
 	}
 
-	if (err < 0 && (os_geterror() != EINPROGRESS && os_geterror() != EAGAIN)) {
+	if (err < 0 && ((n = os_geterror()) != EINPROGRESS && n != EAGAIN)) {
 		close(fd);
 		if (is_unix)
 			events_free(uds);
+		errno = n;
 		return -1;
 	}
 
 	// wait for finish
-	async_wait(fd, 'w');
-	if (getpeername(fd, (is_unix ? (struct sockaddr *)&sa->sun : &sa->sa), &sn) >= 0) {
-		events_target(socket2fd(fd))->uds = uds;
-		return fd;
-	}
+	do {
+		socklen_t len = sn;
+		async_wait(fd, 'w');
+		if (getpeername(fd, (is_unix ? (struct sockaddr *)&sa->sun : &sa->sa), &len) >= 0) {
+			events_target(socket2fd(fd))->uds = uds;
+			return fd;
+		}
 
-	// report error
-	sn = (int)sizeof(n);
-	getsockopt(fd, SOL_SOCKET, SO_ERROR, (char *)&n, &sn);
-	if (n == 0)
-		errno = os_geterror();
+		// still connecting, if there is no error
+		err = os_geterror();
+		n = 0;
+		len = sizeof(n);
+		getsockopt(fd, SOL_SOCKET, SO_ERROR, (char *)&n, &len);
+	} while (n == 0 && err == ENOTCONN);
 
+	// report error
+	close(fd);
 	if (is_unix)
 		events_free(uds);
-
-	close(fd);
+	errno = n ? n : err;
 	return -1;
 }
 
-- 
2.43.0


From 298debbffd6f3f9f1f048288acc6fdf8bb627ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:54 +0000
Subject: [PATCH 24/78] fix: async_accept waits on when a connection is gone

---
 src/async_io.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 7855bc8..b00d2c0 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -179,10 +179,15 @@ fds_t async_accept(fds_t fd, char *server, int *port) {
 	bool is_unix = socket_is_uds(socket2fd(fd));
 
 	memset(&usa, 0, sizeof(usa));
-	async_wait(fd, 'r');
-	len = is_unix ? sizeof(s_usa->sun)
-		: (s_usa->sa.sa_family == AF_INET6 ? sizeof(s_usa->sin6) : sizeof(s_usa->sin));
-	if ((cfd = accept(fd, (is_unix ? (struct sockaddr *)&usa.sun : (struct sockaddr *)&usa.sa), &len)) < 0) {
+	do {
+		async_wait(fd, 'r');
+		len = is_unix ? sizeof(s_usa->sun)
+			: (s_usa->sa.sa_family == AF_INET6 ? sizeof(s_usa->sin6) : sizeof(s_usa->sin));
+		/* The connection may be gone, or taken by another task, keep waiting for the next. */
+	} while ((cfd = accept(fd, (is_unix ? (struct sockaddr *)&usa.sun : (struct sockaddr *)&usa.sa), &len)) < 0
+		&& (os_geterror() == EAGAIN || os_geterror() == ECONNABORTED));
+
+	if (cfd < 0) {
 		errno = os_geterror();
 		return -1;
 	}
-- 
2.43.0


From 24a2c6e7bc713b079397e158b841372c76078044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:54 +0000
Subject: [PATCH 25/78] fix: async_bind takes no address and IPv6, and reports
 a failing listen

---
 src/async_io.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index b00d2c0..2d1c380 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -106,7 +106,7 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 	fds_t fd;
 	int err, proto, n = 0, ip_family = 0;
 	u_saddr_t usa;
-	socklen_t sn;
+	socklen_t sn = sizeof(n);
 	uds_t uds = (protocol == -1)
 		? (uds_t)events_calloc(1, sizeof(struct af_unix_s))
 		: null;
@@ -114,6 +114,9 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 
 	if (!is_unix) {
 		char host[ARRAY_SIZE] = {0};
+		if (address == NULL)
+			address = "0.0.0.0";
+
 		if (port)
 			snprintf(host, sizeof(host) - 1, "%s:%d", address, port);
 		else
@@ -126,7 +129,7 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 	}
 
 	proto = protocol ? SOCK_STREAM : SOCK_DGRAM;
-	if ((fd = socket((is_unix ? AF_UNIX : AF_INET),
+	if ((fd = socket((is_unix ? AF_UNIX : usa.sa.sa_family),
 		proto, (protocol ? IPPROTO_IP : IPPROTO_UDP))) < 0) {
 		errno = os_geterror();
 		if (is_unix)
@@ -154,16 +157,23 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 	}
 
 	if (err < 0) {
-		errno = os_geterror();
+		err = os_geterror();
 		close(fd);
 		if (is_unix)
 			events_free(uds);
+		errno = err;
 		return -1;
 	}
 
 	memcpy(&events_get_sockaddr(fd)->storage, &usa.storage, sizeof(usa.storage));
-	if (proto == SOCK_STREAM)
-		listen(fd, backlog);
+	if (proto == SOCK_STREAM && listen(fd, backlog) < 0) {
+		err = os_geterror();
+		close(fd);
+		if (is_unix)
+			events_free(uds);
+		errno = err;
+		return -1;
+	}
 
 	events_set_nonblocking(fd);
 	events_target(socket2fd(fd))->uds = uds;
-- 
2.43.0


From f6b19e701c0a08988c17193c78c5abdc00785915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 26/78] fix: async_sendto to an IPv6 peer failed, the address
 length was IPv4's

---
 src/async_udp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index d0dee28..c511b4d 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -58,7 +58,8 @@ void udp_to(int fd, char *addr, unsigned int flags) {
 int async_sendto(int fd, void *buf, int n) {
 	int m;
 	udp_t packet = events_target(fd)->udp;
-	socklen_t client_len = sizeof(sockaddr_t);
+	socklen_t client_len = !is_empty(packet->addr) && packet->addr->sa.sa_family == AF_INET6
+		? sizeof(packet->addr->sin6) : sizeof(packet->addr->sin);
 
 	while ((m = sendto(socket2fd(fd), (const char *)buf, n, packet->flags, (sockaddr_t *)packet->addr, client_len)) < 0
 		&& os_geterror() == EAGAIN) {
-- 
2.43.0


From 04d1c25947f230ef3f9b1dcc9ff29126e36cf645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 27/78] fix: udp_send answered whoever sent last instead of the
 packet's sender

---
 src/async_udp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index c511b4d..1501e1c 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -70,7 +70,9 @@ int async_sendto(int fd, void *buf, int n) {
 
 int udp_send(udp_t packet, void *buf, int n) {
 	int m;
-	u_saddr_t *addr = events_get_sockaddr(fd2socket(packet->socket));
+	/* The socket's own address is by now that of whoever sent last. */
+	u_saddr_t *addr = !is_empty(packet->addr)
+		? packet->addr : events_get_sockaddr(fd2socket(packet->socket));
 	socklen_t client_len = addr->sa.sa_family == AF_INET6 ? sizeof(addr->sin6) : sizeof(addr->sin);
 
 	while ((m = sendto(fd2socket(packet->socket), (const char *)buf, n,
-- 
2.43.0


From 4a0fc0902907ce45cb15f4fd283ca68b222d22e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 28/78] fix: udp_handler leaked a message its handler never
 asked for

---
 src/async_udp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/async_udp.c b/src/async_udp.c
index 1501e1c..b830a13 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -182,6 +182,7 @@ static void *udp_client(param_t args) {
 
 	defer_free((void *)client);
 	handlerFunc(client);
+	udp_message(client); /* never asked for, it's still to be freed */
 
 	return 0;
 }
-- 
2.43.0


From 1bb8ad20e3350b57c38c2bf43e353b95b2776cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 29/78] fix: udp_recv overran the task's stack, dropped empty
 datagrams and left the socket a freed packet

---
 src/async_udp.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index b830a13..205ea18 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -98,18 +98,23 @@ int async_recvfrom(int fd, void *buf, int n, unsigned int flags) {
 udp_t udp_recv(int fd) {
 	int m;
 	uchar *ip;
-	char buf[Kb(48)] = {0}, buf1[64] = {0};
+	char *buf = events_malloc(Kb(64)); /* holds the largest datagram, a task's stack does not */
 	udp_t client = null, packet = events_target(fd)->udp;
+	if (is_empty(buf)) {
+		errno = ENOMEM;
+		return null;
+	}
+
 	packet->addr = events_get_sockaddr(fd2socket(fd));
 	u_saddr_t *usa = packet->addr;
 	socklen_t client_len = usa->sa.sa_family == AF_INET6 ? sizeof(usa->sin6) : sizeof(usa->sin);
 
-	while ((m = recvfrom(socket2fd(fd), buf, sizeof(buf), packet->flags, &usa->sa, &client_len)) < 0
+	while ((m = recvfrom(socket2fd(fd), buf, Kb(64), packet->flags, &usa->sa, &client_len)) < 0
 		&& os_geterror() == EAGAIN) {
 		async_wait(fd, 'r');
 	}
 
-	if (m > 0) {
+	if (m >= 0) {
 		errno = ENOMEM;
 		client = events_calloc(1, sizeof(struct udp_packet_s));
 		if (!is_empty(client)) {
@@ -123,7 +128,6 @@ udp_t udp_recv(int fd) {
 				memcpy(client->message, buf, m);
 				client->message_set = true;
 				client->type = DATA_UDP;
-				events_target(fd)->udp = client;
 				errno = 0;
 			} else {
 				if (!is_empty(client->message))
@@ -133,11 +137,14 @@ udp_t udp_recv(int fd) {
 					events_free(client->addr);
 
 				events_free(client);
-				return null;
+				client = null;
 			}
 		}
 	}
 
+	m = errno;
+	events_free(buf);
+	errno = m;
 	return client;
 }
 
-- 
2.43.0


From cf35297d07bdb3ef5c5041819cd33130a793661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 30/78] fix: a job queued without arguments was dropped

---
 src/future.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/future.c b/src/future.c
index cbabe79..4b801d6 100644
--- a/src/future.c
+++ b/src/future.c
@@ -304,7 +304,8 @@ promise *promise_work(promise *f, param_func_t fn, size_t num_args, ...) {
 		future *thrded, *thrd = futures_pool();
 
 		va_start(ap, num_args);
-		array_t args = data_ex(num_args, ap);
+		/* a job without any arguments is still a job */
+		array_t args = num_args ? data_ex(num_args, ap) : arrays(0);
 		va_end(ap);
 
 		if (!is_empty(args)) {
@@ -362,7 +363,8 @@ promise *queue_work(future *thrd, param_func_t fn, size_t num_args, ...) {
 	future *thrded = null;
 
 	va_start(ap, num_args);
-	array_t args = data_ex(num_args, ap);
+	/* a job without any arguments is still a job */
+	array_t args = num_args ? data_ex(num_args, ap) : arrays(0);
 	va_end(ap);
 
 	if (!is_empty(args)) {
-- 
2.43.0


From 5ad74dc1ea95cac0b893a1156cc62b39b8584eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 31/78] fix: fs_close returned -1 without closing a descriptor
 sendfile had used last

---
 src/async_io.c        | 16 ++--------------
 src/events.c          |  1 -
 src/events_internal.h |  1 -
 3 files changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 2d1c380..e6b6df7 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -622,9 +622,7 @@ static EVENTS_INLINE void *_os_mkdir(param_t args) {
 }
 
 EVENTS_INLINE int fs_open(const char *path, int flag, int mode) {
-	future *thrd = futures_pool();
-	thrd->last_fd = TASK_DEAD;
-	return queue_get(queue_work(thrd, _os_open, 3, path, casting(flag), casting(mode))).integer;
+	return queue_get(queue_work(futures_pool(), _os_open, 3, path, casting(flag), casting(mode))).integer;
 }
 
 EVENTS_INLINE int fs_read(int fd, void *buf, uint32_t count) {
@@ -641,17 +639,7 @@ EVENTS_INLINE ssize_t fs_sendfile(int fd_out, int fd_in, off_t *offset, size_t l
 }
 
 EVENTS_INLINE int fs_close(int fd) {
-	future *thrd = futures_pool();
-	if (thrd->last_fd == fd) {
-		thrd->last_fd = TASK_ERRED;
-		return TASK_ERRED;
-	}
-
-	int r = queue_get(queue_work(thrd, _os_close, 1, casting(fd))).integer;
-	thrd->last_fd = fd;
-	fd = TASK_ERRED;
-
-	return r;
+	return queue_get(queue_work(futures_pool(), _os_close, 1, casting(fd))).integer;
 }
 
 EVENTS_INLINE int fs_unlink(const char *path) {
diff --git a/src/events.c b/src/events.c
index 91ea6ec..7ad8d55 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2707,7 +2707,6 @@ future *events_create_future(events_t *loop) {
 				f_work->queue->jobs = array();
 				f_work->queue->loop = loop;
 				f_work->queue->pool = f_work;
-				f_work->last_fd = TASK_ERRED;
 				f_work->type = DATA_THREAD;
 				local[index]->thread = os_create(__future_wrapper, (void *)f_work);
 				if (local[index]->thread != OS_NULL) {
diff --git a/src/events_internal.h b/src/events_internal.h
index 5bc44bf..ae4470f 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -179,7 +179,6 @@ typedef struct ex_switch_s {
 struct _future {
 	data_types type;
 	int id;
-	int last_fd;
 	events_deque_t *queue;
 	atomic_spinlock mutex;
 	char buffer[MAX_PATH];
-- 
2.43.0


From 36cec3578769ca2a6532fbec8e0cbe08ecf5fd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 32/78] fix: fs_writefile hid failures, short writes and the
 old tail; fs_readfile ignored short and failed reads

---
 src/async_io.c | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index e6b6df7..f8b9dbd 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -704,27 +704,42 @@ EVENTS_INLINE int fs_copyfile(const char *oldfile, const char *newfile) {
 }
 
 int fs_writefile(const char *path, char *text) {
-	int len, fd;
-	if ((fd = fs_open(path, O_WRONLY | O_CREAT, S_IRUSR | S_IWUSR)) > 0) {
-		if ((len = (int)strlen(text)) > 0)
-			len = fs_write(fd, text, len);
-
-		if (!fs_close(fd))
-			return len;
+	int r, err, fd, done = 0, len = (int)strlen(text);
+	/* what was there before is replaced, fs_touch() leaves it alone */
+	if ((fd = fs_open(path, O_WRONLY | O_CREAT | (len > 0 ? O_TRUNC : 0), S_IRUSR | S_IWUSR)) < 0)
+		return TASK_ERRED;
+
+	while (done < len) {
+		if ((r = fs_write(fd, text + done, len - done)) <= 0) {
+			err = os_geterror();
+			fs_close(fd);
+			errno = err;
+			return TASK_ERRED;
+		}
+		done += r;
 	}
 
-	return task_code();
+	return fs_close(fd) ? TASK_ERRED : len;
 }
 
 char *fs_readfile(const char *path) {
 	char *buffer = null;
-	int fd = 0;
-	size_t len = fs_filesize(path);
-	if (len > 0 && (fd = fs_open(path, O_RDONLY, 0)) > 0) {
-		if (defer_free(buffer = events_calloc(1, _mem_align_up(len + 1, 2)))) {
-			fs_read(fd, buffer, len);
-			fs_close(fd);
+	int r = 0, fd = 0;
+	size_t done = 0, len = fs_filesize(path);
+	if (len > 0 && (fd = fs_open(path, O_RDONLY, 0)) >= 0) {
+		if (!is_empty(buffer = events_calloc(1, _mem_align_up(len + 1, 2)))) {
+			while (done < len && (r = fs_read(fd, buffer + done, (uint32_t)(len - done))) > 0)
+				done += r;
+
+			if (r < 0) {
+				events_free(buffer);
+				buffer = null;
+			} else {
+				defer_free(buffer);
+			}
 		}
+
+		fs_close(fd);
 	}
 
 	return buffer;
-- 
2.43.0


From acb5f83ac650ca0577d052bd07c9eea3daeea702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 33/78] fix: copyfile counted bytes twice, could loop on end of
 file and hid errors

---
 src/os_unix.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index c88c428..a714bf4 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -1482,16 +1482,23 @@ int copyfile(const char *source, const char *destination) {
 	result = fstat(input, &file_stat);
 	off_t copied = 0;
 	while (result == 0 && copied < file_stat.st_size) {
+		/* moves `copied` on itself, and ends early when the source got shorter */
 		ssize_t written = sendfile(output, input, &copied, SSIZE_MAX);
-		copied += written;
 		if (written == -1) {
 			result = -1;
+		} else if (written == 0) {
+			break;
 		}
 	}
 
+	int err = errno;
 	close(input);
-	close(output);
+	if (close(output) == -1 && result == 0) {
+		result = -1;
+		err = errno;
+	}
 
+	errno = err;
 	return result;
 }
 #endif
-- 
2.43.0


From 2cc645029d7f1cebbf5bcd1f8bfa92fcb1e206f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 34/78] fix: a failed file operation with a NULL result lost
 its error number

---
 src/future.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/future.c b/src/future.c
index 4b801d6..a03ee8a 100644
--- a/src/future.c
+++ b/src/future.c
@@ -48,9 +48,10 @@ void promise_free(ex_memory_t *scope, void *data) {
 
 void promise_set(promise *p, void *res) {
 	atomic_lock(&p->mutex);
+	if (is_empty(res) || res == casting(DATA_INVALID))
+		p->erred = errno;
+
 	if (!is_empty(res)) {
-		if (res == casting(DATA_INVALID))
-			p->erred = errno;
 
 		if (is_data(res)) {
 			p->result->is_array = true;
-- 
2.43.0


From 4286e48d0bac7f03ef93aae64bfad9580c184ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 35/78] fix: async_fprintf and async_fwrite reported success
 when flush or close failed

---
 src/async_io.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index f8b9dbd..43e6c54 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -974,12 +974,12 @@ static EVENTS_INLINE void *_os_fprintf(param_t args) {
 	if ((fi = fopen(args[0].const_char_ptr, args[1].const_char_ptr)) != NULL) {
 		flockfile(fi);
 		int count = fprintf(fi, "%s", args[2].const_char_ptr);
-		if (count > 0)
-			fflush(fi);
+		/* nothing is written as long as it's only buffered */
+		if (count > 0 && fflush(fi))
+			count = 0;
 
 		funlockfile(fi);
-		fclose(fi);
-		if (count > 0)
+		if (!fclose(fi) && count > 0)
 			return casting(count);
 	}
 
@@ -998,12 +998,12 @@ static EVENTS_INLINE void *_os_fwriter(param_t args) {
 	if ((fi = fopen(args[0].const_char_ptr, args[1].const_char_ptr)) != NULL) {
 		flockfile(fi);
 		int count = fwrite((const void *)args[2].object, args[3].max_size, args[4].max_size, fi);
-		if (count > 0)
-			fflush(fi);
+		/* nothing is written as long as it's only buffered */
+		if (count > 0 && fflush(fi))
+			count = 0;
 
 		funlockfile(fi);
-		fclose(fi);
-		if (count > 0)
+		if (!fclose(fi) && count > 0)
 			return casting(count);
 	}
 
-- 
2.43.0


From fa24d657914964d67af2657de24a64a9e6aeb1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 36/78] fix: a directory watch was never registered with epoll
 on Linux

---
 src/epoll.c  | 2 +-
 src/events.c | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/epoll.c b/src/epoll.c
index ed407ff..445c460 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -176,7 +176,7 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 					}
 
 					async_task(inotify_task, 5, casting(event->data.fd), buffer, casting(len), target->callback, target->cb_arg);
-					return 0;
+					continue;
 				}
 
 				return -1;
diff --git a/src/events.c b/src/events.c
index 7ad8d55..c749558 100644
--- a/src/events.c
+++ b/src/events.c
@@ -578,6 +578,10 @@ int events_add(events_t *loop, fds_t sfd, int event, int timeout_in_secs,
 	}
 
 	target->is_pathwatcher = event == EVENTS_PATHWATCH;
+#ifdef __linux__
+	/* an `inotify` descriptor is readable when there are changes */
+	event = target->is_pathwatcher ? EVENTS_READ : event;
+#endif
 	target->is_iodispatch = false;
 	target->backend_used = false;
 #ifdef _WIN32
-- 
2.43.0


From d7fb827538ad95585f7b8a3fdc48f611166c1662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 37/78] fix: the list of fs_events tasks was guarded by a lock
 that moves when it grows

---
 src/events.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/events.c b/src/events.c
index c749558..6df9539 100644
--- a/src/events.c
+++ b/src/events.c
@@ -30,6 +30,8 @@ static volatile bool events_shutdown_set = false;
 static volatile bool events_tasks_started = false;
 static main_cb events_main_func = null;
 static array_t events_fsevents_tasks = null;
+/* not the array own lock, it moves as the array grows. */
+static atomic_spinlock events_fsevents_lock = false;
 static int events_execute(events_t * loop, int max_wait);
 static tasks_t *atexit_ctr_c_task = null;
 sys_events_t sys_event = {0};
@@ -494,12 +496,12 @@ int fsevents_init(const char *name, watch_cb handler, void *filter) {
 	int rid = task_push(create_task(Kb(26),
 		(data_func_t)fsevents_task, arrays(3, name, handler, filter), true, true), true);
 	if (rid > 0) {
+		atomic_lock(&events_fsevents_lock);
 		if (events_fsevents_tasks == null)
 			events_fsevents_tasks = array();
 
-		atomic_lock($lock(events_fsevents_tasks));
 		$append_signed(events_fsevents_tasks, rid);
-		atomic_unlock($lock(events_fsevents_tasks));
+		atomic_unlock(&events_fsevents_lock);
 		__thrd()->task_count++;
 	}
 
@@ -508,8 +510,8 @@ int fsevents_init(const char *name, watch_cb handler, void *filter) {
 
 int fsevents_stop(uint32_t rid) {
 	int found = TASK_ERRED;
+	atomic_lock(&events_fsevents_lock);
 	if (rid > 0 && is_data(events_fsevents_tasks) && $size(events_fsevents_tasks) > 0) {
-		atomic_lock($lock(events_fsevents_tasks));
 		foreach(watch in events_fsevents_tasks) {
 			if (watch.integer == rid) {
 				$remove(events_fsevents_tasks, iwatch);
@@ -519,8 +521,8 @@ int fsevents_stop(uint32_t rid) {
 				break;
 			}
 		}
-		atomic_unlock($lock(events_fsevents_tasks));
 	}
+	atomic_unlock(&events_fsevents_lock);
 
 	return found;
 }
-- 
2.43.0


From e8cb1945da829c5820a0f1d825d2ec9e1e601a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 38/78] fix: at the end queues were gone while pool threads
 still used them

---
 src/deque.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/deque.c b/src/deque.c
index 4b37bc0..b76be73 100644
--- a/src/deque.c
+++ b/src/deque.c
@@ -150,7 +150,6 @@ void deque_destroy(void) {
 	events_deque_t **queue = sys_event.local;
 	if (queue != NULL) {
 		size_t i, count = sys_event.cpu_count;
-		sys_event.local = NULL;
 		if (deque_thread_set) {
 			for (i = 0; i <= count; i++) {
 				if (is_ptr_usable(queue[i])) {
@@ -162,13 +161,20 @@ void deque_destroy(void) {
 			os_sleep(count);
 			for (i = 1; i <= count; i++) {
 				if (is_ptr_usable(queue[i]) && data_type(queue[i]) == DATA_DEQUE) {
-					queue[i]->type = DATA_INVALID;
 					os_join(queue[i]->thread, -1, NULL);
+				}
+			}
+
+			/* only now, the threads use each others queues until they end */
+			for (i = 1; i <= count; i++) {
+				if (is_ptr_usable(queue[i]) && data_type(queue[i]) == DATA_DEQUE) {
+					queue[i]->type = DATA_INVALID;
 					deque_free(queue[i]);
 				}
 			}
 		}
 
+		sys_event.local = NULL;
 		deque_free(queue[0]);
 		events_free(queue);
 	}
-- 
2.43.0


From 797aa15d4ac711be33af5edd60ad4279c682a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 39/78] fix: the main loop was destroyed again by its future's
 thread, closing whatever had its descriptor number

---
 src/events.c          | 5 ++++-
 src/events_internal.h | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 6df9539..0e37c18 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2687,8 +2687,10 @@ static int __future_wrapper(void *arg) {
 
 	__thrd()->pool = NULL;
 	$delete(queue->jobs);
+	/* a loop shared with the creating thread is that thread's to destroy */
+	if (!work->is_shared)
+		events_destroy(loop);
 	events_free(work);
-	events_destroy(loop);
 
 #if !defined(NO_RPMALLOC)
 	rpmalloc_thread_finalize(1);
@@ -2713,6 +2715,7 @@ future *events_create_future(events_t *loop) {
 				f_work->queue->jobs = array();
 				f_work->queue->loop = loop;
 				f_work->queue->pool = f_work;
+				f_work->is_shared = loop == __thrd()->loop;
 				f_work->type = DATA_THREAD;
 				local[index]->thread = os_create(__future_wrapper, (void *)f_work);
 				if (local[index]->thread != OS_NULL) {
diff --git a/src/events_internal.h b/src/events_internal.h
index ae4470f..c5673b3 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -181,6 +181,7 @@ struct _future {
 	int id;
 	events_deque_t *queue;
 	atomic_spinlock mutex;
+	bool is_shared;
 	char buffer[MAX_PATH];
 };
 
-- 
2.43.0


From 437afe21e4727ea5ff5f8d8436624eaf39b7c1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 40/78] fix: directory watches shared one handler, mistook
 watch numbers for descriptors, lost events and sub-directories, and leaked

---
 src/events.c          |  34 ++++++
 src/events_internal.h |   1 +
 src/os_unix.c         | 266 ++++++++++++++++++++++++++----------------
 3 files changed, 200 insertions(+), 101 deletions(-)

diff --git a/src/events.c b/src/events.c
index 0e37c18..cc87f4f 100644
--- a/src/events.c
+++ b/src/events.c
@@ -480,6 +480,35 @@ EVENTS_INLINE bool events_is_watching(int inotify) {
 	return events_watch_count(inotify) > 0;
 }
 
+#ifdef __linux__
+static int events_watch_on(events_t *loop, int *inotify, const char *name, watch_cb handler, void *filter) {
+	int fd;
+	if (*inotify == DATA_INVALID && (*inotify = inotify_init1(IN_NONBLOCK)) < 0)
+		return -1;
+
+	if (inotify_watch(*inotify, name, IN_ALL_EVENTS, handler, filter) < 0)
+		return -1;
+
+	fd = events_get_fd(*inotify);
+	if (!events_is_registered(loop, fd)
+		&& events_add(loop, *inotify, EVENTS_PATHWATCH, 0, (events_cb)handler, filter) < 0)
+		return -1;
+
+	return *inotify;
+}
+
+static void *fsevents_task(param_t args) {
+	int inotify = DATA_INVALID;
+	int fd = events_watch_on(event_loop(), &inotify, args[0].const_char_ptr, (watch_cb)args[1].func, args[2].object);
+	while (events_is_watching(fd) && !task_is_canceled()) {
+		active_info();
+		yield();
+	}
+
+	(void)inotify_close(inotify);
+	return 0;
+}
+#else
 static void *fsevents_task(param_t args) {
 	events_t *loop = event_loop();
 	int fd = events_watch(loop, args[0].const_char_ptr, (watch_cb)args[1].func, args[2].object);
@@ -491,6 +520,7 @@ static void *fsevents_task(param_t args) {
 	(void)events_del_watch(loop);
 	return 0;
 }
+#endif
 
 int fsevents_init(const char *name, watch_cb handler, void *filter) {
 	int rid = task_push(create_task(Kb(26),
@@ -528,6 +558,9 @@ int fsevents_stop(uint32_t rid) {
 }
 
 EVENTS_INLINE int events_watch(events_t *loop, const char *name, watch_cb handler, void *filter) {
+#ifdef __linux__
+	return events_watch_on(loop, &loop->inotify_fd, name, handler, filter);
+#else
 	if (loop->inotify_fd == DATA_INVALID)
 		if ((loop->inotify_fd = inotify_init1(IN_NONBLOCK)) < 0)
 			return -1;
@@ -543,6 +576,7 @@ EVENTS_INLINE int events_watch(events_t *loop, const char *name, watch_cb handle
 #endif
 
 	return loop->inotify_fd;
+#endif
 }
 
 int events_add(events_t *loop, fds_t sfd, int event, int timeout_in_secs,
diff --git a/src/events_internal.h b/src/events_internal.h
index c5673b3..5b5f3c1 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -626,6 +626,7 @@ watch_cb kqueue_watch_callback(events_t *loop);
 void *kqueue_watch_filter(events_t *loop);
 void kqueue_watch_init(events_t *loop, watch_cb handler, void *filter);
 #elif __linux__
+int inotify_watch(int fd, const char *name, uint32_t mask, watch_cb handler, void *filter);
 void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *filter);
 #endif
 
diff --git a/src/os_unix.c b/src/os_unix.c
index a714bf4..184a03e 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -312,7 +312,7 @@ void *inotify_task(param_t args) {
 #endif
 
 int os_read(int fd, char *buf, size_t len) {
-	if (events_valid_fd(fd)) {
+	if (events_valid_fd(fd) && fdTable[fd].type != FD_MONITOR_SYNC) {
 		int ret;
 #if __FreeBSD__ || __NetBSD__ || __OpenBSD__ || __DragonFly__ || __APPLE__ || __MACH__
 		if (fdTable[fd].type == FD_MONITOR_ASYNC)
@@ -348,11 +348,12 @@ int os_read(int fd, char *buf, size_t len) {
 
 EVENTS_INLINE int os_close(int fd) {
 	if (fd == -1) return 0;
-	int r, can_clear = events_valid_fd(fd);
+	/* a `watch` has no descriptor of its own, the number here is a real one. */
+	int r, can_clear = events_valid_fd(fd) && fdTable[fd].type != FD_MONITOR_SYNC;
 	if (can_clear)
 		events_free_fd(fd);
 
-	r = close(events_get_fd(fd));
+	r = close(can_clear ? (int)events_get_fd(fd) : fd);
 	if (can_clear) {
 		fdTable[fd].type = (fd_types)FD_UNUSED;
 		fdTable[fd].fd = TASK_ERRED;
@@ -906,7 +907,8 @@ EVENTS_INLINE int os_geterror(void) {
 }
 
 EVENTS_INLINE int events_watch_count(int inotify) {
-	return is_data(fdTable[inotify].inotify_wd) ? $size(fdTable[inotify].inotify_wd) : 0;
+	return events_valid_fd(inotify) && is_data(fdTable[inotify].inotify_wd)
+		? (int)$size(fdTable[inotify].inotify_wd) : 0;
 }
 
 #if __FreeBSD__ || __NetBSD__ || __OpenBSD__ || __DragonFly__ || __APPLE__ || __MACH__
@@ -1239,6 +1241,8 @@ void kqueue_watch_free(watch_dir_t *dir) {
 	}
 }
 #else
+#define INOTIFY_MASK	(IN_ONLYDIR | IN_ACCESS | IN_MODIFY | IN_ATTRIB | IN_MOVE | IN_CREATE | IN_DELETE | IN_DELETE_SELF | IN_MOVE_SELF)
+
 EVENTS_INLINE uint32_t inotify_mask(inotify_t *event) {
 	return event->mask;
 }
@@ -1266,11 +1270,11 @@ EVENTS_INLINE uint32_t inotify_length(inotify_t *event) {
 EVENTS_INLINE inotify_t *inotify_next(inotify_t *event) {
 	int i;
 	for (i = 0; i < ioTableSize; ++i) {
-		if (fdTable[i].type == FD_MONITOR_SYNC && fdTable[i].buf == (char *)event) {
-			char *buf = fdTable[i].buf;
-			size_t numRead = fdTable[i].process->rid;
-			event += sizeof(inotify_t) + event->len;
-			return ((char *)event < buf + numRead) ? event : NULL;
+		char *buf = fdTable[i].buf, *next = (char *)event + sizeof(inotify_t) + event->len;
+		if (fdTable[i].type == FD_MONITOR_ASYNC && buf != NULL && (int)fdTable[i].process->rid > 0) {
+			char *end = buf + fdTable[i].process->rid;
+			if ((char *)event >= buf && (char *)event < end)
+				return next < end ? (inotify_t *)next : NULL;
 		}
 	}
 
@@ -1281,44 +1285,6 @@ EVENTS_INLINE const char *fs_events_path(int wd) {
 	return (const char *)fdTable[wd].path;
 }
 
-void *inotify_task(param_t args) {
-	inotify_t *event = (inotify_t *)args[1].object;
-	inotify_handler(args[0].integer, event, args[2].integer, (watch_cb)args[3].func, args[4].object);
-	events_free((void *)event);
-
-	return 0;
-}
-
-void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *filter) {
-	char subpath[PATH_MAX] = {0};
-	char *buffer = (char *)event;
-	char *p = buffer;
-
-	while (p < buffer + len) {
-		events_monitors action = WATCH_INVALID;
-		int mask = (WATCH_MODIFIED | WATCH_REMOVED | WATCH_ADDED | WATCH_MOVED);
-		inotify_t *evt = (inotify_t *)p;
-		if (evt->len) {
-			if (evt->mask & (IN_CREATE | IN_MOVED_TO))
-				action = WATCH_ADDED;
-			else if (evt->mask & (IN_DELETE | IN_DELETE_SELF | IN_MOVED_FROM))
-				action = WATCH_REMOVED;
-			else if (evt->mask & (IN_MOVE_SELF))
-				action = WATCH_MOVED;
-			else if (evt->mask & (IN_MODIFY | IN_ATTRIB))
-				action = WATCH_MODIFIED;
-
-			if (action) {
-				if (!fdTable[evt->wd].changes)
-					snprintf(subpath, PATH_MAX, "%s%s%s", fdTable[evt->wd].path, SYS_DIRSEP, evt->name);
-
-				handler(evt->wd, action | ~mask, (const char *)(fdTable[evt->wd].changes ? evt->name : subpath), filter);
-			}
-		}
-		p += sizeof(inotify_t) + evt->len;
-	}
-}
-
 EVENTS_INLINE int __inotify_init(void) {
 	events_init(256);
 	int realfd = inotify_init();
@@ -1337,112 +1303,210 @@ EVENTS_INLINE int __inotify_init1(int flags) {
 	return events_new_fd(FD_MONITOR_ASYNC, realfd, realfd);
 }
 
-int inotify_del_monitor(int wd) {
-	if (fdTable[wd].type == FD_MONITOR_SYNC) {
-		__inotify_rm_watch(fdTable[wd]._fd, wd);
-		if ($size(fdTable[fdTable[wd]._fd].inotify_wd) == 0)
-			return events_del(fdTable[wd]._fd);
+/* Guards the watch descriptor slots, `inotify_recursive` runs in another thread. */
+static atomic_spinlock inotify_lock = false;
 
-		return 0;
+static int inotify_slot(int realfd, int wd) {
+	int i;
+	for (i = ioTableSize - 1; i > 0; --i) {
+		if (fdTable[i].type == FD_MONITOR_SYNC && fdTable[i].fd == wd
+			&& (int)events_get_fd(fdTable[i]._fd) == realfd)
+			return i;
 	}
 
 	return TASK_ERRED;
 }
 
-int inotify_close(int fd) {
-	if (events_valid_fd(fd)) {
+/* Watch descriptors are numbered per `inotify`, they are neither unique nor file descriptors,
+so the pseudo for one is taken from the top of the table, away from the real descriptors. */
+static int inotify_new_slot(int fd, int wd, const char *path, int is_root, watch_cb handler, void *filter) {
+	int top, realfd = events_get_fd(fd), pseudo;
+
+	atomic_lock(&inotify_lock);
+	if ((pseudo = inotify_slot(realfd, wd)) == TASK_ERRED) {
+		for (top = ioTableSize - 1; top > 0; --top) {
+			if (fdTable[top].type == FD_UNUSED)
+				break;
+		}
+
+		if ((pseudo = events_new_fd(FD_MONITOR_SYNC, realfd, top)) != TASK_ERRED) {
+			if (fdTable[fd].inotify_wd == NULL)
+				fdTable[fd].inotify_wd = array();
+
+			fdTable[pseudo].fd = wd;
+			fdTable[pseudo]._fd = fd;
+			fdTable[pseudo].path = str_dup_ex(path);
+			$append_signed(fdTable[fd].inotify_wd, pseudo);
+			is_root = is_root ? 1 : -1;
+		}
+	}
+
+	if (pseudo != TASK_ERRED && is_root) {
+		fdTable[pseudo].changes = is_root > 0;
+		fdTable[pseudo].proc = (os_cb)handler;
+		fdTable[pseudo].data = filter;
+	}
+	atomic_unlock(&inotify_lock);
+
+	return pseudo;
+}
+
+static void inotify_free_slot(int fd, int pseudo) {
+	atomic_lock(&inotify_lock);
+	if (is_data(fdTable[fd].inotify_wd)) {
 		foreach(watch in fdTable[fd].inotify_wd) {
-			events_free_fd(watch.integer);
-			fdTable[watch.integer].type = FD_UNUSED;
-			fdTable[watch.integer].fd = TASK_ERRED;
-			$remove(fdTable[fd].inotify_wd, iwatch);
+			if (watch.integer == pseudo) {
+				$remove(fdTable[fd].inotify_wd, iwatch);
+				break;
+			}
 		}
+	}
+
+	events_free_fd(pseudo);
+	fdTable[pseudo].type = FD_UNUSED;
+	fdTable[pseudo].fd = TASK_ERRED;
+	atomic_unlock(&inotify_lock);
+}
+
+int inotify_del_monitor(int wd) {
+	if (events_valid_fd(wd) && fdTable[wd].type == FD_MONITOR_SYNC) {
+		int fd = fdTable[wd]._fd;
+		__inotify_rm_watch(fd, wd);
+		if (events_watch_count(fd) == 0)
+			return events_del(events_get_fd(fd));
 
-		os_close(fd);
 		return 0;
 	}
 
 	return TASK_ERRED;
 }
 
-static void inotify_recursive(int fd, const char *path, uint32_t mask, char *subpath, size_t path_max) {
+int inotify_close(int fd) {
+	if (events_valid_fd(fd) && fdTable[fd].type == FD_MONITOR_ASYNC) {
+		while (events_watch_count(fd) > 0)
+			inotify_free_slot(fd, fdTable[fd].inotify_wd[0].integer);
+
+		if (events_is_active() && events_is_registered(NULL, events_get_fd(fd)))
+			events_del(events_get_fd(fd));
+
+		return os_close(fd);
+	}
+
+	return TASK_ERRED;
+}
+
+static void inotify_recursive(int fd, const char *path, uint32_t mask, watch_cb handler, void *filter) {
 	DIR *dir;				/* dir structure we are reading */
 	struct dirent *entry;	/* directory entry currently being processed */
+	char *subpath;			/* buffer for complete subdir names */
 
 	dir = opendir(path);
 	if (NULL == dir)
 		return;
 
-	while ((entry = readdir(dir))) {
+	subpath = events_malloc(PATH_MAX);
+	while (subpath != NULL && (entry = readdir(dir))) {
 		if (entry->d_type == DT_DIR) {
 			if (str_is("..", entry->d_name) || str_is(".", entry->d_name)) {
 				continue;
-			} else if (snprintf(subpath, path_max, "%s%s%s", path, SYS_DIRSEP, entry->d_name)) {
+			} else if (snprintf(subpath, PATH_MAX, "%s%s%s", path, SYS_DIRSEP, entry->d_name) < PATH_MAX) {
 				int wd = inotify_add_watch(events_get_fd(fd), subpath, mask);
-				if (wd == -1)
+				if (wd == -1 || inotify_new_slot(fd, wd, subpath, 0, handler, filter) == TASK_ERRED)
 					continue;
 
-				int pseudo = events_new_fd(FD_MONITOR_SYNC, wd, wd);
-				$append_signed(fdTable[fd].inotify_wd, pseudo);
-				fdTable[pseudo]._fd = fd;
-				fdTable[pseudo].path = str_dup_ex(subpath);
-				inotify_recursive(fd, (const char *)fdTable[pseudo].path, mask, subpath, path_max);
+				inotify_recursive(fd, subpath, mask, handler, filter);
 			}
 		}
 	}
 
+	if (subpath != NULL)
+		events_free(subpath);
 	closedir(dir);
 }
 
 static EVENTS_INLINE void *_inotify_recursive(param_t args) {
 	inotify_recursive(args[0].integer, args[1].const_char_ptr, args[2].u_int,
-		args[3].char_ptr, args[4].max_size);
+		(watch_cb)args[3].func, args[4].object);
 	return 0;
 }
 
-int __inotify_add_watch(int fd, const char *name, uint32_t mask) {
-	char subpath[PATH_MAX];	/* buffer for building complete subdir and file names */
-	mask = (events_is_active()
-		? (IN_ONLYDIR | IN_ACCESS | IN_MODIFY | IN_ATTRIB | IN_MOVE | IN_CREATE | IN_DELETE | IN_DELETE_SELF | IN_MOVE_SELF)
-		: mask);
-	int wd = inotify_add_watch(events_get_fd(fd), name, mask);
-	if (wd == -1)
-		return wd;
+void *inotify_task(param_t args) {
+	inotify_t *event = (inotify_t *)args[1].object;
+	inotify_handler(args[0].integer, event, args[2].integer, (watch_cb)args[3].func, args[4].object);
+	events_free((void *)event);
+
+	return 0;
+}
 
-	int pseudo = events_new_fd(FD_MONITOR_SYNC, wd, wd);
-	if (events_is_active()) {
-		if (fdTable[fd].inotify_wd == NULL)
-			fdTable[fd].inotify_wd = array();
+void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *filter) {
+	char subpath[PATH_MAX] = {0};
+	char *buffer = (char *)event;
+	char *p = buffer;
 
-		$append_signed(fdTable[fd].inotify_wd, pseudo);
-		fdTable[pseudo]._fd = fd;
-		fdTable[pseudo].changes = 1;
-		fdTable[pseudo].path = str_dup_ex(name);
-		queue_get(queue_work(futures_pool(), _inotify_recursive, 5, casting(fd), fdTable[pseudo].path, casting(mask), subpath, sizeof(subpath)));
+	while (p < buffer + len) {
+		events_monitors action = WATCH_INVALID;
+		int mask = (WATCH_MODIFIED | WATCH_REMOVED | WATCH_ADDED | WATCH_MOVED);
+		inotify_t *evt = (inotify_t *)p;
+		int wd = inotify_slot(fd, evt->wd);
+		if (wd != TASK_ERRED && evt->len) {
+			if (evt->mask & (IN_CREATE | IN_MOVED_TO))
+				action = WATCH_ADDED;
+			else if (evt->mask & (IN_DELETE | IN_DELETE_SELF | IN_MOVED_FROM))
+				action = WATCH_REMOVED;
+			else if (evt->mask & (IN_MOVE_SELF))
+				action = WATCH_MOVED;
+			else if (evt->mask & (IN_MODIFY | IN_ATTRIB))
+				action = WATCH_MODIFIED;
+
+			if (action) {
+				watch_cb callback = fdTable[wd].proc ? (watch_cb)fdTable[wd].proc : handler;
+				void *data = fdTable[wd].proc ? fdTable[wd].data : filter;
+				int is_root = fdTable[wd].changes;
+
+				snprintf(subpath, PATH_MAX, "%s%s%s", fdTable[wd].path, SYS_DIRSEP, evt->name);
+				if (action == WATCH_ADDED && (evt->mask & IN_ISDIR)) {
+					int sub = inotify_add_watch(fd, subpath, INOTIFY_MASK);
+					if (sub != -1 && inotify_new_slot(fdTable[wd]._fd, sub, subpath, 0, callback, data) != TASK_ERRED)
+						inotify_recursive(fdTable[wd]._fd, subpath, INOTIFY_MASK, callback, data);
+				}
+
+				callback(wd, action | ~mask, (const char *)(is_root ? evt->name : subpath), data);
+			}
+		} else if (wd != TASK_ERRED && (evt->mask & IN_IGNORED)) {
+			/* directory was removed, and its watch with it. */
+			int inotify = fdTable[wd]._fd;
+			inotify_free_slot(inotify, wd);
+			if (events_watch_count(inotify) == 0)
+				events_del(fd);
+		}
+		p += sizeof(inotify_t) + evt->len;
 	}
+}
+
+int inotify_watch(int fd, const char *name, uint32_t mask, watch_cb handler, void *filter) {
+	int wd, pseudo;
+	mask = events_is_active() ? INOTIFY_MASK : mask;
+	if ((wd = inotify_add_watch(events_get_fd(fd), name, mask)) == -1)
+		return wd;
+
+	pseudo = inotify_new_slot(fd, wd, name, 1, handler, filter);
+	if (pseudo != TASK_ERRED && events_is_active())
+		queue_get(queue_work(futures_pool(), _inotify_recursive, 5, casting(fd), name, casting(mask), handler, filter));
 
 	return pseudo;
 }
 
+int __inotify_add_watch(int fd, const char *name, uint32_t mask) {
+	return inotify_watch(fd, name, mask, NULL, NULL);
+}
+
 EVENTS_INLINE int __inotify_rm_watch(int fd, int wd) {
 	if (wd < 0)
 		return inotify_close(fd);
 
 	int realFd = events_get_fd(fd), realWd = events_get_fd(wd);
-	if (events_is_active() && events_valid_fd(wd)) {
-		foreach(watch in fdTable[fd].inotify_wd) {
-			if (watch.integer == wd) {
-				$remove(fdTable[fd].inotify_wd, iwatch);
-				break;
-			}
-		}
-	}
-
-	if (events_valid_fd(wd)) {
-		events_free_fd(wd);
-		fdTable[wd].type = FD_UNUSED;
-		fdTable[wd].fd = TASK_ERRED;
-	}
+	if (events_valid_fd(wd) && fdTable[wd].type == FD_MONITOR_SYNC)
+		inotify_free_slot(fd, wd);
 
 	return inotify_rm_watch(realFd, realWd);
 }
-- 
2.43.0


From 8613ec3fb075a60c94270db82a65648c1763cdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 41/78] fix: exec_addenv left out the ending zero and read
 beyond its buffer for long values

---
 src/async_io.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 43e6c54..e7db532 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -837,8 +837,9 @@ static void *spawning(param_t args) {
 }
 
 char *exec_addenv(char *env, size_t *size, uint32_t num_pairs, ...) {
-	char *k, *v, buf[Kb(2)] = {0}, *data = env;
-	int i, len;
+	char *k, *v, *data = env;
+	int len;
+	uint32_t i;
 	va_list ap;
 
 	if (num_pairs > 0) {
@@ -847,10 +848,10 @@ char *exec_addenv(char *env, size_t *size, uint32_t num_pairs, ...) {
 			/* Copy VARIABLE=VALUE;\0 string into the free space */
 			k = va_arg(ap, char *);
 			v = va_arg(ap, char *);
-			len = snprintf(buf, sizeof(buf), "%s=%s;", k, v);
+			len = (int)(strlen(k) + strlen(v) + 2);
+			data = events_realloc(data, *size + len + 1);
+			snprintf(data + *size, len + 1, "%s=%s;", k, v);
 			*size += len;
-			data = events_realloc(data, *size);
-			memcpy(data + (*size - len), buf, len);
 		}
 		va_end(ap);
 	}
-- 
2.43.0


From 1f3275adf76ad481a8c9516c7f95bb636462e238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 42/78] fix: closing a child's entry closed the descriptor with
 the number of its process id

---
 src/os_unix.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 184a03e..a8ea5bf 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -349,7 +349,16 @@ int os_read(int fd, char *buf, size_t len) {
 EVENTS_INLINE int os_close(int fd) {
 	if (fd == -1) return 0;
 	/* a `watch` has no descriptor of its own, the number here is a real one. */
-	int r, can_clear = events_valid_fd(fd) && fdTable[fd].type != FD_MONITOR_SYNC;
+	int r, can_clear;
+	/* a `child` has no descriptor either, what's kept is a process id. */
+	if (fd >= 0 && fd < ioTableSize && fdTable[fd].type == FD_CHILD) {
+		events_free_fd(fd);
+		fdTable[fd].type = (fd_types)FD_UNUSED;
+		fdTable[fd].fd = TASK_ERRED;
+		return 0;
+	}
+
+	can_clear = events_valid_fd(fd) && fdTable[fd].type != FD_MONITOR_SYNC;
 	if (can_clear)
 		events_free_fd(fd);
 
-- 
2.43.0


From c63399377a994e6658584e1bdf186290914319a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 43/78] fix: a child got an empty environment or extra empty
 entries, and failing to set one up crashed

---
 src/os_unix.c | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index a8ea5bf..257ccb0 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -521,6 +521,8 @@ void events_free_fd(int pseudo) {
 	}
 }
 
+extern char **environ;
+
 static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 	process_t p = vfork();
 	if (p != 0) {
@@ -582,7 +584,7 @@ static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 	if (info->workdir != NULL && 0 != chdir(info->workdir))
 		goto end;
 
-	execve(filename, (char **)info->argv, (char **)info->env);
+	execve(filename, (char **)info->argv, (info->env != NULL ? (char **)info->env : environ));
 
 end:
 	_exit(255);
@@ -594,12 +596,29 @@ EVENTS_INLINE execinfo_t *exec_info(const char *env, bool is_detached,
 #if __APPLE__ && __MACH__
 	int pseudofd = events_new_fd((FILE_TYPE)FD_CHILD, hIoCompPort_token, -1);
 #else
-	int pseudofd = events_new_fd(FD_CHILD, eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK), -1);
+	int evfd = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK), pseudofd;
+	if (evfd < 0)
+		return NULL;
+
+	if ((pseudofd = events_new_fd(FD_CHILD, evfd, -1)) < 0)
+		close(evfd);
 #endif
-	execinfo_t *info = fdTable[pseudofd].process;
+	execinfo_t *info;
+	if (pseudofd < 0)
+		return NULL;
+
+	info = fdTable[pseudofd].process;
+	info->context = NULL;
+	info->workdir = NULL;
+	info->argv = NULL;
 	info->detached = is_detached;
-	if (env != NULL && str_has(env, "=") && str_has(env, ";"))
-		info->env = (const char **)str_split_ex(env, ";", NULL);
+	if (env != NULL && str_has(env, "=")) {
+		int num = 0;
+		info->env = (const char **)str_split_ex(env, ";", &num);
+		/* `key=value;` ends in a separator, nothing is after the last one. */
+		if (num > 0 && *info->env[num - 1] == '\0')
+			info->env[num - 1] = NULL;
+	}
 
 	if (io_in)
 		info->write_input[1] = io_in;
@@ -615,10 +634,11 @@ EVENTS_INLINE execinfo_t *exec_info(const char *env, bool is_detached,
 }
 
 EVENTS_INLINE process_t exec(const char *command, const char *args, execinfo_t *info) {
-	char *cmd_arg = str_cat_ex((args == NULL ? 2 : 3), command, ",", args);
-	if (info == NULL)
-		info = exec_info(NULL, false, inherit, inherit, inherit);
+	char *cmd_arg;
+	if (info == NULL && (info = exec_info(NULL, false, inherit, inherit, inherit)) == NULL)
+		return TASK_ERRED;
 
+	cmd_arg = str_cat_ex(((args == NULL || *args == '\0') ? 1 : 3), command, ",", args);
 	info->argv = str_split_ex(cmd_arg, ",", NULL);
 	events_free(cmd_arg);
 
-- 
2.43.0


From 724c481d3b82815f64673b365f99f5052f2186f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 44/78] fix: a failing vfork was taken for a started child

---
 src/os_unix.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 257ccb0..3589111 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -526,16 +526,23 @@ extern char **environ;
 static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 	process_t p = vfork();
 	if (p != 0) {
+		int err = errno;
 		if (info->argv != NULL)
 			events_free(info->argv);
 
 		if (info->env != NULL)
 			events_free(info->env);
 
-		fdTable[info->fd].fd = p;
-		info->ps = p;
 		info->argv = NULL;
 		info->env = NULL;
+		if (p < 0) {
+			os_close(info->fd);
+			errno = err;
+			return TASK_ERRED;
+		}
+
+		fdTable[info->fd].fd = p;
+		info->ps = p;
 		return (process_t)info->fd;
 	}
 
-- 
2.43.0


From 9676116ed83763b4585cb58365844aa1e2eb8210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 45/78] fix: exec_wait waited forever whatever its time limit

---
 src/os_unix.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 3589111..cbb76b1 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -654,18 +654,37 @@ EVENTS_INLINE process_t exec(const char *command, const char *args, execinfo_t *
 
 int exec_wait(process_t ps, uint32_t timeout_ms, int *exit_code) {
 	siginfo_t s;
+	struct timespec start, now;
 	int r, f = 0;
 
+	if (ps < 0 || (intptr_t)ps >= ioTableSize || fdTable[(intptr_t)ps].type != FD_CHILD) {
+		errno = ECHILD;
+		return -1;
+	}
+
 	if (fdTable[(intptr_t)ps].process->detached)
 		return 0;
 
-	if (timeout_ms == 0) {
+	if (timeout_ms != INFINITE)
 		f = WNOHANG;
+
+	clock_gettime(CLOCK_MONOTONIC, &start);
+
+	for (;;) {
 		s.si_pid = 0;
+		do {
+			r = waitid(P_PID, (id_t)fdTable[(intptr_t)ps].process->ps, &s, WEXITED | f);
+		} while (r != 0 && errno == EINTR);
+		if (r != 0 || s.si_pid != 0 || timeout_ms == 0 || timeout_ms == INFINITE)
+			break;
+
+		clock_gettime(CLOCK_MONOTONIC, &now);
+		if ((now.tv_sec - start.tv_sec) * 1000000000LL + (now.tv_nsec - start.tv_nsec) >= timeout_ms * 1000000LL)
+			break;
+
+		os_sleep(1);
 	}
-	do {
-		r = waitid(P_PID, (id_t)fdTable[(intptr_t)ps].process->ps, &s, WEXITED | f);
-	} while (r != 0 && errno == EINTR);
+
 	if (r != 0)
 		return -1;
 
-- 
2.43.0


From 70825119ad570b66546cf1e530ed488c49f6f14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 46/78] fix: spawned children had non-blocking streams, lost
 their last output, and leaked pipes; exit status was reported as signal

---
 src/async_io.c | 109 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 88 insertions(+), 21 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index e7db532..d4ffb80 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -767,14 +767,53 @@ EVENTS_INLINE int fs_events_cancel(uint32_t rid) {
 	return fsevents_stop(rid);
 }
 
+#ifndef _WIN32
+/* Hands over what a child has written, one buffer at a time. */
+static ssize_t spawn_output(fds_t from, fds_t writeto, spawn_cb func) {
+	char *data = events_malloc(Kb(32));
+	ssize_t count;
+	int err;
+	if (data == NULL) {
+		errno = ENOMEM;
+		return -1;
+	}
+
+	if ((count = read(from, data, Kb(32) - 1)) > 0) {
+		data[count] = '\0';
+		func(writeto, (size_t)count, data);
+	}
+
+	err = errno;
+	events_free(data);
+	errno = err;
+	return count;
+}
+
+static void spawn_close(filefd_t *fd) {
+	if (*fd != inherit) {
+		close(*fd);
+		*fd = inherit;
+	}
+}
+
+static void spawn_pipes_close(execinfo_t *info) {
+	spawn_close(&info->write_input[0]);
+	spawn_close(&info->write_input[1]);
+	spawn_close(&info->read_output[0]);
+	spawn_close(&info->read_output[1]);
+	spawn_close(&info->error[0]);
+	spawn_close(&info->error[1]);
+}
+#endif
+
 static void spawn_io(fds_t fd, int events, void *arg) {
 	execinfo_t *info = (execinfo_t *)arg;
 	spawn_cb func = info->io_func;
 #ifndef _WIN32
-	char data[Kb(32)] = {0};
-	int count;
-	if ((count = read((fds_t)info->read_output[0], data, sizeof(data))) > 0)
-		func((fds_t)info->write_input[1], count, data);
+	ssize_t count = spawn_output(fd, (fds_t)info->write_input[1], func);
+	/* nothing more to come */
+	if (count == 0 || (count < 0 && errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR))
+		events_del(fd);
 #else
 	func((fds_t)info->write_input[1], (size_t)events, info->buffer);
 #endif
@@ -786,14 +825,28 @@ static void *spawning(param_t args) {
 	tasks_t *t = active_task();
 	char *command = args[0].char_ptr;
 	int status = 0;
+	exit_cb exit_func = info->exit_func;
+	spawn_cb io_func = info->io_func;
 #ifdef _WIN32
 	HANDLE ioThread = NULL;
+#else
+	execinfo_t pipes[1];
+	int err;
 #endif
 	task_name("spawn #%d", task_id());
 	pid = exec((const char *)command, args[1].const_char_ptr, info);
 	if (info->io_func) {
 #ifndef _WIN32
-		status = events_add(futures_pool()->queue->loop, (fds_t)info->read_output[1], EVENTS_WRITE, 0, spawn_io, info);
+		/* the child has these now */
+		err = errno;
+		spawn_close(&info->write_input[0]);
+		spawn_close(&info->read_output[1]);
+		spawn_close(&info->error[1]);
+		errno = err;
+		if (pid > 0 && (status = events_add(event_loop(), (fds_t)info->read_output[0], EVENTS_READ, 0, spawn_io, info)) != 0) {
+			/* its output can't be followed, it's collected at the end. */
+			status = 0;
+		}
 #else
 		status = -1;
 		if (events_assign_fd(info->read_output[0], (intptr_t)pid)) {
@@ -806,19 +859,21 @@ static void *spawning(param_t args) {
 	if (!status && pid > 0) {
 		info->context = t;
 		yield();
+#ifndef _WIN32
+		*pipes = *info;
+#endif
 		while (exec_wait(pid, 0, &status) && os_geterror() == ETIMEDOUT) {
 			tasks_info(t, 1);
 			yield();
 		}
 
 		info->context = NULL;
-		if (info->io_func) {
+		if (io_func) {
 #ifndef _WIN32
-			events_del((fds_t)info->read_output[1]);
-			close((uintptr_t)info->read_output[0]);
-			close((uintptr_t)info->read_output[1]);
-			close((uintptr_t)info->write_input[0]);
-			close((uintptr_t)info->write_input[1]);
+			events_del((fds_t)pipes->read_output[0]);
+			/* what was written last can still be there */
+			while (spawn_output((fds_t)pipes->read_output[0], (fds_t)pipes->write_input[1], io_func) > 0);
+			spawn_pipes_close(pipes);
 #else
 			CloseHandle(ioThread);
 			CloseHandle(info->write_input[1]);
@@ -827,9 +882,16 @@ static void *spawning(param_t args) {
 #endif
 		}
 
-		if (info->exit_func)
-			info->exit_func(status, status);
+		if (exit_func)
+			exit_func(status, status < 0 ? -status : 0);
 	} else {
+#ifndef _WIN32
+		if (io_func) {
+			err = errno;
+			spawn_pipes_close(info);
+			errno = err;
+		}
+#endif
 		cerr("Process launch failed with: %s"CLR_LN, strerror(os_geterror()));
 	}
 
@@ -874,6 +936,9 @@ EVENTS_INLINE filefd_t exec_fderr(execinfo_t *child) {
 static execinfo_t *spawn_ex(const char *command, const char *args, const char *env,
 	bool is_datached, spawn_cb io_func, exit_cb exit_func) {
 	execinfo_t *info = exec_info(env, is_datached, inherit, inherit, inherit);
+	if (info == NULL)
+		return NULL;
+
 	if (io_func) {
 #ifdef _WIN32
 		if (os_create_pipe("spawn_in", &info->write_input[0], &info->write_input[1])
@@ -906,18 +971,20 @@ static execinfo_t *spawn_ex(const char *command, const char *args, const char *e
 			events_set_nonblocking(info->error[1]);
 		}
 #else
-		if (pipe2(_2fd(info->write_input), O_NONBLOCK)
-			|| pipe2(_2fd(info->read_output), O_NONBLOCK)) {
+		if (pipe2(_2fd(info->write_input), O_CLOEXEC)
+			|| pipe2(_2fd(info->read_output), O_CLOEXEC)
+			|| (!is_empty((void *)env) && pipe2(_2fd(info->error), O_CLOEXEC | O_NONBLOCK))) {
 			perror("pipe2");
+			spawn_pipes_close(info);
+			if (info->env != NULL)
+				events_free(info->env);
+			os_close(info->fd);
 			return NULL;
 		}
 
-		if (!is_empty(env)) {
-			if (pipe2(_2fd(info->error), O_NONBLOCK)) {
-				perror("pipe2");
-				return NULL;
-			}
-		}
+		/* only this side, the child expects its standard streams to be blocking. */
+		events_set_nonblocking(info->write_input[1]);
+		events_set_nonblocking(info->read_output[0]);
 #endif
 	}
 
-- 
2.43.0


From 08093f3f645a3660a57f9e72fb7ced8d4c32ae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 47/78] fix: rpmalloc refuses sizes it cannot hold instead of
 returning a smaller block

---
 src/rpmalloc.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/rpmalloc.c b/src/rpmalloc.c
index ca12460..e30dc07 100644
--- a/src/rpmalloc.c
+++ b/src/rpmalloc.c
@@ -93,7 +93,7 @@
 #endif
 #ifndef ENABLE_VALIDATE_ARGS
 //! Enable validation of args to public entry points
-#define ENABLE_VALIDATE_ARGS      0
+#define ENABLE_VALIDATE_ARGS      1
 #endif
 #ifndef ENABLE_ASSERTS
 //! Enable asserts
@@ -499,7 +499,7 @@ _Static_assert((SPAN_HEADER_SIZE &(SPAN_HEADER_SIZE - 1)) == 0, "Span header siz
 #if ENABLE_VALIDATE_ARGS
 //! Maximum allocation size to avoid integer overflow
 #undef  MAX_ALLOC_SIZE
-#define MAX_ALLOC_SIZE            (((size_t)-1) - _memory_span_size)
+#define MAX_ALLOC_SIZE            (((size_t)-1) >> 1)
 #endif
 
 #define pointer_offset(ptr, ofs) (void*)((char*)(ptr) + (ptrdiff_t)(ofs))
@@ -2202,11 +2202,8 @@ static void *_rpmalloc_allocate(heap_t *heap, size_t size) {
 }
 
 static void *_rpmalloc_aligned_allocate(heap_t *heap, size_t alignment, size_t size) {
-	if (alignment <= SMALL_GRANULARITY)
-		return _rpmalloc_allocate(heap, size);
-
 #if ENABLE_VALIDATE_ARGS
-	if ((size + alignment) < size) {
+	if ((size >= MAX_ALLOC_SIZE) || (alignment >= MAX_ALLOC_SIZE - size)) {
 		errno = EINVAL;
 		return 0;
 	}
@@ -2215,6 +2212,8 @@ static void *_rpmalloc_aligned_allocate(heap_t *heap, size_t alignment, size_t s
 		return 0;
 	}
 #endif
+	if (alignment <= SMALL_GRANULARITY)
+		return _rpmalloc_allocate(heap, size);
 
 	if ((alignment <= SPAN_HEADER_SIZE) && ((size + SPAN_HEADER_SIZE) < _memory_medium_size_limit)) {
 		// If alignment is less or equal to span header size (which is power of two),
@@ -2979,7 +2978,7 @@ extern RPMALLOC_ALLOCATOR void *rprealloc(void *ptr, size_t size) {
 #if ENABLE_VALIDATE_ARGS
 	if (size >= MAX_ALLOC_SIZE) {
 		errno = EINVAL;
-		return ptr;
+		return 0;
 	}
 #endif
 	heap_t *heap = get_thread_heap();
@@ -2990,7 +2989,7 @@ extern RPMALLOC_ALLOCATOR void *
 rpaligned_realloc(void *ptr, size_t alignment, size_t size, size_t oldsize,
 	unsigned int flags) {
 #if ENABLE_VALIDATE_ARGS
-	if ((size + alignment < size) || (alignment > _memory_page_size)) {
+	if ((size >= MAX_ALLOC_SIZE) || (alignment >= MAX_ALLOC_SIZE - size)) {
 		errno = EINVAL;
 		return 0;
 	}
-- 
2.43.0


From 89e612c0651d562b2d4ac95f1a969a9c400ed2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 48/78] fix: an rpmalloc thread without a heap gets null, not a
 crash

---
 src/rpmalloc.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rpmalloc.c b/src/rpmalloc.c
index e30dc07..d29a9ba 100644
--- a/src/rpmalloc.c
+++ b/src/rpmalloc.c
@@ -2191,6 +2191,11 @@ static void *_rpmalloc_allocate_huge(heap_t *heap, size_t size) {
 
 //! Allocate a block of the given size
 static void *_rpmalloc_allocate(heap_t *heap, size_t size) {
+	//The system refused the memory for the heap of this thread
+	if (UNEXPECTED(!heap)) {
+		errno = ENOMEM;
+		return 0;
+	}
 	_rpmalloc_stat_add64(&_allocation_counter, 1);
 	if (EXPECTED(size <= SMALL_SIZE_LIMIT))
 		return _rpmalloc_allocate_small(heap, size);
@@ -2256,6 +2261,11 @@ static void *_rpmalloc_aligned_allocate(heap_t *heap, size_t alignment, size_t s
 		return 0;
 	}
 
+	if (UNEXPECTED(!heap)) {
+		errno = ENOMEM;
+		return 0;
+	}
+
 	size_t extra_pages = alignment / _memory_page_size;
 
 	// Since each span has a header, we will at least need one extra memory page
-- 
2.43.0


From 334d9135b6f29c9b016374fcd1539ffe163b843e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 49/78] fix: threads that use rpmalloc first at the same time
 wait for its set-up

---
 src/rpmalloc.c | 48 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/rpmalloc.c b/src/rpmalloc.c
index d29a9ba..dd5a50e 100644
--- a/src/rpmalloc.c
+++ b/src/rpmalloc.c
@@ -245,7 +245,6 @@ extern int madvise(caddr_t, size_t, int);
 static tls_storage_t _memory_thread_heap = 0;
 
 //! Initialized flag
-static int _rpmalloc_initialized = 0;
 static int rpmalloc_atexit_set = 0;
 
 static int _rpmalloc_shuting_down = 0;
@@ -273,6 +272,9 @@ make_atomic(unsigned long long, atomic64_t)
 static FORCEINLINE int32_t atomic_load32(atomic32_t *src) {
 	return atomic_load_explicit(src, memory_order_relaxed);
 }
+static FORCEINLINE int32_t atomic_load32_acquire(atomic32_t *src) {
+	return atomic_load_explicit(src, memory_order_acquire);
+}
 static FORCEINLINE void atomic_store32(atomic32_t *dst, int32_t val) {
 	atomic_store_explicit(dst, val, memory_order_relaxed);
 }
@@ -296,6 +298,9 @@ static FORCEINLINE void atomic_store32_release(atomic32_t *dst, int32_t val) {
 static FORCEINLINE int32_t atomic_load32(atomic32_t *src) {
 	return atomic_load_explicit_32(src, memory_order_relaxed);
 }
+static FORCEINLINE int32_t atomic_load32_acquire(atomic32_t *src) {
+	return atomic_load_explicit_32(src, memory_order_relaxed);
+}
 static FORCEINLINE void atomic_store32(atomic32_t *dst, int32_t val) {
 	atomic_store_explicit_32(dst, val, memory_order_relaxed);
 }
@@ -745,6 +750,12 @@ static span_t *_memory_global_reserve_master;
 static heap_t *_memory_heaps[HEAP_ARRAY_SIZE];
 //! Used to restrict access to mapping memory for huge pages
 static atomic32_t _memory_global_lock;
+
+//! Initialized flag, set once all global data is
+static atomic32_t _rpmalloc_initialized;
+
+//! Lock of the initialization
+static atomic32_t _memory_setup_lock;
 //! Orphaned heaps
 static heap_t *_memory_orphan_heaps;
 
@@ -2619,20 +2630,15 @@ static void _rpmalloc_adjust_size_class(size_t iclass) {
 
 //! Initialize the allocator and setup global data
 extern int rpmalloc_initialize(void) {
-	if (_rpmalloc_initialized) {
+	if (atomic_load32_acquire(&_rpmalloc_initialized)) {
 		rpmalloc_thread_initialize();
 		return 0;
 	}
 	return rpmalloc_initialize_config(0);
 }
 
-int rpmalloc_initialize_config(const rpmalloc_config_t *config) {
-	if (_rpmalloc_initialized) {
-		rpmalloc_thread_initialize();
-		return 0;
-	}
-	_rpmalloc_initialized = 1;
-
+//! Setup global data, by the one thread that comes first
+static int _rpmalloc_setup(const rpmalloc_config_t *config) {
 	if (config)
 		memcpy(&_memory_config, config, sizeof(rpmalloc_config_t));
 	else
@@ -2842,16 +2848,30 @@ int rpmalloc_initialize_config(const rpmalloc_config_t *config) {
 	atomic_store32_release(&_memory_global_lock, 0);
 
 	rpmalloc_linker_reference();
+	return 0;
+}
+
+int rpmalloc_initialize_config(const rpmalloc_config_t *config) {
+	int result = 0;
+	while (!atomic_cas32_acquire(&_memory_setup_lock, 1, 0))
+		_rpmalloc_spin();
+	if (!atomic_load32_acquire(&_rpmalloc_initialized)) {
+		result = _rpmalloc_setup(config);
+		if (!result)
+			atomic_store32_release(&_rpmalloc_initialized, 1);
+	}
+	atomic_store32_release(&_memory_setup_lock, 0);
 
 	//Initialize this thread
-	rpmalloc_thread_initialize();
-	return 0;
+	if (!result)
+		rpmalloc_thread_initialize();
+	return result;
 }
 
 //! Finalize the allocator
 void
 rpmalloc_finalize(void) {
-	if (_rpmalloc_initialized == 0)
+	if (!atomic_load32_acquire(&_rpmalloc_initialized))
 		return;
 
 	size_t list_idx, iclass;
@@ -2882,7 +2902,7 @@ rpmalloc_finalize(void) {
 		_rpmalloc_global_cache_finalize(&_memory_span_cache[iclass]);
 #endif
 
-	_rpmalloc_initialized = 0;
+	atomic_store32_release(&_rpmalloc_initialized, 0);
 
 #if defined(__TINYC__) || !defined(_WIN32)
 	pthread_key_delete(_memory_thread_heap);
@@ -3145,7 +3165,7 @@ rpmalloc_global_statistics(rpmalloc_global_statistics_t * stats) {
 }
 
 void rpmalloc_init(void) {
-	if (!_rpmalloc_initialized && !_rpmalloc_shuting_down) {
+	if (!atomic_load32_acquire(&_rpmalloc_initialized) && !_rpmalloc_shuting_down) {
 		rpmalloc_initialize();
 	} else if (!rpmalloc_is_thread_initialized()) {
 		rpmalloc_thread_initialize();
-- 
2.43.0


From ef460eafbbc9cc2e7a18db070a1ec36f7e62fdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:52 +0000
Subject: [PATCH 50/78] fix: a second events_start ran tasks of the first,
 already freed

---
 src/events.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/events.c b/src/events.c
index cc87f4f..05b080e 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1131,6 +1131,10 @@ static void __thrd_init(bool is_main, uint32_t thread_id) {
 	__thrd()->main_handle = NULL;
 	__thrd()->loop = NULL;
 	__thrd()->pool = NULL;
+	__thrd()->running = NULL;
+	/* nothing of a system that has ended is to run again */
+	memset(__thrd()->sleep_queue, 0, sizeof(__thrd()->sleep_queue));
+	memset(__thrd()->run_queue, 0, sizeof(__thrd()->run_queue));
 	__thrd()->sleep_handle = create_task(Kb(18), (data_func_t)task_wait_system, null, false, true);
 	__thrd()->sleep_activated = (int)task_push(__thrd()->sleep_handle, true) > 0;
 }
-- 
2.43.0


From d1ce2f7c7769f77e7a80b5fc727afb86b70479d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 51/78] fix: events_destroy stopped other loops, kept its
 registrations and timers, and freed a loop still in use by its callback

---
 src/epoll.c           |  8 ++--
 src/events.c          | 85 +++++++++++++++++++++++++++++++++++--------
 src/events_internal.h |  7 +++-
 src/kqueue.c          |  8 ++--
 4 files changed, 83 insertions(+), 25 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index 445c460..648e480 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -78,13 +78,13 @@ events_t *events_create(int max_timeout) {
 int events_destroy(events_t *_loop) {
 	events_epoll *loop = (events_epoll *)_loop;
 
-	events_set_destroy();
+	events_set_destroy(_loop);
 	if (loop == NULL || epoll_close(loop->epfd) != 0) {
 		return -1;
 	}
 
-	events_deinit_loop_internal(&loop->loop);
-	events_free(loop);
+	if (events_deinit_loop_internal(&loop->loop))
+		events_free(loop);
 	return 0;
 }
 
@@ -157,7 +157,7 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 	if (nevents == -1) {
 		return -1;
 	}
-	for (i = 0; i < nevents; ++i) {
+	for (i = 0; i < nevents && !loop->loop.is_destroyed; ++i) {
 		struct epoll_event *event = loop->events + i;
 		events_fd_t *target = events_target(event->data.fd);
 		if (loop->loop.loop_id == target->loop_id
diff --git a/src/events.c b/src/events.c
index 05b080e..6c6185a 100644
--- a/src/events.c
+++ b/src/events.c
@@ -128,8 +128,9 @@ EVENTS_INLINE bool events_is_shutdown(void) {
 	return events_shutdown_set;
 }
 
-void events_set_destroy(void) {
-	__thrd()->loop = NULL;
+void events_set_destroy(events_t *loop) {
+	if (__thrd()->loop == loop)
+		__thrd()->loop = NULL;
 }
 
 EVENTS_INLINE bool events_is_destroy(void) {
@@ -758,21 +759,29 @@ EVENTS_INLINE int events_once(events_t *loop, int max_wait) {
 		max_wait = loop->timeout.resolution;
 	}
 
+	int r;
+	loop->in_use++;
 	loop->now = time(NULL);
-	if (events_execute(loop, max_wait) != 0) {
-		return -1;
-	}
+	if ((r = events_execute(loop, max_wait)) == 0) {
+		if (!loop->is_destroyed && !__thrd()->in_callback && __thrd()->task_count) {
+			tasks_schedulering(false);
+		}
+
+		if (max_wait != 0) {
+			loop->now = time(NULL);
+		}
 
-	if (!__thrd()->in_callback && __thrd()->task_count) {
-		tasks_schedulering(false);
+		if (!loop->is_destroyed)
+			events_handle_timeout_internal(loop);
+		r = (int)(loop->active_descriptors + loop->active_timers + loop->active_io);
 	}
 
-	if (max_wait != 0) {
-		loop->now = time(NULL);
+	if (--loop->in_use == 0 && loop->is_destroyed) {
+		events_free(loop->timeout._free_addr);
+		events_free(loop);
 	}
 
-	events_handle_timeout_internal(loop);
-	return (int)(loop->active_descriptors + loop->active_timers + loop->active_io);
+	return r;
 }
 
 EVENTS_INLINE void *events_memalign(size_t sz, void **orig_addr, int clear) {
@@ -797,6 +806,8 @@ int events_init_loop_internal(events_t *loop, int max_timeout) {
 	loop->active_io = 0;
 	loop->active_timers = 0;
 	loop->active_signals = 0;
+	loop->in_use = 0;
+	loop->is_destroyed = false;
 	loop->signal_handlers = NULL;
 	memset(loop->timers, 0, sizeof(loop->timers));
 	assert(EVENTS_TOO_MANY_LOOPS);
@@ -821,8 +832,53 @@ int events_init_loop_internal(events_t *loop, int max_timeout) {
 	return 0;
 }
 
-void events_deinit_loop_internal(events_t *loop) {
+bool events_deinit_loop_internal(events_t *loop) {
+	int i;
+	actor_t *t, *next;
+	events_fd_t *target;
+	sys_signal_t *signals = events_signals();
+	/* what is still registered has no loop from here on */
+	if (sys_event.fds != NULL) {
+		for (i = 0; i < max_event_sig; i++) {
+			if (signals[i].proc != NULL && signals[i].loop == loop) {
+				events_target(signals[i].sig)->signal_set = false;
+				events_del_signal(signals[i].sig, i);
+				signals[i].loop = NULL;
+			}
+		}
+
+		for (i = 0; i < sys_event.max_fd; i++) {
+			target = events_target(i);
+			if (target->loop == loop) {
+				target->loop = NULL;
+				target->loop_id = 0;
+				target->events = 0;
+				target->timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED;
+			}
+		}
+	}
+
+	for (t = loop->timers->head; t != NULL; t = next) {
+		next = t->next;
+		/* the one running is freed as it returns */
+		t->repeating = 0;
+		if (!t->running)
+			events_free(t);
+	}
+
+	memset(loop->timers, 0, sizeof(loop->timers));
+	loop->active_descriptors = 0;
+	loop->active_io = 0;
+	loop->active_timers = 0;
+	loop->active_signals = 0;
+	/* destroyed by one of its callbacks, `events_once()` lets go of it */
+	if (loop->in_use) {
+		loop->is_destroyed = true;
+		return false;
+	}
+
 	events_free(loop->timeout._free_addr);
+	return true;
 }
 
 EVENTS_INLINE void events_handle_timeout_internal(events_t *loop) {
@@ -836,7 +892,7 @@ EVENTS_INLINE void events_handle_timeout_internal(events_t *loop) {
 		short *vec = EVENTS_TIMEOUT_VEC_OF(loop, loop->timeout.base_idx);
 		short *vec_of_vec = EVENTS_TIMEOUT_VEC_OF_VEC_OF(loop, loop->timeout.base_idx);
 		for (i = 0; i < sys_event.timeout_vec_of_vec_size; ++i) {
-			if (events_shutdown_set)
+			if (events_shutdown_set || loop->is_destroyed)
 				return;
 			short vv = vec_of_vec[i];
 			if (vv != 0) {
@@ -849,9 +905,8 @@ EVENTS_INLINE void events_handle_timeout_internal(events_t *loop) {
 								assert(fd->loop_id == loop->loop_id);
 								vec[j] &= ~bit;
 								fd->timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED;
-								events_id_t loop_id = loop->loop_id;
 								(*fd->callback)(k, EVENTS_TIMEOUT, fd->cb_arg);
-								if (loop_id != loop->loop_id)
+								if (loop->is_destroyed)
 									return;
 							}
 						}
diff --git a/src/events_internal.h b/src/events_internal.h
index 5b5f3c1..462751a 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -325,6 +325,9 @@ struct events_loop_s {
 	/* read only */
 	events_id_t loop_id;
 	int inotify_fd;
+	/* number of `events_once()` calls under way, and `events_destroy()` called meanwhile */
+	int in_use;
+	bool is_destroyed;
 	atomic_size_t active_signals;
 	size_t active_descriptors;
 	size_t active_io;
@@ -563,13 +566,13 @@ struct af_unix_s {
 	u_saddr_t *addr;
 };
 
-void events_set_destroy(void);
+void events_set_destroy(events_t *loop);
 int events_add_signal(int sig, sig_cb proc, void *data);
 void events_del_signal(int sig, int i);
 events_fd_t *events_target(int fd);
 int events_id(events_t *loop);
 int events_init_loop_internal(events_t *loop, int max_timeout);
-void events_deinit_loop_internal(events_t *loop);
+bool events_deinit_loop_internal(events_t *loop);
 void events_handle_timeout_internal(events_t *loop);
 void *events_memalign(size_t sz, void **orig_addr, int clear);
 /* internal: updates events to be watched (defined by each backend) */
diff --git a/src/kqueue.c b/src/kqueue.c
index 85bf50d..e8c773c 100644
--- a/src/kqueue.c
+++ b/src/kqueue.c
@@ -118,13 +118,13 @@ events_t *events_create(int max_timeout) {
 int events_destroy(events_t *_loop) {
 	events_kqueue *loop = (events_kqueue *)_loop;
 
-	events_set_destroy();
+	events_set_destroy(_loop);
 	if (loop == NULL || close(loop->kq) != 0) {
 		return -1;
 	}
 
-	events_deinit_loop_internal(&loop->loop);
-	events_free(loop);
+	if (events_deinit_loop_internal(&loop->loop))
+		events_free(loop);
 	return 0;
 }
 
@@ -180,7 +180,7 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 		assert(errno == EACCES || errno == EFAULT || errno == EINTR);
 		return -1;
 	}
-	for (i = 0; i < nevents; ++i) {
+	for (i = 0; i < nevents && !loop->loop.is_destroyed; ++i) {
 		struct kevent *event = loop->events + i;
 		events_fd_t *target = events_target(event->ident);
 		/* changelist errors are fatal */
-- 
2.43.0


From ace722a9d7c07c8ab2f61d51de39243f17fde6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 52/78] fix: events_init_pool survives failures, and leaks no
 loops when called again

---
 src/events.c | 66 +++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 55 insertions(+), 11 deletions(-)

diff --git a/src/events.c b/src/events.c
index 6c6185a..9aa426c 100644
--- a/src/events.c
+++ b/src/events.c
@@ -202,8 +202,13 @@ EVENTS_INLINE void events_set_main(main_cb startup) {
 int events_start(int max_fd, main_cb startup, void *args) {
 	events_t *loop;
 	int r;
-	if (!(r = events_init(max_fd))
-		&& !is_empty(loop = events_init_pool(thrd_cpu_count() / 2))) {
+	if (!(r = events_init(max_fd))) {
+		if (is_empty(loop = events_init_pool(thrd_cpu_count() / 2))) {
+			events_destroy(__thrd()->loop);
+			events_deinit();
+			return -1;
+		}
+
 		events_set_main(startup);
 		if (is_empty(args))
 			async_task((param_func_t)startup, 0);
@@ -2688,21 +2693,39 @@ static int __tasks_pool_wrapper(void *arg) {
 events_t *events_init_pool(uint32_t count) {
 	atomic_compiler_fence();
 	int i, x, timeout = sys_event.cpu_count * count + sys_event.cpu_count;
-	if (__thrd()->loop == NULL)
-		events_create_future(events_create(timeout));
+	events_t *loop;
+	if (__thrd()->loop == NULL
+		&& ((loop = events_create(timeout)) == NULL || events_create_future(loop) == NULL))
+		return NULL;
 
 	i = $size(sys_event.future_cpu_idx);
 	x = count >= sys_event.cpu_count
 		? sys_event.cpu_count - i
 		: count - i;
+	/* only the first loops, one for every cpu, have a thread */
 	if (count > 0) {
-		for (i = 1; i <= x; i++)
-			events_create_future(events_create(timeout));
+		for (i = 1; i <= x && atomic_load(&sys_event.num_loops) < sys_event.cpu_count; i++) {
+			if ((loop = events_create(timeout)) == NULL)
+				return NULL;
+
+			future *f = events_create_future(loop);
+			if (f == NULL || f->queue->loop != loop) {
+				events_destroy(loop);
+				return NULL;
+			}
+		}
 	}
 
 	x = $size(sys_event.future_cpu_idx);
-	for (i = x; i < sys_event.cpu_count; i++)
-		events_create_pool(events_create(timeout));
+	for (i = x; i < sys_event.cpu_count && atomic_load(&sys_event.num_loops) < sys_event.cpu_count; i++) {
+		if ((loop = events_create(timeout)) == NULL)
+			return NULL;
+
+		if (events_create_pool(loop) < 0) {
+			events_destroy(loop);
+			return NULL;
+		}
+	}
 
 	return __thrd()->loop;
 }
@@ -2711,9 +2734,16 @@ int events_create_pool(events_t *loop) {
 	atomic_compiler_fence();
 	events_deque_t **local = sys_event.local;
 	future_tasks_t *t_work = NULL;
-	int save_err = errno, index = loop->loop_id;
+	int save_err = errno, index;
+	if (is_empty(loop))
+		return TASK_ERRED;
+
+	index = loop->loop_id;
 	errno = EINVAL;
-	if (index <= sys_event.cpu_count && local[index] == NULL) {
+	if (index > sys_event.cpu_count)
+		return TASK_ERRED;
+
+	if (local[index] == NULL) {
 		errno = ENOMEM;
 		if ((local[index] = (events_deque_t *)events_malloc(sizeof(events_deque_t)))) {
 			deque_init(local[index], sys_event.queue_size);
@@ -2733,7 +2763,14 @@ int events_create_pool(events_t *loop) {
 					$append_unsigned(sys_event.tasks_cpu_idx, index);
 					return 0;
 				}
+
+				$delete(t_work->queue->jobs);
+				events_free(t_work);
 			}
+
+			/* there is no thread to join */
+			deque_free(local[index]);
+			local[index] = NULL;
 		}
 	} else if (is_ptr_usable(local[index])) {
 		errno = save_err;
@@ -2796,7 +2833,7 @@ static int __future_wrapper(void *arg) {
 future *events_create_future(events_t *loop) {
 	events_deque_t **local = sys_event.local;
 	future *f_work = NULL;
-	int save_err = errno, index = loop->loop_id;
+	int save_err = errno, index = is_empty(loop) ? sys_event.cpu_count + 1 : loop->loop_id;
 	if (index <= sys_event.cpu_count && local[index] == NULL) {
 		errno = ENOMEM;
 		if ((local[index] = (events_deque_t *)events_malloc(sizeof(events_deque_t)))) {
@@ -2818,10 +2855,17 @@ future *events_create_future(events_t *loop) {
 					errno = save_err;
 					$append_unsigned(sys_event.future_cpu_idx, index);
 				} else {
+					$delete(f_work->queue->jobs);
 					events_free(f_work);
 					f_work = NULL;
 				}
 			}
+
+			if (f_work == NULL) {
+				/* there is no thread to join */
+				deque_free(local[index]);
+				local[index] = NULL;
+			}
 		}
 	}
 
-- 
2.43.0


From 03363c8c1f31491ac979d996b4a4dd200fa9ebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 53/78] fix: os_init that cannot get its eventfd closed
 descriptor 0

---
 src/os_unix.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index cbb76b1..63b0b33 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -83,10 +83,12 @@ int os_init(void) {
 	os_initialized = true;
 	fdTable = (FD_TABLE *)events_malloc(ioTableSize * sizeof(FD_TABLE));
 	if (fdTable == NULL) {
+		os_initialized = false;
 		errno = ENOMEM;
 		return -1;
 	}
 
+	memset((char *)fdTable, 0, (size_t)(ioTableSize * sizeof(FD_TABLE)));
 	if (hIoCompPort == -1) {
 #if __APPLE__ && __MACH__
 		int status, rtoken;
@@ -105,7 +107,6 @@ int os_init(void) {
 		}
 	}
 
-	memset((char *)fdTable, 0, (size_t)(ioTableSize * sizeof(FD_TABLE)));
 	return 0;
 }
 
-- 
2.43.0


From 1d6f31f4c5aa16f50b1c4de638374a24a8de99eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 54/78] fix: a start that failed left the library half started,
 the next one crashed

---
 src/epoll.c  | 11 ++++++-----
 src/events.c | 12 ++++++++++--
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index 648e480..dbadf1d 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -54,10 +54,6 @@ events_t *events_create(int max_timeout) {
 	if ((loop = (events_epoll *)events_malloc(sizeof(events_epoll))) == NULL) {
 		return NULL;
 	}
-	if (events_init_loop_internal(&loop->loop, max_timeout) != 0) {
-		events_free(loop);
-		return NULL;
-	}
 
 	/* init myself */
 #ifndef _WIN32
@@ -66,7 +62,12 @@ events_t *events_create(int max_timeout) {
 	if ((loop->epfd = epoll_create(sys_event.max_fd)) == NULL)
 #endif
 	{
-		events_deinit_loop_internal(&loop->loop);
+		events_free(loop);
+		return NULL;
+	}
+
+	if (events_init_loop_internal(&loop->loop, max_timeout) != 0) {
+		epoll_close(loop->epfd);
 		events_free(loop);
 		return NULL;
 	}
diff --git a/src/events.c b/src/events.c
index 9aa426c..0a05ec6 100644
--- a/src/events.c
+++ b/src/events.c
@@ -248,6 +248,8 @@ int events_init(int max_fd) {
 	cerr("%s, %s"CLR_LN, events_uname(), events_hostname());
 #endif
 	if (os_init() == -1) {
+		events_startup_set = false;
+		events_shutdown_set = true;
 		return -1;
 	}
 
@@ -262,6 +264,8 @@ int events_init(int max_fd) {
 	events_fd_t *fds = (events_fd_t *)events_memalign(sizeof(events_fd_t) * max_fd, &sys_event._fds_free_addr, 1);
 	if (fds == NULL) {
 		os_shutdown();
+		events_startup_set = false;
+		events_shutdown_set = true;
 		return -1;
 	}
 
@@ -830,8 +834,12 @@ int events_init_loop_internal(events_t *loop, int max_timeout) {
 	if (events_is_destroy())
 		__thrd()->loop = loop;
 
-	if (__thrd()->is_main && __thrd()->pool == NULL) {
-		__thrd()->pool = events_create_future(loop);
+	if (__thrd()->is_main && __thrd()->pool == NULL
+		&& (__thrd()->pool = events_create_future(loop)) == NULL) {
+		events_set_destroy(loop);
+		events_free(loop->timeout._free_addr);
+		atomic_fetch_sub(&sys_event.num_loops, 1);
+		return -1;
 	}
 
 	return 0;
-- 
2.43.0


From 36e2b2570211da6f98c455b94d996bd01c5e3579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:34 +0000
Subject: [PATCH 55/78] fix: concurrent async_gethostbyname calls overwrote
 each other's answers

---
 src/async_io.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index d4ffb80..347c9d5 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -350,10 +350,24 @@ int async_write(int fd, void *buf, int n) {
 	return tot;
 }
 
-static EVENTS_INLINE void *os_gethostbyname(param_t name) {
-	struct hostent *he = {0};
-	if ((he = gethostbyname(name->char_ptr)) != NULL)
+/* An answer, it belongs to the task that asked for it. */
+typedef struct hostname_s {
+	struct hostent host;
+	char buffer[Kb(1)];
+} hostname_t;
+
+static EVENTS_INLINE void *os_gethostbyname(param_t args) {
+	struct hostent *he = NULL;
+#ifdef __linux__
+	int err;
+	hostname_t *answer = (hostname_t *)args[1].object;
+	if (gethostbyname_r(args[0].char_ptr, &answer->host, answer->buffer,
+		sizeof(answer->buffer), &he, &err) == 0)
+		return (void *)he;
+#else
+	if ((he = gethostbyname(args[0].char_ptr)) != NULL)
 		return (void *)he;
+#endif
 
 	return NULL;
 }
@@ -511,8 +525,11 @@ EVENTS_INLINE char *gethostbyname_ip(struct hostent *host) {
 }
 
 EVENTS_INLINE struct hostent *async_gethostbyname(char *hostname) {
-	future *thrd = futures_pool();
-	return (struct hostent *)queue_get(queue_work(thrd, os_gethostbyname, 2, hostname, thrd->buffer)).object;
+	hostname_t *answer = (hostname_t *)events_calloc(1, sizeof(hostname_t));
+	if (!defer_free(answer))
+		return NULL;
+
+	return (struct hostent *)queue_get(queue_work(futures_pool(), os_gethostbyname, 2, hostname, answer)).object;
 }
 
 static EVENTS_INLINE void *os_getnameinfo(param_t args) {
-- 
2.43.0


From dac791c4fb4f47a623399590ead42ed3a6a9ec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:00 +0000
Subject: [PATCH 56/78] fix: binding a Unix socket cut the last two characters
 of a long path

---
 src/async_io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 347c9d5..cccedb1 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -65,7 +65,7 @@ fds_t async_socket(struct sockaddr *sa, char *address, int backlog, int protocol
 		usa.sun.sun_family = AF_UNIX;
 		uds->socket = fd;
 		uds->type = DATA_UNIX;
-		sn = sizeof(usa.sun.sun_path);
+		sn = sizeof(usa.sun);
 		err = bind(fd, (struct sockaddr *)&usa.sa, sn);
 	} else {
 		sn = sa->sa_family == AF_INET6 ? sizeof(usa.sin6) : sizeof(usa.sin);
@@ -149,7 +149,7 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 		usa.sun.sun_family = AF_UNIX;
 		uds->socket = fd;
 		uds->type = DATA_UNIX;
-		sn = sizeof(usa.sun.sun_path);
+		sn = sizeof(usa.sun);
 		err = bind(fd, (struct sockaddr *)&usa.sa, sn);
 	} else {
 		sn = usa.sa.sa_family == AF_INET6 ? sizeof(usa.sin6) : sizeof(usa.sin);
-- 
2.43.0


From 550125f266e541535b83b7f79961a800e90d3c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:00 +0000
Subject: [PATCH 57/78] fix: async_bind ignored an address without port, took
 any port for a port-only string

---
 src/async_io.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index cccedb1..004a45f 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -455,8 +455,15 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 		dst->sin6.sin6_port = htons((uint16_t)port);
 		*ip_version = 6;
 		return 1;
-	} else if ((portUL = strtoul(host, &endptr, 0) && port <= 0xffff)
-		&& (host != endptr)) {
+	} else if (sscanf(host, "%u.%u.%u.%u%n", &a, &b, &c, &d, &len) == 4
+		&& (size_t)len == ptrlen) {
+		/* Any port of a specific IPv4 address */
+		dst->sin.sin_addr.s_addr =
+			htonl((a << 24) | (b << 16) | (c << 8) | d);
+		*ip_version = 4;
+		return 1;
+	} else if ((portUL = strtoul(host, &endptr, 0)) <= 0xffff
+		&& (host != endptr) && *endptr == '\0') {
 		len = (int)(endptr - host);
 		port = (uint16_t)portUL;
 		/* If only port is specified, bind to IPv4, INADDR_ANY */
-- 
2.43.0


From 412532e71c8361eea4ab21624b2844bd14325e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:12 +0000
Subject: [PATCH 58/78] fix: a job queued while the pools end used a freed
 future

---
 src/deque.c  | 4 ++++
 src/events.c | 5 +++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/deque.c b/src/deque.c
index b76be73..a087fc4 100644
--- a/src/deque.c
+++ b/src/deque.c
@@ -168,6 +168,10 @@ void deque_destroy(void) {
 			/* only now, the threads use each others queues until they end */
 			for (i = 1; i <= count; i++) {
 				if (is_ptr_usable(queue[i]) && data_type(queue[i]) == DATA_DEQUE) {
+					if (queue[i]->pool != NULL) {
+						$delete(queue[i]->jobs);
+						events_free(queue[i]->pool);
+					}
 					queue[i]->type = DATA_INVALID;
 					deque_free(queue[i]);
 				}
diff --git a/src/events.c b/src/events.c
index 0a05ec6..e064032 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2679,6 +2679,7 @@ static int __tasks_pool_wrapper(void *arg) {
 	$delete(queue->jobs);
 	events_destroy(loop);
 	__thrd()->pool = NULL;
+	queue->pool = NULL;
 
 	if (__thrd()->sleep_handle != NULL
 		&& __thrd()->sleep_handle->magic_number == TASK_MAGIC_NUMBER) {
@@ -2824,11 +2825,11 @@ static int __future_wrapper(void *arg) {
 	} while (!atomic_flag_load_explicit(&queue->shutdown, memory_order_relaxed));
 
 	__thrd()->pool = NULL;
-	$delete(queue->jobs);
 	/* a loop shared with the creating thread is that thread's to destroy */
 	if (!work->is_shared)
 		events_destroy(loop);
-	events_free(work);
+
+	/* `deque_destroy()` frees `work`, other threads can still be giving it jobs */
 
 #if !defined(NO_RPMALLOC)
 	rpmalloc_thread_finalize(1);
-- 
2.43.0


From 69e3e8b3a7777c761558abbc985033a444b5279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:29 +0000
Subject: [PATCH 59/78] fix: str_itoa lost the sign and all above an int,
 crashed without a scope; trim read before blank text

---
 src/arrays.c | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index 91b5da8..9c7e245 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -792,14 +792,15 @@ EVENTS_INLINE int str_subcount(const char *text, char *pattern) {
 }
 
 static EVENTS_INLINE char *ltrim(char *s) {
-	while (isspace(*s)) s++;
+	while (isspace((unsigned char)*s)) s++;
 	return s;
 }
 
 static EVENTS_INLINE char *rtrim(char *s) {
 	char *back = s + strlen(s);
-	while (isspace(*--back));
-	*(back + 1) = '\0';
+	while (back > s && isspace((unsigned char)*(back - 1)))
+		back--;
+	*back = '\0';
 	return s;
 }
 
@@ -1599,39 +1600,36 @@ static char *___str_itoa(int value, char *result, int base) {
 
 char *str_itoa(int64_t x) {
 #if defined(__s390__) || defined(__s390x__)
-	return ___str_itoa((int)x, scope_local()->scrape, 10);
+	return ___str_itoa((int)x, get_scope()->scrape, 10);
 #else
-	char *buf = scope_local()->scrape;
+	/* makes the thread's scope when there is none yet */
+	char *res = get_scope()->scrape, *buf = res;
 	// Handle negatives
 	bool neg = x < 0;
+	uint64_t u = neg ? 0 - (uint64_t)x : (uint64_t)x;
 	*buf = '-'; // Always write
 	buf += neg; // But advance only if negative
-#if defined(__APPLE__) || defined(__MACH__)
-	x = llabs(x);
-#else
-	x = abs(x);
-#endif
 
 	char tmp[20];
 	char *p = tmp + 20;
 
-	while (x >= 100) {
+	while (u >= 100) {
 		p -= 2;
-		utoa2p_ex(x % 100, p);
-		x /= 100;
+		utoa2p_ex(u % 100, p);
+		u /= 100;
 	}
 
 	p -= 2;
-	utoa2p_ex(x, p);
+	utoa2p_ex(u, p);
 
-	p += x < 10;
+	p += u < 10;
 
 	uint32_t len = tmp + 20 - p;
 
-	memcpy(buf, p, 20);
+	memcpy(buf, p, len);
 	buf[len] = '\0';
 
-	return buf;
+	return res;
 #endif
 }
 
-- 
2.43.0


From 180d815303f5edd8462871d7498c73ff1df3f63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:29 +0000
Subject: [PATCH 60/78] fix: uri_free kept a uri of an unknown scheme,
 parse_uri_ex one it rejected

---
 src/arrays.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index 9c7e245..8c963d8 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1223,7 +1223,7 @@ static EVENTS_INLINE char *uri_dup(const void *src, size_t len) {
 
 void uri_free(uri_t *uri) {
 	if ((data_type(uri) > DATA_GENERATOR && data_type(uri) < DATA_WATCH)
-		|| (data_type(uri) == -DATA_MAXCOUNTER) && uri->is_rejected) {
+		|| data_type(uri) == -DATA_MAXCOUNTER) {
 		if (uri->is_autofreeable)
 			return;
 
@@ -1524,10 +1524,14 @@ uri_t *parse_uri_ex(const char *str) {
 		return null;
 
 	uri_t *uri = uri_parse_ex(str, strlen(str), false);
+	if (is_empty(uri))
+		return null;
+
 	if (uri->is_rejected || is_empty(uri->host)
 		|| (!str_has(uri->host, ".") && !str_is(uri->host, events_hostname()))) {
-		errno = EINVAL;
+		uri->type = -DATA_MAXCOUNTER;
 		uri_free(uri);
+		errno = EINVAL;
 		return null;
 	}
 
-- 
2.43.0


From b8df43ad548172799820b7442b58771fbe14bc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 61/78] fix: str_cat_argv built upon the text of the call
 before, wrote outside its buffer

---
 src/arrays.c | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index 8c963d8..6bbf2b0 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1,7 +1,5 @@
 #include "events_internal.h"
 
-#define EVENTS_ARGS_LENGTH 32768
-
 #ifndef max
 # define max(a, b) (((a) > (b)) ? (a) : (b))
 #endif
@@ -26,7 +24,6 @@ typedef struct array_metadata_s {
 	atomic_spinlock lock;
 } array_metadata_t;
 
-static char EVENTS_ARGS[EVENTS_ARGS_LENGTH] = {0};
 const data_values_t data_values_empty[1] = {0};
 
 #define array_address(vec) (&((array_metadata_t *)(vec))[-1])
@@ -422,25 +419,24 @@ char *str_cat_ex(int num_args, ...) {
 	return res;
 }
 
-static int _str_append(size_t offset, const char *str, size_t len) {
-	strncat(EVENTS_ARGS + offset, str, len);
-	return offset + len;
-}
-
 char *str_cat_argv(int argc, char **argv, int start, char *delim) {
-	int i, j, len = 0;
-	for (i = start; i < argc; i++) {
-		len += strlen(argv[i]) + 1;
-	}
+	size_t len = 1, n = delim && *delim ? 1 : 0;
+	char *str, *p;
+	int i;
+
+	for (i = start; i < argc; i++)
+		len += strlen(argv[i]) + n;
+
+	if (!defer_free(str = events_calloc(1, _mem_align_up(len, 2))))
+		return null;
 
-	char *str = EVENTS_ARGS;
-	for (i = start, j = 0; i < argc; ++i) {
-		if (i > start)
-			j = _str_append(j, delim, 1);
-		j = _str_append(j, argv[i], strlen(argv[i]));
+	for (i = start, p = str; i < argc; ++i) {
+		if (i > start && n)
+			*p++ = *delim;
+		str_cpy(p, argv[i], 0);
+		p += strlen(argv[i]);
 	}
 
-	str[(sizeof(char) * len) - 1] = '\0';
 	return str;
 }
 
-- 
2.43.0


From 0362c53e349549bb4a6b6227997c1d64c8d0aed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 62/78] fix: pathinfo gave the file name as directory of a path
 without one

---
 src/arrays.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index 6bbf2b0..004742c 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1264,8 +1264,12 @@ fileinfo_t *pathinfo(char *filepath) {
 		file->filename = str_dup(basename(dir_name));
 		file->base = str_dup(basename((char *)file->dirname));
 #else
-		dirname(dir_name);
-		file->dirname = dir_name;
+		if (is_empty(str_memrchr(filepath, '/', path_len))) {
+			file->dirname = ".";
+		} else {
+			dirname(dir_name);
+			file->dirname = dir_name;
+		}
 		file->base = basename((char *)file->dirname);
 		file->filename = basename((char *)filepath);
 #endif
-- 
2.43.0


From a15c882a274f26e8650b860472155fd7b8d528e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 63/78] fix: str_explode gave nothing for a text without the
 delimiter

---
 src/arrays.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arrays.c b/src/arrays.c
index 004742c..bdc516b 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -613,6 +613,9 @@ array_t str_explode(const char *s, const char *delim) {
 			$delete(data);
 			return null;
 		}
+	} else {
+		/* without the delimiter it is one piece */
+		$append_string(data, str_dup(s));
 	}
 
 	return data;
-- 
2.43.0


From 719e0d9ab3e5b0c73391074027d5e706b98e27b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 64/78] fix: appending to the copy of an empty array wrote
 outside its memory

---
 src/arrays.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index bdc516b..d83deee 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -155,7 +155,7 @@ EVENTS_INLINE array_t data_append(array_t arr, void *value) {
 
 	size_t size, cv_cap__ = array_cap(arr);
 	if (cv_cap__ <= array_length(arr)) {
-		size = cv_cap__ << 1;
+		size = cv_cap__ ? cv_cap__ << 1 : 2;
 		array_grow(arr, size);
 	}
 
@@ -202,7 +202,7 @@ array_t data_append_item(array_t arr, ...) {
 	data_types n = DATA_INVALID;
 	size_t size, cv_cap__ = array_cap(arr), index = array_length(arr);
 	if (cv_cap__ <= index) {
-		size = cv_cap__ << 1;
+		size = cv_cap__ ? cv_cap__ << 1 : 2;
 		array_grow(arr, size);
 	}
 
-- 
2.43.0


From c80e61b8b7d8095c61ca9105ad6af0c354228c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:38 +0000
Subject: [PATCH 65/78] fix: mem_printf gave memory of the C library to the
 allocator, crashed when it was freed

---
 src/arrays.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index d83deee..0d22cdd 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -958,11 +958,15 @@ char *mem_printf(int *count, const char *fmt, ...) {
 	int len;
 	char *tmp_str;
 
-    va_start(values, fmt);
-    len = vasprintf(&tmp_str, fmt, values);
-    va_end(values);
-
-	if (EXPECTED(len > 0) && defer_free(tmp_str)) {
+	va_start(values, fmt);
+	len = vsnprintf(NULL, 0, fmt, values);
+	va_end(values);
+
+	/* not `vasprintf()`, its memory isn't of our allocator */
+	if (EXPECTED(len > 0) && defer_free(tmp_str = events_malloc(len + 1))) {
+		va_start(values, fmt);
+		vsnprintf(tmp_str, len + 1, fmt, values);
+		va_end(values);
 		if (count)
 			*count = len;
 		return tmp_str;
-- 
2.43.0


From 926331a07aac34920789e8829fa0247f3dadae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 66/78] fix: trying gave memory of the C library to the
 allocator, crashed when its scope ended

---
 src/except.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/except.c b/src/except.c
index 87cc6be..1906a8c 100644
--- a/src/except.c
+++ b/src/except.c
@@ -1259,7 +1259,7 @@ EVENTS_INLINE int exit_scope(void) {
 /* General error handling for any condition, passing callbacks.
 Guaranteed to return `value` as ~union~, similar to https://ziglang.org/documentation/master/#try */
 values_t *trying(void *with, data_func_t tryFunc, data_func_t catchFunc, launch_func_t finalFunc) {
-	values_t *value = fence(calloc(1, sizeof(values_t)), events_free);
+	values_t *value = fence(events_calloc(1, sizeof(values_t)), events_free);
 	if (!is_empty(value)) {
 		try {
 			value->object = tryFunc(with);
-- 
2.43.0


From df59dd055bdb7e856b83602cd5f6358686098a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 67/78] fix: memory taken before the first scope or loop was
 freed by the other allocator

---
 src/events.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/events.c b/src/events.c
index e064032..4be044d 100644
--- a/src/events.c
+++ b/src/events.c
@@ -44,10 +44,17 @@ typedef struct {
 } events_allocator_t;
 
 static events_allocator_t events_allocators = {
+#if !defined(NO_RPMALLOC)
+  rp_malloc,
+  rp_realloc,
+  rp_calloc,
+  rpfree,
+#else
   malloc,
   realloc,
   calloc,
   free,
+#endif
 };
 
 typedef struct {
-- 
2.43.0


From bd320ef03cd3e322504e28399d25b56d5c0a1d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:50 +0000
Subject: [PATCH 68/78] fix: a suspended task resumed for the first time ran in
 the place of the one resuming it

---
 src/events.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/events.c b/src/events.c
index 4be044d..3f6d9d3 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2510,13 +2510,11 @@ EVENTS_INLINE void resume(tasks_t *co) {
 		tasks_t *t = __thrd()->running;
 		tasklist_t *l = __thrd()->run_queue;
 		t->ready = true;
-		if (co->cycles > 1)
+		/* Not run yet, it's still in the queue. */
+		if (co->cycles > 0)
 			enqueue(l, co);
 		enqueue(l, t);
-		if (co->cycles > 1)
-			suspend();
-		else
-			task_switch(co);
+		suspend();
 	}
 }
 
-- 
2.43.0


From cf77ca3b3e53d7ffbd116111b75eb23e259074fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:14 +0000
Subject: [PATCH 69/78] fix: descriptors above 255 shared the table entries of
 others

---
 src/events.c  | 4 +++-
 src/os_unix.c | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 3f6d9d3..b0eb8e4 100644
--- a/src/events.c
+++ b/src/events.c
@@ -254,7 +254,9 @@ int events_init(int max_fd) {
 #ifdef USE_DEBUG
 	cerr("%s, %s"CLR_LN, events_uname(), events_hostname());
 #endif
+	sys_event.max_fd = max_fd;
 	if (os_init() == -1) {
+		sys_event.max_fd = 0;
 		events_startup_set = false;
 		events_shutdown_set = true;
 		return -1;
@@ -271,6 +273,7 @@ int events_init(int max_fd) {
 	events_fd_t *fds = (events_fd_t *)events_memalign(sizeof(events_fd_t) * max_fd, &sys_event._fds_free_addr, 1);
 	if (fds == NULL) {
 		os_shutdown();
+		sys_event.max_fd = 0;
 		events_startup_set = false;
 		events_shutdown_set = true;
 		return -1;
@@ -278,7 +281,6 @@ int events_init(int max_fd) {
 
 	atomic_init(&sys_event.fds, fds);
 	atexit(events_deinit);
-	sys_event.max_fd = max_fd;
 	sys_event.tasks_cpu_idx = NULL;
 	sys_event.future_cpu_idx = NULL;
 	sys_event.gc = NULL;
diff --git a/src/os_unix.c b/src/os_unix.c
index 63b0b33..f7d2e85 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -81,6 +81,9 @@ int os_init(void) {
 		return 0;
 
 	os_initialized = true;
+	/* every descriptor has its own entry, those for watches and others without one come after */
+	if (ioTableSize < sys_event.max_fd + 256)
+		ioTableSize = sys_event.max_fd + 256;
 	fdTable = (FD_TABLE *)events_malloc(ioTableSize * sizeof(FD_TABLE));
 	if (fdTable == NULL) {
 		os_initialized = false;
-- 
2.43.0


From de5491ce51529d64a4c7d45591ed6120d559aab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:58 +0000
Subject: [PATCH 70/78] fix: a thread other than main ending the process freed
 what all others still used

---
 src/events.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/events.c b/src/events.c
index b0eb8e4..8942f34 100644
--- a/src/events.c
+++ b/src/events.c
@@ -321,6 +321,10 @@ EVENTS_INLINE void events_deinit(void) {
 		return;
 
 	events_shutdown_set = true;
+	/* another thread ends the process, this and all others are still using everything */
+	if (!__thrd()->is_main)
+		return;
+
 	deque_destroy();
 	if (is_data(sys_event.gc)) {
 		if ($size(sys_event.gc) > 0) {
-- 
2.43.0


From d60900358f387cfa71cf9e5b0038c176243d7e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:20 +0000
Subject: [PATCH 71/78] fix: events_start never returned after a watched
 directory was removed or could not be watched

---
 src/events.c | 53 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/events.c b/src/events.c
index 8942f34..a294320 100644
--- a/src/events.c
+++ b/src/events.c
@@ -545,7 +545,36 @@ static void *fsevents_task(param_t args) {
 }
 #endif
 
+static int fsevents_forget(uint32_t rid) {
+	int found = TASK_ERRED;
+	atomic_lock(&events_fsevents_lock);
+	if (rid > 0 && is_data(events_fsevents_tasks) && $size(events_fsevents_tasks) > 0) {
+		foreach(watch in events_fsevents_tasks) {
+			if (watch.integer == rid) {
+				$remove(events_fsevents_tasks, iwatch);
+				found = 0;
+				break;
+			}
+		}
+	}
+	atomic_unlock(&events_fsevents_lock);
+
+	return found;
+}
+
+/* The thread asking for a watch goes on until it's over, canceled or not. */
+static void *fsevents_hold(param_t args) {
+	uint32_t rid = args->u_int;
+	while (!task_is_ready(rid))
+		delay(10);
+
+	(void)fsevents_forget(rid);
+	return 0;
+}
+
 int fsevents_init(const char *name, watch_cb handler, void *filter) {
+	tasks_t *c = active_task();
+	bool in_group;
 	int rid = task_push(create_task(Kb(26),
 		(data_func_t)fsevents_task, arrays(3, name, handler, filter), true, true), true);
 	if (rid > 0) {
@@ -555,27 +584,21 @@ int fsevents_init(const char *name, watch_cb handler, void *filter) {
 
 		$append_signed(events_fsevents_tasks, rid);
 		atomic_unlock(&events_fsevents_lock);
-		__thrd()->task_count++;
+
+		/* not a member of any group */
+		in_group = c->group_active;
+		c->group_active = false;
+		task_push(create_task(Kb(18), (data_func_t)fsevents_hold, arrays(1, casting(rid)), false, true), false);
+		c->group_active = in_group;
 	}
 
 	return rid;
 }
 
 int fsevents_stop(uint32_t rid) {
-	int found = TASK_ERRED;
-	atomic_lock(&events_fsevents_lock);
-	if (rid > 0 && is_data(events_fsevents_tasks) && $size(events_fsevents_tasks) > 0) {
-		foreach(watch in events_fsevents_tasks) {
-			if (watch.integer == rid) {
-				$remove(events_fsevents_tasks, iwatch);
-				task_set_canceled(rid);
-				__thrd()->task_count--;
-				found = 0;
-				break;
-			}
-		}
-	}
-	atomic_unlock(&events_fsevents_lock);
+	int found = fsevents_forget(rid);
+	if (found == 0)
+		task_set_canceled(rid);
 
 	return found;
 }
-- 
2.43.0


From 3bb84128845b3ca08b4970586bb159561ccd4f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:46 +0000
Subject: [PATCH 72/78] fix: an address text of the caller was changed, and
 udp_to sent nowhere for names without a scheme

---
 src/arrays.c | 57 ++++++++++++++++++++++------------------------------
 1 file changed, 24 insertions(+), 33 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index 0d22cdd..7c92d4d 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1147,48 +1147,42 @@ static EVENTS_INLINE const void *str_memrchr(const void *s, int c, size_t n) {
 #define ip_class(p) ((*(unsigned char*)(p))>>6)
 char *str_parseip(char *name, uint32_t *ip, int *port, bool autofree) {
 	unsigned char addr[4];
-	char *p, **tmp = null, buf[ARRAY_SIZE] = {0};
+	char *host, *p;
 	int i, x;
+	size_t len;
 
-	if ((i = str_pos(name, "//")) > 3) {
-		snprintf(buf, ARRAY_SIZE, "%s", (const char *)((uintptr_t)name + (i + 2)));
-		name = buf;
-	}
+	/* without the scheme */
+	if ((i = str_pos(name, "//")) > 3)
+		name += i + 2;
 
+	len = strlen(name);
 	if ((i = str_pos(name, "]:")) > 3) {
-		*port = atoi(trim_at(name, i + 2));
-		name[i + 1] = '\0';
-		return autofree ? str_dup(name) : str_dup_ex(name);
-	} else if ((i = str_pos(name, ":")) > 6) {
-		tmp = str_split_ex(name, ":", null);
-		*port = atoi(tmp[1]);
-		name = tmp[0];
-		if (autofree) {
-			defer_free(tmp);
-		} else {
-			i = snprintf(buf, ARRAY_SIZE, "%s", tmp[0]);
-			events_free(tmp);
-			tmp = null;
-			if (i)
-				tmp = (char **)str_dup_ex(buf);
-		}
-	} else if (!str_is_empty((const char *)buf)) {
-		tmp = (char **)str_dup(buf);
-		name = (char *)tmp;
+		*port = atoi(name + i + 2);
+		len = i + 1;
+	} else if (*name != '/' && (i = str_pos(name, ":")) > 1 && !str_has(name + i + 1, ":")) {
+		*port = atoi(name + i + 1);
+		len = i;
 	}
 
-	p = name;
+	/* `name` is of the caller, it's left as it is */
+	if (is_empty(host = str_memdup_ex(name, len, autofree)))
+		return null;
+
+	p = host;
 	for (i = 0; i < 4 && *p; i++) {
 		x = strtoul(p, &p, 0);
 		if (x < 0 || x >= 256)
-			return (autofree) ? name : (char *)tmp;
+			return host;
 		if (*p != '.' && *p != 0)
-			return (autofree) ? name : (char *)tmp;
+			return host;
 		if (*p == '.')
 			p++;
 		addr[i] = x;
 	}
 
+	if (i == 0)
+		return host;
+
 	switch (ip_class(addr)) {
 		case 0:
 		case 1:
@@ -1201,22 +1195,19 @@ char *str_parseip(char *name, uint32_t *ip, int *port, bool autofree) {
 				addr[2] = 0;
 				addr[1] = 0;
 			} else if (i != 4)
-				return (autofree) ? name : (char *)tmp;
+				return host;
 			break;
 		case 2:
 			if (i == 3) {
 				addr[3] = addr[2];
 				addr[2] = 0;
 			} else if (i != 4)
-				return (autofree) ? name : (char *)tmp;
+				return host;
 			break;
 	}
 
 	*ip = *(uint32_t *)addr;
-	if (is_empty(tmp) && autofree)
-		return name;
-
-	return autofree && !is_empty(tmp) ? tmp[0] : (char *)tmp;
+	return host;
 }
 
 static EVENTS_INLINE char *uri_dup(const void *src, size_t len) {
-- 
2.43.0


From 990644704157f13b2cd786d20a8448b605d9dc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:32 +0000
Subject: [PATCH 73/78] fix: socket_is_uds read what a task that ended had
 freed, and took TCP connections for Unix ones

---
 src/async_io.c  | 1 +
 src/async_uds.c | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 004a45f..f626ad8 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -67,6 +67,7 @@ fds_t async_socket(struct sockaddr *sa, char *address, int backlog, int protocol
 		uds->type = DATA_UNIX;
 		sn = sizeof(usa.sun);
 		err = bind(fd, (struct sockaddr *)&usa.sa, sn);
+		memcpy(&events_get_sockaddr(fd)->storage, &usa.storage, sizeof(usa.storage));
 	} else {
 		sn = sa->sa_family == AF_INET6 ? sizeof(usa.sin6) : sizeof(usa.sin);
 		err = bind(fd, (struct sockaddr *)sa, sn);
diff --git a/src/async_uds.c b/src/async_uds.c
index 19e0fb0..83a7ce2 100644
--- a/src/async_uds.c
+++ b/src/async_uds.c
@@ -58,8 +58,8 @@ int async_recvfrom(int fd, void *buf, int n, unsigned int flags) {
 
 EVENTS_INLINE bool socket_is_uds(int socket) {
 	if (socket <= 0) return false;
-	uds_t uds = events_target(socket)->uds;
-	return !is_empty(uds) && is_ptr_usable(uds) && data_type(uds) == DATA_UNIX;
+	/* what `uds` points at is gone once the task that asked for it ended */
+	return events_get_sockaddr(fd2socket(socket))->sa.sa_family == AF_UNIX;
 }
 
 static void *uds_client(param_t args) {
-- 
2.43.0


From 119f364c7c6af3107de99276458d0dd32ddc78a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:30 +0000
Subject: [PATCH 74/78] fix: a thread future was no longer done once its value
 was taken, thrd_wait then never ended

---
 src/future.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index a03ee8a..fc41959 100644
--- a/src/future.c
+++ b/src/future.c
@@ -156,7 +156,6 @@ values_t thrd_get(future_t f) {
 		if (os_join(f->thread, (uint32_t)-1, NULL) == 0) {
 			f->type = DATA_RESULT;
 			atomic_flag_clear(&f->promise->mutex);
-			atomic_flag_clear(&f->promise->done);
 			if (f->promise->result->is_array)
 				defer_free(f->promise->result->value.object);
 
-- 
2.43.0


From 3ef04176feeff995585b5e1925909ee2c14eceed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:46 +0000
Subject: [PATCH 75/78] fix: the allocator set by the program was replaced
 again at start

---
 src/events.c | 4 ----
 src/except.c | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/src/events.c b/src/events.c
index a294320..42e22a4 100644
--- a/src/events.c
+++ b/src/events.c
@@ -238,10 +238,6 @@ int events_init(int max_fd) {
 	events_startup_set = true;
 	events_shutdown_set = false;
 
-#if !defined(NO_RPMALLOC)
-	events_set_allocator(rp_malloc, rp_realloc, rp_calloc, rpfree);
-#endif
-
 #ifdef _WIN32
 	_setmaxstdio(8192);
 	WSADATA wsaData;
diff --git a/src/except.c b/src/except.c
index 1906a8c..9c24a9e 100644
--- a/src/except.c
+++ b/src/except.c
@@ -748,10 +748,6 @@ void ex_signal_setup(void) {
 	if (exception_signal_set)
 		return;
 
-#if !defined(NO_RPMALLOC)
-	events_set_allocator(rp_malloc, rp_realloc, rp_calloc, rpfree);
-#endif
-
 #if !defined(_WIN32) && defined(USE_DEBUG)
 	 /* store off program path so we can use it later */
 #ifdef __APPLE__
-- 
2.43.0


From 6b45f9d784f54f17525f960f85e2aa1ce721d740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:14 +0000
Subject: [PATCH 76/78] fix: named pipes took the entries of other descriptors,
 closing or reading those went to the pipe

---
 src/os_unix.c | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index f7d2e85..aaafa3e 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -56,6 +56,8 @@ typedef struct {
 
 static int ioTableSize = 256;
 static FD_TABLE *fdTable = NULL;
+/* Guards the watch descriptor slots, `inotify_recursive` runs in another thread, and those of named pipes. */
+static atomic_spinlock inotify_lock = false;
 static int hIoCompPort = -1;
 #if __APPLE__ && __MACH__
 static int hIoCompPort_token = -1;
@@ -164,12 +166,28 @@ EVENTS_INLINE int os_iodispatch(int ms) {
 
 EVENTS_INLINE int os_mkfifo(const char *name, mode_t mode) {
 	events_init(256);
-	int fake;
-	snprintf(sys_event.pNamed, sizeof(sys_event.pNamed), "%s%s", SYS_PIPE, name);
-	if ((fake = events_new_fd(FD_PIPE_ASYNC, hIoCompPort, - 1)) != -1)
-		fdTable[fake].path = str_dup_ex(sys_event.pNamed);
+	int fake, top;
+	char path[sizeof(sys_event.pNamed)];
+
+	snprintf(path, sizeof(path), "%s%s", SYS_PIPE, name);
+	atomic_lock(&inotify_lock);
+	memcpy(sys_event.pNamed, path, sizeof(path));
+	fake = events_pseudo_fd(path);
+	if (fake == -1 || fdTable[fake].type != FD_PIPE_ASYNC) {
+		/* a name is no descriptor, its entry is taken from the top of the table, away from those */
+		for (top = ioTableSize - 1; top > 0; --top) {
+			if (fdTable[top].type == FD_UNUSED)
+				break;
+		}
 
-	return mkfifo(sys_event.pNamed, mode);
+		if ((fake = events_new_fd(FD_PIPE_ASYNC, hIoCompPort, top)) != -1) {
+			fdTable[fake].fd = TASK_ERRED;
+			fdTable[fake].path = str_dup_ex(path);
+		}
+	}
+	atomic_unlock(&inotify_lock);
+
+	return mkfifo(path, mode);
 }
 
 EVENTS_INLINE int os_open(const char *path, int flags, mode_t mode) {
@@ -1362,9 +1380,6 @@ EVENTS_INLINE int __inotify_init1(int flags) {
 	return events_new_fd(FD_MONITOR_ASYNC, realfd, realfd);
 }
 
-/* Guards the watch descriptor slots, `inotify_recursive` runs in another thread. */
-static atomic_spinlock inotify_lock = false;
-
 static int inotify_slot(int realfd, int wd) {
 	int i;
 	for (i = ioTableSize - 1; i > 0; --i) {
-- 
2.43.0


From 00d44b2971d7dbba0ece3807f36c8edc50775c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:59 +0000
Subject: [PATCH 77/78] fix: a Unix socket path that is too long was cut, and
 bound or reached another server

---
 src/async_io.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/async_io.c b/src/async_io.c
index f626ad8..72f677e 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -44,6 +44,13 @@ fds_t async_socket(struct sockaddr *sa, char *address, int backlog, int protocol
 		: null;
 	bool is_unix = !is_empty(uds);
 
+	/* cut short it would be the path of another socket */
+	if (is_unix && strlen(address) >= sizeof(usa.sun.sun_path)) {
+		events_free(uds);
+		errno = ENAMETOOLONG;
+		return -1;
+	}
+
 	proto = protocol ? SOCK_STREAM : SOCK_DGRAM;
 	if ((fd = socket(sa->sa_family, proto, (protocol ? IPPROTO_IP : IPPROTO_UDP))) < 0) {
 		errno = os_geterror();
@@ -129,6 +136,13 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 		}
 	}
 
+	/* cut short it would be the path of another socket */
+	if (is_unix && strlen(address) >= sizeof(usa.sun.sun_path)) {
+		events_free(uds);
+		errno = ENAMETOOLONG;
+		return -1;
+	}
+
 	proto = protocol ? SOCK_STREAM : SOCK_DGRAM;
 	if ((fd = socket((is_unix ? AF_UNIX : usa.sa.sa_family),
 		proto, (protocol ? IPPROTO_IP : IPPROTO_UDP))) < 0) {
@@ -245,6 +259,13 @@ fds_t async_connect(char *hostname, int port, int protocol) {
 		}
 	}
 
+	/* cut short it would be the path of another socket */
+	if (is_unix && strlen(hostname) >= sizeof(usa.sun.sun_path)) {
+		events_free(uds);
+		errno = ENAMETOOLONG;
+		return -1;
+	}
+
 	proto = protocol ? SOCK_STREAM : SOCK_DGRAM;
 	if ((fd = socket((is_unix ? AF_UNIX : usa.sa.sa_family),
 		proto, (protocol ? IPPROTO_IP : IPPROTO_UDP))) < 0) {
-- 
2.43.0


From 2afa85b8db1cbc15157e89c677dc979a7fefa2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:37 +0000
Subject: [PATCH 78/78] fix: reads and writes of more than 512 MB crashed,
 their count was taken for a pointer

---
 src/async_io.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 72f677e..877a0ed 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -605,11 +605,16 @@ static EVENTS_INLINE void *_os_open(param_t args) {
 	return casting(r);
 }
 
+/* What the result of a job tells apart from a pointer, more is transferred by further calls. */
+static EVENTS_INLINE size_t at_once(size_t count) {
+	return count > 0x1ffff000 ? 0x1ffff000 : count;
+}
+
 static EVENTS_INLINE void *_os_read(param_t args) {
 #ifdef _WIN32
 	int r = _read(args[0].integer, args[1].object, args[2].u_int);
 #else
-	int r = read(args[0].integer, args[1].object, args[2].u_int);
+	int r = read(args[0].integer, args[1].object, at_once(args[2].u_int));
 #endif
 	return casting(r);
 }
@@ -618,7 +623,7 @@ static EVENTS_INLINE void *_os_write(param_t args) {
 #ifdef _WIN32
 	int r = _write(args[0].integer, args[1].const_char_ptr, args[2].u_int);
 #else
-	int r = write(args[0].integer, args[1].const_char_ptr, args[2].u_int);
+	int r = write(args[0].integer, args[1].const_char_ptr, at_once(args[2].u_int));
 #endif
 	return casting(r);
 }
@@ -630,7 +635,7 @@ static EVENTS_INLINE void *_os_sendfile(param_t args) {
 	return casting(sendfile(args[0].integer, args[1].integer, (off_t)args[2].long_long,
 		(off_t *)args[3].long_long_ptr, NULL, 0, 0));
 #else
-	return casting(sendfile(args[0].integer, args[1].integer, (off_t *)args[2].long_long_ptr, args[3].max_size));
+	return casting(sendfile(args[0].integer, args[1].integer, (off_t *)args[2].long_long_ptr, at_once(args[3].max_size)));
 #endif
 }
 
-- 
2.43.0

