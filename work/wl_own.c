/* P28: what belongs to a task (own): identity, data, name, suspension, guarded tasks, what is kept with a descriptor.
 * P29: plain threads (osthr): os_create, os_join, os_exit, os_detach and thread-local slots. */
#include "wl.h"
#include <sys/socket.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#define PLAIN __attribute__((no_sanitize_thread))
#define MS 1000000ull
extern long sim_write(int, const void *, size_t), sim_read(int, void *, size_t); extern int sim_close(int);
extern int sim_pipe2(int *, int), sim_socketpair(int, int, int, int *);

/* ---- own ---- */
#define NO 40
static struct O { tasks_t *t; uint32_t id; uint32_t rid; void *data; int pool, launched, left, live, done, cell[8], fd[2], fdval; } O[NO]; static int no, nlive, main_done;
static void pause_(void) { switch (sim_gen(5)) { case 0: break; case 1: case 2: case 3: yield(); break; default: delay(sim_gen(12)); } }
static void own(int k, const char *when) {
	struct O *o = &O[k]; int j;
	SIM_CHECK(active_task() == o->t, "wrong-task", "task %d is another task %s", k, when);
	SIM_CHECK(task_id() == o->id, "wrong-task", "task %d has id %u %s, it had %u", k, task_id(), when, o->id);
	SIM_CHECK(task_data() == o->data && task_data_get(o->t) == o->data, "wrong-data", "task %d has data %p %s, it was given %p", k, task_data(), when, o->data);
	SIM_CHECK(!task_is_terminated(o->t), "terminated", "task %d is over %s", k, when);
	SIM_CHECK(o->launched || !task_is_canceled(), "canceled", "task %d is canceled %s", k, when);
	for (j = 0; j < 8; j++) SIM_CHECK(o->cell[j] == k * 100 + j, "wrong-data", "the data of task %d has changed %s", k, when);
}
static void *obody(param_t args);
static void start(int from) {
	int k; sim_nopreempt(1); if (no >= NO) { sim_nopreempt(0); return; } k = no++; nlive++; sim_nopreempt(0);
	struct O *o = &O[k]; int j; for (j = 0; j < 8; j++) o->cell[j] = k * 100 + j;
	o->left = sim_gen(12); o->live = 1; o->fd[0] = o->fd[1] = -1; o->pool = from >= 0 ? O[from].pool : 0;
	switch (sim_gen(6)) {
	case 0: if (!o->pool) { o->launched = 1; launch((launch_func_t)obody, 1, k); break; }
	case 1: case 2: o->pool = 1; o->rid = go(obody, 1, casting(k)); SIM_CHECK((int)o->rid > 0, "go-failed", "go gave %d", o->rid); break;
	default: o->rid = async_task(obody, 1, casting(k)); break;
	}
}
static void ostep(int k) {
	struct O *o = &O[k]; int j; char big[200];
	switch (sim_gen(9)) {
	case 0: case 1: o->data = sim_gen(6) ? &o->cell[sim_gen(8)] : NULL; task_data_set(active_task(), o->data); break;
	case 2: if (sim_gen(4)) task_name("task %d-%d", k, o->left); else { memset(big, 'a' + k % 26, sizeof big - 1); big[sizeof big - 1] = 0; task_name("%s", big); } break;
	case 3: start(k); break;
	case 4: /* the data of one that waits */
		j = sim_gen(no); if (!o->pool && !O[j].pool && j != k && O[j].live && O[j].t) { void *d = &O[j].cell[sim_gen(8)];
			SIM_CHECK(task_data_get(O[j].t) == O[j].data, "wrong-data", "task %d has data %p, it was given %p", j, task_data_get(O[j].t), O[j].data);
			SIM_CHECK(!task_is_terminated(O[j].t), "terminated", "task %d is over before its end", j);
			task_data_set(O[j].t, d); O[j].data = d; } break;
	case 5: /* a descriptor */
		if (o->pool) break;
		if (o->fd[0] < 0) { o->fdval = 0; if (sim_gen(2) ? sim_pipe2(o->fd, O_NONBLOCK) : sim_socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, o->fd)) o->fd[0] = o->fd[1] = -1;
			else { events_set_target_data(o->fd[0], &o->cell[0]); } }
		else if (sim_gen(2)) { o->fdval = sim_gen(8); events_set_target_data(o->fd[0], &o->cell[o->fdval]); }
		else { char c; sim_write(o->fd[1], "x", 1); async_wait(o->fd[0], 'r'); sim_read(o->fd[0], &c, 1); }
		break;
	default: break;
	}
	if (o->fd[0] >= 0) SIM_CHECK(events_get_target_data(o->fd[0]) == &o->cell[o->fdval], "wrong-data", "what was kept with descriptor %d of task %d is gone or another", o->fd[0], k);
}
static void *obody(param_t args) {
	int k = args[0].integer; struct O *o = &O[k];
	SIM_CHECK(!o->t, "wrong-task", "task %d was started twice", k);
	o->t = active_task(); o->id = task_id();
	SIM_CHECK(task_data() == NULL && task_data_get(o->t) == NULL, "wrong-data", "task %d starts with data %p", k, task_data());
	own(k, "when it starts");
	for (int j = 0; j < no; j++) if (j != k && O[j].live && O[j].t) SIM_CHECK(O[j].t != o->t && (o->launched || O[j].launched || O[j].id != o->id), "wrong-task", "tasks %d and %d are one", k, j);
	while (o->left-- > 0 && sim_steps() < 3000000) { ostep(k); own(k, "after a step"); pause_(); own(k, "after a pause"); }
	if (o->fd[0] >= 0) { events_set_target_data(o->fd[0], NULL); sim_close(o->fd[0]); sim_close(o->fd[1]); }
	own(k, "at its end");
	sim_nopreempt(1); o->live = 0; o->done++; nlive--; sim_nopreempt(0);
	return o->launched ? 0 : (void *)&o->cell[7];
}
/* tasks that stand still until they are resumed */
#define NS 6
static struct S { tasks_t *t; uint32_t rid; int left, steps, resumes, over, launched; void *data; } S[NS]; static int ns;
static void *sbody(param_t args) {
	int k = args[0].integer; struct S *s = &S[k]; s->t = active_task(); s->data = s; task_data_set(s->t, s);
	for (;;) {
		s->steps++;
		SIM_CHECK(s->steps == s->resumes + 1, "resumed", "task %d runs its step %d after being resumed %d times", k, s->steps, s->resumes);
		SIM_CHECK(active_task() == s->t && task_data() == s, "wrong-task", "the suspended task %d came back as another", k);
		if (s->left-- <= 0) break;
		suspend();
	}
	s->over = 1; return s->launched ? 0 : (void *)s;
}
static void *sdrive(param_t args) {
	int k = args[0].integer; struct S *s = &S[k];
	if (sim_gen(4) == 0) { s->launched = 1; launch((launch_func_t)sbody, 1, k); } else s->rid = async_task(sbody, 1, casting(k));
	while (!s->steps) yield();
	while (!s->over) {
		SIM_CHECK(s->steps == s->resumes + 1, "resumed", "task %d made %d steps after being resumed %d times", k, s->steps, s->resumes);
		if (sim_gen(2)) { pause_(); SIM_CHECK(s->steps == s->resumes + 1, "resumed", "task %d made %d steps after being resumed %d times", k, s->steps, s->resumes); }
		SIM_CHECK(!task_is_terminated(s->t), "terminated", "the suspended task %d is over", k);
		s->resumes++; resume(s->t);
		while (s->steps <= s->resumes && !s->over && sim_steps() < 3000000) { SIM_CHECK(sim_gen(1000) < 1000, "x", "x"); yield(); }
		SIM_CHECK(s->steps == s->resumes + 1, "resumed", "task %d made %d steps after being resumed %d times", k, s->steps, s->resumes);
	}
	if (!s->launched) { void *v = await_for(s->rid).object; SIM_CHECK(v == s, "wrong-result", "the suspended task %d gave %p", k, v); }
	return 0;
}
/* guarded tasks of the pool */
#define NG 12
EX_EXCEPTION(own_trouble);
static struct G { int ran, cleaned, deferred, bad, thrown, caught; } G[NG]; static int ng;
static void gclean(void *p) { struct G *g = p; g->cleaned++; }
static void gdefer(void *p) { struct G *g = p; if (g->cleaned) g->bad = 1; g->deferred++; }
static void gcaught(void *p) { struct G *g = p; if (g->cleaned) g->bad = 1; g->caught += guard_caught("own_trouble"); }
static void gbody(opaque_t o) {
	struct G *g = ((param_t)o)->object; int n = sim_gen(6);
	SIM_CHECK(g >= G && g < G + NG, "wrong-argument", "a guarded task was given %p", (void *)g);
	g->ran++; SIM_CHECK(g->ran == 1 && !g->cleaned, "run-twice", "guarded task %d ran %d times, was cleaned up %d times", (int)(g - G), g->ran, g->cleaned);
	if (sim_gen(2)) { defer(gdefer, g); g->deferred -= 1; }
	while (n-- > 0) { pause_(); SIM_CHECK(!g->cleaned && g->deferred <= 0, "early-cleanup", "guarded task %d was cleaned up before its end", (int)(g - G)); }
	if (sim_gen(3) == 0) { defer(gcaught, g); g->thrown = 1; throw(own_trouble); }
}
static void *omain(param_t na) {
	int i, w;
	start(-1); for (i = sim_gen(8); i > 0; i--) { start(-1); if (sim_gen(3) == 0) pause_(); }
	for (i = 0; i < ns; i++) { S[i].left = sim_gen(8); async_task(sdrive, 1, casting(i)); }
	for (i = 0; i < ng; i++) { go_guard(sim_gen(2) ? Kb(32) : Kb(48), gbody, gclean, &G[i]); if (sim_gen(2)) pause_(); }
	for (w = 1; w && sim_steps() < 4000000; ) { delay(5); for (w = nlive, i = 0; i < ns; i++) w += !S[i].over; for (i = 0; i < ng; i++) w += !G[i].cleaned; }
	for (i = 0; i < no; i++) { SIM_CHECK(O[i].done == 1, "task-lost", "task %d finished %d times", i, O[i].done);
		if (!O[i].launched) { uint64_t s0 = sim_steps(); while (!task_is_ready(O[i].rid) && sim_steps() - s0 < 400000) yield(); SIM_CHECK(task_is_ready(O[i].rid) && results_for(O[i].rid).object == (void *)&O[i].cell[7], "wrong-result", "result of task %d", i); } }
	for (i = 0; i < ns; i++) SIM_CHECK(S[i].over, "task-lost", "the suspended task %d did not end", i);
	for (i = 0; i < ng; i++) SIM_CHECK(G[i].ran == 1 && G[i].cleaned == 1 && G[i].deferred == 0 && !G[i].bad && G[i].caught == G[i].thrown, "guard", "guarded task %d ran %d times, was cleaned up %d times%s", i, G[i].ran, G[i].cleaned, G[i].caught != G[i].thrown ? ", what it threw was not caught once" : G[i].bad ? ", before what it deferred" : G[i].deferred ? ", its deferred call did not run once" : "");
	main_done = 1; return 0;
}
SIM_WORKLOAD(own, "stall", "identity, data and suspension of tasks, guarded tasks") { wl_my_alloc(4);
	int r, f = sim_gen(8);
	ns = f & 1 ? 1 + sim_gen(NS) : 0; ng = f & 2 ? 1 + sim_gen(NG) : 0;
	r = events_start(wl_fds(256), (main_cb)omain, 0);
	SIM_CHECK(main_done, "task-lost", "the main task did not finish (events_start gave %d)", r);
	sim_done();
}

/* ---- osthr ---- */
#define NT 20
#define NK 4
static struct T { os_thread_t h; uintptr_t self; int made, started, ended, code, how, joined, detached; uint64_t end_at, end_st; void *slot[NK]; int dt[NK], nest; } T[NT]; static int nt, nkeys; static tls_emulate_t key[NK];
static int slotv[NT][NK][4];
static void dt(int k, void *v) { struct T *t = NULL; int i = -1; sim_nopreempt(1); if ((char *)v >= (char *)slotv && (char *)v < (char *)(slotv + NT)) { i = ((int *)v - &slotv[0][0][0]) / (NK * 4); t = &T[i]; }
	SIM_CHECK(t && t->slot[k] == v, "tls", "the end of slot %d was told of %p, which is not what thread %d had", k, v, i); t->dt[k]++; SIM_CHECK(t->dt[k] == 1, "tls", "slot %d of thread %d ended twice", k, i);
	SIM_CHECK(os_self() == t->self, "tls", "slot %d of thread %d ended on another thread", k, i); sim_nopreempt(0); }
static void dt0(void *v) { dt(0, v); } static void dt1(void *v) { dt(1, v); } static void dt2(void *v) { dt(2, v); }
static void (*const dts[NK])(void *) = { dt0, dt1, dt2, NULL };
static void slots(int k, const char *when) { for (int i = 0; i < nkeys; i++) SIM_CHECK(os_tls_get(key[i]) == T[k].slot[i], "tls", "slot %d of thread %d holds %p %s, it was set to %p", i, k, os_tls_get(key[i]), when, T[k].slot[i]); }
static void launch_thread(void); static void join_some(int k);
static int tmain(void *p) {
	struct T *t = p; int k = t - T, n = sim_gen(10), i;
	t->started++; SIM_CHECK(t->started == 1, "run-twice", "thread %d runs %d times", k, t->started);
	t->self = os_self(); sim_nopreempt(1); for (i = 0; i < nt; i++) if (i != k && T[i].started && !T[i].ended) SIM_CHECK(T[i].self != t->self, "wrong-thread", "threads %d and %d are one", i, k); sim_nopreempt(0);
	slots(k, "when it starts");
	while (n-- > 0) {
		switch (sim_gen(6)) {
		case 0: case 1: i = sim_gen(nkeys); { void *v = sim_gen(5) ? &slotv[k][i][sim_gen(4)] : NULL; t->slot[i] = v; i = os_tls_set(key[i], v); SIM_CHECK(i == 0, "tls", "os_tls_set gave %d", i); } break;
		case 2: { uint64_t s = sim_now(); uint32_t ms = sim_gen(30); i = os_sleep(ms); SIM_CHECK(i == 0 && sim_now() - s >= ms * MS, "sleep", "os_sleep(%u) gave %d after %llu us", ms, i, (unsigned long long)(sim_now() - s) / 1000); } break;
		case 3: if (t->nest < 2) launch_thread(); break;
		default: sim_nap(sim_gen(3) * MS); break;
		}
		SIM_CHECK(os_self() == t->self, "wrong-thread", "thread %d is another one", k);
		slots(k, "later");
	}
	sim_nopreempt(1); t->ended = 1; t->end_at = sim_now(); t->end_st = sim_stalled_ns(); sim_nopreempt(0);
	if (t->how) { os_exit(t->code); SIM_CHECK(0, "os-exit", "os_exit came back"); }
	return t->code;
}
static void launch_thread(void) {
	int k; uint64_t f = sim_fault_count(F_THREAD); os_thread_t h; sim_nopreempt(1); if (nt >= NT) { sim_nopreempt(0); return; } k = nt++; sim_nopreempt(0);
	struct T *t = &T[k]; t->code = sim_gen(4) ? sim_gen(300) : (int)sim_gen(0x40000000); t->how = sim_gen(2); t->detached = sim_gen(4) == 0;
	h = os_create(tmain, t); 
	if (h == OS_NULL) { SIM_CHECK(sim_fault_count(F_THREAD) > f, "create-failed", "os_create failed"); sim_nap(MS); SIM_CHECK(!t->started, "create-failed", "a thread runs that could not be created"); t->ended = t->joined = 1; return; }
	if (t->detached) { int r = os_detach(h); SIM_CHECK(r == 0, "detach", "os_detach gave %d", r); t->joined = 1; }
	t->h = h; t->made = 1;
}
static void join_some(int k) {
	struct T *t = &T[k]; int r, code = -77, was = t->ended; uint32_t ms = sim_gen(3) == 0 ? 0 : sim_gen(3) == 0 ? (uint32_t)-1 : 1 + sim_gen(2000) % (1 + sim_gen(60)); uint64_t st = sim_stalled_ns(), n0, el, late = was ? sim_now() - t->end_at : 0, ls = was ? 2 * (sim_stalled_ns() - t->end_st) : 0;
	n0 = sim_now(); errno = 0; r = os_join(t->h, ms, sim_gen(8) ? &code : NULL); el = sim_now() - n0;
	SIM_CHECK(r == 0 || (r == -1 && errno == ETIMEDOUT), "join", "os_join of thread %d with %d ms gave %d, errno %d", k, (int)ms, r, errno);
	if (r == 0) {
		SIM_CHECK(t->ended, "join-early", "os_join of thread %d came back before its end", k);
		SIM_CHECK(code == -77 || code == t->code, "join-code", "thread %d ended with %d, os_join gave %d", k, t->code, code);
		for (int i = 0; i < nkeys; i++) SIM_CHECK(t->dt[i] == (t->slot[i] && dts[i]), "tls", "thread %d has ended, slot %d was ended %d times", k, i, t->dt[i]);
		t->joined = 1;
	} else {
		SIM_CHECK(ms != (uint32_t)-1, "join", "os_join without limit of thread %d timed out", k);
		SIM_CHECK(el >= ms * MS, "join-early", "os_join of thread %d with %u ms gave up after %llu us", k, ms, (unsigned long long)el / 1000);
		SIM_CHECK(code == -77, "join-code", "os_join of thread %d timed out and gave code %d", k, code);
		SIM_CHECK(!was || late < 3000 * MS + ls, "join", "os_join of thread %d, which had ended %llu ms before, timed out", k, (unsigned long long)(late / MS));
	}
	if (ms != (uint32_t)-1) SIM_CHECK(el < ms * MS + 3500 * MS + 2 * (sim_stalled_ns() - st), "join-late", "os_join of thread %d with %u ms took %llu ms", k, ms, (unsigned long long)(el / MS));
}
SIM_WORKLOAD(osthr, "thread_fail stall", "plain threads, joined, detached and ended, and thread-local slots") {
	int i, w; os_cpumask m; nkeys = 1 + sim_gen(NK);
	for (i = 0; i < nkeys; i++) { int r = os_tls_alloc(&key[i], dts[i]); SIM_CHECK(r == 0, "tls", "os_tls_alloc gave %d", r); SIM_CHECK(!os_tls_get(key[i]), "tls", "a new slot holds something"); for (w = 0; w < i; w++) SIM_CHECK(key[w] != key[i], "tls", "two slots are one"); }
	for (i = 1 + sim_gen(8); i > 0; i--) { launch_thread(); if (sim_gen(2)) sim_nap(sim_gen(20) * MS); if (sim_gen(3) == 0) { w = sim_gen(nt); if (T[w].made && !T[w].joined) join_some(w); } }
	CPU_ZERO(&m); os_cpumask_set(&m, 1); SIM_CHECK(CPU_ISSET(1, &m) && CPU_COUNT(&m) == 1, "affinity", "os_cpumask_set"); 
	for (;;) { for (w = i = 0; i < nt; i++) { if (!T[i].made) w |= !T[i].joined; else if (!T[i].joined) { w = 1; join_some(i); } else if (!T[i].ended) w = 1; } if (!w) break; sim_nap(MS); }
	sim_nap(20 * MS);
	for (i = 0; i < nt; i++) if (T[i].made) { SIM_CHECK(T[i].started == 1 && T[i].ended, "thread-lost", "thread %d was started %d times", i, T[i].started); for (w = 0; w < nkeys; w++) SIM_CHECK(T[i].dt[w] == (T[i].slot[w] && dts[w]) || T[i].detached, "tls", "slot %d of thread %d ended %d times", w, i, T[i].dt[w]); }
	for (i = 0; i < nkeys; i++) { void *v = sim_gen(2) ? malloc(24) : NULL; if (v) { os_tls_set(key[i], v); SIM_CHECK(os_tls_get(key[i]) == v, "tls", "slot %d lost what it was given", i); } os_tls_free(key[i]); }
	sim_done();
}
