/* P24: the end of the system, and the next beginning; loops that go while others stay. */
#include "wl.h"
#include <sys/socket.h>
#include <signal.h>
#include <unistd.h>
#undef write
#undef read
#undef close
#undef pipe
extern long sim_write(int, const void *, size_t); extern long sim_read(int, void *, size_t);
#define MS 1000000ull
#define MAXT 64
enum { T_LOCAL, T_GO, T_JOB };
static struct T { int kind, started, finished, waited, rid, deferred, cancel; } T[MAXT];
static int nt, main_done, over, left_pool, life; static long live0;
static void own(int id) { SIM_CHECK(task_is_canceled() == T[id].cancel, "canceled", "life %d: task %d, %s, %s", life, id, T[id].cancel ? "canceled" : "canceled by nobody", T[id].cancel ? "is not told" : "is told it was"); }
static void *body(param_t args) {
	int id = args[0].integer, n = sim_gen(4); own(id);
	SIM_CHECK(!over, "after-end", "task %d of life %d runs after the system has ended", id, life);
	SIM_CHECK(args[1].integer == life * 100 + id, "task-args", "task %d got wrong arguments", id);
	T[id].started++;
	while (n--) { if (sim_gen(2)) yield(); else delay(sim_gen(8)); SIM_CHECK(!over, "after-end", "task %d of life %d goes on after the system has ended", id, life); own(id); }
	T[id].finished++;
	return (void *)(intptr_t)(id + 1000);
}
static void *job(param_t args) { int id = args[0].integer; SIM_CHECK(!over, "after-end", "a job runs after the system has ended"); sim_nopreempt(1); T[id].started++; sim_nopreempt(0); if (sim_gen(2)) sim_nap(sim_gen(4000) * 1000); sim_nopreempt(1); T[id].finished++; sim_nopreempt(0); return NULL; }
static int newt(int kind) { int k; sim_nopreempt(1); k = nt++; memset(&T[k], 0, sizeof T[k]); T[k].kind = kind; sim_nopreempt(0); return k; }
static void *tfn(param_t args) { SIM_CHECK(!over, "after-end", "a thread function starts after the system has ended"); if (sim_gen(2)) sim_nap(sim_gen(3000) * 1000); return (void *)(intptr_t)(args[0].integer + 77); }
static void *gbody(param_t args) { if (sim_gen(2)) yield(); T[args[0].integer].finished++; return (void *)(intptr_t)(args[0].integer + 1000); }
static int pr[8], npr, pcalls; static intptr_t arg_got; static int with_arg;
static void left_cb(fds_t fd, int ev, void *arg) { char b[8]; SIM_CHECK(!over, "after-end", "a descriptor's callback runs after the system has ended"); SIM_CHECK(*(int *)arg == socket2fd(fd), "wrong-callback", "descriptor callback with a foreign argument"); if (ev & EVENTS_READ) { sim_read(socket2fd(fd), b, 8); pcalls++; } }
static void left_timer(actor_t *h, void *arg) { SIM_CHECK(!over, "after-end", "a timer fires after the system has ended"); SIM_CHECK(arg == (void *)&nt, "wrong-callback", "timer with a foreign argument"); }
static void *reader(param_t args) { char b[4]; int fd = args[0].integer, r; T[args[1].integer].started++; r = fs_read(fd, b, 4); SIM_CHECK(r == 4 && !memcmp(b, "data", 4), "wrong-result", "life %d: fs_read of a pipe gave %d", life, r); T[args[1].integer].finished++; return 0; }
/* more tasks at once than a queue holds at first */
static int burst_n[300];
static void *bbody(param_t args) { int i = args[0].integer; burst_n[i]++; if (args[1].integer) yield(); return (void *)(intptr_t)(i + 5); }
static void burst(void) {
	static uint32_t id[300]; int n = sim_cfg.cpus > 3 ? 270 : 20 + sim_gen(60), i; memset(burst_n, 0, sizeof burst_n);
	for (i = 0; i < n; i++) { id[i] = go(bbody, 2, casting(i), casting(sim_gen(2))); SIM_CHECK((int)id[i] > 0, "start-failed", "go gave %d for task %d of many", id[i], i); }
	for (i = 0; i < n; i++) { void *v = await_for(id[i]).object; SIM_CHECK(burst_n[i] == 1 && v == (void *)(intptr_t)(i + 5), "wrong-result", "life %d: task %d of %d ran %d times, result %p", life, i, n, burst_n[i], v); }
}
static void *lmain(param_t args) {
	int n = sim_gen(8), i, k; if (with_arg) arg_got = args[0].integer;
	sim_faults_hold(0);
	if (sim_gen(3) == 0) events_init_pool(1 + sim_gen(2));
	if (sim_gen(12) == 0) burst();
	while (n-- > 0 && nt < MAXT - 8) {
		switch (sim_gen(11)) {
		case 0: case 1: k = newt(T_LOCAL); T[k].rid = async_task(body, 2, casting(k), casting(life * 100 + k)); SIM_CHECK((int)T[k].rid > 0, "start-failed", "async_task gave %d in life %d", T[k].rid, life); if (sim_gen(3) == 0) { T[k].cancel = 1; task_set_canceled(T[k].rid); } break;
		case 2: case 3: k = newt(T_GO); T[k].rid = go(body, 2, casting(k), casting(life * 100 + k)); SIM_CHECK((int)T[k].rid > 0, "start-failed", "go gave %d in life %d", T[k].rid, life); break;
		case 4: { promise *p; k = newt(T_JOB); p = queue_work(futures_pool(), job, 1, casting(k)); SIM_CHECK(p && is_promise(p), "start-failed", "queue_work gave %p in life %d", (void *)p, life); queue_get(p); T[k].waited = 1; SIM_CHECK(T[k].finished == 1, "job-early", "queue_get returned before the job finished"); } break;
		case 5: { future_t f = thrd_async(tfn, 1, casting(nt)); intptr_t v; SIM_CHECK(is_future(f), "start-failed", "thrd_async in life %d", life); v = (intptr_t)thrd_get(f).object; SIM_CHECK(v == nt + 77, "wrong-result", "thrd_get gave %ld", (long)v); } break;
		case 6: { waitgroup_t wg = waitgroup(4); int m[4], q, w = 1 + sim_gen(4); for (q = 0; q < w; q++) { m[q] = newt(T_GO); T[m[q]].waited = 1; T[m[q]].started = 1; T[m[q]].rid = go(gbody, 1, casting(m[q])); } waitfor(wg); for (q = 0; q < w; q++) SIM_CHECK(T[m[q]].finished == 1, "group-early", "waitfor returned before its member finished"); } break;
		case 7: if (npr < 8) { int *q = &pr[npr]; q[0] = 0; int p[2]; if (pipe2(p, O_NONBLOCK)) sim_harness_error("pipe"); pr[npr++] = p[0]; pr[npr++] = p[1]; SIM_CHECK(events_add(event_loop(), p[0], EVENTS_READ, sim_gen(2) * 2, left_cb, q) == 0, "start-failed", "events_add in life %d", life); if (sim_gen(2)) sim_write(p[1], "x", 1); } break;
		case 8: SIM_CHECK(events_actor(event_loop(), sim_gen(20), left_timer, &nt), "start-failed", "events_actor in life %d", life); break;
		case 9: { int p[2], id; if (pipe2(p, O_NONBLOCK)) sim_harness_error("pipe"); k = newt(T_LOCAL); id = async_task(reader, 2, casting(p[0]), casting(k)); yield(); sim_write(p[1], "data", 4); await_for(id); T[k].waited = 2; SIM_CHECK(T[k].finished == 1, "wrong-result", "life %d: await_for of a reader", life); close(p[0]); close(p[1]); } break;
		default: yield();
		}
		if (sim_gen(3) == 0) delay(sim_gen(5));
	}
	left_pool = sim_gen(3) == 0;
	for (i = 0; i < nt; i++) if (!T[i].waited && (T[i].kind == T_GO ? !left_pool : sim_gen(2))) { void *v = await_for(T[i].rid).object; T[i].waited = 1; SIM_CHECK(T[i].finished == 1 && v == (void *)(intptr_t)(i + 1000), "wrong-result", "life %d: await_for task %d gave %p, finished %d", life, i, v, T[i].finished); }
	main_done++;
	return 0;
}
static int manual(int fds) { /* what events_start does, by hand */
	events_t *l; int r = events_init(fds); if (r) return r;
	l = events_init_pool(sim_gen(2)); SIM_CHECK(l, "start-failed", "events_init_pool gave NULL");
	async_task(lmain, 1, casting(1234)); async_run(l); r = events_destroy(l); events_deinit(); return r;
}
SIM_WORKLOAD(life, "stall", "the system started, run and ended several times in one process") {
	int lives = 1 + sim_gen(4), i, r, fd0;
	wl_my_alloc(3);
	scope_init(); /* the thread's own scope lasts as long as the process */ signal(SIGPIPE, SIG_IGN);
	sim_cfg.poll_step_us = 400 << sim_gen(3);
	for (life = 1; life <= lives; life++) {
		nt = main_done = over = left_pool = npr = 0; fd0 = sim_open_fds(); arg_got = 0;
		long b0 = sim_arena_live(), m0 = wl_mine;
		if (sim_gen(3) == 0) { with_arg = 1; r = manual(64 + sim_gen(300)); SIM_CHECK(arg_got == 1234, "task-args", "the main task of life %d got argument %ld", life, (long)arg_got); }
		else { with_arg = 0; r = events_start(64 + sim_gen(300), (main_cb)lmain, 0); }
		SIM_CHECK(main_done == 1, "task-lost", "life %d: the main task finished %d times (events_start gave %d)", life, main_done, r);
		SIM_CHECK(r == 0, "end-failed", "life %d: events_start gave %d", life, r);
		for (i = 0; i < nt; i++) if (T[i].kind == T_LOCAL || T[i].waited) SIM_CHECK(T[i].started == 1 && T[i].finished == 1, "task-lost", "life %d: task %d started %d times, finished %d", life, i, T[i].started, T[i].finished);
		over = 1;
		for (i = 0; i < npr; i++) close(pr[i]);
		sim_note("life %d ends: %d threads, %d fds (%d before), %ld blocks (%ld before)", life, sim_live_threads(), sim_open_fds(), fd0, sim_arena_live(), b0);
		SIM_CHECK(sim_live_threads() == 1, "thread-left", "life %d: %d threads are left after the end", life, sim_live_threads() - 1);
		if (!left_pool) SIM_CHECK(sim_arena_live() <= b0, "memory-kept", "life %d: %ld blocks of memory are kept after the end, %ld before", life, sim_arena_live(), b0);
		if (wl_is_mine && !left_pool) SIM_CHECK(wl_mine <= m0, "memory-kept", "life %d: %ld blocks of the program's allocator are kept after the end, %ld before", life, wl_mine, m0);
		if (wl_is_mine) SIM_CHECK(wl_taken > 0, "not-used", "life %d: the program's allocator was not used", life);
		SIM_CHECK(sim_open_fds() == fd0, "fd-left", "life %d: %d descriptors are open after the end, %d before", life, sim_open_fds(), fd0);
		if (sim_gen(2)) sim_nap(200 * MS);
	}
	sim_done();
}

/* loops come and go ------------------------------------------------------------------------------------------ */
#define ML 8
#define MP 10
static struct L { events_t *l; int alive, id; } L[64]; static int nl;
static struct P { int r, w, loop, bytes, ready, called, to; uint64_t armed, st0; void *tok; } P[MP]; static int np, cur = -1;
static struct A { actor_t *h; int loop, fired, again; uint64_t due, late; } A[300]; static int na;
static struct { int sig, loop, calls; unsigned h0; } S[2];
static int live_loop(void) { int i, k[64], n = 0; for (i = 0; i < nl; i++) if (L[i].alive) k[n++] = i; return n ? k[sim_gen(n)] : -1; }
static void destroy(int l) {
	int i, r;
	for (i = 0; i < 2; i++) if (S[i].loop == l) signal(S[i].sig, SIG_IGN); /* nothing under way */
	for (i = 0; i < 50 && sim_signals_pending(); i++) sim_nap(100000);
	L[l].alive = 0; for (i = 0; i < 2; i++) if (S[i].loop == l) S[i].loop = -1;
	for (i = 0; i < np; i++) if (P[i].loop == l) { P[i].loop = -1; P[i].to = 0; }
	r = events_destroy(L[l].l);
	SIM_CHECK(r == 0, "destroy-failed", "events_destroy gave %d", r);
}
static void maybe_destroy(void) { int l; if (sim_gen(20) == 0 && (l = sim_gen(2) ? cur : live_loop()) >= 0 && L[l].alive) destroy(l); }
static void pcb(fds_t fd, int ev, void *arg) {
	struct P *p = arg; char b[64]; long n;
	SIM_CHECK(p >= P && p < P + np && socket2fd(fd) == p->r, "wrong-callback", "callback for descriptor %d with a foreign argument", socket2fd(fd));
	SIM_CHECK(p->loop >= 0, "after-destroy", "callback for descriptor %d, which is not registered", p->r);
	SIM_CHECK(L[p->loop].alive, "after-destroy", "callback for descriptor %d of loop %d, which was destroyed", p->r, p->loop);
	SIM_CHECK(p->loop == cur, "wrong-loop", "loop %d reports descriptor %d, which is registered with loop %d", cur, p->r, p->loop);
	p->called = 1;
	if (ev & EVENTS_READ) { n = sim_read(p->r, b, sizeof b); if (n > 0) p->bytes -= n; }
	else if (ev & EVENTS_TIMEOUT) { SIM_CHECK(p->to, "wrong-event", "descriptor %d timed out, it has no timeout", p->r); p->to = 0; }
	maybe_destroy();
}
static void actor(actor_t *h, void *arg) {
	struct A *a = arg;
	SIM_CHECK(a >= A && a < A + na && a->h == h, "wrong-callback", "a timer fired with a foreign argument");
	SIM_CHECK(L[a->loop].alive && a->loop == cur, "after-destroy", "a timer of loop %d fired in loop %d", a->loop, cur);
	SIM_CHECK(!a->fired, "timer-twice", "a timer fired again"); a->fired = 1;
	SIM_CHECK(sim_now() >= a->due, "early-timeout", "a timer fired %.3f ms early", (a->due - sim_now()) / 1e6);
	if (sim_gen(6) == 0 && L[a->loop].alive) { a->fired = 0; a->again++; a->due = sim_now() + 5 * MS; SIM_CHECK(events_repeat_actor(h, 5) == h, "add-failed", "events_repeat_actor"); a->late = sim_now() + 5 * MS; }
	maybe_destroy();
}
static void scb(fds_t sig, int ev, void *arg) {
	int i = (int)(intptr_t)arg - 1;
	sim_nopreempt(1);
	SIM_CHECK(i >= 0 && i < 2 && S[i].sig == socket2fd(sig), "wrong-callback", "a signal's callback with a foreign argument");
	SIM_CHECK(S[i].loop >= 0 && L[S[i].loop].alive, "after-destroy", "callback of signal %d, whose loop was destroyed", S[i].sig);
	S[i].calls++; sim_nopreempt(0);
}
static void once(int l, int wait) {
	int i, r;
	for (i = 0; i < np; i++) { P[i].called = 0; P[i].ready = P[i].loop == l && P[i].bytes > 0; }
	cur = l; r = events_once(L[l].l, wait); cur = -1;
	if (r < 0 || !L[l].alive) return;
	for (i = 0; i < np; i++) SIM_CHECK(!P[i].ready || P[i].called, "not-reported", "descriptor %d of loop %d is readable and was not reported", P[i].r, l);
}
static void add(int i, int l) {
	struct P *p = &P[i]; int r, to = sim_gen(3) ? 0 : 1 + sim_gen(5);
	r = events_add(L[l].l, p->r, EVENTS_READ, to, pcb, p);
	SIM_CHECK(r == 0, "add-failed", "events_add of descriptor %d to loop %d gave %d", p->r, l, r);
	p->loop = l; p->to = to; p->armed = sim_now();
	SIM_CHECK(events_is_registered(L[l].l, p->r), "add-failed", "events_is_registered is false for descriptor %d just added", p->r);
}
static void create(void) {
	int i; if (nl >= 60) return;
	L[nl].l = events_create(1 + sim_gen(200)); SIM_CHECK(L[nl].l, "create-failed", "events_create gave NULL"); 
	L[nl].alive = 1; L[nl].id = events_id(L[nl].l);
	for (i = 0; i < nl; i++) SIM_CHECK(!L[i].alive || L[i].id != L[nl].id, "duplicate-id", "two loops have id %d", L[nl].id);
	nl++;
}
SIM_WORKLOAD(loops, "stall", "loops destroyed with registrations left, others go on") {
	int lives = 1 + (sim_gen(4) == 0), i, l, steps, fd0, own, t; long b0; 
	signal(SIGPIPE, SIG_IGN);
	for (life = 1; life <= lives; life++) {
		fd0 = sim_open_fds(); b0 = sim_arena_live(); nl = np = na = 0; S[0].sig = SIGUSR1; S[1].sig = SIGUSR2; S[0].loop = S[1].loop = -1; own = 0;
		events_init(64 + sim_gen(200)); create();
		for (i = 1 + sim_gen(MP); i > 0; i--) { int p[2]; if (pipe2(p, O_NONBLOCK)) sim_harness_error("pipe"); P[np].r = p[0]; P[np].w = p[1]; P[np].loop = -1; P[np].bytes = P[np].to = 0; np++; }
		for (steps = 10 + sim_gen(200); steps > 0; steps--) {
			i = sim_gen(np); l = live_loop();
			switch (sim_gen(13)) {
			case 0: { int n = 0, k; for (k = 0; k < nl; k++) n += L[k].alive; if (n < 4) create(); } break;
			case 1: if (l >= 0 && sim_gen(2)) destroy(l); break;
			case 2: case 3: if (l >= 0 && P[i].loop < 0) add(i, l); break;
			case 4: if (P[i].loop >= 0) { int r = events_del(P[i].r); SIM_CHECK(r == 0, "del-failed", "events_del of descriptor %d of loop %d gave %d", P[i].r, P[i].loop, r); P[i].loop = -1; P[i].to = 0; } else if (sim_gen(4) == 0) events_del(P[i].r); break;
			case 5: case 6: if (P[i].bytes < 40) { P[i].bytes += 3; if (sim_write(P[i].w, "abc", 3) != 3) sim_harness_error("write"); } break;
			case 7: if (l >= 0 && na < 300) { struct A *a = &A[na++]; a->loop = l; a->fired = a->again = 0; t = sim_gen(40); a->due = sim_now() + t * MS; a->h = events_actor(L[l].l, t, actor, a); SIM_CHECK(a->h, "add-failed", "events_actor gave NULL"); a->late = sim_now() + t * MS; } break;
			case 8: sim_nap(sim_gen(20) * MS); break;
			case 9: if (l >= 0 && sim_gen(3) == 0) { int k = sim_gen(2); if (S[k].loop < 0) { int r = events_add(L[l].l, S[k].sig, EVENTS_SIGNAL, 0, scb, (void *)(intptr_t)(k + 1)); SIM_CHECK(r == 0, "add-failed", "events_add of signal %d gave %d", S[k].sig, r); S[k].loop = l; } } break;
			case 10: { int k = sim_gen(2), c; if (S[k].loop < 0) break; c = S[k].calls; sim_kill_main(S[k].sig); for (t = 0; t < 3000 && S[k].calls == c; t++) { if (t & 1) sim_nap(t < 400 ? 100000 : 3000000); else sim_yield_point(); } SIM_CHECK(S[k].calls > c, "lost-signal", "signal %d was not reported", S[k].sig); } break;
			default: if (l >= 0) { once(l, 0);
				if (sim_gen(3) == 0) { int k; for (k = 0; k < na; k++) if (!A[k].fired && L[A[k].loop].alive && A[k].late < sim_now()) { int j, ll = A[k].loop, g0 = A[k].again; for (j = 0; j < na + 3 && !A[k].fired && A[k].again == g0 && L[ll].alive; j++) once(ll, 0); SIM_CHECK(A[k].fired || A[k].again != g0 || !L[ll].alive, "timer-lost", "a timer of loop %d did not fire", ll); } }
				} break;
			}
		}
		for (i = 0; i < nl; i++) if (L[i].alive && (sim_gen(4) || i < nl)) destroy(i);
		events_deinit();
		for (i = 0; i < np; i++) { close(P[i].r); close(P[i].w); }
		sim_note("%d threads, %d fds (%d), %ld blocks (%ld)", sim_live_threads(), sim_open_fds(), fd0, sim_arena_live(), b0);
		SIM_CHECK(sim_live_threads() == 1, "thread-left", "%d threads are left after the end", sim_live_threads() - 1);
		SIM_CHECK(sim_open_fds() == fd0, "fd-left", "%d descriptors are open after the end, %d before", sim_open_fds(), fd0);
		SIM_CHECK(sim_arena_live() <= b0, "memory-kept", "%ld blocks of memory are kept after the end, %ld before", sim_arena_live(), b0);
	}
	(void)own; sim_done();
}

/* start-up with failures ---------------------------------------------------------------------------------------- */
static void *qtask(param_t args) { yield(); T[args[0].integer].finished++; return (void *)(intptr_t)(args[0].integer + 500); }
static void *qmain(param_t args) {
	int i, n = sim_gen(5), id[5];
	sim_faults_hold(1); main_done++;
	for (i = 0; i < n; i++) { T[i].finished = 0; id[i] = sim_gen(2) ? go(qtask, 1, casting(i)) : async_task(qtask, 1, casting(i)); SIM_CHECK(id[i] > 0, "start-failed", "a task cannot be started in life %d", life); }
	for (i = 0; i < n; i++) { intptr_t v = (intptr_t)await_for(id[i]).object; SIM_CHECK(T[i].finished == 1 && v == i + 500, "wrong-result", "await_for gave %ld for task %d", (long)v, i); }
	return 0;
}
SIM_WORKLOAD(start, "emfile thread_fail stall", "starting the system while descriptors and threads cannot be had") {
	int lives = 1 + sim_gen(5), r, fd0, i, n, c; long b0; events_t *l[6];
	scope_init(); signal(SIGPIPE, SIG_IGN); sim_cfg.poll_step_us = 400 << sim_gen(3);
	for (life = 1; life <= lives; life++) {
		main_done = 0; fd0 = sim_open_fds(); b0 = sim_arena_live(); uint64_t f0 = sim_fault_count(F_EMFILE) + sim_fault_count(F_THREAD);
		sim_faults_hold(0);
		if (sim_gen(3)) {
			r = events_start(64 + sim_gen(300), (main_cb)qmain, 0);
			if (r == 0) SIM_CHECK(main_done == 1, "task-lost", "life %d: events_start gave 0, the main task ran %d times", life, main_done);
			else { SIM_CHECK(!main_done, "start-failed", "life %d: events_start gave %d and ran the main task", life, r); SIM_CHECK(sim_fault_count(F_EMFILE) + sim_fault_count(F_THREAD) > f0, "start-failed", "life %d: events_start gave %d, nothing failed", life, r); }
		} else {
			r = events_init(64 + sim_gen(300)); if (r) { SIM_CHECK(r == -1 && sim_fault_count(F_EMFILE) + sim_fault_count(F_THREAD) > f0, "start-failed", "events_init gave %d", r); goto end; }
			for (n = i = 0; i < 6; i++) { f0 = sim_fault_count(F_EMFILE) + sim_fault_count(F_THREAD); l[n] = events_create(1 + sim_gen(100)); if (l[n]) n++; else SIM_CHECK(sim_fault_count(F_EMFILE) + sim_fault_count(F_THREAD) > f0, "create-failed", "events_create gave NULL, nothing failed"); }
			for (i = 0; i < n; i++) { c = events_destroy(l[i]); SIM_CHECK(c == 0, "destroy-failed", "events_destroy gave %d", c); }
			events_deinit();
		}
	end:	sim_faults_hold(1);
		SIM_CHECK(sim_live_threads() == 1, "thread-left", "life %d: %d threads are left after the end (gave %d)", life, sim_live_threads() - 1, r);
		SIM_CHECK(sim_open_fds() == fd0, "fd-left", "life %d: %d descriptors are open after the end, %d before (gave %d)", life, sim_open_fds(), fd0, r);
		SIM_CHECK(sim_arena_live() <= b0, "memory-kept", "life %d: %ld blocks of memory are kept after the end, %ld before (gave %d)", life, sim_arena_live(), b0, r);
	}
	sim_done();
}
