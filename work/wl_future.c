/* Jobs queued to worker threads and their promises; thread futures. */
#include "wl.h"
#define MS 1000000ull
#define MAXJ 400
/* results that are pointers: into a large block of zeroes, since the library looks at the memory around a result */
static intptr_t zptr(int k) { static char *z; if (!z) z = calloc(1, 1 << 17); return (intptr_t)(z + 4096 + k * 128); }
enum { K_INT, K_NULL, K_PTR, K_ARR, K_ERR, K_NKIND };
static struct J { int kind, started, finished, got, thr, worker, by, seq, err, n; intptr_t val; int *data; const char *how; } J[MAXJ];
static int nj, budget, fl, main_done, seqs[64][16], lastseq[64][16], thr_of[16], ticks[8], nprod, live_prod;
enum { Q_SLEEP = 1, Q_ERR = 2, Q_ARR = 4, Q_POOLP = 8 };
static void *job(param_t args) {
	int id = args[0].integer, i, me = sim_self();
	SIM_CHECK(id >= 0 && id < nj && args[1].integer == id * 11 + 3, "job-args", "a job got arguments %d %d", id, args[1].integer);
	SIM_CHECK($size(args) == (size_t)J[id].n, "job-args", "job %d got %zu arguments instead of %d", id, (size_t)$size(args), J[id].n);
	SIM_CHECK((int *)args[2].object == J[id].data && *J[id].data == id, "job-args", "job %d does not see its data", id);
	for (i = 3; i < J[id].n; i++) SIM_CHECK(args[i].integer == id + i, "job-args", "job %d: argument %d is %d", id, i, args[i].integer);
	sim_nopreempt(1);
	SIM_CHECK(++J[id].started == 1, "job-twice", "job %d started %d times", id, J[id].started);
	J[id].thr = me;
	SIM_CHECK(J[id].seq > lastseq[J[id].by][me & 15], "job-order", "job %d of producer %d (no. %d) ran on thread %d after no. %d", id, J[id].by, J[id].seq, me, lastseq[J[id].by][me & 15]);
	lastseq[J[id].by][me & 15] = J[id].seq;
	sim_nopreempt(0);
	if ((fl & Q_SLEEP) && sim_gen(3) == 0) sim_nap(1 + sim_gen(30) * MS);
	else if (sim_gen(3) == 0) sim_advance(sim_gen(2000000));
	SIM_CHECK(!J[id].finished && sim_self() == me, "job-twice", "job %d overtaken", id);
	*J[id].data = id * 5 + 1; J[id].finished = 1;
	sim_note("job %d done on %d", id, me);
	switch (J[id].kind) {
		case K_INT: case K_PTR: return (void *)J[id].val;
		case K_NULL: return NULL;
		case K_ARR: if (sim_gen(3) == 0) return arrays(1, casting(J[id].val)); return sim_gen(2) ? $(casting(J[id].val)) : $$(casting(J[id].val), casting(J[id].val + 1));
		default: errno = J[id].err; return (void *)-1;
	}
}
static int newjob(int by) {
	int k; sim_nopreempt(1);
	k = nj++; memset(&J[k], 0, sizeof J[k]); J[k].thr = -1;
	do J[k].kind = sim_gen(K_NKIND); while ((J[k].kind == K_ARR && !(fl & Q_ARR)) || (J[k].kind == K_ERR && !(fl & Q_ERR)));
	J[k].val = J[k].kind == K_INT ? 1 + k : J[k].kind == K_NULL ? 0 : J[k].kind == K_PTR ? zptr(k) : J[k].kind == K_ARR ? 7000 + 3 * k : -1;
	J[k].err = 1 + sim_gen(100); J[k].data = malloc(sizeof(int)); *J[k].data = k; J[k].by = by; J[k].n = 3;
	J[k].seq = ++seqs[by][0];
	sim_nopreempt(0); return k;
}
static promise *enq(int k, promise *p) {
	promise *r = NULL; int m = sim_gen(3) ? 3 : 4 + sim_gen(2); J[k].n = m;
	if (p) switch (m) {
		case 3: r = promise_work(p, job, 3, casting(k), casting(k * 11 + 3), J[k].data); break;
		case 4: r = promise_work(p, job, 4, casting(k), casting(k * 11 + 3), J[k].data, casting(k + 3)); break;
		default: r = promise_work(p, job, 5, casting(k), casting(k * 11 + 3), J[k].data, casting(k + 3), casting(k + 4)); break;
	} else switch (m) {
		case 3: r = queue_work(futures_pool(), job, 3, casting(k), casting(k * 11 + 3), J[k].data); break;
		case 4: r = queue_work(futures_pool(), job, 4, casting(k), casting(k * 11 + 3), J[k].data, casting(k + 3)); break;
		default: r = queue_work(futures_pool(), job, 5, casting(k), casting(k * 11 + 3), J[k].data, casting(k + 3), casting(k + 4)); break;
	}
	SIM_CHECK(r && is_promise(r), "no-promise", "queueing job %d gave %p", k, (void *)r);
	return r;
}
static void outcome(int k, void *v, int e, const char *how) {
	SIM_CHECK(J[k].finished == 1, "job-early", "%s of job %d returned while it has started %d, finished %d times", how, k, J[k].started, J[k].finished);
	SIM_CHECK((intptr_t)v == J[k].val, "wrong-result", "%s of job %d (kind %d) gave %lld instead of %lld", how, k, J[k].kind, (long long)(intptr_t)v, (long long)J[k].val);
	SIM_CHECK(*J[k].data == k * 5 + 1, "job-args", "effects of job %d are not visible", k);
	if (J[k].kind == K_ERR) SIM_CHECK(e == J[k].err, "wrong-errno", "%s of job %d: errno is %d instead of %d", how, k, e, J[k].err);
	SIM_CHECK(++J[k].got == 1, "result-twice", "result of job %d delivered %d times", k, J[k].got);
}
static int n0_runs, n0_calls;
static void *job0(param_t args) { sim_nopreempt(1); n0_runs++; sim_nopreempt(0); return (void *)4321; }
static void noargs(void) { /* a job without arguments */
	promise *p; void *v; sim_nopreempt(1); n0_calls++; sim_nopreempt(0);
	p = queue_work(futures_pool(), job0, 0); SIM_CHECK(p && is_promise(p), "no-promise", "queueing a job without arguments gave %p", (void *)p);
	v = queue_get(p).object; SIM_CHECK(v == (void *)4321, "wrong-result", "queue_get of a job without arguments gave %p", v);
	SIM_CHECK(n0_runs <= n0_calls, "job-twice", "%d runs of %d jobs without arguments", n0_runs, n0_calls);
}
static __attribute__((noinline)) void get_again(int k, promise *p) { /* it was delivered, that's once */
	volatile int refused = 0;
	try { queue_get(p); SIM_CHECK(0, "result-twice", "a second queue_get of job %d delivered again", k); }
	catch_any { SIM_CHECK(str_is(err.name, "logic_error"), "wrong-exception", "a second queue_get of job %d threw %s", k, err.name); refused = 1; }
	SIM_CHECK(refused, "result-twice", "a second queue_get of job %d was not refused", k);
}
static void *get(int k, promise *p) {
	if (sim_gen(8) == 0) noargs();
	void *v; int e; errno = 0; v = queue_get(p).object; e = errno; outcome(k, v, e, "queue_get"); if (sim_gen(8) == 0) get_again(k, p); return v;
}
static int wait_ids[64], wait_n;       /* queue_wait of one task at a time */
static void *then(param_t r) {
	int i, f = -1; intptr_t v = (intptr_t)r->object;
	for (i = 0; i < wait_n; i++) if (wait_ids[i] >= 0 && !J[wait_ids[i]].got && J[wait_ids[i]].finished && J[wait_ids[i]].val == v) { f = i; break; }
	if (f < 0) {
		for (i = 0; i < wait_n; i++) if (J[wait_ids[i]].val == v && !J[wait_ids[i]].got) sim_violation("job-early", "queue_wait called back with the value of job %d, which has not finished", wait_ids[i]);
		sim_violation("wrong-result", "queue_wait called back with %lld, no waiting job has that value", (long long)v);
	}
	if (J[wait_ids[f]].kind == K_ARR) SIM_CHECK($size(r) >= 1 && (r[0].integer == (int)v), "wrong-result", "tuple of job %d", wait_ids[f]);
	J[wait_ids[f]].got = 1;
	return 0;
}
static int waiting;
static void step(int by) {
	int n, i, k, ids[16]; promise *p, *ps[16]; uint64_t t0, s0; int tk;
	if (nj >= budget) return;
	switch (sim_gen(5)) {
		case 0: k = newjob(by); p = enq(k, NULL); get(k, p); break;
		case 1: /* several at once, results in any order */
			n = 2 + sim_gen(8); for (i = 0; i < n; i++) { ids[i] = newjob(by); ps[i] = enq(ids[i], NULL); if (sim_gen(4) == 0) yield(); }
			if (sim_gen(2)) for (i = 0; i < n; i++) { SIM_CHECK(queue_is_valid(ps[i]) || J[ids[i]].finished, "job-early", "job %d is reported done before it finished", ids[i]); get(ids[i], ps[i]); }
			else for (i = n; i--; ) get(ids[i], ps[i]);
			break;
		case 2: /* poll */
			k = newjob(by); p = enq(k, NULL);
			while (queue_is_valid(p)) { if (sim_gen(2)) yield(); else delay(1); }
			SIM_CHECK(J[k].finished == 1, "job-early", "job %d is reported done before it finished", k);
			get(k, p);
			break;
		case 3: { /* queue_wait */
			array_t w; int busy; sim_nopreempt(1); busy = waiting; waiting = 1; sim_nopreempt(0); if (busy) { yield(); break; }
			w = array(); n = 1 + sim_gen(8);
			for (i = 0; i < n; i++) { do ids[i] = newjob(by); while (J[ids[i]].kind == K_ERR && (J[ids[i]].kind = K_NULL, J[ids[i]].val = 0, 0)); ps[i] = enq(ids[i], NULL); $append(w, ps[i]); }
			memcpy(wait_ids, ids, sizeof ids[0] * n); wait_n = n;
			if (sim_gen(3)) {
				queue_wait(w, (then_cb)then);
				for (i = 0; i < n; i++) SIM_CHECK(J[ids[i]].got == 1, J[ids[i]].finished ? "result-lost" : "job-early", "queue_wait returned, the result of job %d was passed %d times", ids[i], J[ids[i]].got);
			} else {
				queue_wait(w, NULL);
				for (i = 0; i < n; i++) { SIM_CHECK(J[ids[i]].finished == 1, "job-early", "queue_wait returned before job %d finished", ids[i]); get(ids[i], ps[i]); }
			}
			waiting = 0;
			break;
		}
		case 4: /* one promise, several jobs one after another */
			p = alloc_promise(); n = 1 + sim_gen(3);
			for (i = 0; i < n; i++) { void *v; int e; k = newjob(by); if (J[k].kind == K_ARR) { J[k].kind = K_NULL; J[k].val = 0; } SIM_CHECK(enq(k, p) == p, "no-promise", "promise_work gave another promise"); errno = 0; v = promise_wait(p).object; e = errno; outcome(k, v, e, "promise_wait"); }
			promise_clean(p);
			break;
	}
}
static void *producer(param_t args) { int by = args[0].integer, n = args[1].integer; while (n-- > 0) { step(by); if (sim_gen(3) == 0) delay(sim_gen(4)); else yield(); } live_prod--; return 0; }
static int stop_tick;
static void *ticker(param_t args) {
	/* another task of the same thread: must keep running whatever waits */
	uint64_t t0 = sim_now(), s0 = sim_stalled_ns();
	while (!stop_tick) {
		uint64_t n; yield(); n = sim_now();
		SIM_CHECK(n - t0 < 2000 * MS + (sim_stalled_ns() - s0), "blocked", "a task of the waiting thread did not run for %.3f s", (n - t0) / 1e9);
		t0 = n; s0 = sim_stalled_ns();
	}
	return 0;
}
static void *work_main(param_t na) {
	int n = 1 + sim_gen(4), i, id[6], m = 0, t = 0, pid = -1;
	if (sim_gen(2)) events_init_pool(1 + sim_gen(4));
	if (sim_gen(2)) t = async_task(ticker, 1, casting(0));
	while (sim_gen(2) && m < 4) { live_prod++; id[m] = async_task(producer, 2, casting(1 + m), casting(1 + sim_gen(4))); m++; }
	if (fl & Q_POOLP) { live_prod++; pid = go(producer, 2, casting(7), casting(1 + sim_gen(3))); }
	for (i = 0; i < n; i++) { step(0); if (sim_gen(3) == 0) yield(); }
	while (m) await_for(id[--m]);
	if (pid >= 0) await_for(pid);
	stop_tick = 1; if (t) await_for(t);
	for (i = 0; i < nj; i++) SIM_CHECK(J[i].got == 1 && J[i].started == 1, "job-lost", "job %d started %d times, result delivered %d times", i, J[i].started, J[i].got);
	main_done = 1;
	return 0;
}
SIM_WORKLOAD(work, "stall", "jobs queued to worker threads by several tasks, every way of waiting for a promise") { wl_my_alloc(4);
	int i, r; fl = sim_gen(16); if (sim_gen(2)) fl &= ~Q_POOLP; budget = 4 + sim_gen(60); if (sim_gen(12) == 11) budget = MAXJ - 20;
	r = events_start(128 + sim_gen(900), (main_cb)work_main, 0);
	SIM_CHECK(main_done, "task-lost", "the main task did not finish (events_start gave %d)", r);
	sim_done();
}

/* thread futures ------------------------------------------------------------------------------------------ */
EX_EXCEPTION(ex_one); EX_EXCEPTION(ex_two); EX_EXCEPTION(ex_three); EX_EXCEPTION(ex_four);
static const char *const exn[] = { "ex_one", "ex_two", "ex_three", "ex_four", "_panic" };
enum { F_INT, F_NUL, F_PTR, F_ARR, F_THROW, F_PANIC, F_CAUGHT, F_NEST, F_NK };
static struct FT { int kind, ex, started, finished, got, thr, sub; intptr_t val; int *data; future_t f; } F[40];
static int nf;
static void throw_it(int e) { switch (e) { case 0: throw(ex_one); case 1: throw(ex_two); case 2: throw(ex_three); case 3: throw(ex_four); default: panic("big trouble"); } }
static int new_future(void); static void collect(int k, int poll);
static void *tfn(param_t args) {
	int id = args[0].integer; volatile int inn = 0;
	SIM_CHECK(id >= 0 && id < nf && args[1].integer == id * 9 && (int *)args[2].object == F[id].data && *F[id].data == id, "job-args", "thread future %d got wrong arguments", id);
	sim_nopreempt(1); SIM_CHECK(++F[id].started == 1, "job-twice", "thread function %d started %d times", id, F[id].started); F[id].thr = sim_self(); sim_nopreempt(0);
	if (sim_gen(2)) sim_nap(1 + sim_gen(4) * MS);
	if (F[id].kind == F_CAUGHT) {
		try { throw_it(F[id].ex); inn = 100; } catch_any { inn++; SIM_CHECK(str_is(err.name, exn[F[id].ex]), "wrong-exception", "caught %s instead of %s", err.name, exn[F[id].ex]); }
		SIM_CHECK(inn == 1, "wrong-exception", "the handler in thread %d ran %d times", id, inn);
	}
	if (F[id].kind == F_NEST) { int k = new_future(); if (k >= 0) { sim_note("nested future %d in %d", k, id); collect(k, 0); } }
	*F[id].data = id + 500;
	if (sim_gen(4) == 0) sim_nap(1 + sim_gen(3) * MS);
	sim_nopreempt(1); F[id].finished = 1; sim_note("thread function %d ends", id); sim_nopreempt(0);
	switch (F[id].kind) {
		case F_NUL: return NULL;
		case F_ARR: return sim_gen(2) ? $(casting(F[id].val)) : $$(casting(F[id].val), casting(1));
		case F_THROW: case F_PANIC: throw_it(F[id].ex); sim_violation("wrong-exception", "execution went on after a throw");
		default: return (void *)F[id].val;
	}
}
static int depth;
static int new_future(void) {
	int k; static const char *s = "x";
	sim_nopreempt(1);
	if (nf >= 30) { sim_nopreempt(0); return -1; }
	k = nf++; memset(&F[k], 0, sizeof F[k]);
	F[k].kind = sim_gen(F_NK); if (F[k].kind == F_NEST && depth++ > 1) F[k].kind = F_INT;
	F[k].ex = F[k].kind == F_PANIC ? 4 : sim_gen(4);
	F[k].val = F[k].kind == F_NUL || F[k].kind == F_THROW || F[k].kind == F_PANIC ? 0 : F[k].kind == F_PTR ? zptr(k) : 100 + k;
	F[k].data = malloc(sizeof(int)); *F[k].data = k;
	sim_nopreempt(0);
	F[k].f = thrd_async(tfn, 3, casting(k), casting(k * 9), F[k].data);
	SIM_CHECK(is_future(F[k].f), "no-future", "thrd_async gave no future");
	return k;
}
static int yields; static void ywait(void) { yields++; if (sim_gen(2)) sim_nap(1000); else sim_yield_point(); }
static void check_done(int k) { if (thrd_is_done(F[k].f)) SIM_CHECK(F[k].finished, "job-early", "thread %d is reported done before its function finished", k); }
static void collect(int k, int poll) {
	volatile int caught = 0, thrown = F[k].kind == F_THROW || F[k].kind == F_PANIC; volatile intptr_t v = -77; volatile int again = 0;
	switch (sim_gen(4)) {
		case 0: while (!thrd_is_done(F[k].f)) { sim_nap(1000); } check_done(k); break;
		case 1: thrd_wait(F[k].f, ywait); SIM_CHECK(F[k].finished, "job-early", "thrd_wait returned before thread function %d finished", k); break;
		case 2: check_done(k); break;
	}
	again = sim_gen(3);
	try {
		v = (intptr_t)thrd_get(F[k].f).object;
		SIM_CHECK(F[k].finished, "job-early", "thrd_get returned before thread function %d finished", k);
		while (again-- > 0) { intptr_t w = (intptr_t)thrd_get(F[k].f).object; SIM_CHECK(w == v, "wrong-result", "a second thrd_get of thread %d gave %lld after %lld", k, (long long)w, (long long)v); }
	} catch_any {
		caught++;
		SIM_CHECK(F[k].finished, "job-early", "thrd_get threw before thread function %d finished", k);
		SIM_CHECK(thrown, "wrong-exception", "thrd_get of thread %d threw %s, the thread did not", k, err.name);
		SIM_CHECK(str_is(err.name, exn[F[k].ex]), "wrong-exception", "thrd_get of thread %d threw %s instead of %s", k, err.name, exn[F[k].ex]);
	}
	SIM_CHECK(caught == thrown, "wrong-exception", "thread %d ended with exception %s, thrd_get threw %d times", k, thrown ? exn[F[k].ex] : "none", caught);
	if (!thrown) SIM_CHECK(v == F[k].val, "wrong-result", "thrd_get of thread %d (kind %d) gave %lld instead of %lld", k, F[k].kind, (long long)v, (long long)F[k].val);
	if (!thrown) { SIM_CHECK(thrd_is_done(F[k].f), "not-done", "thread %d is not reported done, after its value was taken", k); thrd_wait(F[k].f, ywait); }
	SIM_CHECK(*F[k].data == k + 500, "job-args", "effects of thread %d are not visible", k);
	SIM_CHECK(++F[k].got == 1, "result-twice", "harness: %d", k);
}
static void fut_step(void) {
	int ids[8], n = 1 + sim_gen(5), i, m = 0;
	for (i = 0; i < n; i++) { int k = new_future(); if (k >= 0) ids[m++] = k; }
	if (sim_gen(2)) for (i = 0; i < m; i++) collect(ids[i], 0); else while (m) collect(ids[--m], 0);
}
static void *fut_task(param_t args) { int n = 1 + sim_gen(3); while (n--) { fut_step(); if (sim_gen(2)) yield(); } return 0; }
static void *fut_main(param_t na) {
	int id[3], m = 0; while (sim_gen(2) && m < 2) id[m++] = async_task(fut_task, 1, casting(1));
	fut_task(NULL); while (m) await_for(id[--m]);
	main_done = 1; return 0;
}
SIM_WORKLOAD(thread, "stall", "thread futures: values, arrays and exceptions through every way of waiting") { wl_my_alloc(4);
	int i;
	if (sim_gen(3)) { events_start(256, (main_cb)fut_main, 0); SIM_CHECK(main_done, "task-lost", "the main task did not finish"); }
	else { int n = 1 + sim_gen(3); while (n--) fut_step(); }
	for (i = 0; i < nf; i++) SIM_CHECK(F[i].started == 1 && F[i].finished == 1, "job-lost", "thread function %d started %d times", i, F[i].started);
	sim_done();
}
