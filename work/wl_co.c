/* Task programs on one thread, checked against a model: yield, delay, results, generators, groups. */
#include "wl.h"
#define MS 1000000ull
#define MAXT 160
enum { F_SLEEP = 1, F_AWAIT = 2, F_GEN = 4, F_GROUP = 8, F_LAUNCH = 16, F_CANCEL = 32, F_FAIR = 64, F_BURN = 128, F_SUSP = 256 };
enum { K_ASYNC, K_LAUNCH, K_EX, K_GEN };
enum { NEW, READY, RUNNING, OTHER, SLEEPING, DONE };
static struct T { int kind, id, has_id, started, finished, defers, cleaned, st, leaf, cancel, group, isgen; uint32_t cnt; uint64_t due; void *val; tasks_t *h; } T[MAXT];
static int nt, budget, feats, live, main_done, longs; static uint64_t burned, starts[MAXT]; static int nstart;
static struct G { generator_t g; int next, ahead, n, closed, users, slow, made; void *end; uint32_t rid; } G[12]; static int ng;
static int groups_open;

static int me(void);
static void *mkval(int i) { switch (sim_gen(4)) { case 0: return NULL; case 1: return (void *)(intptr_t)(i + 1000); case 2: return (void *)"value"; default: return (void *)(intptr_t)(0x7000000000000000ll + i); } }
static void enter(int i) { T[i].cnt++; T[i].st = RUNNING; }
#ifdef __x86_64__
/* yield with known values in the registers a function has to keep */
__attribute__((noinline, no_sanitize_thread)) static uint64_t yield_regs(const uint64_t *v) {
	uint64_t diff;
	__asm__ volatile("sub $128,%%rsp\n push %1\n push %1\n"
		"mov 0(%1),%%rbx\n mov 8(%1),%%r12\n mov 16(%1),%%r13\n mov 24(%1),%%r14\n mov 32(%1),%%r15\n"
		"call yield\n pop %%rcx\n pop %%rcx\n"
		"xor 0(%%rcx),%%rbx\n xor 8(%%rcx),%%r12\n xor 16(%%rcx),%%r13\n xor 24(%%rcx),%%r14\n xor 32(%%rcx),%%r15\n"
		"mov %%rbx,%%rax\n or %%r12,%%rax\n or %%r13,%%rax\n or %%r14,%%rax\n or %%r15,%%rax\n add $128,%%rsp\n"
		: "=&a"(diff), "+D"(v) : : "rbx", "r12", "r13", "r14", "r15", "rcx", "rdx", "rsi", "r8", "r9", "r10", "r11", "memory", "cc");
	return diff;
}
static void yield_keeping(int i) {
	uint64_t v[5], d; for (int k = 0; k < 5; k++) v[k] = 0x0101010101010101ull * (i + 1) + k * 0x1111 + T[i].cnt;
	d = yield_regs(v); SIM_CHECK(d == 0, "register-lost", "a register of task %d changed across a yield (%llx)", i, (unsigned long long)d);
}
#else
static void yield_keeping(int i) { yield(); }
#endif
static void do_yield(int i) {
	uint32_t snap[MAXT]; int ready[MAXT], k, n = nt;
	for (k = 0; k < n; k++) { ready[k] = k != i && (T[k].st == READY || T[k].st == NEW); snap[k] = T[k].cnt; }
	T[i].st = READY;
	yield_keeping(i);
	enter(i);
	for (k = 0; k < n; k++) SIM_CHECK(!ready[k] || T[k].cnt != snap[k], "unfair-yield", "task %d ran again after its yield although task %d was ready and did not run", i, k);
}
static void do_delay(int i, int ms) {
	uint64_t b0 = burned, s0 = 0, t0 = sim_now(), t1, t2; uint32_t r; int k;
	T[i].st = SLEEPING; T[i].due = t0 + ms * MS;
	t1 = sim_now();
	sim_note("task %d sleeps %d", i, ms); r = delay(ms); sim_note("task %d awake", i);
	t2 = sim_now();
	for (k = 0; k < nt; k++) SIM_CHECK(k == i || T[k].st != SLEEPING || T[k].due + 4 * MS + sim_stalled_ns() >= T[i].due, "sleep-order", "task %d due at %.3f ms resumed before task %d due at %.3f ms", i, T[i].due / 1e6, k, T[k].due / 1e6);
	enter(i);
	SIM_CHECK(t2 - t0 >= ms * MS, "short-sleep", "delay(%d) resumed after %.3f ms", ms, (t2 - t0) / 1e6);
	SIM_CHECK(t2 - t0 <= ms * MS + 250 * MS + (burned - b0) + (sim_stalled_ns() - s0), "late-sleep", "delay(%d) resumed only after %.3f ms (stalled %.3f ms, busy %.3f ms)", ms, (t2 - t0) / 1e6, (sim_stalled_ns() - s0) / 1e6, (burned - b0) / 1e6);
	SIM_CHECK(r >= (uint32_t)ms && r * MS <= t2 - t1 + 2 * MS, "sleep-result", "delay(%d) took %.3f ms and reported %u ms", ms, (t2 - t0) / 1e6, r);
}
static void *body(param_t args);
static void *genbody(param_t args);
static int mktask(int kind, int leaf) {
	int k;
	if (nt >= budget) return -1;
	k = nt++; memset(&T[k], 0, sizeof T[k]); T[k].kind = kind; T[k].leaf = leaf; T[k].val = mkval(k); live++;
	switch (kind) {
		case K_ASYNC: T[k].has_id = 1; T[k].st = NEW; T[k].id = async_task(body, 2, casting(k), casting(k * 7 + 1));
			SIM_CHECK(T[k].id >= 0, "task-create", "async_task failed"); break;
		case K_EX: T[k].st = NEW; async_ex(Kb(16) + sim_gen(3) * Kb(8), (launch_func_t)body, 2, casting(k), casting(k * 7 + 1)); break;
		case K_LAUNCH: { int i = me(), q, n = nt; uint32_t s[MAXT]; (void)s; T[k].st = NEW; if (i >= 0) T[i].st = READY; launch((launch_func_t)body, 2, casting(k), casting(k * 7 + 1)); if (i >= 0) enter(i); (void)q; (void)n;
			SIM_CHECK(T[k].cnt > 0, "launch-not-run", "launch returned before task %d ran at all", k); break; }
	}
	for (int j = 0; j < k; j++) if (T[k].has_id && T[j].has_id) SIM_CHECK(T[j].id != T[k].id, "duplicate-id", "tasks %d and %d both have id %d", j, k, T[k].id);
	return k;
}
static int me(void) { tasks_t *t = active_task(); for (int i = 0; i < nt; i++) if (T[i].h == t && T[i].st != DONE && T[i].started) return i; return -1; }
static void check_result(int k, void *v, const char *how) { SIM_CHECK(v == T[k].val, "wrong-result", "%s of task %d (id %d) gave %p, it returned %p", how, k, T[k].id, v, T[k].val); }
static void do_await(int i, int k) {
	void *v; T[i].st = OTHER; sim_note("task %d awaits %d", i, k); v = await_for(T[k].id).object; enter(i);
	SIM_CHECK(T[k].finished, "await-early", "await_for(task %d) returned before it finished", k);
	check_result(k, v, "await_for");
}
static void peek(int k) {
	if (!T[k].has_id) return;
	SIM_CHECK(task_is_ready(T[k].id) == (T[k].finished != 0), "ready-query", "task %d %s but task_is_ready says %d", k, T[k].finished ? "finished" : "has not finished", task_is_ready(T[k].id));
	{ void *v = results_for(T[k].id).object; if (T[k].finished) check_result(k, v, "results_for"); else SIM_CHECK(v == NULL, "early-result", "results_for of unfinished task %d gave %p", k, v); }
}
static void use_gen(int i, struct G *g) {
	void *v;
	if (!g->g || g->closed) return;
	if (g->closed > 1) return;
	g->users++; T[i].st = OTHER;
	v = yielded(g->g).object; enter(i); g->users--;
	if (v == NULL) { /* end of the generator; with several consumers each of them sees it */
		SIM_CHECK(g->next == g->n, "gen-lost", "generator %d ended after %d of %d values were delivered", (int)(g - G), g->next, g->n);
		g->closed = 1;
		if (g->n) check_result((int)(intptr_t)g->end, results_for(g->rid).object, "results_for(generator)");
		return;
	}
	SIM_CHECK(v == (void *)(intptr_t)((g - G + 1) * 100000 + g->next + 1), "gen-order", "generator %d delivered %ld as value %d", (int)(g - G), (long)(intptr_t)v, g->next);
	if (!g->next) { g->rid = gen_id(); for (int j = 0; j < nt; j++) SIM_CHECK(!T[j].has_id || T[j].id != (int)g->rid, "gen-id", "generator has the id %d of task %d", (int)g->rid, j); }
	g->next++;
	SIM_CHECK(gen_id() == g->rid, "gen-id", "gen_id() %u after a value of generator %u", gen_id(), g->rid);
	SIM_CHECK(g->made <= g->next + 1, "gen-ahead", "generator %d produced %d values while %d were taken", (int)(g - G), g->made, g->next);
}
static void *genbody(param_t args) {
	struct G *g = &G[args[0].integer]; int i, self = args[1].integer; volatile uint64_t canary = 0x1234567 + self;
	T[self].started++; T[self].h = active_task(); enter(self);
	for (i = 0; i < g->n; i++) {
		int q = g->slow ? sim_gen(3) : 0;
		while (q-- > 0) { T[self].st = OTHER; if ((feats & F_SLEEP) && sim_gen(3) == 0) do_delay(self, sim_gen(4)); else yield(); enter(self); }
		g->made++; T[self].st = OTHER;
		yielding((void *)(intptr_t)((g - G + 1) * 100000 + i + 1));
		enter(self);
		SIM_CHECK(canary == 0x1234567 + self, "task-state", "generator lost a local");
	}
	T[self].finished++; T[self].st = DONE; live--;
	return T[self].val;
}
static void new_gen(int i) {
	struct G *g; int k;
	if (ng >= 12 || nt >= budget) return;
	g = &G[ng]; memset(g, 0, sizeof *g); k = nt++; memset(&T[k], 0, sizeof T[k]); T[k].kind = K_GEN; T[k].isgen = 1; T[k].val = mkval(k); T[k].st = NEW; T[k].leaf = 0; live++;
	g->n = sim_gen(6); g->slow = sim_gen(2); g->end = (void *)(intptr_t)k;
	{ int gi = ng++; g->g = generator(genbody, 2, casting(gi), casting(k)); }
	SIM_CHECK(g->g != NULL, "gen-create", "generator() failed");
	(void)i;
}
static void do_group(int i) {
	task_group_t *wg; int mem[80], n = 0, want = 0, k, a[80]; array_t r; size_t c = 0; int depth_leaf = sim_gen(2);
	if (T[i].group > 1) return;
	T[i].group++;
	wg = task_group();
	SIM_CHECK(is_taskgroup(wg), "group-type", "task_group() did not give a group");
	for (k = sim_gen(12) == 11 ? sim_gen(70) : sim_gen(7); k >= 0 && n < 80; k--) {
		int x = mktask(sim_gen(8) == 7 ? K_EX : K_ASYNC, sim_gen(3) != 0);
		if (x < 0) break;
		mem[n++] = x; if (T[x].has_id && T[x].val) want++;
	}
	(void)depth_leaf; c = tasks_count(wg);
	SIM_CHECK((int)c == n, "group-count", "group of %d members counts %zu", n, c);
	T[i].st = OTHER;
	for (k = 0; k < n; k++) sim_note("task %d group member %d", i, mem[k]);
	r = tasks_wait(wg);
	sim_note("task %d group done", i);
	enter(i);
	for (k = 0; k < n; k++) SIM_CHECK(T[mem[k]].finished, "group-early", "tasks_wait returned while member %d of %d (task %d) has not finished", k, n, mem[k]);
	for (k = 0; k < n; k++) SIM_CHECK(T[mem[k]].cleaned == T[mem[k]].defers, "group-early", "tasks_wait returned while the cleanups of member %d of %d (task %d) have not run", k, n, mem[k]);
	SIM_CHECK((r == NULL && want == 0) || (r && (int)$size(r) == want), "group-results", "group with %d results returned %d ids", want, r ? (int)$size(r) : 0);
	for (k = 0; k < want; k++) a[k] = (int)r[k].u_int;
	for (k = 0; k < n; k++) if (T[mem[k]].has_id && T[mem[k]].val) {
		int f = 0, j; for (j = 0; j < want; j++) f += a[j] == T[mem[k]].id;
		SIM_CHECK(f == 1, "group-results", "id %d of member task %d is %d times in the result array", T[mem[k]].id, mem[k], f);
		check_result(mem[k], results_for(T[mem[k]].id).object, "results_for(group member)");
	}
	T[i].group--;
}
static void step(int i, int *kids, int *nk) {
	int k;
	k = sim_gen(14); sim_note("task %d op %d", i, k); switch (k) {
		case 0: case 1: case 2: do_yield(i); break;
		case 3: case 4: if (feats & F_SLEEP) do_delay(i, longs > 0 && sim_gen(4) == 0 ? (longs--, 1000 + sim_gen(9000)) : sim_gen(4) ? sim_gen(8) : sim_gen(100)); else do_yield(i); break;
		case 5: case 6: { int kind = (feats & F_LAUNCH) ? sim_gen(4) : 0; k = mktask(kind == 2 ? K_LAUNCH : kind == 3 ? K_EX : K_ASYNC, sim_gen(2)); if (k >= 0 && *nk < 8) kids[(*nk)++] = k; break; }
		case 7: if ((feats & F_AWAIT) && *nk && !T[i].leaf) { k = kids[sim_gen(*nk)]; if (T[k].has_id) do_await(i, k); } break;
		case 8: if ((feats & F_AWAIT) && nt) peek(sim_gen(nt)); break;
		case 9: if ((feats & F_AWAIT) && !T[i].leaf) { k = sim_gen(nt); if (k != i && T[k].leaf && T[k].has_id) do_await(i, k); } break;
		case 10: if (feats & F_GEN) { if (sim_gen(3) == 0) new_gen(i); else if (ng && !T[i].leaf) { struct G *g = &G[sim_gen(ng)]; for (k = sim_gen(4); k >= 0; k--) use_gen(i, g); } } break;
		case 11: if ((feats & F_GROUP) && !T[i].leaf && !T[i].isgen) do_group(i); break;
		case 12: if (feats & F_CANCEL) { k = sim_gen(nt); if (T[k].has_id && !T[k].finished) { task_set_canceled(T[k].id); T[k].cancel = 1; } if (T[i].has_id) SIM_CHECK(task_is_canceled() == (T[i].cancel != 0), "cancel", "task %d: cancel requested %d, seen %d", i, T[i].cancel, task_is_canceled()); } break;
		case 13: if (feats & F_BURN) { uint64_t b = (1 + sim_gen(30)) * MS; burned += b; sim_advance(b); } break;
	}
}
static void cleanup(intptr_t id) {
	int n = sim_gen(4); while (n-- > 0) if ((feats & F_SLEEP) && sim_gen(3) == 0) delay(sim_gen(4)); else yield();
	T[id].cleaned++; SIM_CHECK(T[id].cleaned <= T[id].defers, "defer-twice", "%d cleanups of task %d ran, it deferred %d", T[id].cleaned, (int)id, T[id].defers);
}
static void *body(param_t args) {
	int id = args[0].integer, y, i, kids[8], nk = 0; volatile uint64_t loc[6];
	SIM_CHECK(id >= 0 && id < nt, "task-args", "task got argument %d", id);
	SIM_CHECK((int)args[1].integer == id * 7 + 1, "task-args", "task %d second argument %d", id, (int)args[1].integer);
	T[id].started++; T[id].h = active_task(); enter(id);
	SIM_CHECK(T[id].started == 1, "task-twice", "task %d started %d times", id, T[id].started);
	if (T[id].has_id && T[id].id) SIM_CHECK((int)task_id() == T[id].id, "task-id", "task %d has id %d, task_id() says %d", id, T[id].id, (int)task_id());
	for (i = 0; i < 6; i++) loc[i] = id * 1000 + i;
	y = sim_gen(6);
	for (i = 0; i < y; i++) {
		step(id, kids, &nk);
		SIM_CHECK(active_task() == T[id].h, "task-identity", "task %d is another task now", id);
		SIM_CHECK((int)args[0].integer == id && (int)args[1].integer == id * 7 + 1, "task-args", "task %d lost its arguments", id);
		for (int k = 0; k < 6; k++) SIM_CHECK(loc[k] == (uint64_t)(id * 1000 + k), "task-state", "task %d lost a local", id);
	}
	SIM_CHECK(!T[id].finished, "task-twice", "task %d ends twice", id);
	if (sim_gen(6) == 0) { T[id].defers = 1 + sim_gen(2); for (i = 0; i < T[id].defers; i++) SIM_CHECK(deferring(cleanup, id) > 0, "defer-failed", "deferring gave an error"); }
	sim_note("task %d ends", id); T[id].finished++; T[id].st = DONE; live--;
	return T[id].val;
}
static void drain_gens(int i) {
	for (int k = 0; k < ng; k++) { struct G *g = &G[k]; int turns = 0; while (g->g && !g->closed && turns++ < 20) use_gen(i, g); }
}
static void *main_main(param_t args) {
	int i, n, id, kids[8], nk = 0;
	id = nt++; live++; T[id].started = 1; T[id].h = active_task(); T[id].leaf = 0; enter(id);
	sim_note("main task"); n = 1 + sim_gen(8);
	for (i = 0; i < n; i++) { int k = mktask(sim_gen(6) == 5 && (feats & F_LAUNCH) ? K_LAUNCH : K_ASYNC, sim_gen(2)); if (k >= 0 && nk < 8) kids[nk++] = k; }
	n = sim_gen(12);
	for (i = 0; i < n; i++) step(id, kids, &nk);
	/* generators must be used up, or they would keep waiting for a consumer */
	if (feats & F_GEN) for (i = 0; i < 100000 && live > 1; i++) { drain_gens(id); if (live > 1) do_yield(id); }
	sim_note("main task ends"); T[id].finished = 1; T[id].st = DONE; live--; main_done = 1;
	return 0;
}
static void drive(int f, int n) {
	int i; static int full;
	feats = f; budget = 4 + sim_gen(sim_gen(6) == 5 ? 150 : n); full = sim_gen(5) == 4 && !getenv("NOFULL");sim_note("full %d", full);
	sim_fault_enable(F_CLOCKJUMP, 200, 4);
	if ((feats & F_SLEEP) && sim_gen(10) == 9) { longs = 4; sim_cfg.poll_step_us = 5000; budget = 2 + sim_gen(8); }
	if (full) events_start(128 + sim_gen(900), (main_cb)main_main, 0);
	else {
		events_t *loop;
		events_init(64 + sim_gen(1000)); loop = events_create(6);
		async_task(main_main, 0);
		async_run(loop);
		events_destroy(loop);
	}
	SIM_CHECK(main_done, "task-lost", "the main task did not finish");
	for (i = 0; i < nt; i++) SIM_CHECK(T[i].started == 1 && T[i].finished == 1 && T[i].cleaned == T[i].defers, "task-lost", "task %d of %d: started %d finished %d when the scheduler returned", i, nt, T[i].started, T[i].finished);
	sim_done();
}
SIM_WORKLOAD(tasks, "", "tasks on one thread: launch, async, nesting, yield, burning") { wl_my_alloc(4); drive(F_LAUNCH | F_BURN, 50); }
SIM_WORKLOAD(sleep, "stall", "sleeping and running tasks on one thread, with wall clock steps") { drive(F_SLEEP | F_BURN | F_LAUNCH, 50); }
SIM_WORKLOAD(await, "", "results, waiting, readiness, cancel requests") { drive(F_AWAIT | F_CANCEL | (sim_gen(2) ? F_SLEEP : 0) | (sim_gen(2) ? F_LAUNCH : 0), 55); }
SIM_WORKLOAD(gener, "", "generators and their consumers") { wl_my_alloc(4); drive(F_GEN | (sim_gen(2) ? F_SLEEP : 0) | (sim_gen(2) ? F_AWAIT : 0), 50); }
SIM_WORKLOAD(group, "", "task groups") { drive(F_GROUP | (sim_gen(3) ? F_SLEEP : 0) | (sim_gen(2) ? F_AWAIT : 0) | (sim_gen(2) ? F_LAUNCH : 0), 55); }
SIM_WORKLOAD(comix, "stall", "all single-thread task features together") { drive(F_SLEEP | F_AWAIT | F_GEN | F_GROUP | F_LAUNCH | F_CANCEL | F_BURN, 55); }
