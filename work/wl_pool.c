/* Tasks of the thread pool (go) and waitgroups over it. */
#include "wl.h"
#define MS 1000000ull
#define MAXT 900
static struct T { int started, finished, rid, depth, thr, sub; void *val; int *data; } T[MAXT];
static int nt, budget, fl, members, main_done, heavy; static uint64_t progress, prog_stall;
enum { Q_NEST = 1, Q_SLEEP = 2, Q_LOCAL = 4, Q_BURN = 8 };
static void moved(void) { sim_nopreempt(1); progress = sim_now(); prog_stall = sim_stalled_ns(); sim_nopreempt(0); }
static void *mkval(int i) { switch (sim_gen(3)) { case 0: return NULL; case 1: return (void *)(intptr_t)(i + 1000); default: return (void *)(intptr_t)(0x7000000000000000ll + i); } }
static void *body(param_t args);
static int newt(int depth) { int k; sim_nopreempt(1); k = nt++; memset(&T[k], 0, sizeof T[k]); T[k].rid = -1; T[k].depth = depth; T[k].val = mkval(k); T[k].data = malloc(sizeof(int)); *T[k].data = k * 3; sim_nopreempt(0); return k; }
static int do_go(int depth) {
	int k, r; if (nt >= budget - 8) return -1;
	k = newt(depth);
	switch (sim_gen(2)) {
		case 0: r = go(body, 3, casting(k), casting(k * 7 + 1), T[k].data); break;
		default: r = go(body, 4, casting(k), casting(k * 7 + 1), T[k].data, casting(99)); break;
	}
	SIM_CHECK(r > 0, "go-failed", "go() gave %d", r);
	T[k].rid = r;
	for (int j = 0; j < nt; j++) SIM_CHECK(j == k || T[j].rid != r, "duplicate-id", "tasks %d and %d both have id %d", j, k, r);
	return k;
}
static void *local(param_t args) {
	int k = args[0].integer; T[k].sub += 100;
	if (sim_gen(2)) yield();
	if ((fl & Q_SLEEP) && sim_gen(3) == 0) delay(sim_gen(5));
	T[k].sub -= 99; return 0;
}
static void *body(param_t args) {
	int id = args[0].integer, i, y, thr = sim_self(), sub = 0; volatile uint64_t loc[4];
	SIM_CHECK(id >= 0 && id < nt && (int)args[1].integer == id * 7 + 1, "task-args", "pool task got arguments %d %d", id, (int)args[1].integer);
	SIM_CHECK((int *)args[2].object == T[id].data && *T[id].data == id * 3, "task-args", "pool task %d does not see its data", id);
	SIM_CHECK(++T[id].started == 1, "task-twice", "pool task %d started %d times", id, T[id].started);
	moved(); T[id].thr = thr;
	for (i = 0; i < 4; i++) loc[i] = id * 1000 + i;
	y = sim_gen(heavy ? 2 : 5);
	for (i = 0; i < y; i++) {
		switch (sim_gen(6)) {
			case 0: case 1: yield(); break;
			case 2: if (fl & Q_SLEEP) { uint64_t t0; int d = sim_gen(20); t0 = sim_now(); delay(d); SIM_CHECK(sim_now() - t0 >= d * MS, "short-sleep", "delay(%d) on a pool thread took %.3f ms", d, (sim_now() - t0) / 1e6); } else yield(); break;
			case 3: if ((fl & Q_NEST) && T[id].depth < 3) { int k = do_go(T[id].depth + 1); if (k >= 0 && sim_gen(2)) { void *v = await_for(T[k].rid).object; SIM_CHECK(T[k].finished && v == T[k].val, "wrong-result", "await_for of pool task %d: finished %d value %p instead of %p", k, T[k].finished, v, T[k].val); } } break;
			case 4: if (fl & Q_LOCAL) { sub++; async_task(local, 1, casting(id)); } break;
			case 5: if (fl & Q_BURN) sim_advance(sim_gen(3000000)); break;
		}
		moved();
		SIM_CHECK(sim_self() == thr, "task-migrated", "pool task %d moved from thread %d to %d", id, thr, sim_self());
		for (int k = 0; k < 4; k++) SIM_CHECK(loc[k] == (uint64_t)(id * 1000 + k), "task-state", "pool task %d lost a local", id);
	}
	while (T[id].sub != sub) yield();
	*T[id].data = id * 5; T[id].finished++; moved();
	sim_note("pool task %d ends", id);
	return T[id].val;
}
static void wait_all(void) {
	int i, left; moved();
	do {
		for (left = i = 0; i < nt; i++) left += !T[i].finished;
		if (!left) break;
		sim_nopreempt(1); if (sim_now() > progress + 3000 * MS + (sim_stalled_ns() - prog_stall)) sim_violation("task-lost", "%d of %d pool tasks have not finished %.1f s after the last progress", left, nt, (sim_now() - progress) / 1e9);
		sim_nopreempt(0);
		if (sim_gen(2)) yield(); else delay(1 + sim_gen(5));
	} while (1);
}
static void check_all(void) {
	for (int i = 0; i < nt; i++) {
		SIM_CHECK(T[i].started == 1 && T[i].finished == 1, "task-lost", "pool task %d started %d times, finished %d times", i, T[i].started, T[i].finished);
		SIM_CHECK(*T[i].data == i * 5, "task-args", "effects of pool task %d are not visible", i);
	}
}
static void *side(param_t args) { int n = args[0].integer; while (n-- > 0) { if (sim_gen(2)) yield(); else delay(1); } return 0; }
static void producer_step(void) {
	int n = heavy ? 50 + sim_gen(300) : 1 + sim_gen(6), k, last = -1;
	while (n-- > 0) { k = do_go(0); if (k < 0) break; last = k; if (sim_gen(heavy ? 50 : 4) == 0) yield(); }
	if (last >= 0 && sim_gen(3) == 0) { void *v; moved(); v = await_for(T[last].rid).object; SIM_CHECK(T[last].finished && v == T[last].val, "wrong-result", "await_for of pool task %d: finished %d value %p instead of %p", last, T[last].finished, v, T[last].val); }
}
static void *producer(param_t args) { int n = args[0].integer; while (n-- > 0) { producer_step(); yield(); } return 0; }
static void *pool_main(param_t na) {
	int n = 1 + sim_gen(4), id[3], m = 0;
	while (sim_gen(2) && m < 2) id[m++] = async_task(producer, 1, casting(1 + sim_gen(2)));
	while (n-- > 0) { producer_step(); if (sim_gen(2)) delay(sim_gen(10)); }
	while (m) await_for(id[--m]);
	wait_all(); check_all();
	for (int i = 0; i < nt; i++) { while (!task_is_ready(T[i].rid)) yield(); SIM_CHECK(results_for(T[i].rid).object == T[i].val, "wrong-result", "result of pool task %d is %p instead of %p", i, results_for(T[i].rid).object, T[i].val); }
	main_done = 1;
	return 0;
}
static void one_group(int n, int cap) {
	waitgroup_t wg; int mem[80], i, m = 0, want = 0; array_t r;
	sim_note("waitgroup of %d, capacity %d", n, cap);
	wg = waitgroup(cap);
	SIM_CHECK(is_waitgroup(wg), "group-type", "waitgroup() did not give a waitgroup");
	for (i = 0; i < n && m < 80; i++) { int k = do_go(0); if (k < 0) break; mem[m++] = k; if (T[k].val) want++; }
	SIM_CHECK((int)tasks_count(wg) == m, "group-count", "waitgroup of %d members counts %zu", m, tasks_count(wg));
	r = waitfor(wg);
	sim_note("waitgroup done");
	for (i = 0; i < m; i++) {
		SIM_CHECK(T[mem[i]].finished == 1, "group-early", "waitfor returned while member %d of %d (task %d) has not finished", i, m, mem[i]);
		SIM_CHECK(*T[mem[i]].data == mem[i] * 5, "task-args", "effects of member %d are not visible", mem[i]);
	}
	SIM_CHECK((r == NULL && !want) || (r && (int)$size(r) == want), "group-results", "waitgroup with %d results returned %d ids", want, r ? (int)$size(r) : 0);
	for (i = 0; i < m; i++) if (T[mem[i]].val) {
		int f = 0, j; for (j = 0; j < want; j++) f += (int)r[j].u_int == T[mem[i]].rid;
		SIM_CHECK(f == 1, "group-results", "id %d of member %d is %d times in the result array", T[mem[i]].rid, mem[i], f);
		SIM_CHECK(results_for(T[mem[i]].rid).object == T[mem[i]].val, "wrong-result", "result of member %d is %p instead of %p", mem[i], results_for(T[mem[i]].rid).object, T[mem[i]].val);
	}
}
static void *group_main(param_t na) {
	int g = 1 + sim_gen(3), s = 0;
	if (sim_gen(3) == 0) s = async_task(side, 1, casting(sim_gen(8)));
	while (g-- > 0) {
		int n = sim_gen(5) ? sim_gen(10) : sim_gen(60), cap = sim_gen(3) ? n : sim_gen(2 * n + 4);
		one_group(n, cap);
		if (sim_gen(3) == 0) producer_step();
		if (sim_gen(3) == 0) delay(sim_gen(10));
	}
	if (s) await_for(s);
	wait_all(); check_all();
	main_done = 1;
	return 0;
}
static void drive(main_cb fn) {
	int r;
	if (sim_gen(6) == 0) setenv("x", "y", 1);
	r = events_start(128 + sim_gen(900), fn, 0);
	SIM_CHECK(main_done, "task-lost", "the main task did not finish (events_start gave %d)", r);
	check_all();
	sim_done();
}
SIM_WORKLOAD(pool, "stall", "go(): tasks of several producers over the thread pool") { wl_my_alloc(4);
	fl = sim_gen(16); heavy = sim_gen(12) == 11; budget = heavy ? MAXT : 8 + sim_gen(60); drive((main_cb)pool_main);
}
SIM_WORKLOAD(wgroup, "stall", "waitgroups over the thread pool") { wl_my_alloc(4);
	fl = sim_gen(16) & ~Q_NEST; if (sim_gen(4) == 0) fl |= Q_NEST; budget = 200; drive((main_cb)group_main);
}
