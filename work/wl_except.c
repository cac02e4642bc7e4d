/* Random programs of try, catch, finally, throw, rethrow, guard and defer, run by several tasks and threads at
 * once, compared step by step with a reference interpreter. */
#include "wl.h"
#include <signal.h>
EX_EXCEPTION(wl_a);
EX_EXCEPTION(wl_a2);
#define MS 1000000ull
enum { X_NONE, X_A, X_B, X_OOM, X_PANIC, X_SEGV, X_FPE, X_TERM, X_HUP, X_LOGIC, NX };
static const char *const NAME[NX] = { "", "wl_a", "wl_a2", "out_of_memory", "_panic", "sig_segv", "sig_fpe", "sig_term", "sig_hup", "logic_error" };
enum { N_ACT, N_THROW, N_YIELD, N_TRY, N_GUARD, N_CALL, N_DEFER, N_RETHROW, N_FENCE, N_TDEFER };
enum { V_A, V_A_B, V_ANY, V_FIN, V_A_FIN, V_ANY_FIN, V_B_ANY_FIN, V_IF, V_IF_FIN, V_A_IF_ANY_FIN, NV };
struct N { int kind, x, var, nb, body[3], nh, hnd[2], nf, fin[2]; };   /* ids of other nodes */
#define MAXN 240
#define MAXL 1500
enum { L_ACT = 1000, L_CATCH = 2000, L_FIN = 3000, L_DEFER = 4000, L_AFTER = 5000, L_BODY = 6000 };
struct P { struct N n[MAXN]; int nn, want[MAXL], nwant, got, top, x, inguard, task, fin, depth; int dstk[MAXN], nd, tdef, tstk[MAXN], nt, tgot, over, idx; };
static struct P *prog[24], *doomed; static int np; static int features;
enum { F_FAULTS = 1, F_GUARDS = 2, F_SIGS = 4, F_FENCE = 8 };
/* --- generation --- */
static int gen_seq(struct P *p, int *out, int max, int depth, int inh, int ing);
static int gen_node(struct P *p, int depth, int inh, int ing) {
	int k = p->nn++, r; struct N *n = &p->n[k]; memset(n, 0, sizeof *n);
	r = sim_gen(16);
	if (p->nn > MAXN - 80 || depth <= 0) r = sim_gen(4) == 0 ? 1 : sim_gen(2) ? 3 : 0;
	if (r < 1) n->kind = N_ACT;
	else if (r < 3) { n->kind = N_THROW; n->x = sim_gen(3) ? 1 + sim_gen(4) : 1 + sim_gen(NX - 1); if ((n->x == X_SEGV || n->x == X_FPE) && !(features & F_FAULTS)) n->x = X_B; if ((n->x == X_TERM || n->x == X_HUP) && !(features & F_SIGS)) n->x = X_A; }
	else if (r < 5) n->kind = N_YIELD;
	else if (r < 6 && inh) n->kind = N_RETHROW;
	else if (r < 8 && ing) { n->kind = N_DEFER; n->x = sim_gen(4) == 0; if ((features & F_FENCE) && sim_gen(3) == 0) { n->kind = N_FENCE; n->x = 0; } }
	else if (r < 7 && !ing && p->tdef) n->kind = N_TDEFER, n->x = sim_gen(2);
	else if (r < 10) { n->kind = N_CALL; n->nb = gen_seq(p, n->body, 3, depth - 1, 0, ing); }
	else if (r < 12 && (features & F_GUARDS)) { n->kind = N_GUARD; n->nb = gen_seq(p, n->body, 3, depth - 1, 0, 1); }
	else {
		n->kind = N_TRY; n->var = sim_gen(NV);
		n->nb = gen_seq(p, n->body, 3, depth - 1, 0, ing); n->nh = gen_seq(p, n->hnd, 2, depth - 1, 1, ing); n->nf = gen_seq(p, n->fin, 2, depth - 1, 0, ing);
	}
	return k;
}
static int gen_seq(struct P *p, int *out, int max, int depth, int inh, int ing) { int i, n = 1 + sim_gen(max); for (i = 0; i < n; i++) out[i] = gen_node(p, depth, inh, ing); return n; }
/* --- reference --- */
static void ml(struct P *p, int v) { if (p->nwant < MAXL) p->want[p->nwant++] = v; }
static int m_seq(struct P *p, const int *b, int n, int cur);
static int m_node(struct P *p, int k, int cur) {
	struct N *n = &p->n[k]; int x, how = -1, base;
	switch (n->kind) {
		case N_ACT: case N_YIELD: ml(p, L_ACT + k); return 0;
		case N_THROW: return n->x;
		case N_RETHROW: return cur;
		case N_TDEFER: ml(p, L_ACT + k); p->tstk[p->nt++] = k; return 0;
		case N_DEFER: case N_FENCE: p->dstk[p->nd++] = k; return 0;
		case N_CALL: x = m_seq(p, n->body, n->nb, 0); if (!x) ml(p, L_AFTER + k); return x;
		case N_GUARD:
			base = p->nd; x = how = m_seq(p, n->body, n->nb, 0);
			while (p->nd > base) { k = p->dstk[--p->nd]; ml(p, L_DEFER + k); ml(p, how); if (p->n[k].x) x = 0; }
			if (!x) ml(p, L_AFTER + (int)(n - p->n));
			return x;
		default: ;
	}
	ml(p, L_BODY + k);
	x = m_seq(p, n->body, n->nb, 0);
	if (x) {
		switch (n->var) {
			case V_A: case V_A_FIN: if (x == X_A) how = 0; break;
			case V_A_B: if (x == X_A) how = 0; else if (x == X_B) how = 1; break;
			case V_ANY: case V_ANY_FIN: how = 2; break;
			case V_B_ANY_FIN: how = x == X_B ? 1 : 2; break;
			case V_IF: case V_IF_FIN: how = 3; break;
			case V_A_IF_ANY_FIN: how = x == X_A ? 0 : 3; break;
			default: break;
		}
		if (how >= 0) {
			int e = x;
			ml(p, L_CATCH + k); ml(p, how); ml(p, x);
			if (how == 3) { if (e == X_B || e == X_PANIC) x = 0; if (!x) { ml(p, L_ACT + k); x = 0; } }
			else x = m_seq(p, n->hnd, n->nh, e);
		}
	}
	if (n->var == V_FIN || n->var == V_A_FIN || n->var == V_ANY_FIN || n->var == V_B_ANY_FIN || n->var == V_IF_FIN || n->var == V_A_IF_ANY_FIN) {
		int e; ml(p, L_FIN + k); e = m_seq(p, n->fin, n->nf, 0); if (e) x = e;
	}
	if (!x) ml(p, L_AFTER + k);
	return x;
}
static int m_seq(struct P *p, const int *b, int n, int cur) { int i, x; for (i = 0; i < n; i++) if ((x = m_node(p, b[i], cur))) return x; return 0; }
/* --- the real thing --- */
static const char *what(int v) { static char b[4][40]; static int i; char *r = b[i++ & 3]; const char *s = v >= 6000 ? "start of block" : v >= 5000 ? "code after" : v >= 4000 ? "deferred call" : v >= 3000 ? "finally of" : v >= 2000 ? "handler of" : v >= 1000 ? "statement" : "kind"; snprintf(r, 40, "%s %d", s, v % 1000); return r; }
static void rl(struct P *p, int v, const char *cls) {
	sim_nopreempt(1);
	SIM_CHECK(!p->fin, "after-end", "program %d continued after its end", (int)(p - prog[0]));
	SIM_CHECK(p->got < p->nwant, cls, "program went on to %s, after its last step", what(v));
	if (p->want[p->got] != v) { const char *a = what(v), *b = what(p->want[p->got]); sim_violation(cls, "step %d: %s instead of %s", p->got, a, b); }
	p->got++;
	sim_nopreempt(0);
}
static void real_seq(struct P *p, const int *b, int n);
static int xof(const char *s) { int i; if (!s) return -1; for (i = 1; i < NX; i++) if (!strcmp(s, NAME[i])) return i; return !strcmp(s, "boom") ? X_PANIC : -1; }
static int lineof[32];
static void __attribute__((noinline)) do_throw(int x) {
	volatile int zero = 0; volatile int r; int *volatile nul = NULL;
	switch (x) {
		case X_A: lineof[x] = __LINE__; throw(wl_a); break;
		case X_B: lineof[x] = __LINE__; throw(wl_a2); break;
		case X_OOM: lineof[x] = __LINE__; throw(out_of_memory); break;
		case X_LOGIC: lineof[x] = __LINE__; throw(logic_error); break;
		case X_PANIC: lineof[x] = __LINE__; panic("boom"); break;
		case X_SEGV: *nul = 1; break;
		case X_FPE: r = 7 / zero; (void)r; break;
		case X_TERM: raise(SIGTERM); break;
		case X_HUP: raise(SIGHUP); break;
	}
	sim_violation("no-throw", "execution went on after %s", NAME[x]);
}
struct D { struct P *p; int k; };
struct F { uint64_t first; struct D *d; };
static uint64_t decoy[4];
static void deferred_fn(void *a) {
	struct D *d = a; struct P *p = d->p; const char *m; int k = d->k, x; 
	rl(p, L_DEFER + k, "defer-order");
	m = guard_message(); x = m && *m ? xof(m) : 0;
	rl(p, x, "guard-message");
	if (x) SIM_CHECK(!guard_caught("wl_none"), "guard-message", "guard_caught of another message said yes");
	if (p->n[k].x && x) SIM_CHECK(guard_caught(m), "guard-message", "guard_caught of its own message failed");
	free(d);
}
static void fence_fn(void *a) {
	struct F *f = a; struct D *d;
	SIM_CHECK(a != decoy, "fence-freed", "the cleanup of a protected block was given what the block points to");
	d = f->d; rl(d->p, L_DEFER + d->k, "defer-order"); rl(d->p, d->p->want[d->p->got], "defer-order");
	f->d = 0; free(d); free(f);
}
static void tdefer(struct P *p, int k) {
	SIM_CHECK(p->fin, "defer-early", "a deferred call of the task ran before its end");
	SIM_CHECK(p->tgot < p->nt, "defer-twice", "more deferred calls than were registered");
	SIM_CHECK(p->tstk[p->nt - 1 - p->tgot] == k, "defer-order", "deferred call %d instead of %d", k, p->tstk[p->nt - 1 - p->tgot]);
	p->tgot++;
}
static void tdefer_fn(void *a) { struct D *d = a; struct P *p = d->p; tdefer(p, d->k); free(d); }
static void tdefer_val(intptr_t v) { tdefer(prog[v / 1000], v % 1000); }
#define BODY rl(p, L_BODY + k, "flow"); real_seq(p, n->body, n->nb)
#define CAUGHT(h) { rl(p, L_CATCH + k, "wrong-handler"); rl(p, h, "wrong-handler"); rl(p, xof(err.name), "wrong-exception"); SIM_CHECK(!lineof[xof(err.name)] || err.line == lineof[xof(err.name)], "wrong-exception", "line %d instead of %d", err.line, lineof[xof(err.name)]); SIM_CHECK(err.file && (err.function || !strncmp(err.name, "sig_", 4)), "wrong-exception", "no origin");
#define HND(h) CAUGHT(h) for (i = 0; i < n->nh; i++) { if (p->n[n->hnd[i]].kind == N_RETHROW) { rethrow; sim_violation("no-throw", "execution went on after rethrow"); } real_seq(p, &n->hnd[i], 1); } }
#define HIF CAUGHT(3) if (caught(wl_a2) || caught(boom)) rl(p, L_ACT + k, "wrong-handler"); }
#define FIN { rl(p, L_FIN + k, "finally"); real_seq(p, n->fin, n->nf); }
#define PRE struct N *n = &p->n[k]; volatile int i; (void)i
#define FN(name) static void __attribute__((noinline)) name(struct P *volatile p, volatile int k)
FN(t_a) { PRE; try { BODY; } catch(wl_a) { HND(0); } }
FN(t_a_b) { PRE; try { BODY; } catch(wl_a) { HND(0); } catch(wl_a2) { HND(1); } }
FN(t_any) { PRE; try { BODY; } catch_any { HND(2); } }
FN(t_fin) { PRE; try { BODY; } finally FIN }
FN(t_a_fin) { PRE; try { BODY; } catch(wl_a) { HND(0); } finally FIN }
FN(t_any_fin) { PRE; try { BODY; } catch_any { HND(2); } finally FIN }
FN(t_b_any_fin) { PRE; try { BODY; } catch(wl_a2) { HND(1); } catch_any { HND(2); } finally FIN }
FN(t_if) { PRE; try { BODY; } catch_if { HIF; } }
FN(t_if_fin) { PRE; try { BODY; } catch_if { HIF; } finally FIN }
FN(t_a_if_any_fin) { PRE; try { BODY; } catch(wl_a) { HND(0); } catch_if { HIF; } catch_any { HND(2); } finally FIN }
FN(t_guard) { PRE; guard { real_seq(p, n->body, n->nb); } guarded; }
static void (*const TRY[NV])(struct P *volatile, volatile int) = { t_a, t_a_b, t_any, t_fin, t_a_fin, t_any_fin, t_b_any_fin, t_if, t_if_fin, t_a_if_any_fin };
static void pause_(struct P *p) {
	int r = sim_gen(4);
	if (p->task) { if (r) yield(); else delay(sim_gen(3)); } else if (r == 0) sim_nap(1 + sim_gen(2000000)); else sim_yield_point();
}
static void __attribute__((noinline)) real_node(struct P *p, int k) {
	struct N *n = &p->n[k];
	switch (n->kind) {
		case N_ACT: rl(p, L_ACT + k, "flow"); break;
		case N_YIELD: rl(p, L_ACT + k, "flow"); pause_(p); break;
		case N_THROW: do_throw(n->x); break;
		case N_DEFER: { struct D *d = malloc(sizeof *d); d->p = p; d->k = k; SIM_CHECK(defer(deferred_fn, d) > 0, "defer-failed", "defer gave an error"); break; }
		case N_FENCE: { struct F *f = malloc(sizeof *f); f->d = malloc(sizeof *f->d); f->d->p = p; f->d->k = k; f->first = sim_gen(2) ? (uintptr_t)decoy : 0; SIM_CHECK(fence(f, fence_fn) == f, "fence-failed", "fence gave another pointer"); break; }
		case N_TDEFER: rl(p, L_ACT + k, "flow"); if (n->x) { struct D *d = malloc(sizeof *d); d->p = p; d->k = k; SIM_CHECK(defer(tdefer_fn, d) > 0, "defer-failed", "defer gave an error"); } else SIM_CHECK(deferring(tdefer_val, (p->idx * 1000 + k)) > 0, "defer-failed", "deferring gave an error"); break;
		case N_CALL: real_seq(p, n->body, n->nb); rl(p, L_AFTER + k, "flow"); break;
		case N_GUARD: t_guard(p, k); rl(p, L_AFTER + k, "flow"); break;
		case N_TRY: TRY[n->var](p, k); rl(p, L_AFTER + k, "flow"); break;
	}
}
static void real_seq(struct P *p, const int *b, int n) { int i; for (i = 0; i < n; i++) real_node(p, b[i]); }
static void __attribute__((noinline)) top(struct P *volatile p) {
	volatile int x = 0;
	try { real_seq(p, p->n[p->top].body, p->n[p->top].nb); } catch_any { x = xof(err.name); }
	SIM_CHECK(p->got == p->nwant, "stopped-early", "program ended with %s after %d of %d steps", x > 0 ? NAME[x] : "nothing", p->got, p->nwant);
	SIM_CHECK(x == p->x, "wrong-exception", "program ended with %s instead of %s", x > 0 ? NAME[x] : "nothing", p->x ? NAME[p->x] : "nothing");
	p->fin = 1;
}
static struct P *mk(int task, int depth, int tdef) {
	struct P *p = calloc(1, sizeof *p); struct N *n; int r;
	do {
		p->nn = p->nwant = p->nd = p->nt = 0; p->tdef = tdef; p->idx = np;
		r = p->nn++; n = &p->n[r]; n->kind = N_CALL; { int b[3], c = gen_seq(p, b, 3, depth, 0, 0); n->nb = c; memcpy(n->body, b, sizeof b); }
		p->top = r; p->x = m_seq(p, n->body, n->nb, 0);
	} while (p->nwant >= MAXL - 1);
	p->task = task; prog[np++] = p; return p;
}
static void alldef(int i) { struct P *p = prog[i]; SIM_CHECK(p->tgot == p->nt, "defer-lost", "%d of %d deferred calls ran at the end of program %d", p->tgot, p->nt, i); }
static int live;
static void *task_body(param_t a) { top(prog[a[0].integer]); live--; return 0; }
static void *job(param_t a) { struct P *p = prog[a[0].integer]; top(p); return casting(1 + a[0].integer); }
static void *main_main(param_t a) {
	int i, n = 1 + sim_gen(6), rounds = 1 + sim_gen(3), q; promise *ps[8]; int ids[8], nq = 0;
	q = sim_gen(3) == 0 ? 1 + sim_gen(4) : 0;
	while (rounds-- > 0 && np < 16) {
		for (i = 0; i < n && np < 16; i++) { mk(1, 3, features & F_GUARDS); live++; async_ex(Kb(96), (launch_func_t)task_body, 1, casting(np - 1)); }
		for (; q > 0 && np < 20; q--) { mk(0, 4, features & F_GUARDS); ids[nq] = np - 1; ps[nq++] = queue_work(futures_pool(), job, 1, casting(np - 1)); }
		if (sim_gen(2)) { mk(1, 3, 0); top(prog[np - 1]); }
		for (i = 0; i < 20000 && live > 0; i++) { yield(); if (i > 50) delay(1); }
		for (i = 0; i < 20; i++) yield();
		SIM_CHECK(live == 0, "stopped-early", "%d programs did not end", live);
	}
	for (i = 0; i < nq; i++) { values_t v = queue_get(ps[i]); SIM_CHECK(v.integer == 1 + ids[i], "wrong-result", "job of program %d gave %d", ids[i], v.integer); { int w; struct P *p = prog[ids[i]]; for (w = 0; w < 2000 && p->tgot < p->nt; w++) sim_nap(w < 100 ? 100000 : 2000000); } alldef(ids[i]); }
	for (i = 0; i < np; i++) alldef(i);
	for (i = 0; i < np; i++) SIM_CHECK(prog[i]->fin == 1, "stopped-early", "program %d did not end", i);
	sim_done();
	return 0;
}
static void setup_flags(int all) { features = all; if (all & F_FAULTS) sim_expect_fault(1); }
SIM_WORKLOAD(except, "stall", "try, catch, finally, throw and rethrow of tasks and threads that interleave") { wl_my_alloc(4);
	setup_flags((sim_gen(2) ? F_FAULTS : 0) | (sim_gen(2) ? F_SIGS : 0));
	if (sim_gen(4) == 0) { int i; for (i = 0; i < 6; i++) { mk(0, 5, features & F_GUARDS); top(prog[np - 1]); } sim_done(); return; }
	events_start(128, (main_cb)main_main, NULL);
}
SIM_WORKLOAD(guards, "stall", "guard sections and deferred calls of tasks and threads that interleave") { wl_my_alloc(4);
	setup_flags(F_GUARDS | (sim_gen(2) ? F_FENCE : 0) | (sim_gen(3) == 0 ? F_FAULTS : 0) | (sim_gen(3) == 0 ? F_SIGS : 0));
	if (sim_gen(4) == 0) { int i; for (i = 0; i < 6; i++) { mk(0, 5, i == 5); top(prog[np - 1]); } exit_scope(); alldef(np - 1); sim_done(); return; }
	events_start(128, (main_cb)main_main, NULL);
}
/* --- a program whose exception nobody catches --- */
static int ended_by; 
static void __attribute__((no_sanitize_thread)) on_terminate(void) { ended_by++; }
static void __attribute__((no_sanitize_thread)) on_exit_(int code) {
	struct P *p = doomed; const char *t = sim_stderr(), *w = p->x == X_PANIC ? "boom" : NAME[p->x];
	SIM_CHECK(p->got == p->nwant, "stopped-early", "the process ended after %d of %d steps of the program with the uncaught exception", p->got, p->nwant);
	SIM_CHECK(code == EXIT_FAILURE, "exit-code", "uncaught %s ended the process with exit code %d", NAME[p->x], code);
	SIM_CHECK(strstr(t, w), "report", "no report of %s: %.100s", NAME[p->x], t);
	if (p->x < X_SEGV || p->x == X_LOGIC) SIM_CHECK(strstr(strstr(t, w), "do_throw"), "report", "wrong origin: %.100s", t);
	SIM_CHECK(ended_by == 1, "terminate-hook", "the termination function ran %d times", ended_by);
}
static void mk_doomed(int task, int depth, int gd) {
	struct P *p; struct N *n; int r;
	(void)gd;
	p = calloc(1, sizeof *p);
	do {
		p->nn = p->nwant = p->nd = p->nt = 0; p->idx = np; p->tdef = 0;
		r = p->nn++; n = &p->n[r]; n->kind = N_CALL; n->nb = gen_seq(p, n->body, 2, depth, 0, 0);
		if (sim_gen(2)) n->body[n->nb++] = gen_node(p, depth, 0, 0);
		if (n->nb < 3) { struct N *t = &p->n[p->nn]; memset(t, 0, sizeof *t); t->kind = N_THROW; t->x = 1 + sim_gen(4); n->body[n->nb++] = p->nn++; }
		p->top = r; p->x = m_seq(p, n->body, n->nb, 0);
	} while (p->nwant >= MAXL - 1 || !p->x);
	p->task = task; prog[np++] = p; doomed = p;
}
static void run_doomed(struct P *volatile p) {
	real_seq(p, p->n[p->top].body, p->n[p->top].nb);
	sim_violation("survived", "the program went on after its uncaught %s", NAME[p->x]);
}
static void *doomed_body(param_t a) { run_doomed(doomed); return 0; }
static void *doomed_main(param_t a) {
	int i, n = sim_gen(4), where = sim_gen(5);
	mk_doomed(where != 2, 3, 0);
	/* a thread without a scope of its own unwinds that of the main thread when it ends the process */
	if (where == 2 || where == 4) features &= ~F_GUARDS;
	for (i = 0; i < n; i++) { mk(1, 3, 0); live++; async_ex(Kb(96), (launch_func_t)task_body, 1, casting(np - 1)); }
	if (sim_gen(2)) for (i = sim_gen(6); i > 0; i--) yield();
	switch (where) {
		case 0: run_doomed(doomed); break;
		case 1: async_ex(Kb(96), (launch_func_t)doomed_body, 0); break;
		case 2: queue_work(futures_pool(), doomed_body, 0); break;
		case 3: launch((launch_func_t)doomed_body, 0); break;
		case 4: go((param_func_t)doomed_body, 0); break;
	}
	for (i = 0; i < 3000; i++) { if (i < 100) yield(); else delay(1); }
	sim_violation("survived", "the process still runs after an uncaught %s", NAME[doomed->x]);
	return 0;
}
static void __attribute__((noinline)) arm(void) { try { sim_yield_point(); } catch_any { } }
SIM_WORKLOAD(uncaught, "stall", "an exception that nobody catches, at the bottom of nested blocks in a task, a pool job or a plain thread") {
	setup_flags((sim_gen(2) ? F_FAULTS : 0) | (sim_gen(2) ? F_SIGS : 0) | (sim_gen(2) ? F_GUARDS : 0));
	if (features & (F_FAULTS | F_SIGS) || sim_gen(2)) arm();
	exception_terminate_func = on_terminate;
	sim_on_exit(on_exit_);
	if (sim_gen(3) == 0) { mk_doomed(0, 5, 0); run_doomed(doomed); return; }
	events_start(128, (main_cb)doomed_main, NULL);
}
