/* Signals through the loop, next to descriptors that have the same numbers. */
#include "wl.h"
#include <unistd.h>
#undef write
#undef read
extern long sim_write(int, const void *, size_t); extern long sim_read(int, void *, size_t);
#define MS 1000000ull
static const int SIGS[] = { SIGHUP, SIGUSR1, SIGUSR2, SIGALRM, SIGURG, SIGWINCH, 34, 40, SIGCHLD, SIGTERM };
#define NS ((int)(sizeof SIGS / sizeof *SIGS))
static struct G { int sig, reg, armed, oneshot, gen, calls, base, raised, budget; events_t *loop; unsigned h0; } G[NS];
static struct A { int i, gen, dead; } args[400]; static int na;
static struct D { int r, w, reg; long sent, got; int calls; } D[16]; static int nd;
static events_t *lp[2]; static int incb[32], env_done, nraise, fdcb;
static void sig_cb_(fds_t sig, int ev, void *arg) {
	struct A *a = arg; struct G *g; int s = socket2fd(sig), one;
	sim_nopreempt(1);
	SIM_CHECK(a >= args && a < args + na && (char *)a == (char *)(args + (a - args)), "wrong-arg", "callback of signal %d got argument %p", s, arg);
	g = &G[a->i];
	SIM_CHECK(s == g->sig, "wrong-signal", "the callback of signal %d was called for %d", g->sig, s);
	SIM_CHECK(ev == EVENTS_SIGNAL, "wrong-event", "event is %d", ev);
	SIM_CHECK(g->reg && !a->dead, "after-del", "callback of deregistered signal %d", s);
	SIM_CHECK(a->gen == g->gen, "wrong-arg", "callback of signal %d got the argument of registration %d instead of %d", s, a->gen, g->gen);
	g->calls++; one = g->oneshot;
	SIM_CHECK((unsigned)(g->calls) <= sim_sig_handled(s) - g->h0, "too-often", "callback %d of signal %d, which arrived %u times", g->calls, s, sim_sig_handled(s) - g->h0);
	sim_note("callback of signal %d", s);
	sim_nopreempt(0);
	if (sim_gen(3) == 0) sim_advance(sim_gen(3000000));
	if (sim_gen(3) == 0) sim_yield_point();
	if (one) { int r; a->dead = 1; r = events_del(sig); SIM_CHECK(r == 0, "del-failed", "events_del of signal %d in its callback gave %d", s, r); g->reg = 0; }
}
static void fd_cb(fds_t fd, int ev, void *arg) {
	struct D *d = arg; char b[64]; long n;
	SIM_CHECK(d >= D && d < D + nd && d->reg && socket2fd(fd) == d->r && (ev & EVENTS_READ), "wrong-callback", "callback for descriptor %d", socket2fd(fd));
	n = sim_read(d->r, b, 1 + sim_gen(20)); if (n > 0) d->got += n; d->calls++; fdcb++;
	if (sim_gen(4) == 0) sim_advance(sim_gen(1000000));
}
static void reg(int i) {
	struct A *a = &args[na++]; struct G *g = &G[i]; int r;
	a->i = i; a->gen = ++g->gen; if (!g->reg) { g->calls = 0; g->h0 = sim_sig_handled(g->sig); }
	g->reg = 1; g->oneshot = sim_gen(4) == 0; g->loop = lp[sim_gen(2) && lp[1] ? 1 : 0];
	r = events_add(g->loop, g->sig, EVENTS_SIGNAL, 0, sig_cb_, a);
	SIM_CHECK(r == 0, "add-failed", "events_add of signal %d gave %d", g->sig, r); g->armed = !g->oneshot;
}
static void drain(struct G *g) { int k; for (k = 0; k < 3000 && (sim_signals_pending() || (g->reg && (unsigned)g->calls != sim_sig_handled(g->sig) - g->h0)); k++) { if (k & 1) sim_nap(k < 400 ? 100000 : 3000000); else sim_yield_point(); } }
static void check(struct G *g) { SIM_CHECK((unsigned)g->calls == sim_sig_handled(g->sig) - g->h0, "lost-signal", "signal %d arrived %u times, its callback ran %d times", g->sig, sim_sig_handled(g->sig) - g->h0, g->calls); }
static void unreg(int i) {
	struct G *g = &G[i]; int r, k;
	g->armed = 0; signal(g->sig, SIG_IGN); /* the default action would end the program: nothing is under way from here on */
	drain(g); check(g);
	for (k = 0; k < nd; k++) if (D[k].reg && D[k].r == g->sig) { D[k].reg = 0; r = events_del(D[k].r); SIM_CHECK(r == 0, "del-failed", "events_del of descriptor %d gave %d", D[k].r, r); } /* events_del means the descriptor of a number that is both */
	void (*was)(int); g->reg = 0; r = events_del(g->sig); was = signal(g->sig, SIG_IGN); if (!r) SIM_CHECK(was == SIG_DFL, "still-handled", "signal %d keeps its handler after events_del", g->sig);
	SIM_CHECK(r == 0, "del-failed", "events_del of signal %d gave %d", g->sig, r);
}
static void env(void *x) {
	int n = nraise, i;
	while (n-- > 0) {
		sim_nap(sim_choose(ST_ENV, 4) ? sim_choose(ST_ENV, 3000000) : sim_choose(ST_ENV, 2000));
		i = sim_choose(ST_ENV, NS);
		if (G[i].armed) { sim_kill_main(G[i].sig); if (sim_choose(ST_ENV, 3) == 0) { i = sim_choose(ST_ENV, NS); if (G[i].armed) sim_kill_main(G[i].sig); } }
	}
	env_done = 1;
}
static void pump(events_t *l) {
	int r = events_once(l, sim_gen(3) ? 0 : 1);
	(void)r;
}
static void settle(void) {
	int i, k;
	(void)k; pump(lp[0]);
	for (i = 0; i < NS; i++) if (G[i].reg && !G[i].oneshot) { drain(&G[i]); check(&G[i]); }
}
static void *job(param_t a) { volatile int i; for (i = 0; i < 50; i++) sim_yield_point(); return 0; }
SIM_WORKLOAD(signals, "stall", "signals with descriptors of the same numbers, several arriving at once, on any thread") {
	int i, k, n, steps = 20 + sim_gen(150), use;
	for (i = 0; i < NS; i++) G[i].sig = SIGS[i];
	events_init(wl_fds(128)); lp[0] = events_create(1 + sim_gen(4)); if (sim_gen(3) == 0) lp[1] = events_create(2);
	for (n = sim_gen(16); nd < n; ) { int p[2]; if (pipe(p)) break; D[nd].r = p[0]; D[nd].w = p[1]; nd++; }
	use = 1 + sim_gen(NS);
	for (i = 0; i < use; i++) if (sim_gen(2)) reg(i);
	for (i = 0; i < nd; i++) if (sim_gen(2)) { D[i].reg = 1; SIM_CHECK(events_add(lp[0], D[i].r, EVENTS_READ, 0, fd_cb, &D[i]) == 0, "add-failed", "descriptor %d", D[i].r); }
	nraise = 5 + sim_gen(60); k = sim_spawn_helper("raiser", env, NULL);
	while (steps-- > 0) {
		switch (sim_gen(12)) {
			case 0: i = sim_gen(use); if (!G[i].reg && na < 380) reg(i); break;
			case 1: i = sim_gen(use); if (G[i].reg && !G[i].oneshot && sim_gen(4) == 0) unreg(i); break;
			case 2: i = sim_gen(use); if (G[i].reg && G[i].oneshot) { sim_kill_main(G[i].sig); for (n = 0; n < 3000 && G[i].reg; n++) { if (n & 1) sim_nap(n < 400 ? 100000 : 3000000); else sim_yield_point(); } SIM_CHECK(!G[i].reg, "lost-signal", "signal %d was raised, its callback did not run", G[i].sig); signal(G[i].sig, SIG_IGN); } break;
			case 3: case 4: if (nd) { struct D *d = &D[sim_gen(nd)]; if (sim_write(d->w, "abcdefgh", 1 + sim_gen(8)) > 0) d->sent = 1; } break;
			case 5: if (nd) { struct D *d = &D[sim_gen(nd)]; for (i = n = 0; i < NS; i++) n |= G[i].reg && G[i].sig == d->r; if (n) break; if (d->reg) { int r; d->reg = 0; r = events_del(d->r); SIM_CHECK(r == 0, "del-failed", "events_del of descriptor %d gave %d", d->r, r); } else { int r; d->reg = 1; r = events_add(lp[0], d->r, EVENTS_READ, 0, fd_cb, d); SIM_CHECK(r == 0, "add-failed", "descriptor %d: %d", d->r, r); } } break;
			case 6: i = sim_gen(use); if (G[i].reg && !G[i].oneshot && na < 380 && sim_gen(4) == 0) { /* same signal again: replaces */ if (env_done) { settle(); reg(i); G[i].armed = 1; G[i].oneshot = 0; } } break;
			case 7: if (sim_gen(2)) sim_advance(sim_gen(2000000)); break;
			case 8: i = sim_gen(use); if (G[i].reg && !G[i].oneshot) sim_kill_main(G[i].sig); break;
			default: pump(lp[lp[1] && sim_gen(3) == 0 ? 1 : 0]); break;
		}
		/* nothing but the model below keeps a loop running */
		for (n = 0; n < 2; n++) if (lp[n]) {
			int want; if (!env_done && n == 0) continue;
			for (want = i = 0; i < use; i++) want |= G[i].reg && !G[i].oneshot && G[i].loop == lp[n];
			if (want) SIM_CHECK(events_is_running(lp[n]), "loop-ended", "the loop has a registered signal and is reported as not running");
		}
	}
	while (!sim_actor_done(k)) { sim_nap(500000); pump(lp[0]); }
	settle();
	for (i = 0; i < use; i++) if (G[i].reg && !G[i].oneshot) { sim_kill_main(G[i].sig); sim_kill_main(G[i].sig); }
	settle();
	for (i = 0; i < use; i++) if (G[i].reg && !G[i].oneshot) unreg(i); else if (G[i].reg) { sim_kill_main(G[i].sig); for (n = 0; n < 3000 && G[i].reg; n++) { if (n & 1) sim_nap(n < 400 ? 100000 : 3000000); else sim_yield_point(); } SIM_CHECK(!G[i].reg, "lost-signal", "signal %d was raised, its callback did not run", G[i].sig); signal(G[i].sig, SIG_IGN); }
	for (i = 0; i < nd; i++) if (D[i].reg) { n = D[i].calls; if (sim_write(D[i].w, "z", 1) == 1) { for (k = 0; k < 50 && D[i].calls == n; k++) events_once(lp[0], 0); SIM_CHECK(D[i].calls > n, "lost-event", "descriptor %d is readable and its callback did not run", D[i].r); } }
	for (i = 0; i < nd; i++) if (D[i].reg) { D[i].reg = 0; n = events_del(D[i].r); SIM_CHECK(n == 0, "del-failed", "events_del of descriptor %d gave %d", D[i].r, n); }
	for (n = 0; n < 2; n++) if (lp[n]) SIM_CHECK(!events_is_running(lp[n]), "still-running", "a loop with nothing registered is reported as running");
	sim_done();
}
