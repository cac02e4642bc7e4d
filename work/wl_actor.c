/* P04: actor timers. */
#include "wl.h"
#define S 1000000000ull
#define MS 1000000ull
#define MAXA 400
enum { PENDING = 1, RUNNING, ENDED };
static struct a { actor_t *h; int state, id, again, runs; uint64_t lo, hi; int ms; } as[MAXA];
static events_t *loop; static int na, pending, ran, limit; static uint64_t once_start;
static void acb(actor_t *h, void *arg);
static int pick_ms(void) { switch (sim_gen(6)) { case 0: return 0; case 1: return 1 + sim_gen(5); case 2: return sim_gen(100); case 3: return sim_gen(3000); case 4: return 2000 + sim_gen(400); default: return sim_gen(100000); } }
static void create(void) {
	struct a *a; int ms = pick_ms();
	if (na >= limit) return;
	a = &as[na]; a->id = na; na++; pending++;
	a->ms = ms; a->state = PENDING;
	a->lo = sim_now() + ms * MS; a->hi = ~0ull;
	a->h = events_actor(loop, ms, acb, a);
	SIM_CHECK(a->h, "create", "events_actor failed");
	a->hi = sim_now() + ms * MS;
}
static void again(struct a *a) {
	int ms = pick_ms();
	if (a->runs > 6 && a->state == RUNNING) return;
	a->ms = ms; a->again = 1; a->lo = sim_now() + ms * MS; a->hi = ~0ull;
	SIM_CHECK(events_repeat_actor(a->h, ms) == a->h, "repeat", "events_repeat_actor returned another timer");
	a->hi = sim_now() + ms * MS;
}
static void clear(struct a *a) {
	if (a->state == PENDING) { a->state = ENDED; pending--; }
	a->again = 0;
	events_clear_actor(a->h);
}
static void outside(void) {
	struct a *a; if (!na) { create(); return; }
	a = &as[sim_gen(na)];
	switch (sim_gen(6)) { case 0: if (a->state == PENDING) again(a); break; case 1: if (a->state == PENDING) clear(a); break; default: create(); }
}
static void acb(actor_t *h, void *arg) {
	struct a *a = arg; uint64_t now = sim_now(); int i, k;
	SIM_CHECK(a >= as && a < as + na, "cb-arg", "timer callback with a foreign argument");
	SIM_CHECK(a->h == h, "cb-arg", "timer %d got another timer's handle", a->id);
	SIM_CHECK(a->state == PENDING, "not-pending", "timer %d ran %s", a->id, a->state == ENDED ? "after it had ended" : "inside itself");
	SIM_CHECK(now >= a->lo - 2000, "early", "timer %d of %d ms ran %.6f s early", a->id, a->ms, (a->lo - now) / 1e9);
	SIM_CHECK(events_actor_loop(h) == loop, "loop", "events_actor_loop is wrong");
	for (i = 0; i < na; i++) SIM_CHECK(as[i].state != PENDING || as[i].hi == ~0ull || as[i].hi + 2000 >= a->lo, "order", "timer %d due %.6f ran before timer %d due %.6f", a->id, a->lo / 1e9, i, as[i].hi / 1e9);
	a->state = RUNNING; a->runs++; a->again = 0; ran++;
	for (k = sim_gen(4); k > 0; k--) switch (sim_gen(5)) {
		case 0: case 1: again(a); break;
		case 2: if (a->again || a->runs > 1) clear(a); break;
		default: outside();
	}
	if (a->again) a->state = PENDING; else { a->state = ENDED; pending--; }
}
SIM_WORKLOAD(actor, "eintr stall clock_jump", "creation, repetition and clearing of timers") {
	int i, k, iters = 5 + sim_gen(100);
	events_init(64);
	loop = events_create(1 + sim_gen(200));
	limit = 1 + sim_gen(60);
	for (i = sim_gen(12); i >= 0; i--) create();
	for (k = 0; k < 4000; k++) {
		int r, wait = sim_gen(4) ? 0 : 1, due = 0, ran0; uint64_t f0 = sim_fault_count(F_EINTR), s0, min = ~0ull;
		if (k < iters) { for (i = sim_gen(2); i > 0; i--) outside(); }
		else if (!pending) break;
		if (sim_fault(F_CLOCKJUMP)) sim_rt_jump(((int64_t)sim_gen(100000) - 50000) * (sim_gen(2) ? 50000000ll : 1000000ll));
		for (i = 0; i < na; i++) if (as[i].state == PENDING && as[i].hi < min) min = as[i].hi;
		if (min != ~0ull && sim_gen(2) && min > sim_now()) sim_advance(sim_gen(3) ? min - sim_now() - sim_gen(2) * 3000 : sim_gen(1000) * MS);
		s0 = once_start = sim_now(); ran0 = ran;
		for (i = 0; i < na; i++) due += as[i].state == PENDING && as[i].hi + 2000 <= s0;
		r = events_once(loop, wait);
		SIM_CHECK(r >= 0 || sim_fault_count(F_EINTR) > f0, "once-failed", "events_once returned %d", r);
		if (r < 0) continue;
		SIM_CHECK(!due || ran > ran0, "late", "%d timers were due before the iteration and none ran", due);
		SIM_CHECK(r == pending, "active-count", "events_once reports %d active, %d timers pending", r, pending);
		SIM_CHECK(!!events_is_running(loop) == (pending > 0), "running", "events_is_running is %d with %d timers pending", events_is_running(loop), pending);
	}
	SIM_CHECK(!pending, "lost", "%d timers never ran", pending);
	SIM_CHECK(!events_is_running(loop), "running", "loop still runs without timers");
	events_destroy(loop);
	sim_done();
}
