/* P03: descriptor inactivity timeouts on the timer wheel. */
#include "wl.h"
#define S 1000000000ull
#define MAXD 120
static struct d { int fd, reg, armed, secs, fires, arms; uint64_t ref, at, upto; int ready; } ds[MAXD];
static events_t *loop; static int nd, res, MT, incb, pfd[2]; static uint64_t once_start, last_end, handled; static int nreg;

static void tcb(int fd, int ev, void *arg);
static int pick_secs(void) {
	int lim = MT, s;
	{ int64_t room = 127ll * res - (int64_t)((sim_now() - handled) / S) - 3; if (room < lim) lim = room; } /* see KF-P03 */
	if (lim < 1) return 0;
	switch (sim_gen(4)) { case 0: s = 1; break; case 1: s = 1 + sim_gen(lim < 4 ? lim : 4); break; case 2: s = lim - sim_gen(lim < 3 ? lim : 3); break; default: s = 1 + sim_gen(lim); }
	return s < 1 ? 1 : s;
}
static void model_arm(struct d *d, int secs) {
	d->armed = secs != 0; d->secs = secs; d->ref = once_start; d->at = sim_now(); d->arms++;
	d->upto = d->at + (uint64_t)(secs + 2 * res + 1) * S;
}
static void arm(struct d *d) { int s = pick_secs(); if (!d->reg || !s) return; model_arm(d, s); events_set_timeout(d->fd, s); d->upto += sim_now() - d->at; }
static void cancel(struct d *d) { if (!d->reg) return; d->armed = 0; events_set_timeout(d->fd, 0); }
static void add(struct d *d) {
	int s = sim_gen(5) ? pick_secs() : 0;
	if (d->reg) return;
	model_arm(d, s); d->reg = 1; nreg++;
	SIM_CHECK(events_add(loop, d->fd, sim_gen(2) ? EVENTS_READ : EVENTS_READ | EVENTS_TIMEOUT, s, tcb, d) == 0, "add-failed", "events_add");
	d->upto += sim_now() - d->at;
}
static void del(struct d *d) { if (!d->reg) return; d->reg = 0; d->armed = 0; nreg--; SIM_CHECK(events_del(d->fd) == 0, "del-failed", "events_del"); }
static void op(struct d *d) { switch (sim_gen(8)) { case 0: case 1: case 2: case 3: arm(d); break; case 4: cancel(d); break; case 5: del(d); break; default: add(d); } }
static void tcb(int fd, int ev, void *arg) {
	struct d *d = arg; int k;
	SIM_CHECK(d >= ds && d < ds + nd && d->fd == fd, "cb-arg", "callback for fd %d with another registration's argument", fd);
	SIM_CHECK(d->reg, "after-del", "callback for fd %d events %d after deregistration", fd, ev);
	incb++;
	if (ev == EVENTS_TIMEOUT) {
		uint64_t now = sim_now(); int s = d->secs < 127 * res ? d->secs : 127 * res;
		SIM_CHECK(d->armed, "spurious-timeout", "fd %d: timeout event without an armed timeout (armed %d times, fired %d times)", fd, d->arms, d->fires);
		SIM_CHECK(now >= d->ref + s * S, "early-timeout", "fd %d: timeout of %d s fired after %.3f s (resolution %d s)", fd, d->secs, (now - d->ref) / 1e9, res);
		d->armed = 0; d->fires++;
		if (sim_gen(2)) op(d);
	} else {
		char b[64];
		SIM_CHECK((ev & EVENTS_READ) && d->ready, "false-event", "fd %d: events %d", fd, ev);
		d->ready = 0; read(fd, b, sizeof b);
		if (sim_gen(2)) arm(d);
	}
	for (k = sim_gen(3); k > 0; k--) op(&ds[sim_gen(nd)]);
	incb--;
}
SIM_WORKLOAD(timeout, "eintr stall", "arming, re-arming, cancelling and expiry of descriptor timeouts over simulated minutes") {
	int i, k, iters = 10 + sim_gen(60), quick;
	static const int mts[] = {1, 5, 6, 60, 100, 127, 128, 129, 300, 1000};
	int maxfd = sim_gen(3) ? 64 + 100 + sim_gen(92) : 300 + sim_gen(780), sparse = sim_gen(2);
	events_init(maxfd);
	MT = sim_gen(3) ? mts[sim_gen(10)] : 1 + sim_gen(400);
	res = (MT + 127) / 128;
	handled = once_start = sim_now();
	loop = events_create(MT);
	nd = 1 + sim_gen(sim_gen(2) ? 6 : MAXD);
	{
		static int peers[MAXD]; int shared = 0;
		for (i = 0; i < nd; i++) {
			if (i < 12) { if (pipe(pfd)) sim_harness_error("pipe"); ds[i].fd = pfd[0]; peers[i] = pfd[1]; shared = pfd[0]; }
			else { ds[i].fd = sparse ? fcntl(shared, F_DUPFD, 3 + sim_gen(maxfd - 110)) : dup(shared); peers[i] = -1; }
			fcntl(ds[i].fd, F_SETFL, fcntl(ds[i].fd, F_GETFL) | O_NONBLOCK);
			if (ds[i].fd < 0) sim_harness_error("fd");
		}
		for (i = 0; i < nd; i++) add(&ds[i]);
		last_end = sim_now(); quick = sim_gen(2); /* `handled` stays: the wheel was last brought up to date when the loop was made */
		for (k = 0; k < iters; k++) {
			int r, wait = sim_gen(3) ? 1 + sim_gen(6) : 0; uint64_t f0 = sim_fault_count(F_EINTR), s0;
			for (i = sim_gen(3); i > 0; i--) op(&ds[sim_gen(nd)]);
			i = sim_gen(nd < 11 ? nd : 11);
			if (sim_gen(6) == 0 && ds[i].reg && !ds[i].ready) { ds[i].ready = 1; write(peers[i], "x", 1); }
			if (sim_gen(3) == 0) {
				uint64_t g = sim_gen(quick ? 1500 : 40000) * 1000000ull;
				if (g > (127ull * res - 4) * S / 2) g = (127ull * res - 4) * S / 2;
				sim_advance(g);
			}
			s0 = sim_now(); once_start = s0;
			r = events_once(loop, wait);
			last_end = sim_now();
			SIM_CHECK(r >= 0 || sim_fault_count(F_EINTR) > f0, "once-failed", "events_once returned %d", r);
			SIM_CHECK(last_end - s0 <= (uint64_t)(wait < res ? wait : res) * S + S / 2 + sim_stalled_ns(), "slow-poll", "events_once(%d) took %.3f s with resolution %d", wait, (last_end - s0) / 1e9, res);
			if (r < 0) continue;
			handled = s0;
			SIM_CHECK(r == nreg, "active-count", "events_once reports %d, %d registered", r, nreg);
			for (i = 0; i < nd; i++) SIM_CHECK(!ds[i].armed || ds[i].upto > s0, "lost-timeout", "fd %d: timeout of %d s armed %.3f s ago has not fired (resolution %d s)", ds[i].fd, ds[i].secs, (sim_now() - ds[i].at) / 1e9, res);
		}
		/* everything still armed must fire once time passes */
		incb = 1; /* no lag */
		for (k = 0; k < 1200; k++) {
			int left = 0, r; uint64_t s0;
			for (i = 0; i < nd; i++) left += ds[i].armed && !(sim_gen(40) == 0 && (cancel(&ds[i]), 1));
			if (!left) break;
			sim_advance((uint64_t)(1 + sim_gen(3 * res)) * S / 2);
			s0 = sim_now(); once_start = s0;
			r = events_once(loop, 0); last_end = sim_now(); if (r >= 0) handled = s0;
			if (r >= 0) for (i = 0; i < nd; i++) SIM_CHECK(!ds[i].armed || ds[i].upto > s0, "lost-timeout", "fd %d: timeout of %d s armed %.3f s ago has not fired (resolution %d s)", ds[i].fd, ds[i].secs, (sim_now() - ds[i].at) / 1e9, res);
		}
	}
	events_destroy(loop);
	sim_done();
}
