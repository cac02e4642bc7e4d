/* Genuine defects that are recorded, not repaired: each workload shows exactly one of them. */
#include "wl.h"
#include <unistd.h>
#undef write
extern long sim_write(int, const void *, size_t);
#define S 1000000000ull
/* P03: a loop that was not polled for longer than the wheel spans clamps a timeout armed by a callback of the next poll */
static events_t *kl; static uint64_t armed; static int fired, pfd[2];
static void kf_cb(fds_t fd, int ev, void *a) {
	if (ev & EVENTS_TIMEOUT) { fired = 1; SIM_CHECK(sim_now() >= armed + 60 * S, "early-timeout", "a timeout of 60 s fired after %.0f s", (sim_now() - armed) / 1e9); return; }
	if (!armed) { char c; sim_nopreempt(0); armed = sim_now(); events_set_timeout(fd, 60); events_set_event(fd, EVENTS_TIMEOUT); }
}
SIM_WORKLOAD(kf_lag, "", "known finding: timeout armed by the first callback after a pause longer than the timeout wheel") {
	int i;
	events_init(128); kl = events_create(1);
	if (pipe(pfd)) sim_harness_error("pipe");
	events_add(kl, pfd[0], EVENTS_READ, 0, kf_cb, NULL);
	events_once(kl, 0);
	sim_advance(100 * S);
	sim_write(pfd[1], "x", 1);
	for (i = 0; i < 200 && !fired; i++) { events_once(kl, 0); sim_advance(S); }
	sim_done();
}
/* P13: a job's result is looked at as if it were a pointer when it is larger than 0x20000000 */
static void *kf_job(param_t a) { return (void *)(intptr_t)(a[0].integer * 1000ll); }
static void *kf_main(param_t a) {
	intptr_t v = (intptr_t)queue_get(queue_work(futures_pool(), kf_job, 1, casting(1000000))).object;
	SIM_CHECK(v == 1000000000ll, "wrong-result", "the job's result is %lld", (long long)v);
	return 0;
}
SIM_WORKLOAD(kf_bigjob, "", "known finding: a job returning an integer above 536870912 crashes its worker") {
	events_start(128, (main_cb)kf_main, 0);
	sim_done();
}
