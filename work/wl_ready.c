/* P01, P02: readiness delivery, deregistration and isolation of registrations. */
#include "wl.h"
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>

enum { K_PR, K_PW, K_SK, K_EV };
#define MAXS 24
#define MAXREG 4000
struct reg { int slot, active, mask, loop, fd, touched, called, misses, pre; };
static struct reg regs[MAXREG]; static int nreg;
static struct slot { int fd, peer, kind, busy, peer_open; int reg; } slots[MAXS];
static int ns, iter, nloops; static events_t *loops[2]; static int active[2], cur_loop = -1; static int base[2], stop_helper, allow_err = 1;

static int lib_bits(uint32_t p, int mask) {
	int b = ((p & EPOLLIN) ? EVENTS_READ : 0) | ((p & EPOLLOUT) ? EVENTS_WRITE : 0);
	b &= mask;
	if (p & (EPOLLHUP | EPOLLERR)) b |= mask;
	return b;
}
static void nb(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); }
static int open_slot(int i) {
	struct slot *s = &slots[i]; int p[2];
	s->busy = 1; s->reg = -1; s->kind = sim_gen(4);
	switch (s->kind) {
	case K_PR: case K_PW: if (pipe(p)) return -1; if (s->kind == K_PR) { s->fd = p[0]; s->peer = p[1]; } else { s->fd = p[1]; s->peer = p[0]; } break;
	case K_SK: if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) return -1; s->fd = p[0]; s->peer = p[1]; break;
	default: s->fd = eventfd(0, EFD_NONBLOCK); s->peer = s->fd; if (s->fd < 0) return -1; break;
	}
	nb(s->fd); if (s->peer != s->fd) nb(s->peer);
	s->peer_open = 1; s->busy = 0;
	return 0;
}
static void touch(int slot) { int r = slots[slot].reg; if (r >= 0) regs[r].touched = iter; }
static void ready_cb(int fd, int ev, void *arg);
static void do_add(int i, int l) {
	struct slot *s = &slots[i]; struct reg *r; int mask, rc;
	if (s->reg >= 0 || nreg >= MAXREG) return;
	mask = sim_gen(8) ? 1 + sim_gen(3) : 0;
	r = &regs[nreg]; r->slot = i; r->mask = mask; r->loop = l; r->fd = s->fd; r->touched = iter; r->active = 1; r->called = -1;
	s->reg = nreg++;
	rc = events_add(loops[l], s->fd, mask, 0, ready_cb, r);
	SIM_CHECK(rc == 0, "add-failed", "events_add of fd %d failed", s->fd);
	active[l]++;
}
static void do_del(int i) {
	struct slot *s = &slots[i]; struct reg *r; int rc;
	if (s->reg < 0) return;
	r = &regs[s->reg]; r->active = 0; s->reg = -1;
	rc = events_del(s->fd);
	SIM_CHECK(rc == 0, "del-failed", "events_del of registered fd %d returned %d", s->fd, rc);
	active[r->loop]--;
}
static void do_mask(int i) {
	struct slot *s = &slots[i]; struct reg *r; int m;
	if (s->reg < 0) return;
	r = &regs[s->reg]; m = sim_gen(4);
	if (m == 0 && r->mask == 0) return;
	r->touched = iter; r->mask = m;
	SIM_CHECK(events_set_event(s->fd, m) == 0, "set-event", "events_set_event failed");
}
static void consume(int i, int fd, int ev) {
	struct slot *s = &slots[i]; char b[512]; int n = 1 + sim_gen(sizeof b);
	touch(i);
	if (ev & EVENTS_READ) { if (s->kind == K_EV) n = 8; n = read(fd, b, n); if (n == 0 && sim_gen(2)) do_del(i); }
	if ((ev & EVENTS_WRITE) && s->kind != K_PR) { if (s->kind == K_EV) { uint64_t one = 1; n = write(fd, &one, 8); } else { memset(b, 7, sizeof b); n = write(fd, b, 1 + sim_gen(sizeof b)); if (n < 0 && errno != EAGAIN) do_del(i); } }
}
static void reuse(int i) {
	struct slot *s = &slots[i];
	do_del(i);
	s->busy = 1;
	{ int f = s->fd, p = s->peer; int po = s->peer_open && p != f; close(f); if (po) close(p); }
	SIM_CHECK(open_slot(i) == 0, "harness", "open");
}
static void query(int i) {
	struct slot *s = &slots[i]; struct reg *r = s->reg >= 0 ? &regs[s->reg] : NULL; int l; void *a = NULL;
	for (l = 0; l < nloops; l++)
		SIM_CHECK(!!events_is_registered(loops[l], s->fd) == (r && r->loop == l), "query", "events_is_registered(loop %d, fd %d) is %d, expected %d", l, s->fd, events_is_registered(loops[l], s->fd), r && r->loop == l);
	SIM_CHECK(!!events_is_registered(NULL, s->fd) == !!r, "query", "events_is_registered(any) wrong for fd %d", s->fd);
	if (r) {
		SIM_CHECK(events_get_event(loops[r->loop], s->fd) == r->mask, "query", "events_get_event(fd %d) is %d, expected %d", s->fd, events_get_event(loops[r->loop], s->fd), r->mask);
		SIM_CHECK(events_get_callback(loops[r->loop], s->fd, &a) == ready_cb && a == r, "query", "events_get_callback of fd %d does not match the registration", s->fd);
		SIM_CHECK(events_loop(s->fd) == loops[r->loop], "query", "events_loop(fd %d) is wrong", s->fd);
	} else {
		SIM_CHECK(events_del(s->fd) == -1, "query", "events_del of unregistered fd %d succeeded", s->fd);
	}
}
static void random_op(int incb, int self) {
	int i = sim_gen(ns);
	switch (sim_gen(10)) {
	case 0: case 1: do_add(i, sim_gen(nloops)); break;
	case 2: case 3: do_mask(i); break;
	case 4: do_del(i); break;
	case 5: if (i != self || incb) reuse(i); break;
	case 6: do_del(i); do_add(i, sim_gen(nloops)); break;
	case 7: query(i); break;
	case 8: SIM_CHECK(events_add(loops[0], 100000, EVENTS_READ, 0, ready_cb, NULL) == -1 && events_add(loops[0], -1, EVENTS_READ, 0, ready_cb, NULL) == -1, "range", "out-of-range descriptor accepted"); break;
	default: { /* new argument record for the same registration */
		struct slot *s = &slots[i]; struct reg *r; void *a;
		if (s->reg < 0 || nreg >= MAXREG) break;
		r = &regs[nreg]; *r = regs[s->reg]; regs[s->reg].active = 0; r->touched = iter; s->reg = nreg++; a = r;
		events_set_callback(loops[r->loop], s->fd, ready_cb, &a);
	}
	}
}
static void ready_cb(int fd, int ev, void *arg) {
	struct reg *r = arg; int fresh, k;
	SIM_CHECK(r >= regs && r < regs + nreg, "cb-arg", "callback of fd %d with foreign argument", fd);
	SIM_CHECK(r->active, "after-del", "callback for fd %d events %d after its registration ended", fd, ev);
	SIM_CHECK(r->fd == fd && slots[r->slot].fd == fd, "cb-fd", "callback got fd %d, registered %d", fd, r->fd);
	SIM_CHECK(r->loop == cur_loop, "cb-loop", "callback from a loop the descriptor is not registered with");
	fresh = r->touched != iter;
	r->called = iter; r->misses = 0;
	if (fresh) {
		uint32_t p = sim_fd_poll(fd); int allow = lib_bits(p, r->mask) | ((p & EPOLLHUP) ? EVENTS_CLOSED : 0);
		SIM_CHECK(ev != 0 && (ev & ~allow) == 0, "false-event", "fd %d (kind %d) reported events %d, interest %d, true state %x", fd, slots[r->slot].kind, ev, r->mask, p);
		SIM_CHECK((r->pre & ~ev & 3) == 0 || (ev & EVENTS_CLOSED) == EVENTS_CLOSED, "missing-bits", "fd %d reported events %d but was ready for %d", fd, ev, r->pre);
	}
	r->touched = iter;
	if (sim_gen(4)) consume(r->slot, fd, ev);
	for (k = sim_gen(3); k > 0; k--) random_op(1, r->slot);
}
static void helper(void *a) {
	char b[2048]; int k;
	(void)a; memset(b, 1, sizeof b);
	while (!stop_helper) {
		sim_nap(1000ull << sim_choose(ST_ENV, 21));
		for (k = 1 + sim_choose(ST_ENV, 4); k > 0; k--) {
			struct slot *s = &slots[sim_choose(ST_ENV, ns)]; int n = 1 + sim_choose(ST_ENV, sizeof b);
			if (s->busy || !s->peer_open) continue;
			if (s->kind == K_EV) { uint64_t one = 1; write(s->peer, &one, 8); continue; }
			switch (sim_choose(ST_ENV, 12)) {
			case 0: if (sim_choose(ST_ENV, 4) == 0) { s->peer_open = 0; close(s->peer); } break;
			case 1: if (s->kind == K_SK) shutdown(s->peer, SHUT_WR); break;
			case 2: case 3: case 4: case 5: if (s->kind != K_PR) read(s->peer, b, n); break;
			case 6: if (s->kind != K_PR) while (read(s->peer, b, sizeof b) > 0) ; break;
			default: if (s->kind != K_PW) write(s->peer, b, n);
			}
		}
	}
}
static void one_iteration(int l, int wait) {
	int i, r; uint64_t f0 = sim_fault_count(F_EINTR);
	sim_nopreempt(1);
	iter++; cur_loop = l;
	for (i = 0; i < ns; i++) if (slots[i].reg >= 0) { struct reg *g = &regs[slots[i].reg]; g->pre = g->loop == l ? lib_bits(sim_fd_poll(g->fd), g->mask) : 0; }
	sim_nopreempt(0);
	r = events_once(loops[l], wait);
	cur_loop = -1;
	SIM_CHECK(r >= 0 || sim_fault_count(F_EINTR) > f0, "once-failed", "events_once returned %d", r);
	if (r < 0) return;
	SIM_CHECK(r == active[l] + base[l], "active-count", "events_once reports %d active events, %d registered", r, active[l] + base[l]);
	for (i = 0; i < ns; i++) if (slots[i].reg >= 0) {
		struct reg *g = &regs[slots[i].reg];
		if (g->loop != l || g->touched == iter) continue;
		if (g->pre && g->called != iter) {
			if (++g->misses > 3) sim_violation("not-reported", "fd %d (kind %d) has been ready for %d with interest %d for %d polls without a callback", g->fd, slots[i].kind, g->pre, g->mask, g->misses);
		} else g->misses = 0;
	}
}
static void run_ready(int maxiter) {
	signal(SIGPIPE, SIG_IGN);
	int i, k;
	events_init(wl_fds(64 + sim_gen(200)));
	nloops = 1 + sim_gen(2);
	for (i = 0; i < nloops; i++) { loops[i] = events_create(1 + sim_gen(200)); SIM_CHECK(loops[i], "create", "events_create failed"); }
	for (i = 0; i < nloops; i++) { base[i] = 0; }
	ns = 1 + sim_gen(MAXS);
	for (i = 0; i < ns; i++) if (open_slot(i)) sim_harness_error("open slot");
	sim_spawn_helper("peer", helper, NULL);
	for (i = 0; i < ns; i++) if (sim_gen(3)) do_add(i, sim_gen(nloops));
	for (k = 0; k < maxiter; k++) {
		int l = sim_gen(nloops);
		for (i = sim_gen(3); i > 0; i--) random_op(0, -1);
		one_iteration(l, sim_gen(3) ? 0 : 1 + sim_gen(2));
	}
	/* every registration removed: the loop has nothing left */
	for (i = 0; i < ns; i++) do_del(i);
	for (i = 0; i < nloops; i++) { int r; cur_loop = i; iter++; do r = events_once(loops[i], 0); while (r < 0 && sim_fault_count(F_EINTR)); SIM_CHECK(r == base[i], "active-count", "all descriptors deregistered but %d events active", r); SIM_CHECK(!events_is_running(loops[i]) , "still-running", "loop still runs with nothing registered"); }
	if (nloops > 1 && sim_gen(2)) {
		/* a destroyed loop's leftovers neither call back nor disturb the other */
		int l = 1;
		for (i = 0; i < ns; i++) if (sim_gen(2)) do_add(i, sim_gen(2));
		for (i = 0; i < ns; i++) if (slots[i].reg >= 0 && regs[slots[i].reg].loop == 1 && sim_gen(2)) do_del(i);
		for (i = 0; i < ns; i++) if (slots[i].reg >= 0 && regs[slots[i].reg].loop == 1) do_del(i);
		events_destroy(loops[l]); nloops = 1;
		sim_probe(1);
	}
	stop_helper = 1;
	events_destroy(loops[0]);
	sim_done();
}
SIM_WORKLOAD(ready, "eintr stall", "readiness callbacks, mask changes, deregistration and number reuse over many descriptors") { run_ready(5 + sim_gen(60)); }
