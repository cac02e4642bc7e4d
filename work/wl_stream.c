/* P17: async_read, async_read2, async_write and async_wait on pipes and stream sockets. */
#include "wl.h"
#include <sys/epoll.h>
#include <sys/socket.h>
#include <signal.h>
#define MS 1000000ull
#define MAXC 12
enum { R_TASK, R_POOL, R_HELPER };
static struct chan {
	int id, sock, echo, wfd, rfd, wrole, rrole;
	uint32_t total, sent, got, rx2, tx2; /* sent: offered to write, got: read */
	uint32_t acc;                         /* accepted by completed writes */
	int dup, mate, wclosed, rclosed, was_reset, wdone, rdone, writing, inwrite; uint32_t wmax, rmax, early, pause, resetat;
} C[MAXC];
static struct op { int fd, rw, busy; uint64_t ready_since, stall0; } ops[2 * MAXC];
static int nc, live, main_done, helpers; static uint64_t tick; static uint64_t tick_stall;
#define PLAIN __attribute__((no_sanitize_thread))
PLAIN static uint8_t at(int c, int dir, uint32_t pos) { uint32_t x = pos * 2654435761u + c * 40503u + dir * 977u; return x >> 13 ^ x >> 24; }
static void pause_some(struct chan *c, int role) {
	if (!c->pause || sim_gen(c->pause) || sim_steps() > 3000000) return;
	if (role == R_HELPER) { sim_nap((1 + sim_gen(sim_gen(8) ? 3000 : 600000)) * 1000ull); return; }
	switch (sim_gen(3)) { case 0: yield(); break; case 1: delay(sim_gen(4)); break; default: delay(sim_gen(30)); }
}
static int may_fail(struct chan *c) { return c->was_reset || sim_fault_count(F_RESET) > 0; }
static uint32_t size(uint32_t max) { switch (sim_gen(4)) { case 0: return 1 + sim_gen(8); case 1: return max; default: return 1 + sim_gen(max); } }
/* one read of up to n bytes into b, by any role */
static int rd(struct chan *c, int o, int role, int fd, uint8_t *b, int n) {
	int m;
	if (role == R_HELPER) {
		for (;;) { m = read(fd, b, n); if (m >= 0 || errno != EAGAIN) return m; sim_nap(200000); }
	}
	ops[o].fd = fd; ops[o].rw = EPOLLIN | EPOLLHUP | EPOLLERR; ops[o].ready_since = 0; ops[o].busy = 1;
	switch (sim_gen(4)) {
	case 0: m = async_read2(fd, b, n); break;
	case 1: async_wait(fd, 'r'); m = async_read(fd, b, n); break;
	default: m = async_read(fd, b, n);
	}
	ops[o].busy = 0;
	return m;
}
static int wr(struct chan *c, int o, int role, int fd, uint8_t *b, int n) {
	int m, t = 0;
	if (role == R_HELPER) {
		while (t < n) { m = write(fd, b + t, n - t); if (m > 0) t += m; else if (errno != EAGAIN) return -1; else sim_nap(200000); }
		return t;
	}
	ops[o].fd = fd; ops[o].rw = EPOLLOUT | EPOLLHUP | EPOLLERR; ops[o].ready_since = 0; ops[o].busy = 1;
	if (sim_gen(6) == 0) async_wait(fd, 'w');
	m = async_write(fd, b, n);
	ops[o].busy = 0;
	return m;
}
PLAIN static void check_bytes(struct chan *c, int dir, uint32_t pos, uint8_t *b, int m, int n) {
	for (int i = 0; i < m; i++) SIM_CHECK(b[i] == at(c->id, dir, pos + i), "stream-bytes", "channel %d (%s): byte %u read is %02x, %02x was written", c->id, c->sock ? "socket" : "pipe", pos + i, b[i], at(c->id, dir, pos + i));
	for (int i = m < 0 ? 0 : m; i < n + 8; i++) SIM_CHECK(b[i] == 0xEE, "read-overrun", "a read that returned %d of at most %d changed byte %d of the buffer", m, n, i);
}
static int do_read(struct chan *c, int o, int role, int fd, int dir, uint32_t *pos, uint32_t *sent, uint32_t max, int *peer_closed) {
	uint8_t *b = malloc(max + 16); int n = size(max), m, e; memset(b, 0xEE, max + 16);
	errno = 0; m = rd(c, o, role, fd, b, n); e = errno;
	SIM_CHECK(m <= n, "read-count", "a read of %d returned %d", n, m);
	check_bytes(c, dir, *pos, b, m, n);
	if (m > 0) { *pos += m; SIM_CHECK(*pos <= *sent, "stream-bytes", "channel %d: %u bytes read of %u written", c->id, *pos, *sent); }
	if (m == 0) {
		SIM_CHECK(*peer_closed || may_fail(c), "false-eof", "channel %d: end of stream at byte %u while the writer is open", c->id, *pos);
		SIM_CHECK(*pos >= c->acc || dir || may_fail(c), "lost-bytes", "channel %d: end of stream after %u bytes of %u written", c->id, *pos, c->acc);
	}
	if (m < 0) SIM_CHECK((may_fail(c) || (c->sock && *peer_closed)) && (e == ECONNRESET || e == EPIPE), "read-error", "channel %d: read failed with %d (%s) on a healthy descriptor", c->id, e, strerror(e));
	free(b);
	return m;
}
PLAIN static void fill(int c, int dir, uint32_t pos, uint8_t *b, uint32_t n) { for (uint32_t i = 0; i < n; i++) b[i] = at(c, dir, pos + i); }
/* returns <0 when the channel broke */
static int do_write(struct chan *c, int o, int role, int fd, int dir, uint32_t *sent, uint32_t n, int *peer_closed) {
	uint8_t *b = malloc(n + 1); int m, e;
	fill(c->id, dir, *sent, b, n);
	*sent += n;
	errno = 0; m = wr(c, o, role, fd, b, n); e = errno;
	free(b);
	if (m == (int)n) { if (!dir) c->acc = *sent; return m; }
	SIM_CHECK(m < 0, "short-write", "channel %d: async_write of %u bytes returned %d", c->id, n, m);
	SIM_CHECK((e == EPIPE && (*peer_closed || may_fail(c))) || (e == ECONNRESET && (may_fail(c) || *peer_closed)), "write-error", "channel %d: write failed with %d (%s), reader %s", c->id, e, strerror(e), *peer_closed ? "gone" : "open");
	return -1;
}
static void writer(struct chan *c, int role) {
	int o = c->id * 2;
	while (c->sent < c->total) {
		uint32_t n = size(c->wmax); if (n > c->total - c->sent) n = c->total - c->sent;
		if (sim_gen(20) == 0 && role != R_HELPER) SIM_CHECK(async_write(c->wfd, "", 0) == 0, "short-write", "async_write of nothing is not 0");
		pause_some(c, role);
		if (do_write(c, o, role, c->wfd, 0, &c->sent, n, &c->rclosed) < 0) break;
		if (c->echo) { /* the answer comes back before the next request */
			while (c->rx2 < c->sent) if (do_read(c, o, role, c->wfd, 1, &c->rx2, &c->tx2, c->rmax, &c->rclosed) <= 0) goto out;
		}
	}
out:
	if (sim_gen(2)) pause_some(c, role);
	c->wclosed = 1; c->wdone = 1;
	if (c->dup) { shutdown(c->wfd, SHUT_WR); if (C[c->mate].rdone) close(c->wfd); } else close(c->wfd);
	sim_nopreempt(1); live--; sim_nopreempt(0);
}
static void reader(struct chan *c, int role) {
	int o = c->id * 2 + 1, m;
	for (;;) {
		uint32_t before = c->got;
		pause_some(c, role);
		if (c->early && c->got >= c->early) break;
		if ((m = do_read(c, o, role, c->rfd, 0, &c->got, &c->sent, c->rmax, &c->wclosed)) <= 0) {
			if (m == 0 && sim_gen(3) == 0) { m = do_read(c, o, role, c->rfd, 0, &c->got, &c->sent, c->rmax, &c->wclosed); SIM_CHECK(m <= 0, "stream-bytes", "channel %d: bytes after the end of the stream", c->id); }
			break;
		}
		if (c->echo) if (do_write(c, o, role, c->rfd, 1, &c->tx2, c->got - before, &c->wclosed) < 0) break;
	}
	c->rclosed = 1; c->rdone = 1; if (!c->dup || C[c->mate].wdone) close(c->rfd);
	sim_nopreempt(1); live--; sim_nopreempt(0);
}
static void *t_writer(param_t args) { writer(&C[args[0].integer], args[1].integer); return 0; }
static void *t_reader(param_t args) { reader(&C[args[0].integer], args[1].integer); return 0; }
static void h_writer(void *a) { writer(a, R_HELPER); }
static void h_reader(void *a) { reader(a, R_HELPER); }
static void monitor(void *x) {
	for (;;) {
		sim_nap(40000000);
		if (main_done) return;
		uint64_t now = sim_now(), st = sim_stalled_ns();
		if (tick && now > tick + 3500 * MS + 2 * (st - tick_stall)) sim_violation("blocked", "no other task ran for %.2f s while tasks wait for I/O", (now - tick) / 1e9);
		for (int i = 0; i < 2 * nc; i++) {
			struct op *o = &ops[i];
			if (!o->busy || !sim_fd_is_open(o->fd) || !(sim_fd_poll(o->fd) & o->rw)) { o->ready_since = 0; continue; }
			if (!o->ready_since) { o->ready_since = now; o->stall0 = st; }
			if (now > o->ready_since + 3500 * MS + 2 * (st - o->stall0)) sim_violation("not-resumed", "the task waiting for descriptor %d (%s, state %x) was not resumed for %.2f s", o->fd, sim_fd_kind(o->fd), sim_fd_poll(o->fd), (now - o->ready_since) / 1e9);
		}
	}
}
static void resetter(void *a) {
	struct chan *c = a;
	for (int i = 0; i < 4000 && !(c->sent >= c->resetat); i++) { if (c->wdone || c->rdone) return; sim_nap(500000); }
	if (c->wdone || c->rdone) return;
	c->was_reset = 1; sim_note("reset of channel %d", c->id); sim_reset(c->rfd);
}
static void *ticker(param_t na) { while (live) { tick_stall = sim_stalled_ns(); tick = sim_now(); if (sim_gen(3)) delay(1 + sim_gen(30)); else yield(); } tick = 0; return 0; }
static int start_end(struct chan *c, int role, int rd) {
	void *(*f)(param_t) = rd ? t_reader : t_writer;
	switch (role) {
	case R_TASK: if (sim_gen(3) == 0) return async_task(f, 2, casting(c->id), casting(role)); async_ex(Kb(64), (launch_func_t)f, 2, casting(c->id), casting(role)); return 0;
	case R_POOL: go(f, 2, casting(c->id), casting(role)); return 0;
	default: sim_spawn_helper(rd ? "reader" : "writer", rd ? h_reader : h_writer, c); return 0;
	}
}
static void *stream_main(param_t na) {
	int i, big = sim_gen(6) == 5, pool = sim_gen(4) == 0, ids[2 * MAXC], n = 0;
	
	nc = 1 + sim_gen(sim_gen(4) ? 4 : MAXC);
	for (i = 0; i < nc; i++) {
		struct chan *c = &C[i]; int p[2];
		if (i && C[i - 1].sock && !C[i - 1].dup && !C[i - 1].echo && C[i - 1].wrole != R_POOL && C[i - 1].rrole != R_POOL && sim_gen(2)) {
			*c = C[i - 1]; c->id = i; c->mate = i - 1; c->dup = 1; c[-1].dup = 1; c[-1].mate = i; c->early = c[-1].early = 0;
			c->wfd = c[-1].rfd; c->rfd = c[-1].wfd; c->total = sim_gen(c->total + 1);
			do { c->wrole = sim_gen(2) ? R_TASK : R_HELPER; c->rrole = sim_gen(2) ? R_TASK : R_HELPER; } while (c->wrole + c->rrole == 2 * R_HELPER);
			sim_note("channel %d duplex to %d total %u w by %d r by %d", i, i - 1, c->total, c->wrole, c->rrole);
			continue;
		}
		c->id = i; c->sock = sim_gen(2); c->echo = c->sock && sim_gen(3) == 0;
		if (c->sock) { SIM_CHECK(!socketpair(AF_UNIX, SOCK_STREAM, 0, p), "harness", "socketpair"); c->rfd = p[0]; c->wfd = p[1]; }
		else { SIM_CHECK(!pipe(p), "harness", "pipe"); c->rfd = p[0]; c->wfd = p[1]; }
		events_set_nonblocking(c->rfd); events_set_nonblocking(c->wfd);
		SIM_CHECK(sim_fd_nonblock(c->rfd) && sim_fd_nonblock(c->wfd), "nonblocking", "events_set_nonblocking left the descriptor blocking");
		c->total = sim_gen(big ? 300000 : 20000); c->wmax = 1 + sim_gen(sim_gen(2) ? 200 : 20000); c->rmax = 1 + sim_gen(sim_gen(2) ? 200 : 20000);
		{ uint32_t lim = 150 * (c->wmax < c->rmax ? c->wmax : c->rmax); if (c->total > lim) c->total %= lim; }
		c->pause = sim_gen(2) ? 0 : 1 + sim_gen(20);
		if (sim_gen(6) == 0) c->early = 1 + sim_gen(c->total + 1);
		c->wrole = sim_gen(3) == 0 ? R_HELPER : pool && sim_gen(2) ? R_POOL : R_TASK;
		do c->rrole = sim_gen(3) == 0 ? R_HELPER : pool && sim_gen(2) ? R_POOL : R_TASK; while (c->rrole == R_HELPER && c->wrole == R_HELPER);
		if (c->echo && c->wmax > 8000) c->wmax = 8000;
		sim_note("channel %d %s%s total %u w %u by %d r %u by %d early %u", i, c->sock ? "socket" : "pipe", c->echo ? " echo" : "", c->total, c->wmax, c->wrole, c->rmax, c->rrole, c->early);
	}
	live = 2 * nc;
	sim_spawn_helper("monitor", monitor, NULL);
	for (i = 0; i < nc; i++) {
		struct chan *c = &C[i]; int k, first = sim_gen(2);
		for (k = 0; k < 2; k++) { int id = start_end(c, (k ^ first) ? c->rrole : c->wrole, k ^ first); if (id > 0) ids[n++] = id; }
		if (c->sock && !c->dup && sim_gen(6) == 0) { c->resetat = 1 + sim_gen(c->total + 1); sim_spawn_helper("resetter", resetter, c); }
		if (sim_gen(3) == 0) yield();
	}
	n = n ? n : 0;
	i = async_task(ticker, 0);
	if (sim_gen(2)) while (n) await_for(ids[--n]);
	while (live) delay(1 + sim_gen(20));
	await_for(i);
	for (i = 0; i < nc; i++) {
		struct chan *c = &C[i];
		SIM_CHECK(!sim_fd_is_open(c->rfd) && !sim_fd_is_open(c->wfd), "harness", "ends open");
		if (!c->was_reset && !sim_fault_count(F_RESET) && !c->early) SIM_CHECK(c->got == c->total && (!c->echo || c->rx2 == c->total), "lost-bytes", "channel %d: %u of %u bytes arrived, %u came back", i, c->got, c->total, c->rx2);
	}
	main_done = 1;
	return 0;
}
SIM_WORKLOAD(stream, "short_read short_write eagain reset stall poll_error", "streams between tasks, pool tasks and other processes") { wl_my_alloc(4);
	int r; signal(SIGPIPE, SIG_IGN); sim_cfg.poll_step_us = 100 << sim_gen(5);
	r = events_start(wl_fds(64 + sim_gen(100)), (main_cb)stream_main, 0);
	SIM_CHECK(main_done, "task-lost", "the main task did not finish (events_start gave %d)", r);
	sim_done();
}
