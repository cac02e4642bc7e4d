/* P19: datagrams: udp_bind, udp_connect, udp_to, udp_recv, udp_send, udp_handler, async_sendto, async_recvfrom. */
#include "wl.h"
#include <async_io.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#define MS 1000000ull
#define MAXS 3
#define MAXC 8
#define MAXD 400
#define POISON 0x7ffffff1u
static struct srv { int fd, port, v6, any, flags, done, early, handlers, stopped, last[MAXC]; } S[MAXS];
static struct cl { int id, s, role, fd, flags, n, senderdone, stop, stopped, port, pause, dead, host; } C[MAXC]; /* host: other than this one */
static struct dg { int cl, len, got, answered; } D[MAXD];
static int ns, nc, nd, main_done, sending, zsent, zgot, zanswers; static uint64_t tick, tick_stall;
static void dec(int *p) { sim_nopreempt(1); --*p; sim_nopreempt(0); }
static int inc(int *p) { int v; sim_nopreempt(1); v = (*p)++; sim_nopreempt(0); return v; }
static int faulty(int k) { return sim_fault_count(k) > 0; }
#define PLAIN __attribute__((no_sanitize_thread))
PLAIN static void fill(uint8_t *b, int id, int len) { for (int i = 0; i < len; i++) b[i] = (i * 2654435761u + id * 40503u) >> 11; if (len >= 4) memcpy(b, &id, 4); }
PLAIN static int same(const uint8_t *b, int id, int len) { for (int i = 4; i < len; i++) if (b[i] != (uint8_t)((i * 2654435761u + id * 40503u) >> 11)) return i; return -1; }
static void check_msg(struct srv *s, const uint8_t *b, int len, const char *when) {
	uint32_t id; if (len == 0) return;
	SIM_CHECK(len >= 4, "datagram-length", "a datagram of %d bytes was received%s, none was sent", len, when);
	memcpy(&id, b, 4);
	SIM_CHECK(id < (uint32_t)nd, "datagram-bytes", "a datagram with unknown id %x was received%s", id, when);
	SIM_CHECK(len == D[id].len, "datagram-length", "datagram %u of %d bytes was received with %d%s", id, D[id].len, len, when);
	int k = same(b, id, len); SIM_CHECK(k < 0, "datagram-bytes", "datagram %u of %d bytes is different at byte %d%s", id, len, k, when);
	SIM_CHECK(&S[C[D[id].cl].s] == s, "datagram-wrong", "datagram %u was received by another server", id);
}
static void mkaddr(struct sockaddr_storage *ss, socklen_t *n, int v6, int port) {
	memset(ss, 0, sizeof *ss);
	if (v6) { struct sockaddr_in6 *a = (void *)ss; a->sin6_family = AF_INET6; a->sin6_port = htons(port); a->sin6_addr.s6_addr[15] = 1; *n = sizeof *a; }
	else { struct sockaddr_in *a = (void *)ss; a->sin_family = AF_INET; a->sin_port = htons(port); a->sin_addr.s_addr = htonl(INADDR_LOOPBACK); *n = sizeof *a; }
}
static void setaddr(struct sockaddr_storage *ss, int h) { /* an address of another host */
	if (ss->ss_family == AF_INET) ((struct sockaddr_in *)ss)->sin_addr.s_addr = htonl(0x0a000000u + h * 0x010305u);
	else { uint8_t *a = ((struct sockaddr_in6 *)ss)->sin6_addr.s6_addr; a[0] = 0x20; a[1] = 1; a[2] = 0xd; a[3] = 0xb8; a[7] = h; a[9] = h * 3; a[12] = 7; a[15] = h + 1; }
}
static void account(struct srv *s, const uint8_t *b, int len, int at_once);
static void sent_with(int fd, int flags) { int f = sim_fd_sendflags(fd) & ~MSG_NOSIGNAL; SIM_CHECK((sim_fd_sendflags(fd) & flags) == flags && !f, "send-flags", "socket %d, to be used with flags %x, sent with %x", fd, flags, sim_fd_sendflags(fd)); }
static void handle(struct srv *s, udp_t p) {
	int len, late = sim_gen(3), r; uint32_t id = 0; uint8_t *b, a[8];
	len = udp_length(p);
	SIM_CHECK((int)udp_flags(p) == s->flags, "packet-flags", "a packet received with flags %x has flags %x", s->flags, udp_flags(p));
	if (late == 2) delay(sim_gen(30));
	b = (uint8_t *)udp_message(p);
	SIM_CHECK(b != NULL, "datagram-bytes", "a packet of %d bytes has no message", len);
	check_msg(s, b, len, ""); if (!s->early) account(s, b, len, 0);
	if (len) memcpy(&id, b, 4);
	if (sim_gen(4) == 0) { const char *ip = udp_ip(p); char w[64]; int h = len ? C[D[id].cl].host : 0;
		if (h) { struct sockaddr_storage ss; socklen_t n; mkaddr(&ss, &n, s->v6, 1); setaddr(&ss, h); inet_ntop(ss.ss_family, s->v6 ? (void *)&((struct sockaddr_in6 *)&ss)->sin6_addr : (void *)&((struct sockaddr_in *)&ss)->sin_addr, w, sizeof w); } else strcpy(w, s->v6 ? "::1" : "127.0.0.1");
		SIM_CHECK(!len || !strcmp(ip, w), "sender", "datagram %u of %s: sender '%s'", id, w, ip); }
	if (late == 1) delay(sim_gen(30)); else if (sim_gen(2)) yield();
	check_msg(s, b, len, " (looked at later)");
	if (len) { memcpy(a, &id, 4); id ^= 0x5aa55aa5; memcpy(a + 4, &id, 4); r = udp_send(p, a, 8); SIM_CHECK(r == 8, "send-error", "udp_send gave %d (errno %d)", r, errno); }
	else { r = udp_send(p, "Z", 1); SIM_CHECK(r == 1, "send-error", "udp_send gave %d (errno %d)", r, errno); }
	sent_with(s->fd, s->flags);
}
static struct { udp_t p; struct srv *s; } H[MAXD];
static void packet_cb(udp_t p) {
	struct srv *s = NULL; sim_nopreempt(1);
	for (int i = 0; i < MAXD && !s; i++) if (H[i].p == p) { s = H[i].s; H[i].p = NULL; }
	sim_nopreempt(0); SIM_CHECK(s, "handler-packet", "a handler was given a packet that is not its own");
	handle(s, p); dec(&s->handlers);
}
static void account(struct srv *s, const uint8_t *b, int len, int at_once) {
	uint32_t id;
	if (len) {
		memcpy(&id, b, 4); struct dg *d = &D[id];
		d->got++; SIM_CHECK(d->got == 1 || faulty(F_DG_DUP), "datagram-twice", "datagram %u was received %d times", id, d->got);
		if (!at_once) return;
		SIM_CHECK((int)id > s->last[d->cl] || faulty(F_DG_REORDER) || faulty(F_DG_DUP), "datagram-order", "datagram %u of client %d after %d", id, d->cl, s->last[d->cl]);
		s->last[d->cl] = id;
	} else { inc(&zgot); SIM_CHECK(zgot <= zsent || faulty(F_DG_DUP), "datagram-twice", "%d empty datagrams received of %d sent", zgot, zsent); }
}
static char *anyaddr(char *b, int v6, int port) {
	snprintf(b, 64, v6 ? (sim_gen(2) ? "udp://[::]:%d" : "[::]:%d") : sim_gen(2) ? "0.0.0.0:%d" : "udp://0.0.0.0:%d", port);
	return strcpy(malloc(strlen(b) + 1), b);
}
static char *addr(char *b, int v6, int port) { /* one of the ways to write it, in memory that is only read */
	char *p; int v = sim_gen(v6 ? 4 : 6);
	snprintf(b, 64, v6 ? ((const char *[]){"udp://[::1]:%d", "[::1]:%d", "six.test:%d", "udp://six.test:%d"})[v] : ((const char *[]){"udp://127.0.0.1:%d", "127.0.0.1:%d", "localhost:%d", "udp://localhost:%d", "lh:%d", "udp://lh:%d"})[v], port);
	p = strcpy(malloc(strlen(b) + 1), b);
	return p;
}
static void unaddr(const char *b, char *p) { SIM_CHECK(!strcmp(p, b), "address-changed", "the address %s given by the caller became %s", b, p); free(p); }
static void *server(param_t args) {
	struct srv *s = &S[args[0].integer]; char b[64], *p; int len;
	p = s->any ? anyaddr(b, s->v6, s->port) : addr(b, s->v6, s->port);
	do s->fd = udp_bind(p, s->flags = sim_gen(2) ? MSG_NOSIGNAL : 0); while (s->fd <= 0 && faulty(F_DNS) && (yield(), 1));
	unaddr(b, p);
	SIM_CHECK(s->fd > 0, "bind-error", "udp_bind of %s gave %d (errno %d)", b, s->fd, errno);
	SIM_CHECK(socket_is_udp(s->fd) && !socket_is_udp(-1) && !socket_is_udp(0) && !socket_is_uds(s->fd), "bind-error", "socket_is_udp or socket_is_uds is wrong for a bound socket");
	for (;;) {
		errno = 0; udp_t p = udp_recv(s->fd);
		SIM_CHECK(p != NULL, "recv-error", "udp_recv gave nothing (errno %d)", errno);
		len = udp_length(p);
		SIM_CHECK(socket_is_udp(s->fd), "recv-error", "socket_is_udp is false after udp_recv");
		if (len == 4) { SIM_CHECK(!memcmp(udp_message(p), &(uint32_t){POISON}, 4), "datagram-bytes", "a datagram of four bytes was received, none was sent"); defer_free(p); break; }
		if (s->early) { check_msg(s, (uint8_t *)udp_message(p), len, " (at once)"); account(s, (uint8_t *)udp_message(p), len, 1); }
		sim_nopreempt(1); s->handlers++; for (int i = 0; i < MAXD; i++) if (!H[i].p) { H[i].p = p; H[i].s = s; break; } sim_nopreempt(0);
		udp_handler(packet_cb, p);
		if (sim_gen(8) == 0) delay(sim_gen(20));
	}
	while (s->handlers) delay(1);
	close(s->fd); s->stopped = 1;
	return 0;
}
static int got_answer(struct cl *c, uint8_t *b, int m) { /* 1: stop */
	uint32_t id, x;
	if (m == 1) { SIM_CHECK(b[0] == 'Z', "datagram-bytes", "client %d received the byte %02x", c->id, b[0]); inc(&zanswers); return 0; }
	if (m == 4) { memcpy(&id, b, 4); SIM_CHECK(id == POISON, "datagram-bytes", "client %d received the word %x", c->id, id); return 1; }
	SIM_CHECK(m == 8, "datagram-length", "client %d received %d bytes instead of an answer of 8", c->id, m);
	memcpy(&id, b, 4); memcpy(&x, b + 4, 4);
	SIM_CHECK(id < (uint32_t)nd && x == (id ^ 0x5aa55aa5), "datagram-bytes", "client %d received a broken answer", c->id);
	SIM_CHECK(D[id].cl == c->id, "answer-wrong", "client %d received the answer to datagram %u of client %d", c->id, id, D[id].cl);
	D[id].answered++; SIM_CHECK(D[id].answered == 1 || faulty(F_DG_DUP), "datagram-twice", "datagram %u was answered %d times", id, D[id].answered);
	return 0;
}
static int new_dg(struct cl *c) {
	int k, len = 5 + (sim_gen(6) ? sim_gen(60) : sim_gen(4) ? sim_gen(2000) : 40000 + sim_gen(25503));
	sim_nopreempt(1); k = nd < MAXD ? nd++ : -1; if (k >= 0) { D[k].cl = c->id; D[k].len = len; } sim_nopreempt(0);
	return k;
}
static void *replies(param_t args) {
	struct cl *c = &C[args[0].integer]; uint8_t b[64]; int m;
	for (;;) { memset(b, 0xEE, sizeof b); m = async_recvfrom(c->fd, b, sim_gen(3) ? 8 : 9 + sim_gen(40), 0); SIM_CHECK(m >= 0, "recv-error", "async_recvfrom gave %d (errno %d)", m, errno); for (int i = m; i < 64; i++) SIM_CHECK(b[i] == 0xEE, "recv-overrun", "async_recvfrom of %d bytes changed byte %d", m, i); if (got_answer(c, b, m)) break; }
	while (!c->senderdone) delay(1);
	close(c->fd); c->stopped = 1;
	return 0;
}
static void *sender(param_t args) {
	struct cl *c = &C[args[0].integer]; struct srv *s = &S[c->s]; char b[64], t[64], *bp, *tp; uint64_t n0; int i, r; struct sockaddr_storage ss; socklen_t n = sizeof ss; struct sockaddr_in *a = (void *)&ss;
	tp = addr(t, s->v6, s->port);
	if (c->role == 1) { do c->fd = udp_connect(tp); while (c->fd <= 0 && faulty(F_DNS) && (yield(), 1)); }
	else { bp = addr(b, s->v6, 7000 + c->id); do c->fd = udp_bind(bp, 0); while (c->fd <= 0 && faulty(F_DNS) && (yield(), 1)); unaddr(b, bp); if (c->fd > 0) do { n0 = sim_fault_count(F_DNS); udp_to(c->fd, tp, c->flags = sim_gen(2) ? MSG_NOSIGNAL : 0); } while (n0 != sim_fault_count(F_DNS)); /* it has no way to say that a name was not found */ }
	unaddr(t, tp);
	SIM_CHECK(c->fd > 0, "bind-error", "no socket for client %d (errno %d)", c->id, errno);
	if (c->role == 1) { c->port = -1; } else c->port = 7000 + c->id;
	async_ex(Kb(32), (launch_func_t)replies, 1, casting(c->id));
	for (i = 0; i < c->n; i++) {
		int k = sim_gen(12) ? new_dg(c) : -1, len = k < 0 ? 0 : D[k].len; uint8_t *m = malloc(len + 1);
		if (k >= 0) fill(m, k, len); else inc(&zsent);
		if (k < 0) sim_note("empty datagram of %d", c->id);
		r = async_sendto(c->fd, m, len); SIM_CHECK(r == len, "send-error", "async_sendto of %d bytes gave %d (errno %d %s)", len, r, errno, strerror(errno));
		sent_with(c->fd, c->flags);
		free(m);
		if (c->pause && sim_gen(3) == 0) delay(sim_gen(c->pause)); else if (sim_gen(2)) yield();
	}
	if (c->role == 1) { n = sizeof ss; getsockname(c->fd, (struct sockaddr *)&ss, &n); c->port = ntohs(a->sin_port); }
	c->senderdone = 1; dec(&sending);
	while (!c->stopped) delay(5); /* the socket's packet record belongs to this task */
	return 0;
}
static void actor(void *x) {
	struct cl *c = x; struct srv *s = &S[c->s]; struct sockaddr_storage ss; socklen_t n; int fd = socket(s->v6 ? AF_INET6 : AF_INET, SOCK_DGRAM, 0), i, m; uint8_t b[64];
	mkaddr(&ss, &n, s->v6, 7000 + c->id); if (c->host) setaddr(&ss, c->host); bind(fd, (struct sockaddr *)&ss, n); fcntl(fd, F_SETFL, O_NONBLOCK);
	mkaddr(&ss, &n, s->v6, s->port);
	for (i = 0; i < c->n; i++) {
		int k = sim_gen(12) ? new_dg(c) : -1, len = k < 0 ? 0 : D[k].len; uint8_t *d = malloc(len + 1);
		if (k >= 0) fill(d, k, len); else inc(&zsent);
		sendto(fd, d, len, 0, (struct sockaddr *)&ss, n);
		free(d); if (c->pause && sim_gen(3) == 0) sim_nap(sim_gen(c->pause) * MS);
	}
	dec(&sending);
	while (!c->stop) { while ((m = recvfrom(fd, b, sizeof b, 0, NULL, NULL)) >= 0) got_answer(c, b, m); sim_nap(2 * MS); }
	close(fd); c->stopped = 1;
}
static void poison(void *x) { /* ends the waiting receivers */
	struct sockaddr_storage ss; socklen_t n; int fd[2], i, k; uint32_t w = POISON;
	fd[0] = socket(AF_INET, SOCK_DGRAM, 0); fd[1] = socket(AF_INET6, SOCK_DGRAM, 0);
	for (k = 0; k < 500; k++) {
		for (i = 0; i < ns; i++) if (!S[i].stopped && S[i].done) { mkaddr(&ss, &n, S[i].v6, S[i].port); sendto(fd[S[i].v6], &w, 4, 0, (struct sockaddr *)&ss, n); }
		for (i = 0; i < nc; i++) if (!C[i].stopped && C[i].stop && C[i].role == 0) { mkaddr(&ss, &n, S[C[i].s].v6, C[i].port); sendto(fd[S[C[i].s].v6], &w, 4, 0, (struct sockaddr *)&ss, n); }
		sim_nap(20 * MS);
		if (main_done) break;
	}
	close(fd[0]); close(fd[1]);
}
static void monitor(void *x) { for (;;) { sim_nap(40 * MS); if (main_done) return; if (tick && sim_now() > tick + 3500 * MS + 2 * (sim_stalled_ns() - tick_stall)) sim_violation("blocked", "no other task ran for %.2f s", (sim_now() - tick) / 1e9); } }
static void wait_while(int *v, int rounds) { for (int k = 0; *v && k < rounds; k++) { tick_stall = sim_stalled_ns(); tick = sim_now(); delay(2); } }
static void *udp_main(param_t na) {
	int i, k, left, fds; struct hostent *h = async_gethostbyname("localhost"); (void)h;
	fds = sim_open_fds(); sim_faults_hold(0);
	ns = 1 + sim_gen(MAXS); nc = 1 + sim_gen(MAXC);
	for (i = 0; i < ns; i++) { struct srv *s = &S[i]; s->port = 9000 + i; s->v6 = sim_gen(3) == 0; s->any = sim_gen(3) == 0; s->early = sim_gen(2); for (k = 0; k < MAXC; k++) s->last[k] = -1; async_ex(Kb(32), (launch_func_t)server, 1, casting(i)); }
	sim_spawn_helper("monitor", monitor, NULL);
	for (left = 1, k = 0; left && k < 2000; k++) { for (left = i = 0; i < ns; i++) left += S[i].fd <= 0; delay(1); }
	SIM_CHECK(!left, "bind-error", "a server did not start");
	sending = nc;
	for (i = 0; i < nc; i++) {
		struct cl *c = &C[i]; c->id = i; c->s = sim_gen(ns); c->role = sim_gen(3); c->n = 1 + sim_gen(sim_gen(4) ? 10 : 40); c->pause = sim_gen(30);
		if (c->role == 2 && S[c->s].any && sim_gen(4)) c->host = 1 + sim_gen(30);
		if (c->role == 2) sim_spawn_actor("client", actor, c); else async_ex(Kb(32), (launch_func_t)sender, 1, casting(i));
	}
	wait_while(&sending, 20000);
	SIM_CHECK(!sending, "send-lost", "a sender does not come to an end");
	/* let everything arrive */
	for (k = 0; k < 1500; k++) {
		for (left = i = 0; i < nd; i++) left += !D[i].answered;
		for (i = 0; i < ns; i++) left += S[i].handlers;
		left += zanswers < zsent || zgot < zsent;
		if (!left) break;
		if (k > 300 && faulty(F_DG_LOSS)) break;
		tick_stall = sim_stalled_ns(); tick = sim_now(); delay(2);
	}
	if (!faulty(F_DG_LOSS)) {
		for (i = 0; i < nd; i++) { SIM_CHECK(D[i].got, "datagram-lost", "datagram %d of client %d was never received", i, D[i].cl); SIM_CHECK(D[i].answered, "answer-lost", "the answer to datagram %d never reached client %d", i, D[i].cl); }
		SIM_CHECK(zgot >= zsent, "datagram-lost", "%d of %d empty datagrams were received", zgot, zsent);
		SIM_CHECK(zanswers >= zsent, "answer-lost", "%d of %d empty datagrams were answered", zanswers, zsent);
	}
	sim_spawn_actor("poison", poison, NULL);
	for (i = 0; i < nc; i++) {
		C[i].stop = 1;
		if (C[i].role == 1) { uint32_t w = POISON; struct sockaddr_storage ss; socklen_t n; mkaddr(&ss, &n, S[C[i].s].v6, C[i].port); /* a connected socket hears only its server */
			for (k = 0; k < 200 && !C[i].stopped; k++) { tick_stall = sim_stalled_ns(); tick = sim_now(); sendto(S[C[i].s].fd, &w, 4, 0, (struct sockaddr *)&ss, n); delay(10); } }
	}
	for (k = 0; k < 3000; k++) { for (left = i = 0; i < nc; i++) left += !C[i].stopped; if (!left) break; tick_stall = sim_stalled_ns(); tick = sim_now(); delay(2); }
	SIM_CHECK(!left, "recv-lost", "%d clients do not receive any more", left);
	for (i = 0; i < ns; i++) S[i].done = 1;
	for (k = 0; k < 3000; k++) { for (left = i = 0; i < ns; i++) left += !S[i].stopped; if (!left) break; tick_stall = sim_stalled_ns(); tick = sim_now(); delay(2); }
	SIM_CHECK(!left, "recv-lost", "%d receivers do not receive any more", left);
	SIM_CHECK(sim_open_fds() == fds, "fd-leak", "%d descriptors open at the end, %d before", sim_open_fds(), fds);
	main_done = 1;
	return 0;
}
SIM_WORKLOAD(udp, "eagain net_delay dgram_loss dgram_dup dgram_reorder dns_fail poll_error stall", "datagram servers, tasks and other processes as clients") { wl_my_alloc(4);
	int r; sim_faults_hold(1); sim_cfg.max_hooks *= 3; sim_cfg.poll_step_us = 100 << sim_gen(5);
	r = events_start(wl_fds(128), (main_cb)udp_main, 0);
	SIM_CHECK(main_done, "task-lost", "the main task did not finish (events_start gave %d)", r);
	sim_done();
}
