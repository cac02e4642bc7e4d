/* P18: async_bind, async_accept, async_connect and their Unix-domain counterparts. */
#include "wl.h"
#include <async_io.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <signal.h>
#define MS 1000000ull
#define MAXL 3
#define MAXC 80
#define POISON 0x7fffffff
enum { R_TASK, R_POOL, R_ACTOR };
enum { T_OK, T_REFUSED, T_UNREACH, T_NONAME, T_NOPATH };
static struct lst { int fd, uds, v6, port, done, nacc, accs, cap, form, byuds; char path[112]; } L[MAXL];
static struct cli { int id, l, role, target, name, early, pause, state, port, accepted, served, rc, err; uint32_t linger; } C[MAXC];
static int nl, nc, live, main_done, stopping, served_live, limit_seen; static uint64_t tick, tick_stall;
static int faulty(int k) { return sim_fault_count(k) > 0; }
static void dec(int *p) { sim_nopreempt(1); --*p; sim_nopreempt(0); }
static void inc(int *p) { sim_nopreempt(1); ++*p; sim_nopreempt(0); }
static uint64_t code(int id) { return (uint64_t)(id + 1) * 0x9E3779B97F4A7C15ull; }
/* the server's side of one connection */
static void serve(int fd) {
	uint64_t v = 0; int got = 0, m; struct cli *c = NULL;
	while (got < 12) { m = async_read(fd, (char *)&v + got, 12 - got > 8 - got ? 8 - got : 1); if (m <= 0) break; got += m; if (got == 8) break; }
	if (got == 8) {
		uint32_t id = (uint32_t)(v >> 32);
		if (id == POISON) return;
		SIM_CHECK(id < (uint32_t)nc && (uint32_t)v == (uint32_t)code(id), "conn-bytes", "a connection delivered %llx", (unsigned long long)v);
		c = &C[id];
		SIM_CHECK(++c->served == 1, "conn-twice", "connection of client %u served %d times", id, c->served);
		SIM_CHECK(c->target == T_OK, "conn-wrong", "client %u was connected although nothing listens there", id);
		v = code(id) ^ 5; async_write(fd, &v, 8);
	}
}
static void client_cbk(int fd) { serve(fd); dec(&served_live); }
static void *conn_task(param_t args) { int fd = args[0].integer; serve(fd); close(fd); dec(&served_live); return 0; }
static void *acceptor(param_t args) {
	struct lst *l = &L[args[0].integer]; int fails = 0;
	while (!l->done) {
		char name[128] = "?"; int port = -7, fd, e, how, wp = sim_gen(2), wn = sim_gen(3) == 0;
		errno = 0;
		if (l->uds && sim_gen(2)) fd = uds_accept(l->fd, wn ? name : NULL); else fd = async_accept(l->fd, wn ? name : NULL, wp ? &port : NULL);
		e = errno;
		if (fd < 0) {
			SIM_CHECK(e == EMFILE || e == ENFILE, "accept-error", "accept on a healthy listener failed with %d (%s)", e, strerror(e));
			SIM_CHECK(faulty(F_EMFILE), "accept-error", "accept failed with %d (%s) without cause", e, strerror(e));
			SIM_CHECK(++fails < 3000, "accept-error", "accept keeps failing"); delay(1 + sim_gen(10)); continue;
		}
		SIM_CHECK(sim_fd_is_open(fd) && sim_fd_nonblock(fd), "accept-fd", "accept gave descriptor %d, open %d, non-blocking %d", fd, sim_fd_is_open(fd), sim_fd_nonblock(fd));
		SIM_CHECK(socket_is_uds(fd) == l->uds && !socket_is_udp(fd), "accept-fd", "an accepted %s connection: socket_is_uds %d, socket_is_udp %d", l->uds ? "Unix" : "TCP", socket_is_uds(fd), socket_is_udp(fd));
		l->nacc++;
		sim_note("accepted %d port %d name %s", fd, port, name);
		if (!l->uds) {
			struct sockaddr_in a; socklen_t n = sizeof a; int k; struct sockaddr_storage ss;
			if (!getpeername(fd, (struct sockaddr *)&a, &n)) {
				if (wp) SIM_CHECK(port == ntohs(a.sin_port), "peer-address", "accept reported port %d, the peer has %d", port, ntohs(a.sin_port));
			}
			if (wn) SIM_CHECK(!strcmp(name, l->v6 ? "::1" : "127.0.0.1"), "peer-address", "accept reported address '%s'", name);
			if (wp) for (k = 0; k < nc; k++) if (C[k].port == port && C[k].target == T_OK && C[k].l == l - L) SIM_CHECK(++C[k].accepted == 1, "conn-twice", "connection of client %d accepted %d times", k, C[k].accepted);
		}
		how = sim_gen(4); if (l->uds && how == 3) how = 2;
		inc(&served_live);
		switch (how) {
		case 0: serve(fd); close(fd); dec(&served_live); break;
		case 1: async_task(conn_task, 1, casting(fd)); break;
		default: if (l->uds) uds_handler((uds_unix_cb)client_cbk, fd); else accept_handler((client_cb)client_cbk, fd);
		}
	}
	dec(&l->accs);
	return 0;
}
static int sock_bind(int v6, int port, int cap) {
	struct sockaddr_in a = { .sin_family = AF_INET }; struct sockaddr_in6 a6 = { .sin6_family = AF_INET6, .sin6_addr = IN6ADDR_LOOPBACK_INIT };
	a.sin_port = a6.sin6_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	return async_socket(v6 ? (struct sockaddr *)&a6 : (struct sockaddr *)&a, v6 ? "[::1]" : "127.0.0.1", cap, 1);
}
static int sock_unix(char *path, int cap) { struct sockaddr_un u = { .sun_family = AF_UNIX }; return async_socket((struct sockaddr *)&u, path, cap, sim_gen(2) ? -1 : 1); }
static void *listener(param_t args) {
	struct lst *l = &L[args[0].integer]; int i, fails = 0, e;
	for (;;) {
		errno = 0;
		if (l->uds) { if ((l->byuds = sim_gen(2))) { char b[124]; snprintf(b, sizeof b, "unix://%s", l->path); l->fd = uds_bind(sim_gen(2) ? strcpy(malloc(124), b) : strcpy(malloc(124), l->path), l->cap); } else l->fd = sim_gen(3) ? async_bind(l->path, 0, l->cap, -1) : sock_unix(l->path, l->cap); }
		else { /* the ways an address can be written */
			char b[40]; int port = l->port; const char *h = l->v6 ? "[::1]" : "127.0.0.1";
			l->form = sim_gen(7);
			if (l->form == 0) { snprintf(b, sizeof b, "%s:%d", h, port); h = b; port = 0; }
			else if (!l->v6 && l->form == 1) { snprintf(b, sizeof b, "%d", port); h = b; port = 0; }
			else if (!l->v6 && l->form == 2) { snprintf(b, sizeof b, "0.0.0.0:%d", port); h = b; port = 0; }
			else if (!l->v6 && l->form == 3) { snprintf(b, sizeof b, "127.0.0.1"); h = b; port = 0; }
			else if (!l->v6 && l->form == 4) h = sim_gen(2) ? "localhost" : NULL;
			if (sim_gen(6) == 0) { l->form = 7; h = l->v6 ? "[::1]" : "127.0.0.1"; port = l->port; l->fd = sock_bind(l->v6, port, l->cap); } else l->fd = async_bind((char *)h, port, l->cap, 1);
			if (l->fd >= 0) {
				struct sockaddr_in a; struct sockaddr_in6 a6; socklen_t n = sizeof a; 
				if (l->v6) { n = sizeof a6; getsockname(l->fd, (struct sockaddr *)&a6, &n); SIM_CHECK(ntohs(a6.sin6_port) == l->port, "bind-wrong", "bound to port %d instead of %d", ntohs(a6.sin6_port), l->port); }
				else {
					int any; getsockname(l->fd, (struct sockaddr *)&a, &n); any = a.sin_addr.s_addr == htonl(INADDR_ANY);
					if (l->form == 3) l->port = ntohs(a.sin_port);
					SIM_CHECK(ntohs(a.sin_port) == l->port && (any || a.sin_addr.s_addr == htonl(INADDR_LOOPBACK)), "bind-wrong", "bound to %s:%d instead of port %d", inet_ntoa(a.sin_addr), ntohs(a.sin_port), l->port);
					SIM_CHECK(any == (l->form == 1 || l->form == 2 || !h), "bind-wrong", "bound to %s for '%s'", any ? "every address" : "one address", h);
				}
			}
		}
		e = errno;
		if (l->fd > 0) break;
		SIM_CHECK(l->fd == -1, "bind-error", "bind gave %d", l->fd);
		SIM_CHECK((e == EMFILE && faulty(F_EMFILE)) || (e == EDESTADDRREQ && faulty(F_DNS)) || (e == EADDRINUSE && faulty(F_REFUSE)), "bind-error", "bind of %s failed with %d (%s)", l->uds ? l->path : "a port", e, strerror(e));
		SIM_CHECK(++fails < 2000, "bind-error", "bind keeps failing"); simfs_unlink(l->path); delay(1);
	}
	SIM_CHECK(sim_fd_nonblock(l->fd), "bind-error", "the listening descriptor is blocking");
	l->accs = 1;
	if (sim_gen(4) == 0) { l->accs++; async_ex(Kb(64), (launch_func_t)acceptor, 1, casting((int)(l - L))); }
	acceptor(args);
	while (l->accs) delay(1);
	close(l->fd);
	l->fd = -2; inc(&stopping);
	return 0;
}
static void talk(struct cli *c, int fd) {
	uint64_t v = ((uint64_t)c->id << 32) | (uint32_t)code(c->id), r = 0; int got = 0, m = 0;
	if (c->early == 1) return;                               /* closed at once */
	if (c->pause) delay(sim_gen(c->pause));
	if (async_write(fd, &v, 8) != 8) { c->err = errno; c->state = 3; return; }
	if (c->early == 2) return;                               /* does not wait for the answer */
	while (got < 8 && (m = async_read(fd, (char *)&r + got, 8 - got)) > 0) got += m;
	if (got == 8) { SIM_CHECK(r == (code(c->id) ^ 5), "conn-bytes", "client %d got the answer %llx of another", c->id, (unsigned long long)r); c->state = 2; }
	else c->state = 3;
}
static void client(struct cli *c) {
	int fd, e; struct lst *l = &L[c->l]; char b[124]; struct sockaddr_storage ss; socklen_t n = sizeof ss;
	if (c->linger) delay(sim_gen(c->linger));
	errno = 0;
	switch (c->target) {
	case T_OK: case T_REFUSED:
		if (l->uds) { if (c->name) { snprintf(b, sizeof b, "unix://%s", l->path); fd = uds_connect(b); } else fd = async_connect(l->path, 0, -1); }
		else { int port = c->target == T_OK ? l->port : 59000; switch (l->v6 ? 3 : c->name) { case 3: fd = async_connect(sim_gen(2) ? "[::1]" : "six.test", port, 1); break; case 0: fd = async_connect("127.0.0.1", port, 1); break; case 1: fd = async_connect("peer.test", port, 1); break; default: snprintf(b, sizeof b, "127.0.0.1:%d", port); fd = async_connect(b, 0, 1); } }
		break;
	case T_UNREACH: fd = async_connect("10.1.2.3", 80, 1); break;
	case T_NONAME: fd = async_connect("nowhere.test", 80, 1); break;
	default: fd = uds_connect("/w/no-such"); break;
	}
	e = errno;
	sim_note("client %d connect gives %d errno %d", c->id, fd, fd < 0 ? e : 0);
	c->rc = fd; c->err = e;
	if (fd < 0) {
		int ok = (e == EMFILE && faulty(F_EMFILE)) || (e == ENOSPC) ||
			(c->target == T_OK && ((e == ECONNREFUSED && faulty(F_REFUSE)) || (e == EDESTADDRREQ && faulty(F_DNS)) || (e == ECONNRESET && faulty(F_RESET)) || (e == ETIMEDOUT && !l->uds))) ||
			(c->target == T_REFUSED && (e == ECONNREFUSED || (e == EDESTADDRREQ && faulty(F_DNS)))) ||
			(c->target == T_UNREACH && e == ENETUNREACH) || (c->target == T_NONAME && e == EDESTADDRREQ) || (c->target == T_NOPATH && e == ENOENT);
		SIM_CHECK(fd == -1 && ok, "connect-error", "connect of client %d (target %d%s) gave %d with errno %d (%s)", c->id, c->target, l->uds ? " unix" : "", fd, e, strerror(e));
		c->state = -1;
	} else {
		SIM_CHECK(c->target == T_OK, "connect-false", "connect to a dead address (target %d) gave descriptor %d", c->target, fd);
		SIM_CHECK(sim_fd_is_open(fd) && sim_fd_nonblock(fd), "connect-fd", "connect gave descriptor %d, open %d, non-blocking %d", fd, sim_fd_is_open(fd), sim_fd_nonblock(fd));
		if (!getsockname(fd, (struct sockaddr *)&ss, &n) && !l->uds) c->port = ntohs(((struct sockaddr_in *)&ss)->sin_port);
		SIM_CHECK(socket_is_uds(fd) == l->uds && !socket_is_udp(fd), "connect-fd", "a %s connection: socket_is_uds %d, socket_is_udp %d", l->uds ? "Unix" : "TCP", socket_is_uds(fd), socket_is_udp(fd));
		c->state = 1;
		talk(c, fd);
		if (c->early == 3) sim_reset(fd);
		close(fd);
	}
	dec(&live);
}
static void *client_task(param_t args) { client(&C[args[0].integer]); return 0; }
/* a client that is another process */
static void actor(void *a) {
	struct cli *c = a; struct lst *l = &L[c->l]; int fd, r; uint64_t v = ((uint64_t)c->id << 32) | (uint32_t)code(c->id), w = 0; struct sockaddr_un u = {AF_UNIX}; struct sockaddr_in i4; socklen_t n;
	if (c->linger) sim_nap(sim_gen(c->linger) * MS);
	fd = socket(l->uds ? AF_UNIX : l->v6 ? AF_INET6 : AF_INET, SOCK_STREAM, 0);
	if (l->uds) { strcpy(u.sun_path, l->path); r = connect(fd, (struct sockaddr *)&u, sizeof u); }
	else if (l->v6) { struct sockaddr_in6 i6; memset(&i6, 0, sizeof i6); i6.sin6_family = AF_INET6; i6.sin6_port = htons(l->port); i6.sin6_addr.s6_addr[15] = 1; r = connect(fd, (struct sockaddr *)&i6, sizeof i6); }
	else { memset(&i4, 0, sizeof i4); i4.sin_family = AF_INET; i4.sin_port = htons(l->port); i4.sin_addr.s_addr = htonl(INADDR_LOOPBACK); r = connect(fd, (struct sockaddr *)&i4, sizeof i4); }
	c->rc = r;
	if (!r) {
		struct sockaddr_storage ss; n = sizeof i4; if (!l->uds && !getsockname(fd, (struct sockaddr *)&i4, &n)) c->port = ntohs(i4.sin_port);
		c->state = 1;
		if (c->early == 3) sim_reset(fd);
		else if (c->early != 1) {
			if (c->pause) sim_nap(sim_gen(c->pause) * MS);
			if (write(fd, &v, 8) == 8 && c->early != 2) { int got = 0, m; while (got < 8 && (m = read(fd, (char *)&w + got, 8 - got)) > 0) got += m; if (got == 8) { SIM_CHECK(w == (code(c->id) ^ 5), "conn-bytes", "client %d got the answer of another", c->id); c->state = 2; } else c->state = 3; }
		}
	} else c->state = -1;
	close(fd);
	dec(&live);
}
static void poison(void *a) { /* unblocks the acceptors of one listener */
	struct lst *l = a; struct sockaddr_un u = {AF_UNIX}; struct sockaddr_in i4; int fd, k;
	for (k = 0; k < 400 && l->accs; k++) {
		uint64_t v = (uint64_t)POISON << 32;
		fd = socket(l->uds ? AF_UNIX : l->v6 ? AF_INET6 : AF_INET, SOCK_STREAM, 0);
		if (l->uds) { strcpy(u.sun_path, l->path); connect(fd, (struct sockaddr *)&u, sizeof u); }
	else if (l->v6) { struct sockaddr_in6 i6; memset(&i6, 0, sizeof i6); i6.sin6_family = AF_INET6; i6.sin6_port = htons(l->port); i6.sin6_addr.s6_addr[15] = 1; connect(fd, (struct sockaddr *)&i6, sizeof i6); }
		else { memset(&i4, 0, sizeof i4); i4.sin_family = AF_INET; i4.sin_port = htons(l->port); i4.sin_addr.s_addr = htonl(INADDR_LOOPBACK); connect(fd, (struct sockaddr *)&i4, sizeof i4); }
		if (write(fd, &v, 8)) ;
		sim_nap(20 * MS);
		close(fd);
	}
}
static void monitor(void *x) {
	for (;;) {
		sim_nap(40 * MS);
		if (main_done) return;
		if (tick && sim_now() > tick + 3500 * MS + 2 * (sim_stalled_ns() - tick_stall)) sim_violation("blocked", "no other task ran for %.2f s while tasks wait for connections", (sim_now() - tick) / 1e9);
	}
}
static int started, fds0;
static void *boot(param_t args) { return 0; }
/* binding what cannot be bound fails, says why and leaves nothing behind */
static void bind_busy(void) {
	struct lst *l = &L[sim_gen(nl)]; int k = sim_gen(4), fd; errno = 0;
	if (l->uds && sim_gen(3) == 0) { /* a path that does not fit is nobody else's */
		char *p = malloc(200); int q = strlen(l->path), n = 108 + sim_gen(60); strcpy(p, l->path); while (q < n) p[q++] = 'x'; p[q] = 0;
		fd = (k = sim_gen(5)) == 0 ? uds_bind(p, 8) : k == 1 ? async_bind(p, 0, 8, -1) : k == 2 ? sock_unix(p, 8) : k == 3 ? uds_connect(p) : async_connect(p, 0, -1);
		SIM_CHECK(fd < 0 && errno == ENAMETOOLONG, "too-long", "a path of %d bytes gave %d, errno %d (%d)", n, fd, errno, k);
		return;
	}
	if (k == 3) fd = async_bind("no.such.host", 8100, 8, 1);
	else if (l->uds) { char p[128]; if (k == 2) strcpy(p, "/w/none/sock"); else strcpy(p, l->path); fd = k == 1 ? uds_bind(strcpy(malloc(136), p), 8) : sim_gen(3) ? async_bind(p, 0, 8, -1) : sock_unix(p, 8); }
	else if (sim_gen(3) == 0) fd = sock_bind(l->v6, l->port, 8);
	else fd = async_bind(l->v6 ? "[::1]" : "127.0.0.1", l->port, 8, 1);
	SIM_CHECK(fd < 0, "bind-twice", "async_bind gave %d for an address that is in use or does not exist", fd);
	SIM_CHECK(errno == (k == 3 ? EDESTADDRREQ : l->uds && k == 2 ? ENOENT : EADDRINUSE) || (errno == EMFILE && faulty(F_EMFILE)) || (k == 3 && errno), "bind-errno", "binding failed with errno %d", errno);
}
static void *main_task(param_t na) {
	int i, k; uint64_t t0;
	/* create what the library creates for itself first */
	deferring((func_t)boot, 0); signal(SIGPIPE, SIG_IGN); await_for(go(boot, 0)); accept_handler((client_cb)serve, -1);
	{ struct hostent *h = async_gethostbyname("localhost"); (void)h; }
	delay(5);
	sim_faults_hold(0); fds0 = sim_open_fds();
	nl = 1 + sim_gen(MAXL); nc = 1 + sim_gen(sim_gen(4) ? 8 : 30);
	for (i = 0; i < nl; i++) { struct lst *l = &L[i]; l->uds = sim_gen(2); l->v6 = !l->uds && sim_gen(4) == 0; l->port = 8000 + i; snprintf(l->path, sizeof l->path, sim_gen(4) ? "/w/sock%d" : "/w/a:sock%d", i); if (sim_gen(3) == 0) { int n = 20 + sim_gen(88), q = strlen(l->path); if (sim_gen(2)) n = 103 + sim_gen(5); while (q < n) l->path[q++] = 'a' + i; l->path[q] = 0; } l->cap = sim_gen(2) ? 60 : 1 + sim_gen(3); async_ex(Kb(64), (launch_func_t)listener, 1, casting(i)); }
	sim_spawn_helper("monitor", monitor, NULL);
	for (k = 0; k < 3000; k++) { for (i = started = 0; i < nl; i++) started += L[i].accs > 0; if (started == nl) break; delay(2); }
	SIM_CHECK(started == nl, "bind-error", "a listener did not start");
	live = nc;
	for (i = 0; i < nc; i++) {
		struct cli *c = &C[i]; c->id = i; c->l = sim_gen(nl); c->role = sim_gen(3); c->target = T_OK; c->name = sim_gen(3);
		if (c->role != R_ACTOR && sim_gen(5) == 0) c->target = 1 + sim_gen(4);
		if (c->target == T_REFUSED && L[c->l].uds) c->target = T_NOPATH;
		if (sim_gen(4) == 0) c->early = 1 + sim_gen(3);
		if (sim_gen(2)) c->pause = 1 + sim_gen(30);
		if (sim_gen(2)) c->linger = 1 + sim_gen(40);
		switch (c->role) {
		case R_TASK: async_ex(Kb(64), (launch_func_t)client_task, 1, casting(i)); break;
		case R_POOL: go(client_task, 1, casting(i)); break;
		default: sim_spawn_actor("client", actor, c);
		}
		if (sim_gen(4) == 0) delay(sim_gen(20));
		if (sim_gen(6) == 0) bind_busy();
	}
	t0 = sim_now();
	while (live) { tick_stall = sim_stalled_ns(); tick = sim_now(); SIM_CHECK(sim_now() < t0 + 300000 * MS, "no-connection", "clients still wait after 300 s"); delay(1 + sim_gen(20)); }
	for (k = 0; served_live && k < 3000; k++) { tick_stall = sim_stalled_ns(); tick = sim_now(); delay(2); }
	for (i = 0; i < nc; i++) {
		struct cli *c = &C[i];
		if (c->target == T_OK && c->state >= 1 && c->early != 1 && c->early != 3 && !faulty(F_RESET))
			SIM_CHECK(c->served == 1 || (c->early == 2), "conn-lost", "connection of client %d (role %d) was established but served %d times", i, c->role, c->served);
		if (c->state == 3 && !faulty(F_RESET)) sim_violation("conn-broken", "client %d: its connection broke without an answer (errno %d)", i, c->err);
		SIM_CHECK(c->target != T_OK || c->rc >= 0 || faulty(F_REFUSE) || faulty(F_EMFILE) || faulty(F_DNS) || faulty(F_RESET) || c->err == ETIMEDOUT || c->role == R_ACTOR, "connect-error", "client %d was not connected", i);
	}
	for (i = 0; i < nl; i++) { L[i].done = 1; sim_spawn_actor("poison", poison, &L[i]); }
	for (k = 0; stopping < nl && k < 5000; k++) { tick_stall = sim_stalled_ns(); tick = sim_now(); delay(2); }
	SIM_CHECK(stopping == nl, "accept-lost", "an acceptor does not get connections any more");
	for (k = 0; (served_live || sim_open_fds() != fds0) && k < 3000; k++) { tick_stall = sim_stalled_ns(); tick = sim_now(); delay(2); }
	SIM_CHECK(sim_open_fds() == fds0, "fd-leak", "%d descriptors are open after all connections ended, %d before", sim_open_fds(), fds0);
	/* a service that is started again gets its port back, whatever waits there of the connections it had */
	for (i = 0; i < nl; i++) if (!L[i].uds) {
		for (k = 0; k < 400; k++) {
			int fd, e; errno = 0; fd = sim_gen(2) ? sock_bind(L[i].v6, L[i].port, 4) : async_bind(L[i].v6 ? "[::1]" : "127.0.0.1", L[i].port, 4, 1); e = errno; tick_stall = sim_stalled_ns(); tick = sim_now();
			if (fd >= 0) { close(fd); break; }
			SIM_CHECK((e == EMFILE && faulty(F_EMFILE)) || (e == EADDRINUSE && faulty(F_REFUSE)), "bind-again", "port %d of a listener that ended can't be used again: %d (%s)", L[i].port, e, strerror(e));
			delay(1);
		}
		SIM_CHECK(k < 400, "bind-again", "port %d of a listener that ended can't be used again", L[i].port);
	}
	for (i = 0; i < nl; i++) if (L[i].byuds) { for (k = 0; simfs_exists(L[i].path) && k < 1000; k++) { tick_stall = sim_stalled_ns(); tick = sim_now(); delay(2); } SIM_CHECK(!simfs_exists(L[i].path), "path-left", "%s is still there after the task that bound it ended", L[i].path); }
	main_done = 1;
	return 0;
}
SIM_WORKLOAD(conn, "eagain short_read net_delay refuse abort_conn emfile dns_fail reset poll_error stall", "listeners, connecting tasks, pool tasks and other processes") { wl_my_alloc(4);
	int r; sim_faults_hold(1); sim_cfg.max_hooks *= 2; sim_cfg.poll_step_us = 100 << sim_gen(5);
	r = events_start(wl_fds(128 + sim_gen(100)), (main_cb)main_task, 0);
	SIM_CHECK(main_done, "task-lost", "the main task did not finish (events_start gave %d)", r);
	sim_done();
}
