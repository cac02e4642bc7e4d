/* P25: lookups, entropy and programs opened as streams, done aside for several tasks. */
#include "wl.h"
#include <netdb.h>
#include <arpa/inet.h>
#include <sys/wait.h>
#define PLAIN __attribute__((no_sanitize_thread))
#define MS 1000000ull
#define NT 8
extern long sim_write(int, const void *, size_t), sim_read(int, void *, size_t);
static struct T { int left, pool, done; uint8_t ent[300]; } T[NT]; static int nt, live, main_done, base_fds;
/* programs by number: what they print or expect */
#define NP 200
static struct P { int lines, code, inp, got, runs, ended, slow; } P[NP]; static int np;
static int line(int id, int k, char *b) { int i, n = sprintf(b, "p%d-%d-", id, k); for (i = (id * 7 + k * 13) % 60; i > 0; i--) b[n++] = 'a' + (id + k + i) % 26; b[n++] = '\n'; b[n] = 0; return n; }
static uint8_t pat(int id, int off) { return (uint8_t)('A' + (off * 7 + off / 26 + id) % 50); }
static int prog(int argc, char **argv, char **envp) {
	int id = -1, k, n, w; char b[100], x[512]; struct P *p;
	SIM_CHECK(argc == 3 && sscanf(argv[2], "/bin/aside %d", &id) == 1 && id >= 0 && id < np, "wrong-arguments", "a program was started as \"%s\"", argc == 3 ? argv[2] : "");
	p = &P[id]; p->runs++;
	for (k = 0; k < p->lines; k++) { n = line(id, k, b); w = sim_write(1, b, n); if (w != n) sim_note("program %d: write gave %d", id, w); if (p->slow) sim_nap(sim_choose(ST_ENV, 30) * MS); }
	if (p->inp) for (;;) { n = sim_read(0, x, sizeof x); if (n <= 0) break; for (k = 0; k < n; k++, p->got++) SIM_CHECK((uint8_t)x[k] == pat(id, p->got), "wrong-input", "byte %d of the input of program %d is %d", p->got, id, x[k]); if (p->slow) sim_nap(sim_choose(ST_ENV, 10) * MS); }
	p->ended = 1; return p->code;
}
static uint64_t ff(void) { return sim_fault_count(F_DNS); }
static void pause_(void) { switch (sim_gen(4)) { case 0: break; case 1: case 2: yield(); break; default: delay(sim_gen(30)); } }
static void step(int t) {
	char name[32], svc[12]; uint64_t f0 = ff(); int k = sim_gen(60000), kind = sim_gen(8), r; uint32_t want = htonl(0x0a070000 + k), got;
	sprintf(name, "h%d.test", k); if (kind == 0) sprintf(name, "n%d.test", k); else if (kind == 1) sprintf(name, "10.7.%d.%d", k >> 8, k & 255);
	switch (sim_gen(7)) {
	case 6: { /* address texts and addresses */
		u_saddr_t u; struct in_addr a4; struct in6_addr a6; char w[100], v[INET6_ADDRSTRLEN]; int port = sim_gen(65536), ver = -1, form = sim_gen(7), i;
		a4.s_addr = sim_gen(0x10000) << 16 | sim_gen(0x10000); for (i = 0; i < 16; i += 2) { int x = sim_gen(3) ? sim_gen(0x10000) : 0; a6.s6_addr[i] = x >> 8; a6.s6_addr[i + 1] = x; } a6.s6_addr[0] = 0x20;
		if (form == 1) port = 0;
		inet_ntop(AF_INET6, &a6, v, sizeof v);
		switch (form) {
		case 0: sprintf(w, "%s:%d", inet_ntop(AF_INET, &a4, v, sizeof v), port); break;
		case 1: inet_ntop(AF_INET, &a4, w, sizeof w); break;
		case 2: sprintf(w, "%d", port); a4.s_addr = 0; break;
		case 3: sprintf(w, "%s:%d", name, port); a4.s_addr = want; break;
		case 4: sprintf(w, "nowhere%d.test:%d", k, port); break;
		default: sprintf(w, "[%s]:%d", v, port);
		}
		memset(&u, 0x55, sizeof u); r = async_parse_addr(strcpy(malloc(100), w), &u, &ver);
		if ((form == 3 && kind == 0) || form == 4) { SIM_CHECK(!r && !ver, "wrong-answer", "task %d: async_parse_addr of %s gave %d, version %d", t, w, r, ver); break; }
		if (!r && form > 2 && ff() > f0) break;
		SIM_CHECK(r == 1 && ver == (form > 4 ? 6 : 4), "wrong-answer", "task %d: async_parse_addr of %s gave %d, version %d", t, w, r, ver);
		if (form > 4) SIM_CHECK(u.sin6.sin6_family == AF_INET6 && ntohs(u.sin6.sin6_port) == port && !memcmp(&u.sin6.sin6_addr, &a6, 16), "wrong-answer", "task %d: async_parse_addr of %s gave another address", t, w);
		else SIM_CHECK(u.sin.sin_family == AF_INET && ntohs(u.sin.sin_port) == port && u.sin.sin_addr.s_addr == a4.s_addr, "wrong-answer", "task %d: async_parse_addr of %s gave %08x port %d", t, w, ntohl(u.sin.sin_addr.s_addr), ntohs(u.sin.sin_port));
		f0 = ff(); memset(w, 7, sizeof w); async_sockaddr_str(w, 46, &u);
		if (form > 4) inet_ntop(AF_INET6, &a6, v, sizeof v); else inet_ntop(AF_INET, &a4, v, sizeof v);
		SIM_CHECK(!strcmp(w, v) || (ff() > f0 && !*w), "wrong-answer", "task %d: async_sockaddr_str of %s gave %.60s", t, v, w);
		for (i = 46; i < 100; i++) SIM_CHECK(w[i] == 7, "wrote-beyond", "task %d: async_sockaddr_str wrote byte %d of 46", t, i);
		break; }
	case 0: {
		struct hostent *he = async_gethostbyname(name);
		if (!he) { SIM_CHECK(kind == 0 || ff() > f0, "lookup-failed", "task %d: looking up %s failed", t, name); break; }
		SIM_CHECK(kind, "wrong-answer", "task %d: looking up %s, which does not exist, gave an answer", t, name);
		for (r = sim_gen(3); ; r--) {
			SIM_CHECK(!strcmp(he->h_name, name), "wrong-answer", "task %d: the answer for %s has name %s", t, name, he->h_name);
			SIM_CHECK(he->h_addrtype == AF_INET && he->h_length == 4 && he->h_addr_list[0] && !he->h_addr_list[1], "wrong-answer", "task %d: answer for %s of a wrong kind", t, name);
			memcpy(&got, he->h_addr_list[0], 4); SIM_CHECK(got == want, "wrong-answer", "task %d: %s is %08x, not %08x", t, name, ntohl(want), ntohl(got));
			if (r <= 0) break;
			pause_();
		}
		{ char *ip, buf[20]; sprintf(buf, "10.7.%d.%d", k >> 8, k & 255); ip = gethostbyname_ip(he); SIM_CHECK(ip && !strcmp(ip, buf), "wrong-answer", "task %d: gethostbyname_ip of %s gave %s", t, buf, ip ? ip : "null"); }
		break; }
	case 1: {
		if (sim_gen(3) == 0) {
			struct { struct sockaddr_in a; char more[40]; } d; int i, dl = sim_gen(4) ? sizeof d : sizeof d.a - sim_gen(2); memset(&d, 7, sizeof d);
			r = async_inet_pton(AF_INET, name, &d, dl, sim_gen(2));
			for (i = r ? sizeof d.a : 0; i < (int)sizeof d; i++) SIM_CHECK(((char *)&d)[i] == 7, "wrote-beyond", "task %d: async_inet_pton (%d) wrote byte %d", t, r, i);
			if (!r) { SIM_CHECK(kind == 0 || dl < (int)sizeof d.a || ff() > f0, "lookup-failed", "task %d: async_inet_pton of %s failed", t, name); break; }
			SIM_CHECK(r == 1 && kind && dl >= (int)sizeof d.a && d.a.sin_family == AF_INET && d.a.sin_addr.s_addr == want && !d.a.sin_port, "wrong-answer", "task %d: async_inet_pton of %s into %d bytes gave %d, %08x:%d", t, name, dl, r, ntohl(d.a.sin_addr.s_addr), ntohs(d.a.sin_port));
			break; }
		struct addrinfo h, *ai = NULL; memset(&h, 0, sizeof h); if (sim_gen(2)) h.ai_family = AF_INET; h.ai_socktype = SOCK_STREAM; sprintf(svc, "%d", 1 + k);
		r = async_getaddrinfo(name, svc, &h, &ai);
		if (r) { SIM_CHECK(kind == 0 ? r == EAI_NONAME || (r == EAI_AGAIN && ff() > f0) : r == EAI_AGAIN && ff() > f0, "lookup-failed", "task %d: looking up %s gave %d", t, name, r); break; }
		SIM_CHECK(kind && ai, "wrong-answer", "task %d: looking up %s, which does not exist, gave an answer", t, name);
		pause_();
		{ struct sockaddr_in *a = (struct sockaddr_in *)ai->ai_addr; SIM_CHECK(ai->ai_family == AF_INET && a->sin_addr.s_addr == want && ntohs(a->sin_port) == 1 + k, "wrong-answer", "task %d: %s:%d answered as %08x:%d", t, name, 1 + k, ntohl(a->sin_addr.s_addr), ntohs(a->sin_port)); }
		freeaddrinfo(ai);
		break; }
	case 2: {
		struct sockaddr_in a; char host[64], wh[32], ws[12]; int fl = (sim_gen(3) ? NI_NUMERICHOST : 0) | (sim_gen(3) ? NI_NUMERICSERV : 0), hl = sizeof host, sl = sizeof svc, hn, sn, i; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = want; a.sin_port = htons(1 + k);
		memset(host, 7, sizeof host); memset(svc, 7, sizeof svc); sprintf(wh, "10.7.%d.%d%s", k >> 8, k & 255, fl & NI_NUMERICHOST ? "" : ".rev"); sprintf(ws, fl & NI_NUMERICSERV ? "%d" : "port%d", 1 + k);
		hn = strlen(wh) + 1; sn = strlen(ws) + 1;
		if (sim_gen(3) == 0) hl = hn - (int)sim_gen(3) + 1; if (sim_gen(3) == 0) sl = sn - (int)sim_gen(3) + 1;
		r = async_getnameinfo((sockaddr_t *)&a, sizeof a, host, hl, svc, sl, fl);
		for (i = hl; i < (int)sizeof host; i++) SIM_CHECK(host[i] == 7, "wrote-beyond", "task %d: async_getnameinfo wrote byte %d of a host of %d bytes", t, i, hl);
		for (i = sl; i < (int)sizeof svc; i++) SIM_CHECK(svc[i] == 7, "wrote-beyond", "task %d: async_getnameinfo wrote byte %d of a service of %d bytes", t, i, sl);
		if (hl < hn || sl < sn) { SIM_CHECK(r == EAI_OVERFLOW, "wrong-answer", "task %d: async_getnameinfo into %d and %d bytes gave %d", t, hl, sl, r); break; }
		pause_();
		SIM_CHECK(r == 0 && !strcmp(host, wh) && !strcmp(svc, ws), "wrong-answer", "task %d: async_getnameinfo gave %d, %.60s %.11s instead of %s %s", t, r, host, svc, wh, ws);
		break; }
	case 3: {
		int n = 8 + sim_gen(sim_gen(4) ? 200 : 280), i, z; uint8_t *b = T[t].ent; memset(b, 0, sizeof T[t].ent);
		errno = 0; r = async_getentropy(b, n);
		if (n > 256) { SIM_CHECK(r == -1 && errno == EIO, "wrong-answer", "task %d: %d bytes of entropy gave %d, errno %d", t, n, r, errno); break; }
		SIM_CHECK(r == 0, "lookup-failed", "task %d: %d bytes of entropy gave %d", t, n, r);
		for (i = z = 0; i < n; i++) z += b[i] == 0;
		SIM_CHECK(z < 6 && z < n, "wrong-answer", "task %d: %d of %d bytes of entropy are 0", t, z, n);
		for (; i < 300; i++) SIM_CHECK(!b[i], "wrong-answer", "task %d: %d bytes of entropy were asked for, byte %d was written", t, n, i);
		break; }
	default: {
		int id, rd = sim_gen(3), i, n, st; promise *p; FILE *f; char cmd[40], b[600], w[100]; struct P *q; uint64_t fb = sim_fault_count(F_FORK) + sim_fault_count(F_EMFILE);
		sim_nopreempt(1); if (np >= NP) { sim_nopreempt(0); return; } id = np++; sim_nopreempt(0);
		q = &P[id]; q->lines = rd ? sim_gen(20) : 0; q->inp = !rd; q->code = sim_gen(3) ? sim_gen(120) : 0; q->slow = sim_gen(2);
		sprintf(cmd, "/bin/aside %d", id);
		p = promise_popen(cmd, rd ? "r" : "w"); SIM_CHECK(is_promise(p), "lookup-failed", "task %d: promise_popen", t); f = promise_wait(p).object;
		if (!f) { SIM_CHECK(sim_fault_count(F_FORK) + sim_fault_count(F_EMFILE) > fb, "popen-failed", "task %d: promise_popen gave no stream", t); SIM_CHECK(!q->runs, "popen-failed", "a program runs without a stream"); promise_pclose(p, NULL); break; }
		if (rd == 1) { /* lines */
			for (i = 0; i < q->lines + 1; i++) { char *g; memset(b, 0, sizeof b); if (sim_gen(8) == 0) { int c = promise_fgetc(p, f), wl = i < q->lines ? line(id, i, w) : 0; SIM_CHECK(c == (wl ? (unsigned char)w[0] : EOF), "wrong-output", "promise_fgetc at line %d of %d of program %d gave %d", i, q->lines, id, c); if (!wl) break; g = promise_fgets(p, b + 1, sizeof b - 1, f); b[0] = c; if (g) g = b; } else g = promise_fgets(p, b, sizeof b, f);
				if (i < q->lines) { line(id, i, w); SIM_CHECK(g == b && !strcmp(b, w), "wrong-output", "line %d of %d of program %d is \"%.60s\", not \"%.60s\"", i, q->lines, id, g ? b : "(none)", w); } else SIM_CHECK(!g, "wrong-output", "program %d printed more than its %d lines", id, q->lines);
				if (sim_gen(4) == 0) pause_(); }
		} else if (rd == 2) { /* bytes */
			char all[2000]; int o = 0, m = 0; for (i = 0; i < q->lines; i++) m += line(id, i, all + m);
			for (;;) { int c = 1 + sim_gen(300), j; n = promise_read(p, fileno(f), b, c); SIM_CHECK(n >= 0 && n <= c, "wrong-output", "promise_read of program %d gave %d", id, n); if (n == 0) break; SIM_CHECK(o + n <= m, "wrong-output", "program %d printed more than its %d bytes", id, m); for (j = 0; j < n; j++) SIM_CHECK(b[j] == all[o + j], "wrong-output", "byte %d of the output of program %d", o + j, id); o += n; if (sim_gen(4) == 0) pause_(); }
			SIM_CHECK(o == m, "wrong-output", "%d of %d bytes of output of program %d", o, m, id);
		} else {
			int tot = sim_gen(4000), o = 0; uint64_t fe = sim_fault_count(F_SHORT_WRITE);
			while (o < tot) { n = 1 + sim_gen(500); if (n > tot - o) n = tot - o; for (i = 0; i < n; i++) b[i] = pat(id, o + i); r = promise_fwrite(p, b, 1, n, f); SIM_CHECK(r == n, "wrong-input", "promise_fwrite of %d bytes to program %d gave %d", n, id, r); o += n; if (sim_gen(4) == 0) pause_(); }
			(void)fe; q->lines = tot;
		}
		st = promise_pclose(p, f);
		SIM_CHECK(q->runs == 1 && q->ended, "popen-failed", "promise_pclose of program %d came back before it ended (started %d times)", id, q->runs);
		SIM_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == q->code, "wrong-status", "promise_pclose of program %d gave %x, it exited with %d", id, st, q->code);
		if (!rd) SIM_CHECK(q->got == q->lines, "wrong-input", "program %d got %d of %d bytes", id, q->got, q->lines);
		break; }
	}
}
static void *atask(param_t args) {
	int t = args[0].integer;
	while (T[t].left-- > 0 && sim_steps() < 4000000) { step(t); if (sim_gen(3) == 0) pause_(); }
	sim_nopreempt(1); live--; T[t].done++; sim_nopreempt(0); return 0;
}
static uint64_t tick;
static void *ticker(param_t args) {
	while (live) { uint64_t st = sim_stalled_ns(), d; tick = sim_now(); delay(5); d = sim_now() - tick; SIM_CHECK(d < 3500 * MS + 2 * (sim_stalled_ns() - st), "blocked", "other tasks stood still for %llu ms while a request ran", (unsigned long long)(d / MS)); }
	return 0;
}
static void *amain(param_t na) {
	int i;
	events_init_pool(1 + sim_gen(3) * sim_gen(2)); base_fds = sim_open_fds();
	for (i = 0; i < nt; i++) { T[i].left = 1 + sim_gen(14); T[i].pool = i && sim_gen(4) == 0; }
	live = nt; sim_faults_hold(0);
	async_task(ticker, 0);
	for (i = 1; i < nt; i++) if (T[i].pool) go(atask, 1, casting(i)); else async_task(atask, 1, casting(i));
	atask((param_t)arrays(1, casting(0)));
	while (live) delay(10);
	sim_faults_hold(1);
	for (i = 0; i < nt; i++) SIM_CHECK(T[i].done == 1, "task-lost", "task %d finished %d times", i, T[i].done);
	SIM_CHECK(sim_open_fds() <= base_fds, "fd-leak", "%d descriptors are left open", sim_open_fds() - base_fds);
	main_done = 1;
	return 0;
}
SIM_WORKLOAD(aside, "short_read short_write slow_disk dns_fail fork_fail emfile stall", "lookups, entropy and programs opened as streams by several tasks") { wl_my_alloc(4);
	int r; nt = 1 + sim_gen(NT);
	sim_register_prog("/bin/aside", prog);
	sim_cfg.poll_step_us = 400 << sim_gen(4);
	sim_cfg.max_hooks *= 3;
	sim_faults_hold(1);
	r = events_start(wl_fds(256), (main_cb)amain, 0);
	SIM_CHECK(main_done, "task-lost", "the main task did not finish (events_start gave %d)", r);
	sim_done();
}
