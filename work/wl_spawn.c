/* P22: child processes. */
#include "wl.h"
#include <sys/wait.h>
#include <signal.h>
extern long sim_write(int, const void *, size_t); extern long sim_read(int, void *, size_t); extern int sim_close(int), sim_getpid(void);
extern char **environ;
#define PLAIN __attribute__((no_sanitize_thread))
#define MS 1000000ull
#define NK 24
/* One child: what it is to do and what has been seen of it. */
typedef struct kid {
	int api, code, sig, nin, close_out, nerr, killed, cgi, missing, detached;
	int total, written, planned_end, ended, pid, started;      /* the child's side */
	int got, inw, errgot, exited, st, ts, calls, gone;          /* the parent's side */
	uint64_t t, end_t, stall; execinfo_t *c;
	int nargs; char args[6][24]; int nenv; char env[5][2600];
} kid;
static kid K[NK]; static int nk, left, main_done, base_fds, ndet;
static uint8_t pat(int id, int off, int salt) { return (uint8_t)(off * 7 + (off >> 8) * 13 + id * 31 + salt); }
static void fill(int id, int salt, int off, uint8_t *b, int n) { int i; for (i = 0; i < n; i++) b[i] = pat(id, off + i, salt); }
PLAIN static int same(int id, int salt, int off, const uint8_t *b, int n) { int i; for (i = 0; i < n; i++) if (b[i] != pat(id, off + i, salt)) return i; return -1; }
static void seen(kid *k) { k->t = sim_now(); k->stall = sim_stalled_ns(); }

/* the program: runs as a process of its own */
static int prog(int argc, char **argv, char **envp) {
	int id = -1, i, n, w; kid *k; static uint8_t bufs[NK][20000]; uint8_t *b, x[512];
	for (i = 0; i < 5 && argv[0] && argv[1] && argv[1][0] == 'c'; i++) { id = argv[1][1] - 'a'; break; }
	SIM_CHECK(argc > 1 && id >= 0 && id < nk, "wrong-arguments", "a child was started with first argument \"%s\" (%d arguments)", argc > 1 ? argv[1] : "", argc);
	b = bufs[id]; k = &K[id]; k->pid = sim_getpid(); seen(k);
	SIM_CHECK(!k->started, "started-twice", "child %d was started twice", id);
	k->started = 1; sim_note("child %d pid %d", id, k->pid);
	SIM_CHECK(sim_own_session() == (k->detached != 0), "wrong-session", "child %d, %s, %s a session of its own", id, k->detached ? "detached" : "not detached", k->detached ? "does not have" : "has");
	SIM_CHECK(!strcmp(argv[0], "/bin/kid"), "wrong-arguments", "child %d was started as \"%s\"", id, argv[0]);
	SIM_CHECK(argc == 1 + k->nargs, "wrong-arguments", "child %d got %d arguments, not %d", id, argc - 1, k->nargs);
	for (i = 0; i < k->nargs; i++) SIM_CHECK(!strcmp(argv[1 + i], k->args[i]), "wrong-arguments", "argument %d of child %d is \"%s\", not \"%s\"", i + 1, id, argv[1 + i], k->args[i]);
	if (k->nenv) {
		for (i = 0; envp[i]; i++) SIM_CHECK(i < k->nenv && !strcmp(envp[i], k->env[i]), "wrong-environment", "entry %d of child %d is \"%.60s\", not \"%.60s\"", i, id, envp[i], i < k->nenv ? k->env[i] : "");
		SIM_CHECK(i == k->nenv, "wrong-environment", "child %d got %d entries, not %d", id, i, k->nenv);
	} else {
		for (i = 0; envp[i] && environ[i]; i++) SIM_CHECK(!strcmp(envp[i], environ[i]), "wrong-environment", "entry %d of child %d is not the parent's", i, id);
		SIM_CHECK(!envp[i] && !environ[i], "wrong-environment", "child %d did not get the parent's environment", id);
	}
	for (i = 3; i < 1090; i++) SIM_CHECK(strncmp(sim_own_fd_kind(i), "pipe", 4), "leaked-into-child", "child %d has got descriptor %d of its parent, a pipe", id, i);
	if (k->api == 1 || k->nerr == 0) n = 0; else n = k->nerr;
	for (w = 0; w < n; ) { int c = n - w > 512 ? 512 : n - w, r; fill(id, 5, w, x, c); r = sim_write(2, x, c); if (r <= 0) break; w += r; }
	while (k->written < k->total) {
		n = 1 + sim_choose(ST_ENV, sim_choose(ST_ENV, 3) ? 300 : 20000); if (n > k->total - k->written) n = k->total - k->written;
		fill(id, 0, k->written, b, n);
		for (i = 0; i < n; i += w) {
			w = sim_write(1, b + i, n - i);
			SIM_CHECK(w > 0, "output-refused", "child %d: writing %d bytes of output gave %d (errno %d) after %d of %d bytes", id, n - i, w, errno, k->written, k->total);
			k->written += w; seen(k);
		}
		if (k->nin) {
			int r, o = 0;
			while (o < k->nin) { r = sim_read(0, x, sizeof x); SIM_CHECK(r > 0, "input-lost", "child %d: reading its input gave %d (errno %d) after %d of %d bytes", id, r, errno, o, k->nin); SIM_CHECK(same(id, 9, o, x, r) < 0 && o + r <= k->nin, "wrong-input", "child %d read something else than was written to it, at %d", id, o); o += r; seen(k); }
			k->nin = 0;
		}
		if (sim_choose(ST_ENV, 3) == 0) { sim_nap(sim_choose(ST_ENV, k->api == 2 ? 4 : 40) * MS / 2); seen(k); }
	}
	if (k->close_out) sim_close(1);
	if (sim_choose(ST_ENV, 2)) sim_nap(sim_choose(ST_ENV, k->api == 2 ? 20 : 300) * MS);
	k->ended = 1; k->end_t = sim_now(); seen(k); sim_note("child %d ends", id);
	if (k->sig) sim_proc_die(k->sig);
	return k->code;
}
static void output(int id, int fd, int n, const char *d) {
	kid *k = &K[id]; int i; uint8_t x[300];
	sim_nopreempt(1); sim_note("output %d: %d", id, n); seen(k);
	SIM_CHECK(k->started, "wrong-output", "output of child %d, which was not started", id);
	SIM_CHECK(!k->exited, "output-after-exit", "output of child %d was delivered after its exit", id);
	SIM_CHECK(n > 0, "wrong-output", "child %d: output of %d bytes", id, n);
	i = same(id, 0, k->got, (const uint8_t *)d, n);
	SIM_CHECK(i < 0, "wrong-output", "byte %d of child %d is not what it wrote there", k->got + i, id);
	k->got += n; k->calls++;
	if (k->c) SIM_CHECK(fd == (int)exec_fdin(k->c), "wrong-fd", "the input of child %d is descriptor %d, its callback is given %d", id, (int)exec_fdin(k->c), fd);
	SIM_CHECK(k->got <= k->total, "wrong-output", "child %d delivered %d bytes of %d", id, k->got, k->total);
	SIM_CHECK(d[n] == 0, "wrong-output", "output of child %d (%d bytes) is not ended by a zero byte", id, n);
	sim_nopreempt(0);
	if (k->nin && k->inw == 0) {
		int r, t = 0;
		while (k->inw < k->nin && t++ < 200) { i = k->nin - k->inw; if (i > 300) i = 300; fill(id, 9, k->inw, x, i); r = write(fd, x, i); if (r > 0) k->inw += r; else SIM_CHECK(errno == EAGAIN || errno == EINTR || k->killed, "wrong-input", "writing to child %d failed with errno %d", id, errno); }
	}
}
static void exited(int id, int st, int ts) {
	kid *k = &K[id]; sim_nopreempt(1); sim_note("exit %d: %d %d", id, st, ts);
	SIM_CHECK(!k->exited, "exit-twice", "the exit of child %d was reported twice", id);
	k->exited = 1; k->st = st; k->ts = ts; seen(k);
	if (k->missing) SIM_CHECK(st != 0 || ts != 0, "false-success", "a program that does not exist ended with success");
	else {
		SIM_CHECK(k->ended || k->killed, "early-exit", "the exit of child %d was reported while it was running", id);
		if (k->killed && !k->ended) SIM_CHECK(ts == k->killed && st != 0 - 0x7777, "wrong-status", "child %d was killed by signal %d, reported: status %d, signal %d", id, k->killed, st, ts);
		else if (k->sig) SIM_CHECK(ts == k->sig, "wrong-status", "child %d ended by signal %d, reported: status %d, signal %d", id, k->sig, st, ts);
		else SIM_CHECK(st == k->code && ts == 0, "wrong-status", "child %d ended with %d, reported: status %d, signal %d", id, k->code, st, ts);
		if (k->api <= 1) {
			if (k->ended || !k->killed) SIM_CHECK(k->got == k->written, "output-lost", "child %d wrote %d bytes, %d were delivered before its exit", id, k->written, k->got);
			else SIM_CHECK(k->got >= k->written, "output-lost", "child %d wrote %d bytes, %d were delivered before its exit", id, k->written, k->got);
		}
	}
	sim_nopreempt(0);
}
#define CB(n) static void o##n(fds_t f, size_t c, char *d) { output(n, (int)f, (int)c, d); } static void x##n(int s, int t) { exited(n, s, t); }
CB(0) CB(1) CB(2) CB(3) CB(4) CB(5) CB(6) CB(7) CB(8) CB(9) CB(10) CB(11) CB(12) CB(13) CB(14) CB(15) CB(16) CB(17) CB(18) CB(19) CB(20) CB(21) CB(22) CB(23)
#define T(p) { p##0, p##1, p##2, p##3, p##4, p##5, p##6, p##7, p##8, p##9, p##10, p##11, p##12, p##13, p##14, p##15, p##16, p##17, p##18, p##19, p##20, p##21, p##22, p##23 }
static const spawn_cb ocb[] = T(o); static const exit_cb xcb[] = T(x);

static char *build_env(kid *k) {
	char *e = NULL; size_t n = 0; int i, j, len; static const char *const nm[] = { "A", "PATH", "REQUEST_METHOD", "HTTP_X_LONG_NAME", "Z9" };
	if (!k->nenv) return NULL;
	for (i = 0; i < k->nenv; i++) {
		char *p = k->env[i]; strcpy(p, nm[i]); j = strlen(p); p[j++] = '=';
		len = sim_gen(8) ? sim_gen(20) : sim_gen(2500);
		while (len--) p[j++] = " abcXYZ09=/,.:%"[sim_gen(15)]; p[j] = 0;
	}
	for (i = 0; i < k->nenv; ) {
		char *v[5]; int m = 1 + sim_gen(2); if (m > k->nenv - i) m = k->nenv - i;
		for (j = 0; j < m; j++) v[j] = strchr(k->env[i + j], '=') + 1;
		e = m == 1 ? exec_addenv(e, &n, 1, kv(nm[i], v[0])) : exec_addenv(e, &n, 2, kv(nm[i], v[0]), kv(nm[i + 1], v[1]));
		i += m;
	}
	SIM_CHECK(e && strlen(e) == n, "wrong-environment", "exec_addenv made %zu characters, size says %zu", e ? strlen(e) : 0, n);
	return e;
}
static char *build_args(kid *k, char *a) {
	int i, j, len; a[0] = 0;
	for (i = 0; i < k->nargs; i++) {
		char *p = k->args[i];
		if (i == 0) { p[0] = 'c'; p[1] = 'a' + (k - K); p[2] = 0; }
		else { len = sim_gen(20) + 1; for (j = 0; j < len; j++) p[j] = "ab =;X\"'-_/\\$*"[sim_gen(14)]; p[j] = 0; }
		if (i) strcat(a, ","); strcat(a, p);
	}
	return a;
}
static uint64_t trouble(void) { return sim_fault_count(F_EMFILE) + sim_fault_count(F_FORK) + sim_fault_count(F_ENOMEM) + sim_fault_count(F_POLLERR); }
static void *one(param_t a) {
	int id = a[0].integer, i, r; kid *k = &K[id]; char args[160]; uint8_t x[200]; execinfo_t *c; char *env; uint64_t f0;
	build_args(k, args); env = build_env(k); seen(k);
	f0 = trouble(); sim_note("spawn %d", id);
	if (k->cgi) c = spawn_cgi(k->missing ? "/bin/none" : "/bin/kid", args, env, k->api ? NULL : ocb[id], xcb[id]);
	else c = spawn(k->missing ? "/bin/none" : "/bin/kid", args, k->api ? NULL : ocb[id], xcb[id]);
	if (!c) {
		SIM_CHECK(trouble() > f0, "not-started", "child %d could not be spawned, although nothing failed", id);
		k->gone = 1; SIM_CHECK(!k->started && !k->exited, "false-failure", "spawn of child %d reported failure, and it was started", id);
		left--; return 0;
	}
	i = (int)spawn_pid(c);
	sim_nopreempt(1);
	if (!k->api && !k->exited && !spawn_is_finish(c)) {
		k->c = c;
		SIM_CHECK(sim_fd_is_open(exec_fdin(c)) && sim_fd_is_open(exec_fdout(c)) && exec_fdin(c) != exec_fdout(c), "wrong-fd", "child %d runs, the pipes to it are %d and %d", id, (int)exec_fdin(c), (int)exec_fdout(c));
		SIM_CHECK(sim_fd_nonblock(exec_fdin(c)) && sim_fd_nonblock(exec_fdout(c)), "blocking", "a pipe to child %d blocks the thread", id);
	}
	sim_nopreempt(0);
	while (!k->exited && sim_steps() < 14000000) {
		SIM_CHECK(!spawn_is_finish(c), "early-exit", "child %d counts as finished before its exit", id);
		if (k->started) SIM_CHECK((int)spawn_pid(c) == k->pid && i == k->pid, "wrong-pid", "child %d is process %d, spawn_pid says %d", id, k->pid, (int)spawn_pid(c));
		if (k->cgi && k->nerr && !k->api && k->errgot < k->nerr) {
			r = read(exec_fderr(c), (char *)x, 1 + sim_gen(200));
			if (r > 0) { SIM_CHECK(same(id, 5, k->errgot, x, r) < 0, "wrong-output", "child %d: error output is not what it wrote", id); k->errgot += r; seen(k); }
		}
		if (k->killed < 0 && sim_gen(30) == 0 && k->started && !k->ended) { k->killed = -k->killed; sim_note("kill %d", id); kill(k->pid, k->killed); seen(k); }
		sim_nopreempt(1); SIM_CHECK(sim_now() - k->t < 3500 * MS + 2 * (sim_stalled_ns() - k->stall), k->ended || k->killed > 0 || k->missing ? "exit-lost" : "stuck", k->ended || k->killed > 0 || k->missing ? "the exit of child %d was not reported" : "child %d makes no progress, %d of %d bytes delivered, %d of %d bytes given to it", id, k->got, k->written, k->inw, k->nin); sim_nopreempt(0);
		if (sim_gen(3)) delay(1 + sim_gen(10)); else yield();
	}
	left--; return 0;
}
/* exec and exec_wait, without tasks */
static void plain(int id) {
	kid *k = &K[id]; char args[160]; int p[2] = { -1, -1 }, e[2] = { -1, -1 }, ip[2] = { -1, -1 }, r, code = -99, t, o = 0; uint8_t x[512]; char *env; process_t ps; execinfo_t *c; uint64_t f0, t0, s0; static uint8_t inb[600];
	build_args(k, args); env = build_env(k); seen(k); f0 = trouble();
	sim_faults_hold(1);
	if (pipe2(p, O_CLOEXEC) || pipe2(ip, O_CLOEXEC)) sim_harness_error("no pipe");
	if (k->nerr && pipe2(e, O_CLOEXEC)) sim_harness_error("no pipe");
	sim_faults_hold(0);
	c = exec_info(env, k->detached, ip[0], p[1], e[1]);
	if (c) ps = exec("/bin/kid", args, c);
	if (env) events_free(env);
	close(p[1]); close(ip[0]); if (e[1] >= 0) close(e[1]);
	if (!c || ps <= 0) { SIM_CHECK(trouble() > f0, "not-started", "child %d could not be started, although nothing failed", id); SIM_CHECK(!k->started, "false-failure", "exec of child %d reported failure, and it was started", id); k->gone = 1; }
	else {
		if (k->nin) { fill(id, 9, 0, inb, k->nin); t = k->nin; while (o < t) { r = write(ip[1], inb + o, t - o); if (r > 0) o += r; } }
		if (k->detached) { ndet++; base_fds++; r = exec_wait(ps, sim_gen(2) ? 0 : 50, &code); SIM_CHECK(r == 0, "wrong-result", "exec_wait of a detached child gave %d", r); while (!k->ended) delay(5); }
		else for (;;) {
			t = sim_gen(3) == 0 ? -1 : sim_gen(3) ? 1 + sim_gen(60) : 0;
			t0 = sim_now(); s0 = sim_stalled_ns(); o = k->ended; errno = 0;
			r = exec_wait(ps, (uint32_t)t, &code);
			if (r == 0) { SIM_CHECK(k->ended, "early-exit", "exec_wait ended while child %d was running", id); SIM_CHECK(code == (k->sig ? -k->sig : k->code), "wrong-status", "child %d ended with %d, exec_wait gave %d", id, k->sig ? -k->sig : k->code, code); k->exited = 1; break; }
			SIM_CHECK(errno == ETIMEDOUT, "wrong-result", "exec_wait failed with errno %d", errno);
			SIM_CHECK(t != -1, "early-exit", "exec_wait without a time limit ended early");
			SIM_CHECK(!o, "exit-lost", "child %d had ended, and exec_wait timed out", id);
			SIM_CHECK(sim_now() - t0 < (uint64_t)t * MS * 3 + 500 * MS + 2 * (sim_stalled_ns() - s0), "late-timeout", "exec_wait of %d ms took %.3f s", t, (sim_now() - t0) / 1e9);
			SIM_CHECK(sim_now() - t0 + MS >= (uint64_t)t * MS, "early-timeout", "exec_wait of %d ms took %.3f ms", t, (sim_now() - t0) / 1e6);
			if (sim_gen(2)) delay(sim_gen(10));
		}
		for (;;) { r = read(p[0], (char *)x, sizeof x); if (r < 0 && (errno == EINTR || errno == EAGAIN)) continue; if (r <= 0) break; SIM_CHECK(same(id, 0, k->got, x, r) < 0, "wrong-output", "output of child %d is not what it wrote", id); k->got += r; }
		SIM_CHECK(k->got == k->total, "output-lost", "child %d wrote %d bytes, %d arrived", id, k->total, k->got);
		for (o = 0; k->nerr; o += r) { r = read(e[0], (char *)x, sizeof x); if (r < 0 && (errno == EINTR || errno == EAGAIN)) { r = 0; continue; } if (r <= 0) break; SIM_CHECK(same(id, 5, o, x, r) < 0, "wrong-output", "error output of child %d is not what it wrote", id); }
		SIM_CHECK(o == k->nerr, "output-lost", "child %d wrote %d bytes to its error output, %d arrived", id, k->nerr, o);
	}
	close(p[0]); close(ip[1]); if (e[0] >= 0) close(e[0]);
}
static void make(int plainly) {
	kid *k = &K[nk++]; memset(k, 0, sizeof *k);
	k->nargs = 1 + sim_gen(5); k->code = sim_gen(3) ? sim_gen(4) : sim_gen(256); if (sim_gen(5) == 0) k->sig = (int[]){ 6, 9, 11, 15 }[sim_gen(4)];
	if (sim_gen(2)) k->nenv = 1 + sim_gen(5);
	if (plainly) { k->api = 2; k->total = sim_gen(3000); k->detached = sim_gen(6) == 0; if (k->total && sim_gen(3) == 0) k->nin = 1 + sim_gen(500); if (sim_gen(2)) k->nerr = 1 + sim_gen(2000); return; }
	k->cgi = k->nenv > 0; k->api = sim_gen(8) == 0;
	switch (sim_gen(6)) { case 0: break; case 1: case 2: k->total = 1 + sim_gen(200); break; case 3: case 4: k->total = 1 + sim_gen(8000); break; default: k->total = 1 + sim_gen(200000); }
	if (k->api) k->total = 0;
	if (k->total && sim_gen(3) == 0) k->nin = 1 + sim_gen(3000);
	if (sim_gen(4) == 0) k->killed = -(sim_gen(2) ? 9 : 15);
	if (sim_gen(3) == 0) k->close_out = 1;
	if (k->cgi && sim_gen(2)) k->nerr = 1 + sim_gen(5000);
	if (sim_gen(12) == 0) { k->missing = 1; k->killed = 0; }
}
static void *noise(param_t a) { while (left > 0 && sim_steps() < 14000000) { delay(1 + sim_gen(20)); if (sim_gen(4) == 0) { int w = sim_gen(5); while (w--) yield(); } } return 0; }
static void *wmain(param_t na) {
	int round, rounds = 1 + sim_gen(3), i, n;
	if (sim_gen(2)) events_init_pool(1 + sim_gen(2));
	delay(1); base_fds = sim_open_fds(); sim_faults_hold(0);
	for (round = 0; round < rounds && nk < NK - 6 && sim_steps() < 8000000; round++) {
		if (sim_gen(3) == 0) { make(1); plain(nk - 1); }
		n = 1 + sim_gen(4); left = n;
		for (i = 0; i < n; i++) { make(0); async_ex(Kb(64), (launch_func_t)one, 1, casting(nk - 1)); if (sim_gen(3) == 0) delay(sim_gen(20)); }
		if (sim_gen(2)) async_task(noise, 0);
		while (left > 0 && sim_steps() < 14000000) delay(1 + sim_gen(10));
	}
	sim_faults_hold(1);
	if (sim_steps() >= 14000000) { main_done = 1; return 0; }
	delay(50);
	SIM_CHECK(sim_zombies() == ndet, "zombie", "%d children were not reaped", sim_zombies() - ndet);
	if (sim_open_fds() != base_fds) for (i = 0; i < 1090; i++) if (sim_fd_is_open(i)) sim_note("open: %d %s", i, sim_fd_kind(i));
	SIM_CHECK(sim_open_fds() == base_fds, "fd-leak", "%d descriptors are open after all children ended, there were %d", sim_open_fds(), base_fds);
	for (i = 0; i < nk; i++) if (!K[i].gone && !K[i].detached) SIM_CHECK(K[i].exited, "exit-lost", "the exit of child %d was not reported", i);
	main_done = 1;
	return 0;
}
SIM_WORKLOAD(spawn, "emfile fork_fail short_read short_write eintr stall", "children with output, input, arguments and environment, killed or ending by themselves") { wl_my_alloc(4);
	int r;
	sim_register_prog("/bin/kid", prog);
	sim_cfg.poll_step_us = 400 << sim_gen(4);
	sim_cfg.max_hooks *= 3;
	sim_faults_hold(1);
	r = events_start(wl_fds(256), (main_cb)wmain, 0);
	SIM_CHECK(main_done, "task-lost", "the main task did not finish (events_start gave %d)", r);
	sim_done();
}
