/* P26: a system that keeps doing the same gives back what finished work took. */
#include "wl.h"
#include <async_io.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <signal.h>
#include <unistd.h>
#include <string.h>
#undef write
#undef read
#undef close
#undef pipe
extern long sim_write(int, const void *, size_t); extern long sim_read(int, void *, size_t); extern int sim_close(int);
#define MS 1000000ull
#define ROUNDS 12
EX_EXCEPTION(wl_st);
enum { A_TASKS, A_GROUP, A_GEN, A_JOB, A_GO, A_THREAD, A_EXC, A_STREAM, A_TCP, A_UNIX, A_UDP, A_FILE, A_CHILD, A_WATCH, A_NAME, A_POPEN, A_TIMER, A_LOOPFD, A_EXEC, A_HANDLER, A_UDPH, A_SIGNAL, A_STDIO, A_CANCEL, A_FAIL, A_LOOP, A_SENDTO, NACT };
static const char *aname[] = {"tasks", "group", "generator", "jobs", "go", "thread", "exceptions", "stream", "tcp", "unix", "udp", "files", "child", "watch", "names", "popen", "timers", "descriptor", "exec", "handler", "packet-handler", "signal", "stdio", "cancel", "failing", "loop", "sendto"};
static int act[4], na, cnt[4], main_done, gens, lst = -1;
static const char *forced; __attribute__((constructor)) static void dev(void) { forced = getenv("STEADY"); }
static void *val(param_t args) { if (args[1].integer) yield(); return (void *)(intptr_t)(args[0].integer + 1000); }
static void *genbody(param_t args) { int i, n = args[0].integer; for (i = 0; i < n; i++) yielding((void *)(intptr_t)(i + 1)); return 0; }
static void *job(param_t args) { if (args[0].integer & 1) sim_nap(sim_gen(300) * 1000); if (args[0].integer % 5 == 2) return sim_gen(2) ? arrays(2, casting(7), casting(8)) : $(casting(9)); return (void *)(intptr_t)(args[0].integer + 5); }
static void *tfn(param_t args) { sim_nap(sim_gen(300) * 1000); return (void *)(intptr_t)77; }
static void dfn(void *p) { }
static void *throws(param_t args) {
	deferring((func_t)dfn, 0); defer_free(events_malloc(24));
	try { if (args[0].integer & 1) throw(wl_st); } catch_any { }
	return 0;
}
static void occ(fds_t fd, size_t n, char *b) { }
static void xcb(int64_t st, int sg) { }
static int prog(int argc, char **argv, char **envp) { sim_write(1, "hello\n", 6); return 3; }
static void wcb(int wd, events_monitors m, const char *name, void *filter) { }
static void tcb(actor_t *h, void *arg) { ++*(int *)arg; }
static void fcb(fds_t fd, int ev, void *arg) { char b[4]; sim_read(socket2fd(fd), b, 1); ++*(int *)arg; }
static void *echo(param_t args) { char b[16]; int fd = args[0].integer, r = async_read(fd, b, 8); if (r > 0) async_write(fd, b, r); close(fd); return 0; }
static void *peer(param_t args) {
	char b[16]; int fd; while ((fd = args[0].integer ? (sprintf(b, "/w/st%d", args[0].integer - 1), uds_connect(b)) : async_connect("127.0.0.1", 7000, 1)) <= 0) delay(1);
	async_write(fd, "12345678", 8); async_read(fd, b, 8); close(fd);
	return 0;
}
static int handled, sigs;
static void conn_cb(int fd) { char b[16]; int r = async_read(fd, b, 8); if (r > 0) async_write(fd, b, r); handled = 1; }
static void pkt_cb(udp_t p) { if (sim_gen(2)) udp_message(p); udp_send(p, "answer", 6); handled = 1; }
static void scb(int sig, int ev, void *arg) { sigs++; }
static void *forever(param_t args) { while (!task_is_canceled()) yield(); return 0; }
static void one(int a, int i, int n) {
	switch (a) {
	case A_TASKS: { uint32_t id[16]; int k; for (k = 0; k < n; k++) id[k] = async_task(val, 2, casting(k), casting(sim_gen(2))); for (k = 0; k < n; k++) await_for(id[k]); break; }
	case A_GROUP: { task_group_t *g = task_group(); int k; for (k = 0; k < n; k++) async_task(val, 2, casting(k), casting(1)); tasks_wait(g); break; }
	case A_GEN: { gens++; generator_t g = generator(genbody, 1, casting(n)); int k; while (yielded(g).object) ; break; }
	case A_JOB: { promise *p[16]; int k; for (k = 0; k < n; k++) p[k] = queue_work(futures_pool(), job, 1, casting(k)); for (k = 0; k < n; k++) queue_get(p[k]); break; }
	case A_GO: { waitgroup_t g = waitgroup(n); int k; for (k = 0; k < n; k++) go(val, 2, casting(k), casting(1)); waitfor(g); break; }
	case A_THREAD: { future_t f[16]; int k; for (k = 0; k < n; k++) f[k] = thrd_async(tfn, 0); for (k = 0; k < n; k++) if (is_future(f[k])) thrd_get(f[k]); break; }
	case A_EXC: { int k; for (k = 0; k < n; k++) await_for(async_task(throws, 1, casting(k))); break; }
	case A_STREAM: { int p[2], k; char b[16]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p)) break; uint32_t id = async_task(echo, 1, casting(p[0])); async_write(p[1], "12345678", 8); async_read(p[1], b, 8); close(p[1]); await_for(id); break; }
	case A_TCP: case A_UNIX: { uint32_t id; int fd, u = a == A_UNIX;
		int l; static char path[4][12];
		if (u) { sprintf(path[i], "/w/st%d", i); l = uds_bind(path[i], 60); } else l = lst > 0 ? lst : (lst = async_bind("127.0.0.1", 7000, 60, 1));
		if (l < 0) break;
		id = async_task(peer, 1, casting(u ? 1 + i : 0)); while ((fd = u ? uds_accept(l, NULL) : async_accept(l, NULL, NULL)) <= 0) delay(1);
		await_for(async_task(echo, 1, casting(fd))); await_for(id); if (u) close(l); break; }
	case A_UDP: { struct sockaddr_in s; int fd = udp_bind("127.0.0.1:7100", 0), c; udp_t p; if (fd <= 0) break;
		memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(7100); s.sin_addr.s_addr = htonl(INADDR_LOOPBACK); c = socket(AF_INET, SOCK_DGRAM, 0);
		for (int k = 0; k < n; k++) if (sendto(c, "dgram", 5, 0, (struct sockaddr *)&s, sizeof s) == 5 && (p = udp_recv(fd))) { udp_message(p); udp_ip(p); udp_send(p, "answer", 6); defer_free(p); }
		sim_close(c);
		if ((c = udp_bind("127.0.0.1:7101", 0)) > 0) { udp_to(c, sim_gen(2) ? "127.0.0.1:7100" : "udp://127.0.0.1:7100", 0); for (int k = 0; k < n; k++) if (async_sendto(c, "dgram", 5) == 5 && (p = udp_recv(fd))) { udp_message(p); udp_send(p, "answer", 6); defer_free(p); char b[8]; async_recvfrom(c, b, 8, 0); } close(c); }
		close(fd); break; }
	case A_FILE: { char *s; fs_writefile("/w/a", "some text"); s = fs_readfile("/w/a"); fs_copyfile("/w/a", "/w/b"); fs_rename("/w/b", "/w/c"); fs_exists("/w/c"); fs_filesize("/w/a"); fs_unlink("/w/c"); fs_mkdir("/w/d", 0700); fs_rmdir("/w/d"); fs_open("/w/none/x", 0, 0); break; }
	case A_CHILD: { execinfo_t *c = spawn("/bin/st", "a,b", sim_gen(2) ? occ : NULL, xcb); if (c) while (!spawn_is_finish(c)) delay(2); break; }
	case A_EXEC: { int code; execinfo_t *c = exec_info("A=1;B=2", false, inherit, inherit, inherit); process_t ps; if (!c) break; ps = exec("/bin/st", "a,b", c); if (ps > 0) while (exec_wait(ps, 50, i & 1 ? &code : NULL) < 0 && errno == ETIMEDOUT) delay(2); break; }
	case A_WATCH: { int id = fs_events("/w", wcb, NULL); delay(5); if (id > 0) fs_events_cancel(id); delay(5); break; }
	case A_NAME: { async_gethostbyname("h1.test"); struct addrinfo *r = NULL; if (!async_getaddrinfo("h2.test", NULL, NULL, &r)) freeaddrinfo(r); break; }
	case A_POPEN: { promise *p = promise_popen("/bin/st", "r"); FILE *f = promise_wait(p).object; char b[40]; if (f) while (promise_fgets(p, b, sizeof b, f)) ; promise_pclose(p, f); break; }
	case A_TIMER: { int hits = 0, k; for (k = 0; k < n; k++) events_actor(event_loop(), k, tcb, &hits); while (hits < n) delay(3); break; }
	case A_HANDLER: { uint32_t id; int fd, l; handled = 0; if ((l = async_bind("127.0.0.1", 7000, 60, 1)) < 0) break; id = async_task(peer, 1, casting(0)); while ((fd = async_accept(l, NULL, NULL)) <= 0) delay(1); accept_handler((client_cb)conn_cb, fd); await_for(id); while (!handled || sim_fd_is_open(fd)) delay(2); close(l); break; }
	case A_UDPH: { struct sockaddr_in s; int fd = udp_bind("127.0.0.1:7200", 0), c; udp_t p; if (fd <= 0) break; handled = 0;
		memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(7200); s.sin_addr.s_addr = htonl(INADDR_LOOPBACK); c = socket(AF_INET, SOCK_DGRAM, 0);
		if (sendto(c, "dgram", 5, 0, (struct sockaddr *)&s, sizeof s) == 5 && (p = udp_recv(fd))) { udp_handler(pkt_cb, p); while (!handled) delay(2); delay(2); }
		sim_close(c); close(fd); break; }
	case A_SIGNAL: { sigs = 0; if (events_add(event_loop(), SIGUSR1, EVENTS_SIGNAL, 0, (events_cb)scb, NULL)) break; sim_kill_main(SIGUSR1); while (!sigs) delay(2); events_del(SIGUSR1); break; }
	case A_STDIO: { char b[40]; FILE *f = fs_fopen("/w/s", "w+"); if (!f) break; fs_fwrite("some text\n", 1, 10, f); fs_fclose(f); promise *p = promise_fopen("/w/s", "r"); f = promise_wait(p).object; if (f) { promise_fgets(p, b, 40, f); promise_fgetc(p, f); } promise_fclose(p, f); async_fprintf("/w/t", "a", "more"); break; }
	case A_CANCEL: { uint32_t id = async_task(forever, 0); yield(); task_set_canceled(id); await_for(id); break; }
	case A_FAIL: { static char u1[] = "/w/none/s", u2[] = "/w/no"; int fd;
		switch (i + cnt[0]) {
		case 1: async_connect("127.0.0.1", 59000, 1); uds_connect(u2); break;
		case 2: uds_bind(u1, 4); async_bind("nowhere.test", 80, 4, 1); fd = async_bind("127.0.0.1", 7300, 4, 1); async_bind("127.0.0.1", 7300, 4, 1); if (fd > 0) close(fd); { struct sockaddr_un u = { .sun_family = AF_UNIX }; async_socket((struct sockaddr *)&u, u1, 4, -1); } break;
		case 3: async_gethostbyname("nowhere.test"); spawn("/bin/none", "a", NULL, xcb); break;
		case 4: fs_open("/w/none", 0, 0); fs_readfile("/w/none"); fs_copyfile("/w/none", "/w/x"); fs_writefile("/w/none/x", "x"); fs_fopen("/w/none", "r"); break;
		default: udp_bind("nowhere.test:90", 0); if ((fd = fs_events("/w/none", wcb, NULL)) > 0) { delay(5); fs_events_cancel(fd); }
		} break; }
	case A_LOOP: { events_t *l = events_create(16); int p[2] = {-1, -1}, hits = 0; if (!l) break; events_actor(l, 1000, tcb, &hits); if (!pipe2(p, 0x800)) { events_set_nonblocking(p[0]); events_add(l, p[0], EVENTS_READ, 3, fcb, &hits); if (i & 1) events_del(p[0]); } events_destroy(l); sim_close(p[0]); sim_close(p[1]); break; }
	case A_SENDTO: { char b[16]; int fd = udp_bind("127.0.0.1:7400", 0), c = udp_connect("127.0.0.1:7400"); if (c > 0) async_sendto(c, "xyz", 3); if (fd > 0 && c > 0) { udp_t p = udp_recv(fd); if (p) { udp_message(p); udp_send(p, "abc", 3); defer_free(p); } async_recvfrom(c, b, 16, 0); } if (fd > 0) close(fd); if (c > 0) close(c); break; }
	case A_LOOPFD: { int p[2], hits = 0; if (pipe2(p, 0x800)) break; events_set_nonblocking(p[0]); events_add(event_loop(), p[0], EVENTS_READ, i & 1 ? 5 : 0, fcb, &hits); sim_write(p[1], "x", 1); while (!hits) delay(2); events_del(p[0]); close(p[0]); close(p[1]); break; }
	}
}
static void *round_task(param_t args) { int k, i; for (k = 0; k < na; k++) for (i = 0; i < cnt[k]; i++) one(act[k], i, 1 + i % 6); return 0; }
static void *st_main(param_t na_) {
	int r, k; long b[ROUNDS], f[ROUNDS], y[ROUNDS], id; char what[100] = "";
	for (r = 0; r < na; r++) { strcat(what, aname[act[r]]); strcat(what, " "); }
	deferring((func_t)dfn, 0); signal(SIGPIPE, SIG_IGN); sim_faults_hold(0);
	for (r = 0; r < ROUNDS; r++) {
		id = async_task(round_task, 0); await_for(id); delay(20); delay(20);
		b[r] = sim_arena_live() - id - gens; /* the records of results and generators stay until the end */ f[r] = sim_open_fds(); y[r] = sim_arena_live_bytes() - 48 * (id + gens); sim_note("round %d: %ld blocks, %ld descriptors (%s), task %ld", r, b[r], f[r], what, id);
	}
	int g = 0; for (r = ROUNDS - 6; r < ROUNDS; r++) g += b[r] > b[r - 1];
	for (k = 0; g == 6 && k < 60 && sim_arena_live() - id - gens > b[ROUNDS - 6]; k++) delay(50); /* what ends in its own time */
	if (sim_arena_live() - id - gens <= b[ROUNDS - 6]) g = 0;
	SIM_CHECK(g < 6, "memory-grows", "%s: %ld, %ld, ... %ld, %ld, %ld blocks of memory", what, b[0], b[1], b[ROUNDS - 3], b[ROUNDS - 2], b[ROUNDS - 1]);
	for (g = 0, r = ROUNDS - 6; r < ROUNDS; r++) g += f[r] > f[r - 1];
	SIM_CHECK(g < 6, "fds-grow", "%s: %ld, %ld, ... %ld, %ld, %ld descriptors", what, f[0], f[1], f[ROUNDS - 3], f[ROUNDS - 2], f[ROUNDS - 1]);
	for (g = 0, r = ROUNDS - 6; r < ROUNDS; r++) g += y[r] > y[r - 1];
	for (k = 0; g == 6 && k < 60 && sim_arena_live_bytes() - 48 * (id + gens) > y[ROUNDS - 6]; k++) delay(50);
	if (sim_arena_live_bytes() - 48 * (id + gens) <= y[ROUNDS - 6]) g = 0;
	SIM_CHECK(g < 6, "memory-grows", "%s: %ld, %ld, ... %ld, %ld, %ld bytes of memory", what, y[0], y[1], y[ROUNDS - 3], y[ROUNDS - 2], y[ROUNDS - 1]);
	main_done = 1;
	return 0;
}
SIM_WORKLOAD(steady, "eagain short_read short_write emfile eio enospc dns_fail fork_fail stall", "the same work again and again") { wl_my_alloc(4);
	int r, k; sim_faults_hold(1); sim_cfg.poll_step_us = 100 << sim_gen(5); sim_cfg.max_hooks *= 3;
	simfs_mkdir("/w"); sim_register_prog("/bin/st", prog);
	na = 1 + sim_gen(3); for (k = 0; k < na; k++) { act[k] = sim_gen(NACT); cnt[k] = 1 + sim_gen(3); }
	if (forced) { na = 1; for (k = 0; k < NACT; k++) if (!strcmp(forced, aname[k])) act[0] = k; }
	r = events_start(128, (main_cb)st_main, 0);
	SIM_CHECK(main_done, "task-lost", "the main task did not finish (events_start gave %d)", r);
	sim_done();
}
