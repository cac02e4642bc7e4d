/* P17: named pipes, opened by their short or full name, read by tasks or callbacks, beside other descriptors. */
#include "wl.h"
#include <async_io.h>
#include <sys/socket.h>
#include <fcntl.h>
#include <unistd.h>
extern ssize_t sim_write(int, const void *, size_t); extern int sim_close(int);
#define NP 6
static char name[NP][16], path[NP][24]; static int np, total[NP], got[NP], rfd[NP], wfd[NP], by_task[NP], round_, rounds, main_done;

static unsigned char code(int k, int i) { return (unsigned char)(i * 7 + k * 31 + round_ * 13 + (i >> 8)); }
static void took(int k, unsigned char *b, int n) {
	int i; for (i = 0; i < n; i++) SIM_CHECK(got[k] + i < total[k] && b[i] == code(k, got[k] + i), "wrong-bytes", "named pipe %s: byte %d of %d is %02x", name[k], got[k] + i, total[k], b[i]);
	got[k] += n;
}
static void ready(fds_t fd, int ev, void *arg) {
	unsigned char b[300]; int k = (int)(intptr_t)arg, n = read(fd, b, 1 + sim_gen(sizeof b));
	SIM_CHECK(fd == rfd[k], "wrong-descriptor", "the callback of %s is given %d", name[k], fd);
	if (n > 0) took(k, b, n); else SIM_CHECK(n < 0 && (errno == EAGAIN || errno == EINTR), "read-failed", "read of %s gives %d, error %d", name[k], n, n < 0 ? errno : 0);
	if (got[k] == total[k]) events_del(fd);
}
static void *reader(param_t args) {
	unsigned char b[300]; int k = args[0].integer, n;
	while (got[k] < total[k]) { n = async_read(rfd[k], (char *)b, 1 + sim_gen(sizeof b)); SIM_CHECK(n > 0, "read-failed", "async_read of %s gives %d after %d of %d", name[k], n, got[k], total[k]); took(k, b, n); }
	return 0;
}
static void *writer(param_t args) {
	unsigned char b[400]; int k = args[0].integer, at = 0, n, i, r;
	while (at < total[k]) {
		n = 1 + sim_gen(sizeof b); if (n > total[k] - at) n = total[k] - at;
		for (i = 0; i < n; i++) b[i] = code(k, at + i);
		r = async_write(wfd[k], (char *)b, n); SIM_CHECK(r == n, "write-failed", "async_write to %s gives %d of %d", name[k], r, n); at += n;
		if (sim_gen(4) == 0) delay(sim_gen(4));
	}
	return 0;
}
/* a socket pair beside: its descriptors are nobody else's */
static void *beside(param_t args) {
	int p[2], i, n, k = args[0].integer; char b[8], c; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p)) return 0;
	for (i = 0; i < 6; i++) { c = 'A' + i + k; SIM_CHECK(async_write(p[0], &c, 1) == 1, "write-failed", "socket pair %d", k); n = async_read(p[1], b, sizeof b); SIM_CHECK(n == 1 && *b == c, "wrong-bytes", "the socket pair %d,%d gives %d byte(s), %02x for %02x", p[0], p[1], n, *b, c); if (sim_gen(2)) delay(sim_gen(3)); }
	for (i = 0; i < 2; i++) { SIM_CHECK(close(p[i]) == 0 && !sim_fd_is_open(p[i]), "not-closed", "close of %d", p[i]); }
	return 0;
}
static void *ff_main(param_t args) {
	int k, n, o, fl, e; uint32_t id[3 * NP + 4];
	sim_faults_hold(0);
	for (round_ = 0; round_ < rounds; round_++) {
		np = 1 + sim_gen(NP); o = sim_gen(3);
		for (k = 0; k < np; k++) {
			sprintf(name[k], "ff%d", k + 10); if (o) snprintf(name[k], (o == 1 ? k : NP - k) + 3, "ffabcdefg"); sprintf(path[k], "/tmp/%s", name[k]); total[k] = 1 + sim_gen(sim_gen(3) ? 200 : 9000); got[k] = 0; by_task[k] = sim_gen(2); rfd[k] = wfd[k] = -1;
			n = mkfifo(name[k], 0600); e = errno;
			SIM_CHECK(n == 0, "mkfifo-failed", "mkfifo of %s gives %d, error %d", name[k], n, e);
			SIM_CHECK(!strcmp(mkfifo_name(), path[k]), "wrong-name", "mkfifo_name gives %s for %s", mkfifo_name(), path[k]);
			if (sim_gen(4) == 0) SIM_CHECK(mkfifo(name[k], 0600) == -1 && errno == EEXIST, "made-twice", "a second mkfifo of %s", name[k]);
		}
		if (sim_gen(3) == 0) SIM_CHECK(open("ffnone", O_RDWR | O_NONBLOCK, 0) == -1, "opened", "a pipe that was not made");
		for (k = 0; k < np; k++) {
			while ((rfd[k] = open(sim_gen(2) ? name[k] : path[k], O_RDWR | O_NONBLOCK, 0)) < 0) { SIM_CHECK(errno == EMFILE || errno == EIO, "open-failed", "open of %s: error %d", name[k], errno); delay(1); }
			while ((wfd[k] = open(sim_gen(2) ? name[k] : path[k], O_WRONLY | O_NONBLOCK, 0)) < 0) { SIM_CHECK(errno == EMFILE || errno == EIO, "open-failed", "open of %s to write: error %d", name[k], errno); delay(1); }
		}
		for (n = k = 0; k < np; k++) {
			if (by_task[k]) id[n++] = async_task(reader, 1, casting(k));
			else SIM_CHECK(events_add(event_loop(), rfd[k], EVENTS_READ, 0, (events_cb)ready, (void *)(intptr_t)k) == 0, "add-failed", "%s", name[k]);
			id[n++] = async_task(writer, 1, casting(k));
			if (sim_gen(2)) id[n++] = async_task(beside, 1, casting(k));
		}
		for (k = 0; k < n; k++) await_for(id[k]);
		for (k = 0; k < np; k++) while (got[k] < total[k]) delay(1);
		for (k = 0; k < np; k++) {
			close(wfd[k]); close(rfd[k]); SIM_CHECK(!sim_fd_is_open(wfd[k]) && !sim_fd_is_open(rfd[k]), "not-closed", "%s: %d, %d", name[k], rfd[k], wfd[k]);
			while (unlink(path[k])) SIM_CHECK(errno == EIO, "unlink-failed", "%s: error %d", path[k], errno);
		}
	}
	main_done = 1;
	return 0;
}
SIM_WORKLOAD(fifo, "eagain short_read short_write eintr emfile stall clock_jump", "named pipes") { wl_my_alloc(4);
	int r; sim_faults_hold(1); simfs_mkdir("/tmp"); rounds = 1 + sim_gen(3); sim_cfg.poll_step_us = 100 << sim_gen(5);
	if (sim_gen(12) == 0) rounds += 100, sim_cfg.max_hooks *= 4;
	r = events_start(64, (main_cb)ff_main, 0);
	SIM_CHECK(main_done, "task-lost", "the main task did not finish (events_start gave %d)", r);
	sim_done();
}
