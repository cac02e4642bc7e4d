/* P20: file operations done by worker threads. */
#include "wl.h"
#include <fcntl.h>
#include <sys/stat.h>
#undef open
#undef read
#undef write
#undef close
#define MS 1000000ull
#define PLAIN __attribute__((no_sanitize_thread))
#define NTASK 4
#define NF 5
#define MAXL 300000
typedef struct mi { int len, dir, mode, nopen, nlink; uint8_t *d; } mi;
static struct ft { mi *f[NF]; int sub; struct { int fd; mi *m; int pos, fl; uint64_t id; } h[4]; int left, big; uint32_t ctr; } T[NTASK];
static int ntask, live, main_done, only; static uint64_t tick, tick_stall;
static uint64_t faults(void) { return sim_fault_count(F_EIO) + sim_fault_count(F_ENOSPC) + sim_fault_count(F_EMFILE); }
static char pbuf[NTASK][4][64]; static int pn[NTASK];
static char *path(int t, int k) { char *b = pbuf[t][pn[t]++ & 3]; snprintf(b, 64, "/d%d/f%d", t, k); return b; }
PLAIN static void fill(struct ft *x, uint8_t *b, int n, int text) { uint32_t c = x->ctr += 7919; for (int i = 0; i < n; i++) { uint32_t v = (c + i) * 2654435761u >> 15; b[i] = text ? 'a' + v % 26 : v; if (text && i % 37 == 36) b[i] = '\n'; } }
static int size(struct ft *x) { switch (sim_gen(5)) { case 0: return 0; case 1: return 1 + sim_gen(10); case 2: return 1 + sim_gen(5000); case 3: return 4095 + sim_gen(3); default: return x->big ? 1 + sim_gen(MAXL / 4) : 1 + sim_gen(9000); } }
/* an operation that failed with `e`, though the model says it should have given `want` (0: success) */
static void bad(int t, const char *op, uint64_t f0, int e, int want) {
	if (faults() == f0) {
		SIM_CHECK(want, "false-failure", "task %d: %s failed with %d (%s), the system call does not", t, op, e, strerror(e));
		SIM_CHECK(e == want, "wrong-errno", "task %d: %s failed with error number %d (%s) instead of %d (%s)", t, op, e, strerror(e), want, strerror(want));
	} else SIM_CHECK((want && e == want) || e == EIO || e == ENOSPC || e == EMFILE, "wrong-errno", "task %d: %s failed with error number %d (%s)", t, op, e, strerror(e));
}
static void judge(int t, const char *op, uint64_t f0, int r, int e, int want) {
	if (r < 0) { SIM_CHECK(r == -1, "wrong-result", "task %d: %s gave %d", t, op, r); bad(t, op, f0, e, want); }
	else SIM_CHECK(!want, "false-success", "task %d: %s gave %d though the system call fails with %d (%s)", t, op, r, want, strerror(want));
}
static mi *mi_new(int dir) { mi *m = calloc(1, sizeof *m); m->d = dir ? NULL : malloc(MAXL); m->dir = dir; m->nlink = 1; return m; }
static void mi_unlink(mi **p) { (*p)->nlink = 0; if (!(*p)->nopen) { free((*p)->d); free(*p); } *p = NULL; }
/* what is on the disk is taken over as it is: after a failed operation */
static void resync(int t, int k) {
	int e = simfs_exists(path(t, k)); mi **m = &T[t].f[k];
	if (!e) { if (*m) mi_unlink(m); return; }
	if (!*m) { *m = mi_new(e == 2); (*m)->mode = -1; }
	if (e == 1) { static uint8_t b[MAXL]; sim_nopreempt(1); long n = simfs_get(path(t, k), b, MAXL); memcpy((*m)->d, b, n); (*m)->len = n; sim_nopreempt(0); }
}
static void disk(int t, int k, const char *op) {
	int e = simfs_exists(path(t, k)); mi *m = T[t].f[k]; static uint8_t b[MAXL];
	SIM_CHECK(e == (m ? m->dir ? 2 : 1 : 0), "wrong-effect", "task %d: after %s entry %d is %s", t, op, k, e == 0 ? "absent" : e == 1 ? "a file" : "a directory");
	if (e != 1) return;
	sim_nopreempt(1);
	long n = simfs_get(path(t, k), b, MAXL);
	SIM_CHECK(n == m->len, "wrong-effect", "task %d: after %s file %d has %ld bytes instead of %d", t, op, k, n, m->len);
	SIM_CHECK(!memcmp(b, m->d, n), "wrong-effect", "task %d: after %s file %d has wrong contents", t, op, k);
	sim_nopreempt(0);
}
static void whole(int t, int k, int r, int e, uint64_t f0, const char *op) { if (r < 0) { bad(t, op, f0, e, T[t].f[k] && T[t].f[k]->dir ? EISDIR : 0); resync(t, k); } }
static void step(int t) {
	struct ft *x = &T[t]; int k = sim_gen(NF), k2 = sim_gen(NF), i, r, e, n; mi *m = x->f[k], *m2 = x->f[k2]; char *p = path(t, k), *q = path(t, k2); uint64_t f0 = faults();
	struct stat st, *sp = malloc(sizeof st); uint8_t *b;
	for (i = 0; i < 4 && x->h[i].m; i++) ;
	int hh = sim_gen(4); for (n = 0; n < 4 && !x->h[hh].m; n++) hh = (hh + 1) & 3;
	int hv = x->h[hh].m != NULL;
	errno = 0;
	switch (sim_gen(23)) {
	case 22: if (sim_gen(4) == 0) { /* a count that is as large as a pointer; the sink takes everything */
		static const int big[] = { 500000000, 536870912, 600000000, 1073741824, 2000000000 }; int c = big[sim_gen(5)], fd = fs_open("/dev/null", O_WRONLY, 0);
		if (fd < 0) break;
		f0 = faults(); r = fs_write(fd, x, c); e = errno;
		if (r <= 0 || r > c) bad(t, "fs_write of a large count", f0, e, 0);
		SIM_CHECK(r <= c, "wrong-result", "task %d: fs_write of %d bytes wrote %d", t, c, r);
		f0 = faults(); r = fs_close(fd); if (r < 0) bad(t, "fs_close", f0, errno, 0);
	} break;
	case 0: case 1: case 2: if (i < 4) {
		static const int fls[] = { O_RDONLY, O_RDWR, O_WRONLY, O_RDWR | O_CREAT, O_RDWR | O_CREAT, O_WRONLY | O_CREAT | O_TRUNC, O_RDWR | O_CREAT | O_EXCL, O_WRONLY | O_CREAT | O_APPEND };
		int fl = fls[sim_gen(8)]; int want = !m ? fl & O_CREAT ? 0 : ENOENT : fl & O_EXCL ? EEXIST : m->dir && (fl & O_ACCMODE) ? EISDIR : 0;
		r = fs_open(p, fl, 0644); e = errno; judge(t, "fs_open", f0, r, e, want);
		if (r >= 0) {
			SIM_CHECK(sim_fd_is_open(r), "wrong-result", "task %d: fs_open gave %d, which is not open", t, r);
			if (!m) { m = x->f[k] = mi_new(0); m->mode = 0644; } 
			if (fl & O_TRUNC) m->len = 0;
			x->h[i].fd = r; x->h[i].m = m; x->h[i].pos = 0; x->h[i].fl = fl; x->h[i].id = sim_fd_id(r); m->nopen++; disk(t, k, "fs_open");
		} else resync(t, k);
	} break;
	case 3: case 4: if (hv) {
		m = x->h[hh].m; n = size(x); int can = (x->h[hh].fl & O_ACCMODE) != O_RDONLY && !m->dir; b = malloc(n + 1); fill(x, b, n, 0);
		if (x->h[hh].pos + n > MAXL || m->len + n > MAXL) { free(b); break; }
		r = fs_write(x->h[hh].fd, b, n); e = errno; judge(t, "fs_write", f0, r, e, can ? 0 : EBADF);
		SIM_CHECK(r <= n, "wrong-result", "task %d: fs_write of %d bytes gave %d", t, n, r);
		if (can && r >= 0 && r < n) SIM_CHECK(sim_fault_count(F_SHORT_WRITE) || faults() != f0, "wrong-result", "task %d: fs_write of %d bytes gave %d", t, n, r);
		if (r > 0) { if (x->h[hh].fl & O_APPEND) x->h[hh].pos = m->len; if (x->h[hh].pos > m->len) memset(m->d + m->len, 0, x->h[hh].pos - m->len); memcpy(m->d + x->h[hh].pos, b, r); x->h[hh].pos += r; if (m->len < x->h[hh].pos) m->len = x->h[hh].pos; }
		for (k = 0; k < NF; k++) if (x->f[k] == m) disk(t, k, "fs_write");
		free(b);
	} break;
	case 5: case 6: if (hv) {
		m = x->h[hh].m; n = size(x); b = malloc(n + 8); memset(b, 0xEE, n + 8); int can = (x->h[hh].fl & O_ACCMODE) != O_WRONLY;
		int av = m->len - x->h[hh].pos; if (av < 0) av = 0; if (av > n) av = n;
		r = fs_read(x->h[hh].fd, b, n); e = errno; judge(t, "fs_read", f0, r, e, !can ? EBADF : m->dir ? EISDIR : 0);
		if (r >= 0) {
			SIM_CHECK(r <= av && (r == av || (r > 0 && sim_fault_count(F_SHORT_READ))), "wrong-result", "task %d: fs_read of %d bytes gave %d, %d were there", t, n, r, av);
			SIM_CHECK(!memcmp(b, m->d + x->h[hh].pos, r), "wrong-effect", "task %d: fs_read gave wrong bytes", t); x->h[hh].pos += r;
		}
		for (i = r < 0 ? 0 : r; i < n + 8; i++) SIM_CHECK(b[i] == 0xEE, "overrun", "task %d: fs_read that gave %d changed byte %d", t, r, i);
		free(b);
	} break;
	case 7: case 8: if (hv) {
		int fd = x->h[hh].fd; r = fs_close(fd); e = errno; judge(t, "fs_close", f0, r, e, 0);
		SIM_CHECK(!sim_fd_is_open(fd) || sim_fd_id(fd) != x->h[hh].id, "not-closed", "task %d: fs_close(%d) gave %d and left it open", t, fd, r);
		m = x->h[hh].m; x->h[hh].m = NULL; if (!--m->nopen && !m->nlink) { free(m->d); free(m); }
		if (ntask == 1 && !only && sim_gen(3) == 0) { r = fs_close(fd); e = errno; SIM_CHECK(r == -1 && e == EBADF, "wrong-result", "a second fs_close gave %d, error number %d", r, e); }
	} break;
	case 9: { int want = !m ? ENOENT : m->dir ? EISDIR : 0; r = fs_unlink(p); e = errno; judge(t, "fs_unlink", f0, r, e, want); if (!r) mi_unlink(&x->f[k]); disk(t, k, "fs_unlink"); break; }
	case 10: { r = fs_mkdir(p, 0755); e = errno; judge(t, "fs_mkdir", f0, r, e, m ? EEXIST : 0); if (!r) { x->f[k] = mi_new(1); x->f[k]->mode = 0755; } disk(t, k, "fs_mkdir"); break; }
	case 11: { int want = !m ? ENOENT : !m->dir ? ENOTDIR : 0; r = fs_rmdir(p); e = errno; judge(t, "fs_rmdir", f0, r, e, want); if (!r) mi_unlink(&x->f[k]); disk(t, k, "fs_rmdir"); break; }
	case 12: if (k != k2) {
		int want = !m ? ENOENT : !m2 ? 0 : m->dir && !m2->dir ? ENOTDIR : !m->dir && m2->dir ? EISDIR : 0;
		r = fs_rename(p, q); e = errno; judge(t, "fs_rename", f0, r, e, want);
		if (!r) { if (m2) mi_unlink(&x->f[k2]); x->f[k2] = m; x->f[k] = NULL; }
		disk(t, k, "fs_rename"); disk(t, k2, "fs_rename");
	} break;
	case 13: {
		memset(sp, 0x55, sizeof *sp); r = fs_stat(p, sp); e = errno; judge(t, "fs_stat", f0, r, e, m ? 0 : ENOENT);
		if (!r) SIM_CHECK(!!S_ISDIR(sp->st_mode) == m->dir && (m->dir || sp->st_size == m->len) && (m->mode < 0 || (sp->st_mode & 0777) == m->mode), "wrong-result", "task %d: fs_stat says mode %o size %ld", t, sp->st_mode, (long)sp->st_size);
		break; }
	case 14: if (hv) {
		m = x->h[hh].m; memset(sp, 0x55, sizeof *sp); r = fs_fstat(x->h[hh].fd, sp); e = errno; judge(t, "fs_fstat", f0, r, e, 0);
		if (!r) SIM_CHECK(!!S_ISDIR(sp->st_mode) == m->dir && (m->dir || sp->st_size == m->len), "wrong-result", "task %d: fs_fstat says mode %o size %ld instead of %d", t, sp->st_mode, (long)sp->st_size, m->len);
	} break;
	case 15: switch (sim_gen(4)) {
		case 0: r = fs_access(p, F_OK); e = errno; judge(t, "fs_access", f0, r, e, m ? 0 : ENOENT); break;
		case 1: r = fs_exists(p); SIM_CHECK(r == (m != NULL) , "wrong-result", "task %d: fs_exists says %d", t, r); break;
		case 2: { size_t s = fs_filesize(p); if (faults() == f0 && !(m && m->dir)) SIM_CHECK(s == (m ? (size_t)m->len : 0), "wrong-result", "task %d: fs_filesize says %zu instead of %d", t, s, m ? m->len : 0); break; }
		default: if (m && !m->dir) { int md = sim_gen(2) ? 0600 : 0755; r = fs_chmod(p, md); e = errno; judge(t, "fs_chmod", f0, r, e, 0); if (!r) { m->mode = md; r = fs_stat(p, sp); if (!r) SIM_CHECK((sp->st_mode & 0777) == md, "wrong-effect", "task %d: fs_chmod to %o left mode %o", t, md, sp->st_mode); } }
		} break;
	case 16: if (sim_gen(4) == 0) {
		r = fs_touch(p); e = errno;
		if (r) { SIM_CHECK(!m || !m->dir, "false-success", "task %d: fs_touch of a directory succeeded", t); if (!m) { m = x->f[k] = mi_new(0); m->mode = 0600; } disk(t, k, "fs_touch"); }
		else { SIM_CHECK((m && m->dir) || faults() != f0, "false-failure", "task %d: fs_touch failed", t); resync(t, k); }
		break; } /* fall through */
	case 17: {
		n = size(x); b = malloc(n + 1); fill(x, b, n, 1); b[n] = 0; if (!n && sim_gen(2)) { b[0] = 'x'; b = realloc(b, 2); b[1] = 0; n = 1; }
		r = fs_writefile(p, (char *)b); e = errno; 
		if (r < 0) whole(t, k, r, e, f0, "fs_writefile");
		else {
			SIM_CHECK(!m || !m->dir, "false-success", "task %d: fs_writefile to a directory gave %d", t, r);
			SIM_CHECK(r == n, "short-write", "task %d: fs_writefile of %d bytes gave %d", t, n, r);
			if (!m) { m = x->f[k] = mi_new(0); m->mode = 0600; }
			if (n) { memcpy(m->d, b, n); m->len = n; } disk(t, k, "fs_writefile");
		}
		free(b); break; }
	case 18: {
		char *s = fs_readfile(p); 
		if (!s) SIM_CHECK(!m || m->dir || !m->len || faults() != f0, "false-failure", "task %d: fs_readfile of a file of %d bytes gave nothing", t, m->len);
		else { SIM_CHECK(m && !m->dir && !memcmp(s, m->d, m->len) && !s[m->len], "wrong-result", "task %d: fs_readfile gave wrong contents (%d bytes)", t, m ? m->len : -1); }
		break; }
	case 19: if (k != k2) {
		int want = !m ? ENOENT : m2 && m2->dir ? EISDIR : 0; if (m && m->dir) break;
		r = fs_copyfile(p, q); e = errno; judge(t, "fs_copyfile", f0, r, e, want);
		if (!r) { if (!m2) { m2 = x->f[k2] = mi_new(0); m2->mode = -1; } memcpy(m2->d, m->d, m->len); m2->len = m->len; disk(t, k2, "fs_copyfile"); }
		else resync(t, k2);
		disk(t, k, "fs_copyfile");
	} break;
	case 20: if (hv) {
		int h2 = sim_gen(4); mi *o = x->h[h2].m; m = x->h[hh].m; n = 1 + size(x);
		if (!o || o == m || o->dir || m->dir || (x->h[h2].fl & O_ACCMODE) == O_RDONLY || (x->h[hh].fl & O_ACCMODE) == O_WRONLY || (x->h[h2].fl & O_APPEND) || x->h[h2].pos + n > MAXL) break;
		off_t *off = malloc(sizeof *off); int useoff = sim_gen(2); int from = useoff ? (int)sim_gen(m->len + 1) : x->h[hh].pos; *off = from; int av = m->len - from; if (av < 0) av = 0; if (av > n) av = n;
		ssize_t w = fs_sendfile(x->h[h2].fd, x->h[hh].fd, useoff ? off : NULL, n); e = errno;
		if (w < 0) { bad(t, "fs_sendfile", f0, e, 0); }
		else {
			SIM_CHECK(w <= av && (w == av || faults() != f0 || sim_fault_count(F_SHORT_WRITE)), "wrong-result", "task %d: fs_sendfile of %d bytes gave %ld", t, av, (long)w);
			if (useoff) SIM_CHECK(*off == from + w, "wrong-result", "task %d: fs_sendfile left the offset at %ld", t, (long)*off); else x->h[hh].pos += w;
			if (w) { if (x->h[h2].pos > o->len) memset(o->d + o->len, 0, x->h[h2].pos - o->len); memcpy(o->d + x->h[h2].pos, m->d + from, w); x->h[h2].pos += w; if (o->len < x->h[h2].pos) o->len = x->h[h2].pos; }
			for (k = 0; k < NF; k++) if (x->f[k] == o) disk(t, k, "fs_sendfile");
		}
		free(off);
	} break;
	default: { /* streams */
		static const char *const mds[] = { "r", "w", "a", "r+" }; const char *md = mds[sim_gen(4)]; int kind = sim_gen(4), j, want = !m ? *md == 'r' ? ENOENT : 0 : m->dir && (*md != 'r' || md[1]) ? EISDIR : 0;
		if (m && m->dir && !want) break;
		if (kind == 0) { /* one call writes it all */
			n = 1 + size(x) % 9000; if (m && m->len + n > MAXL) break;
			if (*md == 'r') md = "w"; want = m && m->dir ? EISDIR : 0;
			b = malloc(n + 1); fill(x, b, n, 1); b[n] = 0;
			int it = 1 + sim_gen(4), fmt = sim_gen(2); if (!fmt) n -= n % it;
			if (!n) { free(b); break; }
			r = fmt ? async_fprintf(p, md, (char *)b) : async_fwrite(p, md, b, it, n / it);
			if (r > 0) {
				SIM_CHECK(!want, "false-success", "task %d: writing to a directory gave %d", t, r);
				if (r < (fmt ? n : n / it) && faults() != f0) { resync(t, k); free(b); break; } /* the disk was full after some of it */
				SIM_CHECK(r == (fmt ? n : n / it), "short-write", "task %d: async_f%s of %d bytes gave %d", t, fmt ? "printf" : "write", n, r);
				if (!m) { m = x->f[k] = mi_new(0); m->mode = 0644; } if (*md == 'w') m->len = 0;
				memcpy(m->d + m->len, b, n); m->len += n; disk(t, k, "async_fwrite");
			} else { SIM_CHECK(want || faults() != f0, "false-failure", "task %d: writing %d bytes gave %d", t, n, r); resync(t, k); }
			free(b); break;
		}
		int usep = sim_gen(3) == 0; promise *pr = NULL; FILE *f;
		if (usep) { pr = promise_fopen(p, md); f = promise_wait(pr).object; } else f = fs_fopen(p, md);
		e = errno;
		if (!f) { bad(t, "fs_fopen", f0, e, want); resync(t, k); if (usep) promise_fclose(pr, NULL); break; }
		SIM_CHECK(!want, "false-success", "task %d: fs_fopen(%s) succeeded, should fail with %d", t, md, want);
		if (!m) { m = x->f[k] = mi_new(0); m->mode = 0644; } if (*md == 'w') m->len = 0;
		int pos = *md == 'a' ? m->len : 0; f0 = faults();
		for (j = 1 + sim_gen(4); j > 0 && faults() == f0; j--) {
			if (*md == 'r') {
				int it = 1 + sim_gen(4); n = size(x) % 5000 + 8; b = malloc(n); int av = m->len - pos; 
				switch (sim_gen(3)) {
				case 0: { int c = usep ? promise_fgetc(pr, f) : fs_fgetc(f); if (faults() == f0) SIM_CHECK(c == (av ? m->d[pos] : EOF), "wrong-result", "task %d: fs_fgetc at %d of %d gave %d", t, pos, m->len, c); if (av) pos++; break; }
				case 1: { int l = 0; char *s; while (l < av && l < n - 1) if (m->d[pos + l++] == '\n') break;
					s = usep ? promise_fgets(pr, (char *)b, n, f) : fs_fgets((char *)b, n, f);
					if (faults() == f0) { SIM_CHECK((s != NULL) == (av > 0), "wrong-result", "task %d: fs_fgets at %d of %d gave %p", t, pos, m->len, (void *)s); if (s) SIM_CHECK(s == (char *)b && !memcmp(b, m->d + pos, l) && !b[l], "wrong-result", "task %d: fs_fgets gave wrong bytes", t); }
					pos += l; break; }
				default: { size_t c; n = n / it; if (av > n * it) av = n * it; c = fs_fread(b, it, n, f); if (faults() == f0) SIM_CHECK(c == (size_t)(av / it) && !memcmp(b, m->d + pos, av), "wrong-result", "task %d: fs_fread of %d x %d gave %zu, %d bytes were there", t, n, it, c, av); pos += av; }
				}
				free(b);
			} else {
				int it = 1 + sim_gen(4); size_t c; n = 1 + size(x) % 5000; if (pos + n * it > MAXL || m->len + n * it > MAXL) continue; b = malloc(n * it + 1); fill(x, b, n * it, 1); b[n * it] = 0;
				if (usep && sim_gen(2)) { c = promise_fprintf(pr, f, (char *)b); if (faults() == f0) SIM_CHECK(c == (size_t)n * it, "wrong-result", "task %d: promise_fprintf gave %zu", t, c); }
				else { c = usep ? promise_fwrite(pr, b, it, n, f) : fs_fwrite(b, it, n, f); if (faults() == f0) SIM_CHECK(c == (size_t)n, "wrong-result", "task %d: fs_fwrite gave %zu of %d", t, c, n); }
				memcpy(m->d + pos, b, n * it); pos += n * it; if (pos > m->len) m->len = pos; free(b);
			}
			if (sim_gen(3) == 0) yield();
		}
		r = usep ? promise_fclose(pr, f) : fs_fclose(f); e = errno;
		if (faults() == f0) { SIM_CHECK(r == 0, "false-failure", "task %d: fs_fclose gave %d (%s)", t, r, strerror(e)); if (x->f[k] == m) disk(t, k, "fs_fclose"); }
		else resync(t, k);
		} }
	free(sp);
}
static void *ftask(param_t args) {
	int t = args[0].integer, i;
	while (T[t].left-- > 0 && sim_steps() < 4000000) { step(t); if (sim_gen(3) == 0) { if (sim_gen(2)) yield(); else delay(sim_gen(20)); } }
	for (i = 0; i < 4; i++) if (T[t].h[i].m) { int fd = T[t].h[i].fd; uint64_t id = T[t].h[i].id; int r = fs_close(fd); SIM_CHECK(r == 0 || faults(), "not-closed", "task %d: fs_close(%d) gave %d", t, fd, r); SIM_CHECK(!sim_fd_is_open(fd) || sim_fd_id(fd) != id, "not-closed", "task %d: fs_close(%d) gave %d and left it open", t, fd, r); }
	for (i = 0; i < NF; i++) disk(t, i, "everything");
	live--; return 0;
}
static void *ticker(param_t args) {
	while (live) { uint64_t st; tick = sim_now(); tick_stall = st = sim_stalled_ns(); delay(5); uint64_t d = sim_now() - tick; SIM_CHECK(d < 3500 * MS + 2 * (sim_stalled_ns() - st), "blocked", "other tasks stood still for %llu ms while a file operation ran", (unsigned long long)(d / MS)); }
	return 0;
}
static void *fmain(param_t na) {
	int i, k; char b[16];
	events_init_pool(1 + sim_gen(3) * sim_gen(2));
	for (i = 0; i < ntask; i++) { snprintf(b, 16, "/d%d", i); simfs_mkdir(b); T[i].left = 4 + sim_gen(26); T[i].big = sim_gen(3) == 0; T[i].ctr = i * 77777; 
		for (k = 0; k < NF; k++) if (sim_gen(2)) { mi *m = T[i].f[k] = mi_new(0); m->mode = -1; m->len = size(&T[i]); fill(&T[i], m->d, m->len, sim_gen(2)); simfs_put(path(i, k), m->d, m->len); } }
	live = ntask; sim_faults_hold(0);
	async_task(ticker, 0);
	for (i = 1; i < ntask; i++) async_task(ftask, 1, casting(i));
	ftask((param_t)arrays(1, casting(0)));
	while (live) delay(10);
	for (i = 3, k = 0; i < 1090; i++) if (sim_fd_is_open(i) && !strcmp(sim_fd_kind(i), "file")) k++;
	SIM_CHECK(!k || sim_fault_count(F_EIO), "fd-leak", "%d file descriptors are left open", k);
	main_done = 1;
	return 0;
}
SIM_WORKLOAD(fs, "short_read short_write eio enospc emfile slow_disk stall", "file operations of several tasks against a model of the files") { wl_my_alloc(4);
	int r; ntask = 1 + sim_gen(NTASK); 
	sim_cfg.poll_step_us = 400 << sim_gen(4);
	sim_cfg.max_hooks *= 3;
	sim_faults_hold(1); /* the start is another property's */
	r = events_start(wl_fds(256), (main_cb)fmain, 0);
	SIM_CHECK(main_done, "task-lost", "the main task did not finish (events_start gave %d)", r);
	sim_done();
}
