/* Simulated file system, stdio streams over it, directory streams, inotify. */
#include "kern.h"
#include <sys/inotify.h>
#include <dirent.h>
#include <stdlib.h>
#define ERR(e) do { errno = (e); return -1; } while (0)
/* a call that goes to the disk may take long */
static void disk(void) {
	static uint64_t total;
	if (total > 6000000000ull || !sim_main_side() || !sim_fault(F_SLOWDISK)) return;
	uint64_t d = 20000000ull << sim_choose(ST_ENV, 9); total += d;
	sim_block("disk", NULL, NULL, sim_now() + d, 0);
}
static int flt(int k) { return sim_main_side() && sim_fault(k); }
static struct inode *root; static uint64_t next_ino = 10;
static struct file *all_in;
static uint64_t wall(void);
uint64_t sim_wallclock_ns(void);
static uint64_t wall(void) { return sim_wallclock_ns(); }

static struct inode *ino_new(int type, mode_t mode) {
	struct inode *i = xalloc(sizeof *i); memset(i, 0, sizeof *i);
	i->type = type; i->mode = mode; i->ino = next_ino++; i->nlink = 1;
	i->mtime = i->ctime_ = i->atime_ = wall();
	return i;
}
void fs_init_sim(void) {
	root = ino_new(FT_DIR, S_IFDIR | 0755); root->parent = root;
	simfs_mkdir("/tmp"); simfs_mkdir("/dev"); simfs_mkdir("/w"); simfs_mkdir("/bin"); simfs_mkdir("/etc");
	struct inode *n = fs_lookup("/dev"); (void)n;
	simfs_put("/dev/null", "", 0); simfs_put("/dev/tty", "", 0);
	strcpy(main_proc->cwd, "/w");
}
static struct inode *dir_find(struct inode *d, const char *n, int len) {
	for (int i = 0; i < d->nent; i++) if (!strncmp(d->ent[i].name, n, len) && !d->ent[i].name[len]) return d->ent[i].ino;
	return NULL;
}
/* resolve; parent and last component returned when asked */
static struct inode *walk(const char *path, struct inode **par, const char **last, int *lastlen, int *err) {
	static char full[1100];
	if (path[0] != '/') { snprintf(full, sizeof full, "%s/%s", cur ? cur->proc->cwd : "/w", path); }
	else snprintf(full, sizeof full, "%s", path);
	struct inode *d = root; const char *p = full;
	if (par) *par = root;
	if (last) { *last = ""; *lastlen = 0; }
	*err = 0;
	for (;;) {
		while (*p == '/') p++;
		if (!*p) return d;
		const char *e = p; while (*e && *e != '/') e++;
		int len = e - p;
		if (len > 255) { *err = ENAMETOOLONG; return NULL; }
		if (d->type != FT_DIR) { *err = ENOTDIR; return NULL; }
		const char *q = e; while (*q == '/') q++;
		struct inode *n = (len == 1 && p[0] == '.') ? d : (len == 2 && p[0] == '.' && p[1] == '.') ? d->parent : dir_find(d, p, len);
		if (!*q) {
			if (par) *par = d;
			if (last) { *last = p; *lastlen = len; }
			if (!n) *err = ENOENT;
			return n;
		}
		if (!n) { *err = ENOENT; if (par) *par = NULL; return NULL; }
		d = n; p = q;
	}
}
struct inode *fs_lookup(const char *path) { int e; return walk(path, NULL, NULL, NULL, &e); }

/* inotify ---------------------------------------------------------------- */
static void in_push(struct file *f, int wd, uint32_t mask, uint32_t cookie, const char *name, int nl) {
	struct ievent *e = xalloc(sizeof *e); memset(e, 0, sizeof *e);
	e->wd = wd; e->mask = mask; e->cookie = cookie;
	if (name) { memcpy(e->name, name, nl); e->name[nl] = 0; }
	struct ievent **pp = &f->ieq, *lastp = NULL;
	while (*pp) { lastp = *pp; pp = &(*pp)->next; }
	/* identical consecutive events coalesce, as in Linux */
	if (lastp && lastp->wd == wd && lastp->mask == mask && lastp->cookie == cookie && !strcmp(lastp->name, e->name)) return;
	*pp = e; file_wake(f);
}
static uint32_t next_cookie;
static void in_notify(struct inode *dir, uint32_t mask, uint32_t cookie, const char *name, int nl, struct inode *child) {
	for (struct file *f = all_in; f; f = f->nextin)
		for (struct iwatch *w = f->iw; w; w = w->next) {
			if (dir && w->ino == dir && (w->mask & mask & 0xfff)) in_push(f, w->wd, mask | (child && child->type == FT_DIR ? IN_ISDIR : 0), cookie, name, nl);
			if (child && w->ino == child && !(mask & (IN_CREATE | IN_DELETE | IN_MOVED_FROM | IN_MOVED_TO)) && (w->mask & mask & 0xfff))
				in_push(f, w->wd, mask | (child->type == FT_DIR ? IN_ISDIR : 0), 0, NULL, 0);
		}
}
static void in_self_gone(struct inode *i) {
	for (struct file *f = all_in; f; f = f->nextin) {
		struct iwatch **pp = &f->iw;
		while (*pp) {
			struct iwatch *w = *pp;
			if (w->ino == i) {
				if (w->mask & IN_DELETE_SELF) in_push(f, w->wd, IN_DELETE_SELF, 0, NULL, 0);
				in_push(f, w->wd, IN_IGNORED, 0, NULL, 0);
				*pp = w->next;
			} else pp = &w->next;
		}
	}
}
int inotify_readable(struct file *f) { return f->ieq != NULL; }
ssize_t inotify_read(struct file *f, char *b, size_t n) {
	size_t o = 0;
	int lim = sim_main_side() ? (int)sim_choose(ST_ORDER, 4) : 0; /* 0: everything queued */
	while (f->ieq) {
		struct ievent *e = f->ieq;
		size_t nl = e->name[0] ? ((strlen(e->name) + 1 + 15) & ~15ul) : 0, sz = sizeof(struct inotify_event) + nl;
		if (o + sz > n) { if (!o) ERR(EINVAL); break; }
		struct inotify_event *x = (struct inotify_event *)(b + o);
		memset(x, 0, sz); x->wd = e->wd; x->mask = e->mask; x->cookie = e->cookie; x->len = nl;
		if (nl) memcpy(x->name, e->name, strlen(e->name));
		o += sz; f->ieq = e->next;
		if (lim && --lim == 0) break;
	}
	return o;
}
int sim_inotify_init1(int fl) {
	sys_enter("inotify_init");
	if (flt(F_EMFILE)) ERR(EMFILE);
	struct file *f = file_new(FT_INOTIFY, (fl & IN_NONBLOCK) ? O_NONBLOCK : 0);
	f->nextwd = 1; f->nextin = all_in; all_in = f;
	return fd_install(cur->proc, f, 0, !!(fl & IN_CLOEXEC));
}
int sim_inotify_init(void) { return sim_inotify_init1(0); }
int sim_inotify_add_watch(int fd, const char *path, uint32_t mask) {
	sys_enter("inotify_add_watch");
	struct file *f = fd_file(fd); if (!f) return -1;
	if (f->type != FT_INOTIFY) ERR(EINVAL);
	int e; struct inode *i = walk(path, NULL, NULL, NULL, &e); if (!i) ERR(e);
	if ((mask & IN_ONLYDIR) && i->type != FT_DIR) ERR(ENOTDIR);
	if (flt(F_ENOSPC)) ERR(ENOSPC);
	for (struct iwatch *w = f->iw; w; w = w->next) if (w->ino == i) { w->mask = mask; return w->wd; }
	struct iwatch *w = xalloc(sizeof *w); w->wd = f->nextwd++; w->mask = mask; w->ino = i; w->next = f->iw; f->iw = w;
	return w->wd;
}
int sim_inotify_rm_watch(int fd, int wd) {
	sys_enter("inotify_rm_watch");
	struct file *f = fd_file(fd); if (!f) return -1;
	if (f->type != FT_INOTIFY) ERR(EINVAL);
	for (struct iwatch **pp = &f->iw; *pp; pp = &(*pp)->next) if ((*pp)->wd == wd) { *pp = (*pp)->next; in_push(f, wd, IN_IGNORED, 0, NULL, 0); return 0; }
	ERR(EINVAL);
}
int sim_inotify_watches(int fd) { struct file *f = fd >= 0 && fd < MAXFD ? main_proc->fd[fd] : NULL; int n = 0; if (f && f->type == FT_INOTIFY) for (struct iwatch *w = f->iw; w; w = w->next) n++; return n; }

/* directory operations --------------------------------------------------- */
static void dir_add(struct inode *d, const char *n, int len, struct inode *i) {
	if (d->nent == d->capent) { int c = d->capent ? d->capent * 2 : 8; struct dent *x = xalloc(c * sizeof *x); if (d->nent) memcpy(x, d->ent, d->nent * sizeof *x); d->ent = x; d->capent = c; }
	memset(d->ent[d->nent].name, 0, 256); memcpy(d->ent[d->nent].name, n, len); d->ent[d->nent].ino = i; d->nent++;
	if (i->type == FT_DIR) i->parent = d;
	d->mtime = d->ctime_ = wall();
}
static void dir_del(struct inode *d, struct inode *i, const char *n, int len) {
	for (int k = 0; k < d->nent; k++) if (d->ent[k].ino == i && !strncmp(d->ent[k].name, n, len) && !d->ent[k].name[len]) {
		memmove(&d->ent[k], &d->ent[k + 1], (d->nent - k - 1) * sizeof d->ent[0]); d->nent--; break; }
	d->mtime = d->ctime_ = wall();
}
static struct inode *mk(const char *path, int type, mode_t mode, int *err) {
	struct inode *par; const char *l; int ll; struct inode *i = walk(path, &par, &l, &ll, err);
	if (i) { *err = EEXIST; return NULL; }
	if (*err != ENOENT || !par) { if (!*err) *err = ENOENT; return NULL; }
	*err = 0;
	i = ino_new(type, mode);
	char nm[256]; memcpy(nm, l, ll); nm[ll] = 0;
	dir_add(par, nm, ll, i);
	in_notify(par, IN_CREATE, 0, nm, ll, i);
	return i;
}
struct inode *fs_mksock(const char *path, struct sock *s, int *err) {
	struct inode *i = mk(path, FT_SOCK, S_IFSOCK | 0755, err);
	if (i) i->sock = s;
	return i;
}
int simfs_mkdir(const char *p) { int e; return mk(p, FT_DIR, S_IFDIR | 0755, &e) ? 0 : -e; }
static void setsize(struct inode *i, size_t n) {
	if (n > i->cap) { size_t c = i->cap ? i->cap : 256; while (c < n) c *= 2; char *x = xalloc(c); if (i->size) memcpy(x, i->data, i->size); i->data = x; i->cap = c; }
	if (n > i->size) memset(i->data + i->size, 0, n - i->size);
	i->size = n;
}
static struct inode *parent_of(const char *p, const char **l, int *ll) { int e; struct inode *par; walk(p, &par, l, ll, &e); return par; }
int simfs_put(const char *p, const void *d, size_t n) {
	int e; struct inode *i = fs_lookup(p);
	if (!i) { i = mk(p, FT_REG, S_IFREG | 0644, &e); if (!i) return -e; }
	setsize(i, 0); setsize(i, n); if (n) memcpy(i->data, d, n);
	i->mtime = wall();
	const char *l; int ll; struct inode *par = parent_of(p, &l, &ll);
	if (n) { char nm[256]; memcpy(nm, l, ll); nm[ll] = 0; in_notify(par, IN_MODIFY, 0, nm, ll, i); }
	return 0;
}
int simfs_append(const char *p, const void *d, size_t n) {
	int e; struct inode *i = fs_lookup(p);
	if (!i) { i = mk(p, FT_REG, S_IFREG | 0644, &e); if (!i) return -e; }
	size_t o = i->size; setsize(i, o + n); memcpy(i->data + o, d, n); i->mtime = wall();
	const char *l; int ll; struct inode *par = parent_of(p, &l, &ll);
	char nm[256]; memcpy(nm, l, ll); nm[ll] = 0; in_notify(par, IN_MODIFY, 0, nm, ll, i);
	return 0;
}
long simfs_get(const char *p, void *b, size_t cap) {
	struct inode *i = fs_lookup(p); if (!i || i->type != FT_REG) return -1;
	if (b) memcpy(b, i->data, i->size < cap ? i->size : cap);
	return (long)i->size;
}
int simfs_exists(const char *p) { struct inode *i = fs_lookup(p); return !i ? 0 : i->type == FT_DIR ? 2 : 1; }
int simfs_chmod(const char *p, unsigned m) { struct inode *i = fs_lookup(p); if (!i) return -1; i->mode = (i->mode & S_IFMT) | m; return 0; }
unsigned simfs_mode(const char *p) { struct inode *i = fs_lookup(p); return i ? i->mode & 07777 : 0; }
static int do_unlink(const char *p, int dir) {
	int e; struct inode *par; const char *l; int ll; struct inode *i = walk(p, &par, &l, &ll, &e);
	if (!i) return e;
	if (dir) { if (i->type != FT_DIR) return ENOTDIR; if (i->nent) return ENOTEMPTY; if (i == root) return EBUSY; }
	else if (i->type == FT_DIR) return EISDIR;
	char nm[256]; memcpy(nm, l, ll); nm[ll] = 0;
	dir_del(par, i, nm, ll); i->nlink--;
	if (i->type != FT_DIR) in_notify(NULL, IN_ATTRIB, 0, NULL, 0, i);
	if (dir) in_self_gone(i);
	else if (!i->refs) in_self_gone(i);
	in_notify(par, IN_DELETE, 0, nm, ll, i);
	return 0;
}
int simfs_unlink(const char *p) { int e = do_unlink(p, 0); return e ? -e : 0; }
int simfs_rmdir(const char *p) { int e = do_unlink(p, 1); return e ? -e : 0; }
static int do_rename(const char *a, const char *b) {
	int e; struct inode *pa, *pb; const char *l; int ll, lb; char na[256], nb[256];
	struct inode *i = walk(a, &pa, &l, &ll, &e); if (!i) return e;
	memcpy(na, l, ll); na[ll] = 0;
	struct inode *j = walk(b, &pb, &l, &lb, &e);
	if (!j && (e != ENOENT || !pb)) return e;
	memcpy(nb, l, lb); nb[lb] = 0;
	if (i == j) return 0;
	if (j) {
		if (j->type == FT_DIR && i->type != FT_DIR) return EISDIR;
		if (j->type != FT_DIR && i->type == FT_DIR) return ENOTDIR;
		if (j->type == FT_DIR && j->nent) return ENOTEMPTY;
		dir_del(pb, j, nb, lb); j->nlink--; in_self_gone(j);
	}
	if (i->type == FT_DIR) for (struct inode *x = pb; ; x = x->parent) { if (x == i) return EINVAL; if (x == root) break; }
	dir_del(pa, i, na, ll); dir_add(pb, nb, lb, i);
	uint32_t c = ++next_cookie;
	in_notify(pa, IN_MOVED_FROM, c, na, ll, i);
	in_notify(pb, IN_MOVED_TO, c, nb, lb, i);
	return 0;
}
int simfs_rename(const char *a, const char *b) { int e = do_rename(a, b); return e ? -e : 0; }

/* system calls -------------------------------------------------------------- */
int sim_mkdir(const char *p, mode_t m) { sys_enter("mkdir"); disk(); int e; if (flt(F_ENOSPC)) ERR(ENOSPC); if (!mk(p, FT_DIR, S_IFDIR | (m & 0777), &e)) ERR(e); return 0; }
int sim_rmdir(const char *p) { sys_enter("rmdir"); disk(); if (flt(F_EIO)) ERR(EIO); int e = do_unlink(p, 1); if (e) ERR(e); return 0; }
int sim_unlink(const char *p) { sys_enter("unlink"); disk(); if (flt(F_EIO)) ERR(EIO); int e = do_unlink(p, 0); if (e) ERR(e); return 0; }
int sim_remove(const char *p) { struct inode *i = fs_lookup(p); return i && i->type == FT_DIR ? sim_rmdir(p) : sim_unlink(p); }
int sim_rename(const char *a, const char *b) { sys_enter("rename"); disk(); if (flt(F_EIO)) ERR(EIO); int e = do_rename(a, b); if (e) ERR(e); return 0; }
int sim_mkfifo(const char *p, mode_t m) { sys_enter("mkfifo"); int e; if (!mk(p, FT_PIPE_R, S_IFIFO | (m & 0777), &e)) ERR(e); return 0; }
void fs_stat_inode(struct inode *i, struct stat *st) {
	memset(st, 0, sizeof *st);
	st->st_mode = i->mode; st->st_ino = i->ino; st->st_nlink = i->nlink; st->st_size = i->size; st->st_blksize = 4096; st->st_blocks = (i->size + 511) / 512; st->st_dev = 7;
	st->st_mtim.tv_sec = i->mtime / 1000000000; st->st_mtim.tv_nsec = i->mtime % 1000000000;
	st->st_ctim.tv_sec = i->ctime_ / 1000000000; st->st_ctim.tv_nsec = i->ctime_ % 1000000000;
	st->st_atim = st->st_mtim;
}
int sim_stat(const char *p, struct stat *st) {
	sys_enter("stat"); disk(); if (flt(F_EIO)) ERR(EIO);
	int e; struct inode *i = walk(p, NULL, NULL, NULL, &e); if (!i) ERR(e);
	fs_stat_inode(i, st); if (!strncmp(p, "/dev/", 5)) st->st_mode = S_IFCHR | 0666;
	return 0;
}
int sim_lstat(const char *p, struct stat *st) { return sim_stat(p, st); }
int fd_stat(struct file *f, struct stat *st);
int sim_fstat(int fd, struct stat *st) { sys_enter("fstat"); disk(); struct file *f = fd_file(fd); if (!f) return -1; if (f->type == FT_REG && flt(F_EIO)) ERR(EIO); return fd_stat(f, st); }
int sim_access(const char *p, int m) { sys_enter("access"); disk(); int e; struct inode *i = walk(p, NULL, NULL, NULL, &e); if (!i) ERR(e); if ((m & 1) && !(i->mode & 0111)) ERR(EACCES); return 0; }
int sim_chmod(const char *p, mode_t m) { sys_enter("chmod"); disk(); int e; struct inode *i = walk(p, NULL, NULL, NULL, &e); if (!i) ERR(e); if (flt(F_EIO)) ERR(EIO); i->mode = (i->mode & S_IFMT) | (m & 07777); return 0; }
int sim_chdir(const char *p) { sys_enter("chdir"); int e; struct inode *i = walk(p, NULL, NULL, NULL, &e); if (!i) ERR(e); if (i->type != FT_DIR) ERR(ENOTDIR); snprintf(cur->proc->cwd, sizeof cur->proc->cwd, "%s", p); return 0; }
char *sim_getcwd(char *b, size_t n) { snprintf(b, n, "%s", cur->proc->cwd); return b; }
ssize_t sim_readlink(const char *p, char *b, size_t n) { (void)p; const char *s = "/w/sut"; size_t l = strlen(s); if (l > n) l = n; memcpy(b, s, l); return l; }
struct file *fifo_open(struct inode *i, int flags, int *e);
int sim_open(const char *p, int flags, ...) {
	va_list ap; va_start(ap, flags); mode_t mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
	sys_enter("open"); disk(); sim_advance(2000);
	if (flt(F_EMFILE)) ERR(EMFILE);
	if (flt(F_EIO)) ERR(EIO);
	int e; struct inode *i = walk(p, NULL, NULL, NULL, &e);
	if (!i) {
		if (!(flags & O_CREAT)) ERR(e ? e : ENOENT);
		if (flt(F_ENOSPC)) ERR(ENOSPC);
		i = mk(p, FT_REG, S_IFREG | (mode & 0777 & ~022), &e); if (!i) ERR(e);
	} else if ((flags & O_CREAT) && (flags & O_EXCL)) ERR(EEXIST);
	if (i->type == FT_DIR) { if ((flags & O_ACCMODE) != O_RDONLY) ERR(EISDIR); }
	else if (flags & O_DIRECTORY) ERR(ENOTDIR);
	if (i->type == FT_SOCK) ERR(ENXIO);
	struct file *f;
	if (i->type == FT_PIPE_R) { if (!(f = fifo_open(i, flags, &e))) ERR(e); }
	else if (!strncmp(p, "/dev/", 5)) f = file_new(FT_NULL, flags);
	else { f = file_new(i->type == FT_DIR ? FT_DIR : FT_REG, flags & ~(O_CREAT | O_EXCL | O_TRUNC)); f->ino = i; i->refs++; }
	int fd = fd_install(cur->proc, f, 0, !!(flags & O_CLOEXEC));
	if (fd < 0) return -1;
	if ((flags & O_TRUNC) && i->type == FT_REG && f->type == FT_REG && (flags & O_ACCMODE) != O_RDONLY && i->size) {
		setsize(i, 0); i->mtime = wall(); const char *l; int ll; struct inode *par = parent_of(p, &l, &ll); char nm[256]; memcpy(nm, l, ll); nm[ll] = 0; in_notify(par, IN_MODIFY, 0, nm, ll, i); }
	hash_mix(fd);
	return fd;
}
int sim_openat(int d, const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); (void)d; return sim_open(p, flags, m); }
int sim_creat(const char *p, mode_t m) { return sim_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
void fs_file_release(struct file *f) {
	if (f->type == FT_INOTIFY) { struct file **pp = &all_in; while (*pp && *pp != f) pp = &(*pp)->nextin; if (*pp) *pp = f->nextin; return; }
	f->ino->refs--;
	if (f->type == FT_REG && !f->ino->nlink && !f->ino->refs) in_self_gone(f->ino);
}
ssize_t fs_file_read(struct file *f, char *b, size_t n, off_t *pos) {
	disk(); if (flt(F_EIO)) ERR(EIO);
	struct inode *i = f->ino;
	if (*pos >= (off_t)i->size) return 0;
	size_t m = i->size - *pos; if (m > n) m = n;
	if (m > 1 && flt(F_SHORT_READ)) m = 1 + sim_choose(ST_ENV, m - 1);
	memcpy(b, i->data + *pos, m); *pos += m;
	return m;
}
static void notify_modify(struct inode *i) {
	/* find the name by search from the root: few files */
	struct inode *st[64]; int n = 0; st[n++] = root;
	while (n) { struct inode *d = st[--n];
		for (int k = 0; k < d->nent; k++) {
			if (d->ent[k].ino == i) { in_notify(d, IN_MODIFY, 0, d->ent[k].name, strlen(d->ent[k].name), i); return; }
			if (d->ent[k].ino->type == FT_DIR && n < 64) st[n++] = d->ent[k].ino; } }
}
ssize_t fs_file_write(struct file *f, const char *b, size_t n, off_t *pos) {
	struct inode *i = f->ino;
	disk(); if (flt(F_EIO)) ERR(EIO);
	if (n && flt(F_ENOSPC)) { if (n > 1 && sim_choose(ST_ENV, 2)) n = 1 + sim_choose(ST_ENV, n - 1); else ERR(ENOSPC); }
	if (n > 1 && flt(F_SHORT_WRITE)) n = 1 + sim_choose(ST_ENV, n - 1);
	if (!n) return 0;
	if (f->flags & O_APPEND) *pos = i->size;
	if (*pos + (off_t)n > (64 << 20)) ERR(EFBIG);
	if (*pos + n > i->size) setsize(i, *pos + n);
	memcpy(i->data + *pos, b, n); *pos += n; i->mtime = wall();
	if (all_in) notify_modify(i);
	return n;
}
off_t sim_lseek(int fd, off_t o, int wh) {
	sys_enter("lseek"); struct file *f = fd_file(fd); if (!f) return -1;
	if (f->type != FT_REG) ERR(ESPIPE);
	off_t p = wh == SEEK_SET ? o : wh == SEEK_CUR ? f->pos + o : (off_t)f->ino->size + o;
	if (p < 0) ERR(EINVAL);
	return f->pos = p;
}
int sim_ftruncate(int fd, off_t n) { sys_enter("ftruncate"); disk(); struct file *f = fd_file(fd); if (!f) return -1; if (f->type != FT_REG) ERR(EINVAL); setsize(f->ino, n); f->ino->mtime = wall(); if (all_in) notify_modify(f->ino); return 0; }
int sim_fsync(int fd) { sys_enter("fsync"); disk(); if (!fd_file(fd)) return -1; if (flt(F_EIO)) ERR(EIO); return 0; }
int sim_utimensat(int d, const char *p, const struct timespec ts[2], int fl) { (void)d; (void)ts; (void)fl; struct inode *i = fs_lookup(p); if (!i) ERR(ENOENT); i->mtime = wall(); return 0; }

/* directory streams ------------------------------------------------------------ */
struct simdir { int fd, pos; struct dirent de; struct inode *i; };
void *sim_opendir(const char *p) {
	int e = 0; struct inode *i = walk(p, NULL, NULL, NULL, &e);
	if (i && i->type != FT_DIR) { errno = ENOTDIR; return NULL; }
	int fd = sim_open(p, O_RDONLY | O_DIRECTORY); if (fd < 0) return NULL;
	struct simdir *d = xalloc(sizeof *d); memset(d, 0, sizeof *d); d->fd = fd; d->i = cur->proc->fd[fd]->ino;
	return d;
}
struct dirent *sim_readdir(void *x) {
	struct simdir *d = x; sys_enter("readdir");
	int k = d->pos++;
	if (k - 2 >= d->i->nent) return NULL;
	const char *n = k == 0 ? "." : k == 1 ? ".." : d->i->ent[k - 2].name;
	struct inode *i = k == 0 ? d->i : k == 1 ? d->i->parent : d->i->ent[k - 2].ino;
	snprintf(d->de.d_name, sizeof d->de.d_name, "%s", n);
	d->de.d_ino = i->ino; d->de.d_type = i->type == FT_DIR ? DT_DIR : i->type == FT_REG ? DT_REG : DT_SOCK;
	return &d->de;
}
int sim_closedir(void *x) { struct simdir *d = x; int sim_close(int); return sim_close(d->fd); }

/* stdio streams: real glibc FILE objects over simulated descriptors ---------------- */
ssize_t sim_read(int, void *, size_t); ssize_t sim_write(int, const void *, size_t); int sim_close(int);
struct ck { int fd; FILE *fp; int owner, depth; struct ck *next; int is_popen, pid; };
static struct ck *cks;
static ssize_t ck_read(void *c, char *b, size_t n) { return sim_read(((struct ck *)c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { size_t t = 0; while (t < n) { ssize_t r = sim_write(((struct ck *)c)->fd, b + t, n - t); if (r <= 0) break; t += r; } return t; }
static int ck_seek(void *c, off64_t *o, int wh) { off_t r = sim_lseek(((struct ck *)c)->fd, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { return sim_close(((struct ck *)c)->fd); }
FILE *sim_fdopen(int fd, const char *mode) {
	struct ck *c = xalloc(sizeof *c); memset(c, 0, sizeof *c); c->fd = fd;
	cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
	c->fp = fopencookie(c, mode, io); c->next = cks; cks = c;
	return c->fp;
}
static struct ck *ck_of(FILE *f) { for (struct ck *c = cks; c; c = c->next) if (c->fp == f) return c; return NULL; }
FILE *sim_fopen(const char *p, const char *mode) {
	int fl = 0; int plus = strchr(mode, '+') != NULL;
	switch (mode[0]) {
	case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
	case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
	case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
	default: errno = EINVAL; return NULL;
	}
	int fd = sim_open(p, fl, 0666); if (fd < 0) return NULL;
	return sim_fdopen(fd, mode);
}
int sim_fclose(FILE *f) {
	struct ck *c = ck_of(f);
	if (!c) { if (f == stdout || f == stderr || f == stdin) return 0; errno = EBADF; return EOF; }
	struct ck **pp = &cks; while (*pp != c) pp = &(*pp)->next;
	*pp = c->next;
	return fclose(f);
}
int sim_fileno(FILE *f) { struct ck *c = ck_of(f); return c ? c->fd : f == stdin ? 0 : f == stdout ? 1 : 2; }
static int fl_free(void *a) { return ((struct ck *)a)->depth == 0; }
void sim_flockfile(FILE *f) { struct ck *c = ck_of(f); if (!c) return; if (c->depth && c->owner == cur->id) { c->depth++; return; } while (c->depth) sim_block("flockfile", fl_free, c, 0, 0); c->owner = cur->id; c->depth = 1; }
void sim_funlockfile(FILE *f) { struct ck *c = ck_of(f); if (c && c->depth) c->depth--; }
void ck_mark_popen(FILE *f, int pid) { struct ck *c = ck_of(f); c->is_popen = 1; c->pid = pid; }
int ck_popen_pid(FILE *f) { struct ck *c = ck_of(f); return c && c->is_popen ? c->pid : -1; }
