/* Simulated kernel: descriptors, pipes, sockets, epoll, eventfd. */
#include "kern.h"
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <poll.h>
#include <arpa/inet.h>

size_t kern_pipe_cap = 65536, kern_sock_cap = 65536;
static uint64_t next_fid;
static struct file *all_ep;
static struct sock *reg[1024]; static int nreg; /* bound sockets */
static int next_port;
#define ERR(e) do { errno = (e); return -1; } while (0)
#define IGN(x) do { if (x) {} } while (0)

int sim_main_side(void) { return cur->proc == main_proc && !cur->native; }
static int flt(int k) { return sim_main_side() && sim_fault(k); }

/* timed kernel events -------------------------------------------------- */
static uint64_t *evh; static int nevh, capevh;
void kern_event_at(uint64_t t) {
	if (t <= sim_now()) return;
	if (nevh == capevh) { int c = capevh ? capevh * 2 : 256; uint64_t *x = xalloc(c * sizeof *x); if (nevh) memcpy(x, evh, nevh * sizeof *x); evh = x; capevh = c; }
	int i = nevh++;
	while (i && evh[(i - 1) / 2] > t) { evh[i] = evh[(i - 1) / 2]; i = (i - 1) / 2; }
	evh[i] = t;
}
uint64_t kern_next_event(uint64_t now) {
	while (nevh && evh[0] <= now) {
		uint64_t x = evh[--nevh]; int i = 0;
		if (!nevh) break;
		for (;;) { int c = 2 * i + 1; if (c >= nevh) break; if (c + 1 < nevh && evh[c + 1] < evh[c]) c++; if (evh[c] >= x) break; evh[i] = evh[c]; i = c; }
		evh[i] = x;
	}
	return nevh ? evh[0] : ~0ull;
}

/* byte queues ------------------------------------------------------------ */
static size_t buf_space(struct buf *b) { return b->len >= b->limit ? 0 : b->limit - b->len; }
static size_t buf_visible(struct buf *b) {
	uint64_t now = sim_now(), end = b->out;
	for (uint32_t i = b->hseg; i < b->nseg; i++) { if (b->seg[i].at > now) break; end = b->seg[i].end; }
	return end - b->out;
}
static void buf_put(struct buf *b, const char *d, size_t n, uint64_t delay) {
	if (b->head + b->len + n > b->cap) {
		size_t c = b->cap; while (c < b->len + n) c = c ? c * 2 : 1024;
		char *x = c > b->cap ? xalloc(c) : b->d;
		memmove(x, b->d + b->head, b->len); b->d = x; b->cap = c; b->head = 0;
	}
	memcpy(b->d + b->head + b->len, d, n); b->len += n; b->in += n;
	uint64_t at = sim_now() + delay;
	if (b->nseg > b->hseg && b->seg[b->nseg - 1].at > at) at = b->seg[b->nseg - 1].at;
	if (b->hseg == b->nseg) b->hseg = b->nseg = 0;
	if (b->nseg == b->capseg) {
		if (b->hseg > 8) { memmove(b->seg, b->seg + b->hseg, (b->nseg - b->hseg) * sizeof *b->seg); b->nseg -= b->hseg; b->hseg = 0; }
		else { uint32_t c = b->capseg ? b->capseg * 2 : 16; struct seg *x = xalloc(c * sizeof *x); if (b->nseg) memcpy(x, b->seg, b->nseg * sizeof *x); b->seg = x; b->capseg = c; }
	}
	b->seg[b->nseg].end = b->in; b->seg[b->nseg].at = at; b->nseg++;
	kern_event_at(at);
}
static size_t buf_get(struct buf *b, char *d, size_t n) {
	size_t v = buf_visible(b); if (n > v) n = v;
	memcpy(d, b->d + b->head, n); b->head += n; b->len -= n; b->out += n;
	if (!b->len) b->head = 0;
	while (b->hseg < b->nseg && b->seg[b->hseg].end <= b->out) b->hseg++;
	return n;
}

/* files ---------------------------------------------------------------------- */
struct file *file_new(int type, int flags) {
	struct file *f = xalloc(sizeof *f); memset(f, 0, sizeof *f);
	f->type = type; f->flags = flags; f->id = ++next_fid; f->refs = 0; f->seq = 1;
	if (type == FT_EPOLL) { f->nextep = all_ep; all_ep = f; }
	return f;
}
void file_wake(struct file *f) { if (f) f->seq++; }
static void sock_release(struct sock *s);
static void pipe_wake(struct pipe *p);
void file_put(struct file *f) {
	if (--f->refs > 0) return;
	for (struct file *e = all_ep; e; e = e->nextep) {
		struct epi **pp = &e->epl;
		while (*pp) { if ((*pp)->f == f) *pp = (*pp)->next; else pp = &(*pp)->next; }
	}
	switch (f->type) {
	case FT_PIPE_R: f->pipe->readers--; if (f->both) f->pipe->writers--; pipe_wake(f->pipe); break;
	case FT_PIPE_W: f->pipe->writers--; pipe_wake(f->pipe); break;
	case FT_SOCK: sock_release(f->sk); break;
	case FT_EPOLL: { struct file **pp = &all_ep; while (*pp && *pp != f) pp = &(*pp)->nextep; if (*pp) *pp = f->nextep; f->epl = NULL; break; }
	case FT_REG: case FT_DIR: case FT_INOTIFY: fs_file_release(f); break;
	}
}
int fd_install(struct proc *p, struct file *f, int from, int cloexec) {
	if (p == main_proc && from < sim_cfg.min_fd) from = sim_cfg.min_fd;
	for (int i = from; i < MAXFD; i++) if (!p->fd[i]) { p->fd[i] = f; f->refs++; p->cloexec[i] = cloexec; return i; }
	errno = EMFILE; return -1;
}
struct file *fd_file(int fd) {
	if (fd < 0 || fd >= MAXFD || !cur->proc->fd[fd]) { errno = EBADF; return NULL; }
	return cur->proc->fd[fd];
}
void proc_close_all(struct proc *p) {
	for (int i = 0; i < MAXFD; i++) if (p->fd[i]) { struct file *f = p->fd[i]; p->fd[i] = NULL; file_put(f); }
}
void kern_clone_fds(struct proc *d, struct proc *s) {
	for (int i = 0; i < MAXFD; i++) if (s->fd[i]) { d->fd[i] = s->fd[i]; d->fd[i]->refs++; d->cloexec[i] = s->cloexec[i]; }
	memcpy(d->cwd, s->cwd, sizeof d->cwd);
}
int sim_open_fds(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += main_proc->fd[i] != NULL; return n; }
int sim_fd_is_open(int fd) { return fd >= 0 && fd < MAXFD && main_proc->fd[fd] != NULL; }
static int sendflags[MAXFD];
int sim_fd_sendflags(int fd) { return fd >= 0 && fd < MAXFD ? sendflags[fd] : 0; }
int sim_fd_nonblock(int fd) { return sim_fd_is_open(fd) && (main_proc->fd[fd]->flags & O_NONBLOCK) != 0; }
uint64_t sim_fd_id(int fd) { return sim_fd_is_open(fd) ? main_proc->fd[fd]->id : 0; }
uint32_t sim_fd_poll(int fd) { return sim_fd_is_open(fd) ? file_poll(main_proc->fd[fd]) : 0; }
static const char *kind_in(struct proc *p, int fd) {
	static const char *n[] = {"?", "null", "pipe-r", "pipe-w", "socket", "eventfd", "epoll", "inotify", "file", "dir"};
	return fd >= 0 && fd < MAXFD && p->fd[fd] ? n[p->fd[fd]->type] : "closed";
}
const char *sim_fd_kind(int fd) {
	return kind_in(main_proc, fd);
}
const char *sim_own_fd_kind(int fd) { return kind_in(cur->proc, fd); }
void kern_init(void) {
	struct file *f = file_new(FT_NULL, O_RDWR);
	for (int i = 0; i < 3; i++) fd_install(main_proc, f, 0, 0);
	next_port = 40000;
}
static uint64_t net_delay(void) {
	if (!sim_fault(F_NETDELAY)) return 0;
	return 20000ull << sim_choose(ST_ENV, 16); /* 20 us .. 650 ms */
}

/* pipes -------------------------------------------------------------------- */
static struct file *pipe_files[512]; static int npipe_files;
static void pipe_wake(struct pipe *p) { for (int i = 0; i < npipe_files; i++) if (pipe_files[i]->pipe == p) pipe_files[i]->seq++; }
static int emfile(void) { if (flt(F_EMFILE)) { errno = EMFILE; return 1; } return 0; }
int sim_pipe2(int fd[2], int flags) {
	sys_enter("pipe2");
	if (emfile()) return -1;
	struct pipe *p = xalloc(sizeof *p); memset(p, 0, sizeof *p);
	p->b.limit = kern_pipe_cap; p->readers = p->writers = 1;
	struct file *r = file_new(FT_PIPE_R, O_RDONLY | (flags & O_NONBLOCK)), *w = file_new(FT_PIPE_W, O_WRONLY | (flags & O_NONBLOCK));
	r->pipe = w->pipe = p;
	if (npipe_files + 2 <= 512) { pipe_files[npipe_files++] = r; pipe_files[npipe_files++] = w; }
	fd[0] = fd_install(cur->proc, r, 0, !!(flags & O_CLOEXEC));
	if (fd[0] < 0) return -1;
	fd[1] = fd_install(cur->proc, w, 0, !!(flags & O_CLOEXEC));
	if (fd[1] < 0) { cur->proc->fd[fd[0]] = NULL; return -1; }
	return 0;
}
struct file *fifo_open(struct inode *i, int flags, int *e) { /* like fifo(7); an end that would wait for the other is not modelled */
	int acc = flags & O_ACCMODE; struct pipe *p = i->pipe;
	if (!p || (!p->readers && !p->writers)) { p = i->pipe = xalloc(sizeof *p); memset(p, 0, sizeof *p); p->b.limit = kern_pipe_cap; }
	if (acc == O_WRONLY && !p->readers) { *e = ENXIO; return NULL; }
	struct file *f = file_new(acc == O_WRONLY ? FT_PIPE_W : FT_PIPE_R, flags & ~(O_CREAT | O_EXCL | O_TRUNC));
	f->pipe = p; f->both = acc == O_RDWR;
	if (acc != O_WRONLY) p->readers++;
	if (acc != O_RDONLY) p->writers++;
	if (npipe_files + 1 <= 512) pipe_files[npipe_files++] = f;
	pipe_wake(p);
	return f;
}
int sim_pipe(int fd[2]) { return sim_pipe2(fd, 0); }

/* readiness -------------------------------------------------------------------- */
static uint32_t sock_poll(struct sock *s) {
	uint32_t m = 0;
	if (s->type == SOCK_DGRAM) {
		m = EPOLLOUT | EPOLLWRNORM;
		if (s->q && s->q->at <= sim_now()) m |= EPOLLIN | EPOLLRDNORM;
		if (s->err) m |= EPOLLERR;
		return m;
	}
	switch (s->state) {
	case S_NEW: case S_DEAD: return EPOLLOUT | EPOLLHUP | (s->err ? EPOLLERR | EPOLLIN : 0);
	case S_LISTEN: return s->naq ? EPOLLIN | EPOLLRDNORM : 0;
	case S_CONNECTING: if (s->state == S_CONNECTING) return 0; if (s->state == S_DEAD) return EPOLLERR | EPOLLHUP | EPOLLIN | EPOLLOUT;
	}
	int fin = s->fin && s->fin_at <= sim_now() && buf_visible(&s->rx) == s->rx.len;
	if (buf_visible(&s->rx)) m |= EPOLLIN | EPOLLRDNORM;
	if (fin || s->shut_rd) m |= EPOLLIN | EPOLLRDHUP;
	if (fin && s->shut_wr) m |= EPOLLHUP;
	if (s->err) m |= EPOLLERR | EPOLLIN | EPOLLOUT | EPOLLHUP;
	if (s->peer ? buf_space(&s->peer->rx) > s->peer->rx.limit / 3 : 1) m |= EPOLLOUT | EPOLLWRNORM;
	return m;
}
uint32_t file_poll(struct file *f) {
	uint32_t m = 0;
	switch (f->type) {
	case FT_NULL: case FT_REG: case FT_DIR: return EPOLLIN | EPOLLOUT;
	case FT_PIPE_R: if (buf_visible(&f->pipe->b)) m |= EPOLLIN | EPOLLRDNORM; if (!f->pipe->writers) m |= EPOLLHUP; return m;
	case FT_PIPE_W: if (buf_space(&f->pipe->b) >= (f->pipe->b.limit < 4096 ? 1 : 4096)) m |= EPOLLOUT | EPOLLWRNORM; if (!f->pipe->readers) m |= EPOLLERR; return m;
	case FT_SOCK: return sock_poll(f->sk);
	case FT_EVENTFD: if (f->evcnt) m |= EPOLLIN; if (f->evcnt < ~0ull - 1) m |= EPOLLOUT; return m;
	case FT_INOTIFY: return inotify_readable(f) ? EPOLLIN : 0;
	case FT_EPOLL: for (struct epi *e = f->epl; e; e = e->next) if (file_poll(e->f) & (e->ev | EPOLLERR | EPOLLHUP)) return EPOLLIN; return 0;
	}
	return 0;
}
struct pw { struct file *f; uint32_t m; };
static int pw_ready(void *a) { struct pw *w = a; return (file_poll(w->f) & w->m) != 0; }
/* wait until f is ready for m; 0 ok, -1 errno set */
static int wait_file(struct file *f, uint32_t m, const char *why) {
	struct pw w = {f, m | EPOLLERR | EPOLLHUP};
	if (pw_ready(&w)) return 0;
	if (f->flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
	if (flt(F_EINTR)) { errno = EINTR; return -1; }
	f->refs++;
	for (;;) {
		int r = sim_block(why, pw_ready, &w, 0, 1);
		if (r == 1) { f->refs--; if (!f->refs) { f->refs = 1; file_put(f); errno = EBADF; return -1; } return 0; }
		if (r < 0 && !restartable()) { f->refs--; errno = EINTR; return -1; }
	}
}

/* epoll ------------------------------------------------------------------------- */
int sim_epoll_create1(int flags) {
	sys_enter("epoll_create");
	if (emfile()) return -1;
	return fd_install(cur->proc, file_new(FT_EPOLL, 0), 0, !!(flags & EPOLL_CLOEXEC));
}
int sim_epoll_create(int n) { if (n <= 0) ERR(EINVAL); return sim_epoll_create1(0); }
int sim_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
	sys_enter("epoll_ctl");
	struct file *e = fd_file(ep), *f;
	if (!e || !(f = fd_file(fd))) return -1;
	if (e->type != FT_EPOLL || e == f) ERR(EINVAL);
	if (f->type == FT_REG || f->type == FT_DIR) ERR(EPERM);
	struct epi **pp = &e->epl;
	while (*pp && !((*pp)->f == f && (*pp)->fd == fd)) pp = &(*pp)->next;
	struct epi *x = *pp;
	hash_mix(op * 1000 + fd);
	switch (op) {
	case EPOLL_CTL_ADD:
		if (x) ERR(EEXIST);
		if (flt(F_POLLERR)) ERR(ENOSPC);
		x = xalloc(sizeof *x); memset(x, 0, sizeof *x);
		x->f = f; x->fd = fd; x->ev = ev->events; x->data = ev->data; x->armed = 1;
		/* position in the ready list is up to arrival timing: seeded */
		if (e->epl && sim_choose(ST_ORDER, 2)) { x->next = e->epl; e->epl = x; } else { pp = &e->epl; while (*pp) pp = &(*pp)->next; *pp = x; }
		return 0;
	case EPOLL_CTL_MOD:
		if (!x) ERR(ENOENT);
		x->ev = ev->events; x->data = ev->data; x->armed = 1; x->seen = 0;
		return 0;
	case EPOLL_CTL_DEL:
		if (!x) ERR(ENOENT);
		*pp = x->next;
		return 0;
	}
	ERR(EINVAL);
}
static uint32_t epi_ready(struct epi *x) {
	if (!x->armed) return 0;
	uint32_t m = file_poll(x->f) & (x->ev | EPOLLERR | EPOLLHUP);
	if (m && (x->ev & EPOLLET) && x->seen == x->f->seq) return 0;
	return m;
}
static int ep_ready(void *a) {
	struct file *e = a;
	for (struct epi *x = e->epl; x; x = x->next) if (epi_ready(x)) return 1;
	return 0;
}
static int ep_collect(struct file *e, struct epoll_event *ev, int max) {
	int n = 0; struct epi *moved[256]; int nm = 0;
	struct epi **pp = &e->epl;
	while (*pp && n < max && nm < 256) {
		struct epi *x = *pp; uint32_t m = epi_ready(x);
		if (!m) { pp = &x->next; continue; }
		ev[n].events = m; ev[n].data = x->data; n++;
		x->seen = x->f->seq;
		if (x->ev & EPOLLONESHOT) x->armed = 0;
		*pp = x->next; x->next = NULL; moved[nm++] = x;
	}
	pp = &e->epl; while (*pp) pp = &(*pp)->next;
	for (int i = 0; i < nm; i++) { *pp = moved[i]; pp = &moved[i]->next; }
	return n;
}
int sim_epoll_pwait(int ep, struct epoll_event *ev, int max, int ms, const sigset_t *ss) {
	(void)ss;
	sys_enter("epoll_wait");
	struct file *e = fd_file(ep);
	if (!e) return -1;
	if (e->type != FT_EPOLL || max <= 0) ERR(EINVAL);
	if (!ep_ready(e)) {
		if (ms == 0) { sim_advance(sim_cfg.poll_step_us * 1000ull); }
		else {
			if (flt(F_EINTR)) ERR(EINTR);
			/* a busy machine returns later than asked; never earlier */
			uint64_t dl = ms < 0 ? 0 : sim_now() + ms * 1000000ull + sim_choose(ST_TIME, 4) * 15000ull;
			e->refs++;
			int r = sim_block("epoll_wait", ep_ready, e, dl, 1);
			e->refs--;
			if (r < 0) ERR(EINTR);
		}
	} else sim_advance(2000);
	int n = ep_collect(e, ev, max);
	hash_mix(n * 77 + 3);
	return n;
}
int sim_epoll_wait(int ep, struct epoll_event *ev, int max, int ms) { return sim_epoll_pwait(ep, ev, max, ms, NULL); }
struct pollset { struct pollfd *p; int n; };
static int poll_scan(void *a) {
	struct pollset *s = a; int c = 0;
	for (int i = 0; i < s->n; i++) {
		s->p[i].revents = 0;
		if (s->p[i].fd < 0) continue;
		struct file *f = s->p[i].fd < MAXFD ? cur->proc->fd[s->p[i].fd] : NULL;
		if (!f) { s->p[i].revents = POLLNVAL; c++; continue; }
		s->p[i].revents = file_poll(f) & (s->p[i].events | POLLERR | POLLHUP);
		c += s->p[i].revents != 0;
	}
	return c;
}
struct pollw { struct file *f[32]; short ev[32]; int n; };
static int pollw_ready(void *a) { struct pollw *w = a; for (int i = 0; i < w->n; i++) if (w->f[i] && (file_poll(w->f[i]) & (w->ev[i] | EPOLLERR | EPOLLHUP))) return 1; return 0; }
int sim_poll(struct pollfd *p, unsigned long n, int ms) {
	sys_enter("poll");
	struct pollset s = {p, (int)n};
	int r = poll_scan(&s);
	if (r || ms == 0) { if (!r) sim_advance(sim_cfg.poll_step_us * 1000ull); return r; }
	struct pollw w; w.n = n > 32 ? 32 : n;
	for (int i = 0; i < w.n; i++) { w.f[i] = p[i].fd >= 0 ? fd_file(p[i].fd) : NULL; w.ev[i] = p[i].events; }
	if (sim_block("poll", pollw_ready, &w, ms < 0 ? 0 : sim_now() + ms * 1000000ull, 1) < 0) ERR(EINTR);
	return poll_scan(&s);
}

/* eventfd -------------------------------------------------------------------------- */
int sim_eventfd(unsigned init, int flags) {
	sys_enter("eventfd");
	if (emfile()) return -1;
	struct file *f = file_new(FT_EVENTFD, O_RDWR | ((flags & EFD_NONBLOCK) ? O_NONBLOCK : 0));
	f->evcnt = init; f->evsema = !!(flags & EFD_SEMAPHORE);
	return fd_install(cur->proc, f, 0, !!(flags & EFD_CLOEXEC));
}

/* sockets ---------------------------------------------------------------------------- */
static struct sock *sock_new(int fam, int type) {
	struct sock *s = xalloc(sizeof *s); memset(s, 0, sizeof *s);
	s->family = fam; s->type = type; s->rx.limit = kern_sock_cap; s->is_uds = fam == AF_UNIX;
	s->local.ss_family = s->remote.ss_family = fam;
	s->locallen = s->remotelen = fam == AF_UNIX ? sizeof(sa_family_t) : fam == AF_INET6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in);
	return s;
}
static int port_of(const struct sockaddr_storage *a) {
	if (a->ss_family == AF_INET) return ntohs(((struct sockaddr_in *)a)->sin_port);
	if (a->ss_family == AF_INET6) return ntohs(((struct sockaddr_in6 *)a)->sin6_port);
	return 0;
}
static void set_port(struct sockaddr_storage *a, int p) {
	if (a->ss_family == AF_INET) ((struct sockaddr_in *)a)->sin_port = htons(p);
	if (a->ss_family == AF_INET6) ((struct sockaddr_in6 *)a)->sin6_port = htons(p);
}
static int is_any(const struct sockaddr_storage *a) {
	if (a->ss_family == AF_INET) return ((struct sockaddr_in *)a)->sin_addr.s_addr == 0;
	if (a->ss_family == AF_INET6) return IN6_IS_ADDR_UNSPECIFIED(&((struct sockaddr_in6 *)a)->sin6_addr);
	return 0;
}
static int same_host(const struct sockaddr_storage *a, const struct sockaddr_storage *b) {
	if (a->ss_family != b->ss_family) return 0;
	if (is_any(a) || is_any(b)) return 1;
	if (a->ss_family == AF_INET) return ((struct sockaddr_in *)a)->sin_addr.s_addr == ((struct sockaddr_in *)b)->sin_addr.s_addr;
	return !memcmp(&((struct sockaddr_in6 *)a)->sin6_addr, &((struct sockaddr_in6 *)b)->sin6_addr, 16);
}
static struct sock *reg_find(const struct sockaddr_storage *a, int type) {
	for (int i = 0; i < nreg; i++) if (reg[i]->type == type && reg[i]->family == a->ss_family && reg[i]->bound && port_of(&reg[i]->local) == port_of(a) && same_host(&reg[i]->local, a)) return reg[i];
	return NULL;
}
static void reg_add(struct sock *s) { if (nreg < 1024) reg[nreg++] = s; }
static void autobind(struct sock *s) {
	if (s->bound || s->is_uds) return;
	if (s->family == AF_INET) ((struct sockaddr_in *)&s->local)->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	else ((struct sockaddr_in6 *)&s->local)->sin6_addr = in6addr_loopback;
	set_port(&s->local, next_port++);
	s->bound = 1; reg_add(s);
}
int sim_socket(int fam, int type, int proto) {
	sys_enter("socket"); (void)proto;
	if (emfile()) return -1;
	if (fam != AF_INET && fam != AF_INET6 && fam != AF_UNIX) ERR(EAFNOSUPPORT);
	int fl = type & (SOCK_NONBLOCK | SOCK_CLOEXEC); type &= ~fl;
	if (type != SOCK_STREAM && type != SOCK_DGRAM) ERR(EINVAL);
	struct file *f = file_new(FT_SOCK, O_RDWR | ((fl & SOCK_NONBLOCK) ? O_NONBLOCK : 0));
	f->sk = sock_new(fam, type); f->sk->file = f;
	return fd_install(cur->proc, f, 0, !!(fl & SOCK_CLOEXEC));
}
static struct sock *fd_sock(int fd) {
	struct file *f = fd_file(fd); if (!f) return NULL;
	if (f->type != FT_SOCK) { errno = ENOTSOCK; return NULL; }
	return f->sk;
}
static void stream_pair(struct sock *a, struct sock *b) {
	a->peer = b; b->peer = a; a->state = b->state = S_CONNECTED;
}
int sim_socketpair(int fam, int type, int proto, int sv[2]) {
	sys_enter("socketpair");
	if (emfile()) return -1;
	(void)proto;
	int fl = type & (SOCK_NONBLOCK | SOCK_CLOEXEC); type &= ~fl;
	struct file *a = file_new(FT_SOCK, O_RDWR | ((fl & SOCK_NONBLOCK) ? O_NONBLOCK : 0)), *b = file_new(FT_SOCK, a->flags);
	a->sk = sock_new(fam, type); b->sk = sock_new(fam, type); a->sk->file = a; b->sk->file = b;
	stream_pair(a->sk, b->sk);
	sv[0] = fd_install(cur->proc, a, 0, !!(fl & SOCK_CLOEXEC)); sv[1] = fd_install(cur->proc, b, 0, !!(fl & SOCK_CLOEXEC));
	return sv[0] < 0 || sv[1] < 0 ? -1 : 0;
}
/* A port whose connections were closed on this side first waits (TIME_WAIT); only a socket that says so can have it. */
static uint64_t used_until[65536]; static char used_noreuse[65536];
int sim_bind(int fd, const struct sockaddr *a, socklen_t len) {
	sys_enter("bind");
	struct sock *s = fd_sock(fd); if (!s) return -1;
	if (s->bound) ERR(EINVAL);
	if (a->sa_family != s->family) ERR(EAFNOSUPPORT);
	struct sockaddr_storage ss; memset(&ss, 0, sizeof ss); memcpy(&ss, a, len > sizeof ss ? sizeof ss : len);
	if (s->is_uds) {
		struct sockaddr_un *u = (struct sockaddr_un *)&ss; int e = 0;
		if (len > sizeof *u || len < 3) ERR(EINVAL);
		if (!fs_mksock(u->sun_path, s, &e)) ERR(e == EEXIST ? EADDRINUSE : e);
	} else {
		if (len < (s->family == AF_INET6 ? 24 : sizeof(struct sockaddr_in))) ERR(EINVAL);
		if (port_of(&ss) == 0) set_port(&ss, next_port++);
		else if (reg_find(&ss, s->type)) ERR(EADDRINUSE);
		else if (s->type == SOCK_STREAM && (!s->opt_reuse || used_noreuse[port_of(&ss)]) && used_until[port_of(&ss)] > sim_now()) ERR(EADDRINUSE);
	}
	s->local = ss; s->locallen = len; s->bound = 1; reg_add(s);
	return 0;
}
int sim_listen(int fd, int backlog) {
	sys_enter("listen");
	struct sock *s = fd_sock(fd); if (!s) return -1;
	if (s->type != SOCK_STREAM) ERR(EOPNOTSUPP);
	if (s->state == S_CONNECTED) ERR(EINVAL);
	if (flt(F_REFUSE)) ERR(EADDRINUSE); /* another socket with SO_REUSEADDR came first */
	autobind(s);
	s->state = S_LISTEN; s->backlog = backlog < 1 ? 1 : backlog > 60 ? 60 : backlog;
	return 0;
}
/* complete or fail a pending connect whose time has come */
static void connect_step(struct sock *s) {
	uint64_t now = sim_now();
	if (s->state != S_CONNECTING || s->conn_at > now) return;
	if (s->conn_err) { s->err = s->conn_err; s->state = S_DEAD; file_wake(s->file); return; }
	struct sock *l = s->target;
	if (l->state != S_LISTEN) { s->err = ECONNREFUSED; s->state = S_DEAD; file_wake(s->file); return; }
	if (l->naq > l->backlog) {
		if (now >= s->conn_limit) { s->err = ETIMEDOUT; s->state = S_DEAD; file_wake(s->file); }
		else { s->conn_at = now + 200000000ull; kern_event_at(s->conn_at); }
		return;
	}
	struct sock *c = sock_new(s->family, SOCK_STREAM);
	c->local = s->remote; c->locallen = s->remotelen; c->remote = s->local; c->remotelen = s->locallen;
	c->opt_reuse = l->opt_reuse; c->accepted = 1;
	stream_pair(s, c);
	l->aq[l->naq++] = c;
	file_wake(s->file); file_wake(l->file);
}
/* Called whenever simulated time passes: readiness tests have no side effects, so that they may be repeated at will. */
static uint64_t next_conn = ~0ull;
void kern_tick(uint64_t now) {
	if (now < next_conn) return;
	next_conn = ~0ull;
	for (int i = 0; i < nreg; i++) if (reg[i]->state == S_CONNECTING) { connect_step(reg[i]); if (reg[i]->state == S_CONNECTING && reg[i]->conn_at < next_conn) next_conn = reg[i]->conn_at; }
}
static int conn_done(void *a) { struct sock *s = a; return s->state != S_CONNECTING; }
int sim_connect(int fd, const struct sockaddr *a, socklen_t len) {
	sys_enter("connect");
	struct sock *s = fd_sock(fd); if (!s) return -1;
	struct file *f = cur->proc->fd[fd];
	struct sockaddr_storage ss; memset(&ss, 0, sizeof ss); memcpy(&ss, a, len > sizeof ss ? sizeof ss : len);
	if (len < (s->family == AF_INET6 ? 24 : s->family == AF_INET ? 16 : 3) || (s->family == AF_UNIX && len > sizeof(struct sockaddr_un))) ERR(EINVAL);
	if (s->type == SOCK_DGRAM) { autobind(s); s->remote = ss; s->remotelen = len; s->connected_dg = 1; return 0; }
	if (s->state == S_CONNECTED) ERR(EISCONN);
	if (s->state == S_CONNECTING) ERR(EALREADY);
	if (s->state == S_LISTEN) ERR(EOPNOTSUPP);
	if (s->err) { int e = s->err; s->err = 0; s->state = S_NEW; ERR(e); }
	if (a->sa_family != s->family) ERR(EAFNOSUPPORT);
	struct sock *l = NULL; int e = ECONNREFUSED;
	if (s->is_uds) {
		struct inode *i = fs_lookup(((struct sockaddr_un *)&ss)->sun_path);
		if (!i) e = ENOENT; else if (i->sock && i->sock->state == S_LISTEN) l = i->sock;
	} else {
		for (int i = 0; i < nreg; i++) if (reg[i]->state == S_LISTEN && reg[i]->family == s->family && port_of(&reg[i]->local) == port_of(&ss) && same_host(&reg[i]->local, &ss)) { l = reg[i]; break; }
		if (!is_any(&ss) && s->family == AF_INET && (ntohl(((struct sockaddr_in *)&ss)->sin_addr.s_addr) >> 24) == 10) { l = NULL; e = ENETUNREACH; ERR(e); }
	}
	s->remote = ss; s->remotelen = len;
	if (l && flt(F_REFUSE)) l = NULL;
	if (s->is_uds) {
		if (!l) ERR(e);
		if (l->naq > l->backlog) {
			if (f->flags & O_NONBLOCK) ERR(EAGAIN);
		}
		s->target = l; s->state = S_CONNECTING; s->conn_at = sim_now(); s->conn_limit = ~0ull; reg_add(s);
		next_conn = 0; kern_tick(sim_now());
		if (s->state == S_CONNECTING) { sim_block("connect", conn_done, s, 0, 0); }
		if (s->state == S_CONNECTED) return 0;
		e = s->err; s->err = 0; s->state = S_NEW; ERR(e);
	}
	autobind(s);
	s->target = l; s->conn_err = l ? 0 : ECONNREFUSED; s->state = S_CONNECTING;
	s->conn_at = sim_now() + 30000 + net_delay(); s->conn_limit = sim_now() + 127000000000ull;
	kern_event_at(s->conn_at); if (s->conn_at < next_conn) next_conn = s->conn_at;
	if (f->flags & O_NONBLOCK) ERR(EINPROGRESS);
	if (flt(F_EINTR)) ERR(EINTR);
	int r = sim_block("connect", conn_done, s, 0, 1);
	if (r < 0) ERR(EINTR);
	if (s->state == S_CONNECTED) return 0;
	e = s->err; s->err = 0; s->state = S_NEW; ERR(e);
}
static int acc_ready(void *a) { struct sock *s = a; return s->naq > 0; }
int sim_accept4(int fd, struct sockaddr *a, socklen_t *len, int fl) {
	sys_enter("accept");
	struct sock *s = fd_sock(fd); if (!s) return -1;
	struct file *f = cur->proc->fd[fd];
	if (s->state != S_LISTEN) ERR(EINVAL);
	if (!acc_ready(s)) {
		if (f->flags & O_NONBLOCK) ERR(EAGAIN);
		if (flt(F_EINTR)) ERR(EINTR);
		for (;;) { int r = sim_block("accept", acc_ready, s, 0, 1); if (r == 1) break; if (r < 0 && !restartable()) ERR(EINTR); }
	} else if ((f->flags & O_NONBLOCK) && flt(F_EAGAIN)) ERR(EAGAIN);
	if (flt(F_ABORTCONN)) ERR(ECONNABORTED);
	if (emfile()) return -1;
	struct sock *c = s->aq[0];
	struct file *n = file_new(FT_SOCK, O_RDWR | ((fl & SOCK_NONBLOCK) ? O_NONBLOCK : 0));
	n->sk = c; c->file = n;
	int nfd = fd_install(cur->proc, n, 0, !!(fl & SOCK_CLOEXEC));
	if (nfd < 0) return -1;
	memmove(s->aq, s->aq + 1, --s->naq * sizeof s->aq[0]);
	if (a && len) { socklen_t m = *len < c->remotelen ? *len : c->remotelen; memcpy(a, &c->remote, m); *len = c->remotelen; }
	return nfd;
}
int sim_accept(int fd, struct sockaddr *a, socklen_t *len) { return sim_accept4(fd, a, len, 0); }
static void sock_fin(struct sock *to, uint64_t d) {
	if (!to || to->fin) return;
	to->fin = 1; to->fin_at = sim_now() + d;
	if (to->rx.nseg > to->rx.hseg && to->rx.seg[to->rx.nseg - 1].at > to->fin_at) to->fin_at = to->rx.seg[to->rx.nseg - 1].at;
	kern_event_at(to->fin_at); file_wake(to->file);
}
static void sock_release(struct sock *s) {
	for (int i = 0; i < nreg; i++) if (reg[i] == s) { reg[i] = reg[--nreg]; break; }
	if (s->state == S_LISTEN) for (int i = 0; i < s->naq; i++) { struct sock *p = s->aq[i]->peer; if (p) { p->err = ECONNRESET; p->peer = NULL; file_wake(p->file); } }
	if (s->peer) {
		struct sock *p = s->peer;
		if (s->accepted && !s->is_uds) { used_until[port_of(&s->local)] = sim_now() + 60000000000ull; used_noreuse[port_of(&s->local)] = !s->opt_reuse; }
		if (s->rx.len) p->err = s->err ? p->err : ECONNRESET;
		else sock_fin(p, 0);
		p->peer = NULL; file_wake(p->file);
	}
	s->state = S_DEAD; s->bound = 0; s->peer = NULL;
}
/* abortive close by an environment peer */
void sim_reset(int fd) {
	struct sock *s = fd_sock(fd); if (!s) return;
	if (s->peer) { s->peer->err = ECONNRESET; s->peer->peer = NULL; file_wake(s->peer->file); s->peer = NULL; }
	s->err = ECONNRESET;
}
int sim_shutdown(int fd, int how) {
	sys_enter("shutdown");
	struct sock *s = fd_sock(fd); if (!s) return -1;
	if (s->state != S_CONNECTED) ERR(ENOTCONN);
	if (how == SHUT_WR || how == SHUT_RDWR) { s->shut_wr = 1; sock_fin(s->peer, net_delay()); }
	if (how == SHUT_RD || how == SHUT_RDWR) { s->shut_rd = 1; file_wake(s->file); }
	return 0;
}
void proc_sigpipe(void);
static ssize_t sock_send(struct file *f, const char *b, size_t n, int flags) {
	struct sock *s = f->sk;
	if (s->type == SOCK_DGRAM) ERR(EINVAL);
	if (s->state == S_CONNECTING) { if (s->state == S_CONNECTING) ERR(f->flags & O_NONBLOCK ? EAGAIN : ENOTCONN); }
	if (s->err) { int e = s->err; s->err = 0; if (e == ECONNRESET) s->state = S_DEAD; ERR(e); }
	if (s->state == S_NEW) ERR(ENOTCONN);
	if (s->shut_wr || !s->peer || s->state == S_DEAD) { if (!(flags & MSG_NOSIGNAL)) proc_sigpipe(); ERR(EPIPE); }
	if (flt(F_RESET)) { s->peer->err = ECONNRESET; s->peer->peer = NULL; file_wake(s->peer->file); s->peer = NULL; s->state = S_DEAD; s->fin = 1; ERR(ECONNRESET); }
	size_t done = 0;
	int nb = (f->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT);
	for (;;) {
		size_t sp = s->peer ? buf_space(&s->peer->rx) : 0, m = n - done < sp ? n - done : sp;
		if (s->peer && m) {
			if (m > 1 && nb && flt(F_SHORT_WRITE)) m = 1 + sim_choose(ST_ENV, m - 1);
			buf_put(&s->peer->rx, b + done, m, net_delay()); file_wake(s->peer->file); done += m;
		}
		if (done == n || (nb && done)) return done;
		if (nb) ERR(EAGAIN);
		struct pw w = {f, EPOLLOUT | EPOLLERR | EPOLLHUP};
		if (!done && flt(F_EINTR)) ERR(EINTR);
		int r = sim_block("send", pw_ready, &w, 0, 1);
		if (r < 0 && !restartable()) { if (done) return done; ERR(EINTR); }
		if (s->err || !s->peer) { if (done) return done; int e = s->err ? s->err : EPIPE; s->err = 0; ERR(e); }
	}
}
static ssize_t sock_recv(struct file *f, char *b, size_t n, int flags) {
	struct sock *s = f->sk;
	if (s->state == S_LISTEN || s->state == S_NEW) ERR(ENOTCONN);
	int nb = (f->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT);
	for (;;) {

		size_t v = buf_visible(&s->rx);
		if (v) {
			if (nb && flt(F_EAGAIN)) ERR(EAGAIN);
			size_t m = n < v ? n : v;
			if (m > 1 && flt(F_SHORT_READ)) m = 1 + sim_choose(ST_ENV, m - 1);
			if (flags & MSG_PEEK) { memcpy(b, s->rx.d + s->rx.head, m); return m; }
			size_t was = buf_space(&s->rx);
			m = buf_get(&s->rx, b, m);
			if (s->peer) { if (was <= s->rx.limit / 3) file_wake(s->peer->file); }
			return m;
		}
		if (s->err) { int e = s->err; s->err = 0; s->fin = 1; s->fin_at = 0; s->state = S_DEAD; ERR(e); }
		if ((s->fin && s->fin_at <= sim_now() && !s->rx.len) || s->shut_rd || s->state == S_DEAD) return 0;
		if (nb) ERR(EAGAIN);
		struct pw w = {f, EPOLLIN | EPOLLERR | EPOLLHUP};
		if (flt(F_EINTR)) ERR(EINTR);
		int r = sim_block("recv", pw_ready, &w, 0, 1);
		if (r < 0 && !restartable()) ERR(EINTR);
	}
}
/* datagrams */
static void dg_insert(struct sock *t, struct dgram *d) {
	struct dgram **pp = &t->q;
	while (*pp && (*pp)->at <= d->at) pp = &(*pp)->next;
	d->next = *pp; *pp = d; t->nq++;
	kern_event_at(d->at); file_wake(t->file);
}
static struct dgram *dg_new(struct sock *s, const void *b, size_t n, uint64_t at) {
	struct dgram *d = xalloc(sizeof *d + n); d->next = NULL; d->at = at; d->len = n; memcpy(d->d, b, n);
	d->from = s->local; d->fromlen = s->locallen; return d;
}
static int dg_ready(void *a) { struct sock *s = a; return (s->q && s->q->at <= sim_now()) || s->err || s->shut_rd; }
ssize_t sim_sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *a, socklen_t len) {
	sys_enter("sendto");
	struct sock *s = fd_sock(fd); if (!s) return -1;
	if (cur->proc == main_proc) sendflags[fd] = flags;
	sim_advance(1000);
	if (s->type == SOCK_STREAM) return sock_send(cur->proc->fd[fd], b, n, flags);
	struct sockaddr_storage ss; memset(&ss, 0, sizeof ss);
	if (a) { if (len < sizeof(sa_family_t)) ERR(EINVAL); memcpy(&ss, a, len > sizeof ss ? sizeof ss : len); }
	else if (s->connected_dg) ss = s->remote; else ERR(EDESTADDRREQ);
	if (n > 65507) ERR(EMSGSIZE);
	if (ss.ss_family != s->family) ERR(s->family == AF_INET ? EAFNOSUPPORT : EINVAL);
	if (a && s->family == AF_INET && len < sizeof(struct sockaddr_in)) ERR(EINVAL);
	if (a && s->family == AF_INET6 && len < 24) ERR(EINVAL);
	if (s->family != AF_UNIX && !port_of(&ss)) ERR(EINVAL);
	if (((cur->proc->fd[fd]->flags | (flags & MSG_DONTWAIT ? O_NONBLOCK : 0)) & O_NONBLOCK) && flt(F_EAGAIN)) ERR(EAGAIN);
	if (s->err) { int e = s->err; s->err = 0; ERR(e); }
	autobind(s);
	struct sock *t = reg_find(&ss, SOCK_DGRAM);
	if (!t) { if (s->connected_dg) { s->err = ECONNREFUSED; file_wake(s->file); } return n; }
	if (sim_fault(F_DG_LOSS) || t->nq > 200) { sim_note("datagram lost"); return n; }
	if (t->connected_dg && !(port_of(&t->remote) == port_of(&s->local) && same_host(&t->remote, &s->local))) return n;
	uint64_t at = sim_now() + net_delay();
	if (!sim_fault(F_DG_REORDER)) for (struct dgram *q = t->q; q; q = q->next) if (q->at > at) at = q->at;
	dg_insert(t, dg_new(s, b, n, at));
	if (sim_fault(F_DG_DUP)) dg_insert(t, dg_new(s, b, n, at + (sim_choose(ST_ENV, 2) ? net_delay() : 0)));
	return n;
}
ssize_t sim_recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *a, socklen_t *len) {
	sys_enter("recvfrom");
	struct sock *s = fd_sock(fd); if (!s) return -1;
	struct file *f = cur->proc->fd[fd];
	sim_advance(1000);
	if (s->type == SOCK_STREAM) { if (len) *len = 0; return sock_recv(f, b, n, flags); }
	int nb = (f->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT);
	if (!dg_ready(s)) {
		if (nb) ERR(EAGAIN);
		if (flt(F_EINTR)) ERR(EINTR);
		for (;;) { int r = sim_block("recvfrom", dg_ready, s, 0, 1); if (r == 1) break; if (r < 0 && !restartable()) ERR(EINTR); }
	} else if (nb && flt(F_EAGAIN)) ERR(EAGAIN);
	if (s->err) { int e = s->err; s->err = 0; ERR(e); }
	if (!s->q) return 0;
	struct dgram *d = s->q;
	size_t m = d->len < n ? d->len : n;
	memcpy(b, d->d, m);
	if (a && len) { socklen_t k = *len < d->fromlen ? *len : d->fromlen; memcpy(a, &d->from, k); *len = d->fromlen; }
	if (!(flags & MSG_PEEK)) { s->q = d->next; s->nq--; }
	return (flags & MSG_TRUNC) ? (ssize_t)d->len : (ssize_t)m;
}
ssize_t sim_send(int fd, const void *b, size_t n, int fl) { return sim_sendto(fd, b, n, fl, NULL, 0); }
ssize_t sim_recv(int fd, void *b, size_t n, int fl) { return sim_recvfrom(fd, b, n, fl, NULL, NULL); }
int sim_getsockname(int fd, struct sockaddr *a, socklen_t *len) {
	sys_enter("getsockname");
	struct sock *s = fd_sock(fd); if (!s) return -1;
	memcpy(a, &s->local, *len < s->locallen ? *len : s->locallen); *len = s->locallen; return 0;
}
int sim_getpeername(int fd, struct sockaddr *a, socklen_t *len) {
	sys_enter("getpeername");
	struct sock *s = fd_sock(fd); if (!s) return -1;
	if (s->type == SOCK_STREAM) { if (s->state != S_CONNECTED) ERR(ENOTCONN); }
	else if (!s->connected_dg) ERR(ENOTCONN);
	memcpy(a, &s->remote, *len < s->remotelen ? *len : s->remotelen); *len = s->remotelen; return 0;
}
int sim_getsockopt(int fd, int lvl, int opt, void *v, socklen_t *len) {
	sys_enter("getsockopt");
	struct sock *s = fd_sock(fd); if (!s) return -1;
	int r = 0;

	if (lvl == SOL_SOCKET) switch (opt) {
	case SO_ERROR: r = s->err; s->err = 0; break;
	case SO_TYPE: r = s->type; break;
	case SO_ACCEPTCONN: r = s->state == S_LISTEN; break;
	case SO_DOMAIN: r = s->family; break;
	case SO_PROTOCOL: r = s->is_uds ? 0 : s->type == SOCK_STREAM ? IPPROTO_TCP : IPPROTO_UDP; break;
	case SO_BROADCAST: r = s->opt_bcast; break;
	case SO_RCVBUF: case SO_SNDBUF: r = kern_sock_cap; break;
	}
	if (*len >= sizeof r) { memcpy(v, &r, sizeof r); *len = sizeof r; } else memcpy(v, &r, *len);
	return 0;
}
int sim_setsockopt(int fd, int lvl, int opt, const void *v, socklen_t len) {
	sys_enter("setsockopt");
	struct sock *s = fd_sock(fd); if (!s) return -1;
	if (lvl == SOL_SOCKET && opt == SO_BROADCAST && len >= 4) s->opt_bcast = *(const int *)v;
	if (lvl == SOL_SOCKET && opt == SO_REUSEADDR && len >= 4) s->opt_reuse = *(const int *)v;
	return 0;
}

/* read / write --------------------------------------------------------------------------- */
static ssize_t do_read(struct file *f, char *b, size_t n, off_t *pos) {
	if ((f->flags & O_ACCMODE) == O_WRONLY) ERR(EBADF);
	switch (f->type) {
	case FT_NULL: return 0;
	case FT_PIPE_R:
		if (!n) return 0;
		for (;;) {
			size_t v = buf_visible(&f->pipe->b);
			if (v) {
				if (n < v) v = n;
				if (v > 1 && flt(F_SHORT_READ)) v = 1 + sim_choose(ST_ENV, v - 1);
				v = buf_get(&f->pipe->b, b, v); pipe_wake(f->pipe); return v;
			}
			if (!f->pipe->writers) return 0;
			if (wait_file(f, EPOLLIN, "read")) return -1;
		}
	case FT_SOCK:
		if (f->sk->type == SOCK_DGRAM) ERR(EINVAL);
		return sock_recv(f, b, n, 0);
	case FT_EVENTFD:
		if (n < 8) ERR(EINVAL);
		for (;;) {
			if (f->evcnt) { uint64_t v = f->evsema ? 1 : f->evcnt; f->evcnt -= v; memcpy(b, &v, 8); file_wake(f); return 8; }
			if (wait_file(f, EPOLLIN, "read eventfd")) return -1;
		}
	case FT_INOTIFY:
		for (;;) {
			if (inotify_readable(f)) return inotify_read(f, b, n);
			if (wait_file(f, EPOLLIN, "read inotify")) return -1;
		}
	case FT_REG: return fs_file_read(f, b, n, pos);
	case FT_DIR: ERR(EISDIR);
	}
	ERR(EINVAL);
}
static ssize_t do_write(struct file *f, const char *b, size_t n, off_t *pos) {
	if ((f->flags & O_ACCMODE) == O_RDONLY) ERR(EBADF);
	switch (f->type) {
	case FT_NULL: return n;
	case FT_PIPE_W: {
		size_t done = 0; int nb = f->flags & O_NONBLOCK;
		for (;;) {
			if (!f->pipe->readers) { proc_sigpipe(); if (done) return done; ERR(EPIPE); }
			size_t sp = buf_space(&f->pipe->b), m = n - done < sp ? n - done : sp;
			size_t pb = f->pipe->b.limit < 4096 ? f->pipe->b.limit : 4096;
			if (n <= pb && m < n) m = 0;      /* atomic writes */
			if (m) {
				if (m > pb && nb && flt(F_SHORT_WRITE)) m = pb + sim_choose(ST_ENV, m - pb);
				buf_put(&f->pipe->b, b + done, m, 0); pipe_wake(f->pipe); done += m;
			}
			if (done == n || (nb && done)) return done;
			if (nb) ERR(EAGAIN);
			struct pw w = {f, EPOLLOUT | EPOLLERR};
			if (!done && flt(F_EINTR)) ERR(EINTR);
			if (n - done <= pb && buf_space(&f->pipe->b) > 0 && n <= pb) {
				/* not enough room for the atomic write: wait for more */
				if (pw_ready(&w)) w.m = EPOLLERR;
			}
			int r = sim_block("write", pw_ready, &w, w.m == EPOLLERR ? sim_now() + 1000000 : 0, 1);
			if (r < 0 && !restartable()) { if (done) return done; ERR(EINTR); }
		}
	}
	case FT_SOCK:
		if (f->sk->type == SOCK_DGRAM) ERR(EDESTADDRREQ);
		return sock_send(f, b, n, 0);
	case FT_EVENTFD: { uint64_t v; if (n < 8) ERR(EINVAL); memcpy(&v, b, 8); if (v == ~0ull) ERR(EINVAL); f->evcnt += v; file_wake(f); return 8; }
	case FT_REG: return fs_file_write(f, b, n, pos);
	}
	ERR(EINVAL);
}
ssize_t sim_read(int fd, void *b, size_t n) {
	sys_enter("read"); sim_advance(500);
	struct file *f = fd_file(fd); if (!f) return -1;
	f->refs++; ssize_t r = do_read(f, b, n, &f->pos); int e = errno; file_put(f); errno = e;
	hash_mix(r + 17); return r;
}
ssize_t sim_write(int fd, const void *b, size_t n) {
	sys_enter("write"); sim_advance(500);
	struct file *f = fd_file(fd); if (!f) return -1;
	f->refs++; ssize_t r = do_write(f, b, n, &f->pos); int e = errno; file_put(f); errno = e;
	hash_mix(r + 18); return r;
}
ssize_t sim_pread(int fd, void *b, size_t n, off_t o) {
	sys_enter("pread"); struct file *f = fd_file(fd); if (!f) return -1;
	if (f->type != FT_REG) ERR(ESPIPE);
	return do_read(f, b, n, &o);
}
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t o) {
	sys_enter("pwrite"); struct file *f = fd_file(fd); if (!f) return -1;
	if (f->type != FT_REG) ERR(ESPIPE);
	return do_write(f, b, n, &o);
}
ssize_t sim_readv(int fd, const struct iovec *v, int c) {
	ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t;
}
ssize_t sim_writev(int fd, const struct iovec *v, int c) {
	ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t;
}
ssize_t sim_sendfile(int out, int in, off_t *off, size_t n) {
	sys_enter("sendfile"); sim_advance(1000);
	struct file *fo = fd_file(out), *fi = fd_file(in); if (!fo || !fi) return -1;
	if (fi->type != FT_REG) ERR(EINVAL);
	if (n > 0x7ffff000) n = 0x7ffff000;
	if (flt(F_EIO)) ERR(EIO);
	if (n > 1 && flt(F_SHORT_WRITE)) n = 1 + sim_choose(ST_ENV, n - 1);
	off_t p = off ? *off : fi->pos; size_t done = 0; char tmp[4096]; /* no scheduling between read and write of a chunk for files */
	while (done < n) {
		if (p >= (off_t)fi->ino->size) break;
		size_t m = fi->ino->size - p; if (m > sizeof tmp) m = sizeof tmp; if (m > n - done) m = n - done;
		memcpy(tmp, fi->ino->data + p, m);
		ssize_t w = do_write(fo, tmp, m, &fo->pos);
		if (w < 0) { if (done) break; return -1; }
		p += w; done += w;
		if ((size_t)w < m) break;
	}
	if (off) *off = p; else fi->pos = p;
	return done;
}
int sim_close(int fd) {
	sys_enter("close");
	struct file *f = fd_file(fd); if (!f) return -1;
	cur->proc->fd[fd] = NULL; file_put(f);
	hash_mix(fd + 900);
	return 0;
}
int sim_dup3(int o, int n, int fl) {
	sys_enter("dup2");
	struct file *f = fd_file(o); if (!f) return -1;
	if (n < 0 || n >= MAXFD) ERR(EBADF);
	if (o == n) return n;
	if (cur->proc->fd[n]) { struct file *x = cur->proc->fd[n]; cur->proc->fd[n] = NULL; file_put(x); }
	cur->proc->fd[n] = f; f->refs++; cur->proc->cloexec[n] = !!(fl & O_CLOEXEC);
	return n;
}
int sim_dup2(int o, int n) { return sim_dup3(o, n, 0); }
int sim_dup(int o) { sys_enter("dup"); struct file *f = fd_file(o); if (!f) return -1; if (emfile()) return -1; return fd_install(cur->proc, f, 0, 0); }
int sim_fcntl(int fd, int cmd, long arg) {
	sys_enter("fcntl");
	struct file *f = fd_file(fd); if (!f) return -1;
	switch (cmd) {
	case F_GETFL: return f->flags;
	case F_SETFL: f->flags = (f->flags & ~(O_NONBLOCK | O_APPEND)) | (arg & (O_NONBLOCK | O_APPEND)); return 0;
	case F_GETFD: return cur->proc->cloexec[fd] ? FD_CLOEXEC : 0;
	case F_SETFD: cur->proc->cloexec[fd] = !!(arg & FD_CLOEXEC); return 0;
	case F_DUPFD: return fd_install(cur->proc, f, arg, 0);
	case F_DUPFD_CLOEXEC: return fd_install(cur->proc, f, arg, 1);
	}
	return 0;
}
int sim_ioctl(int fd, unsigned long req, void *arg) {
	sys_enter("ioctl");
	struct file *f = fd_file(fd); if (!f) return -1;
	if (req == FIONBIO) { if (*(int *)arg) f->flags |= O_NONBLOCK; else f->flags &= ~O_NONBLOCK; return 0; }
	if (req == FIONREAD) { *(int *)arg = f->type == FT_PIPE_R ? (int)buf_visible(&f->pipe->b) : f->type == FT_SOCK ? (int)buf_visible(&f->sk->rx) : 0; return 0; }
	ERR(ENOTTY);
}
int sim_isatty(int fd) { (void)fd; errno = ENOTTY; return 0; }
int fd_stat(struct file *f, struct stat *st) {
	memset(st, 0, sizeof *st); st->st_nlink = 1; st->st_blksize = 4096;
	switch (f->type) {
	case FT_NULL: st->st_mode = S_IFCHR | 0666; break;
	case FT_PIPE_R: case FT_PIPE_W: st->st_mode = S_IFIFO | 0600; break;
	case FT_SOCK: st->st_mode = S_IFSOCK | 0777; break;
	case FT_REG: case FT_DIR: fs_stat_inode(f->ino, st); break;
	default: st->st_mode = 0600; break;
	}
	st->st_ino = f->id + 100000;
	return 0;
}
/* the environment kills a connection, or stops reading */
size_t sim_unread(int fd) { struct file *f = fd_file(fd); return f && f->type == FT_SOCK ? f->sk->rx.len : f && f->type == FT_PIPE_R ? f->pipe->b.len : 0; }
