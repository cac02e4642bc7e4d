#ifndef KERN_H
#define KERN_H
#include "internal.h"
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <sys/epoll.h>
#include <fcntl.h>

enum { FT_NULL = 1, FT_PIPE_R, FT_PIPE_W, FT_SOCK, FT_EVENTFD, FT_EPOLL, FT_INOTIFY, FT_REG, FT_DIR };
struct buf { /* byte stream with arrival times */
	char *d; size_t cap, len, head;         /* linear queue: d[head..head+len) */
	struct seg { uint64_t end, at; } *seg; uint32_t nseg, capseg, hseg;
	uint64_t in, out;                       /* totals */
	size_t limit;
};
struct pipe { struct buf b; int readers, writers; };
struct dgram { struct dgram *next; uint64_t at; struct sockaddr_storage from; socklen_t fromlen; size_t len; char d[]; };
enum { S_NEW, S_LISTEN, S_CONNECTING, S_CONNECTED, S_DEAD };
struct sock {
	int family, type, state, bound, is_uds;
	struct sockaddr_storage local, remote; socklen_t locallen, remotelen;
	struct sock *peer;                      /* connected stream peer */
	struct file *file;
	struct buf rx;
	int shut_rd, shut_wr, fin; uint64_t fin_at;
	int err;
	/* listening */
	struct sock *aq[64]; int naq, backlog;
	/* connecting */
	uint64_t conn_at; int conn_err; struct sock *target; uint64_t conn_limit;
	/* dgram */
	struct dgram *q; int nq; int connected_dg;
	int opt_bcast, opt_reuse, accepted;
};
struct epi { struct epi *next; struct file *f; int fd; uint32_t ev; epoll_data_t data; uint64_t seen; int armed; };
struct inode {
	int type; /* FT_REG / FT_DIR / FT_SOCK / FT_PIPE_R fifo */
	uint64_t ino; int nlink, refs; mode_t mode;
	char *data; size_t size, cap;
	struct dent { char name[256]; struct inode *ino; } *ent; int nent, capent;
	struct inode *parent; struct pipe *pipe;
	uint64_t mtime, ctime_, atime_;
	struct sock *sock;
};
struct iwatch { struct iwatch *next; int wd; uint32_t mask; struct inode *ino; };
struct ievent { struct ievent *next; int wd; uint32_t mask, cookie; char name[256]; };
struct file {
	int type, refs, flags; uint64_t id, seq;
	struct pipe *pipe; int both;
	struct sock *sk;
	uint64_t evcnt; int evsema;
	struct epi *epl; struct file *nextep;
	struct inode *ino; off_t pos;
	struct iwatch *iw; int nextwd; struct ievent *ieq; struct file *nextin;
};
struct file *file_new(int type, int flags);
void file_put(struct file *f);
void file_wake(struct file *f);
int fd_install(struct proc *p, struct file *f, int from, int cloexec);
struct file *fd_file(int fd);
uint32_t file_poll(struct file *f);
uint64_t kern_next_event(uint64_t now);
void kern_event_at(uint64_t t);
ssize_t fs_file_read(struct file *f, char *b, size_t n, off_t *pos);
ssize_t fs_file_write(struct file *f, const char *b, size_t n, off_t *pos);
void fs_file_release(struct file *f);
ssize_t inotify_read(struct file *f, char *b, size_t n);
int inotify_readable(struct file *f);
struct inode *fs_lookup(const char *path);
struct inode *fs_mksock(const char *path, struct sock *s, int *err);
void fs_stat_inode(struct inode *i, struct stat *st);
int restartable(void);
int sim_main_side(void);   /* current thread belongs to the system under test (faults apply) */
extern size_t kern_pipe_cap, kern_sock_cap;
#endif
