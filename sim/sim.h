/* Deterministic simulator: interface between core, kernel model and workloads.
   Native (uninstrumented) and instrumented code both include this header; it must not
   clash with the library's macros (read, close, open, connect, ... are macros there). */
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>

/* choice streams ------------------------------------------------------- */
enum {
	ST_CFG, ST_GEN, ST_SCHED, ST_PREEMPT, ST_TIME, ST_ORDER, ST_SIGNAL, ST_STALL,
	ST_ENV, /* timing and actions of the environment (peers, children, network) */
	ST_FAULT /* + kind */
};
enum {
	F_SHORT_READ, F_SHORT_WRITE, F_EAGAIN, F_EINTR, F_RESET, F_REFUSE, F_EMFILE, F_EIO,
	F_ENOSPC, F_DG_LOSS, F_DG_DUP, F_DG_REORDER, F_NETDELAY, F_STALL, F_CLOCKJUMP, F_MMAP,
	F_ENOMEM, F_DNS, F_POLLERR, F_FORK, F_THREAD, F_SIGNAL, F_ABORTCONN, F_SPURIOUS, F_SLOWDISK, F_NKINDS
};
#define ST_N (ST_FAULT + F_NKINDS)
extern const char *const sim_fault_names[F_NKINDS];

uint32_t sim_choose(int stream, uint32_t n);            /* 0..n-1, 0 is the benign default */
static inline uint32_t sim_gen(uint32_t n) { return sim_choose(ST_GEN, n); }
int sim_fault(int kind);                                /* 1 when this fault strikes now */
void sim_fault_enable(int kind, uint32_t per64k, uint32_t budget);
void sim_faults_hold(int on);                           /* no fault while held */
void sim_faults_stop(void);                             /* from now on no fault */
uint64_t sim_fault_count(int kind);

/* results --------------------------------------------------------------- */
void sim_violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
void sim_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  /* log line, hashed */
void sim_probe(int id);                                 /* "this rare condition was hit" */
void sim_done(void) __attribute__((noreturn));          /* workload finished, property held */
void sim_harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
int sim_replaying(void);
#define SIM_CHECK(c, cls, ...) do { if (!(c)) sim_violation(cls, __VA_ARGS__); } while (0)

/* time (virtual nanoseconds since start) ---------------------------------- */
uint64_t sim_steps(void);                               /* instrumented steps so far, to keep a run within its budget */
uint64_t sim_now(void);
void sim_advance(uint64_t ns);                          /* costs time, no scheduling */
uint64_t sim_stalled_ns(void);                          /* total injected stall time */

/* scheduling -------------------------------------------------------------- */
typedef int (*sim_pred)(void *);
/* block until pred (may be NULL) or deadline (0 = none); returns 1 pred, 0 timeout, -1 interrupted */
int sim_block(const char *why, sim_pred pred, void *arg, uint64_t deadline, int interruptible);
void sim_yield_point(void);                             /* a syscall-like scheduling point */
void sim_nap(uint64_t ns);                              /* environment code: sleep */
int sim_self(void);
void sim_nopreempt(int on);                             /* oracle sections: no preemption */

/* environment actors: native code run as another simulated process */
typedef void (*sim_actor_fn)(void *);
int sim_spawn_actor(const char *name, sim_actor_fn fn, void *arg); /* own, empty descriptor table */
int sim_spawn_helper(const char *name, sim_actor_fn fn, void *arg); /* environment code sharing the descriptors of the system under test; no faults */
int sim_actor_done(int tid);

/* programs available to execve */
typedef int (*sim_prog_fn)(int argc, char **argv, char **envp);
void sim_register_prog(const char *path, sim_prog_fn fn);
void sim_proc_die(int sig);                             /* current env process dies by signal */

/* signals ------------------------------------------------------------------ */
void sim_kill_main(int sig);                            /* process-directed signal to the system under test */
int sim_signals_pending(void);
unsigned sim_sig_handled(int sig);                      /* how often the system under test's handler was entered */
void sim_expect_fault(int on);                          /* real SIGSEGV/SIGFPE are forwarded to its handler */

/* kernel observation -------------------------------------------------------- */
int sim_open_fds(void);                                 /* open descriptors of the system under test */
int sim_fd_is_open(int fd);
const char *sim_fd_kind(int fd); const char *sim_own_fd_kind(int fd); /* of the main process, of the calling one */
int sim_live_threads(void);                             /* threads of the system under test */
int sim_zombies(void);
int sim_fd_nonblock(int fd);
int sim_own_session(void); /* of the calling process */
int sim_fd_sendflags(int fd); /* the flags of the last sendto/send on it */
uint32_t sim_fd_poll(int fd);                           /* present readiness (EPOLL* bits) */
void sim_reset(int fd);                                 /* connection reset by the peer of fd */
size_t sim_unread(int fd);
uint64_t sim_fd_id(int fd);                             /* identity of the open file behind fd */
long sim_arena_live(void);                              /* live heap blocks */
long sim_arena_live_bytes(void);
void sim_rt_jump(int64_t ns);                           /* wall clock jump */

/* sim file system access for oracles (no faults, no scheduling) */
int simfs_put(const char *path, const void *data, size_t len);
long simfs_get(const char *path, void *buf, size_t cap);   /* -1 when absent */
int simfs_mkdir(const char *path);
int simfs_unlink(const char *path);
int simfs_rename(const char *a, const char *b);
int simfs_append(const char *path, const void *data, size_t len);
int simfs_rmdir(const char *path);
int simfs_exists(const char *path);                     /* 0 no, 1 file, 2 dir */

/* workloads -------------------------------------------------------------------- */
struct sim_cfg {
	int cpus;
	int poll_step_us;       /* cost of a poll/sleep syscall */
	uint64_t max_hooks;     /* step budget; exceeding it is "no progress" */
	int min_fd;             /* descriptors of the system under test are numbered from here */
	uint64_t max_vtime;     /* ns, likewise */
	int uaf_check;          /* report accesses to freed heap blocks */
	int quarantine;         /* freed blocks are poisoned and not reused */
	int env_threads;
};
extern struct sim_cfg sim_cfg;
typedef void (*sim_wl_fn)(void);
struct sim_wl { const char *name; sim_wl_fn run; const char *faults; const char *about; };
extern const struct sim_wl *const sim_workloads[];
#define SIM_WORKLOAD(nm, flts, txt) \
	static void wl_##nm(void); \
	const struct sim_wl simwl_##nm = { #nm, wl_##nm, flts, txt }; \
	static void wl_##nm(void)
#endif
