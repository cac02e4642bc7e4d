#ifndef SIM_INTERNAL_H
#define SIM_INTERNAL_H
#define _GNU_SOURCE
#include "sim.h"
#include <errno.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <pthread.h>
#include <signal.h>

#define MAXTHR 200
#define MAXFD 1100
#define NTSD 64
#define NSIGS 65

struct file;
struct proc {
	int used, pid, ppid, alive, zombie, status, reaped, native;
	struct file *fd[MAXFD];
	uint8_t cloexec[MAXFD];
	char cwd[256];
	int sigkill, session;
};

enum { T_FREE, T_READY, T_BLOCKED, T_DONE };
struct thr {
	int id, state, native;
	void *sp; uint64_t fs;
	struct proc *proc;
	sim_pred pred; void *arg; uint64_t deadline; int intr_ok, intr;
	const char *why;
	uint64_t stalled_until;
	int64_t prio;
	void *(*fn)(void *); void *farg; void *ret;
	int detached, joined, finished;
	uint64_t sigmask, sigpend; int sigcode_dummy;
	void *tsd[NTSD];
	char *stack;
	const void *pc;
	uint64_t switched_in; const void *spin_pc; uint64_t spin_at; int spin_n;
	int in_handler;
	uint64_t nap;
	char name[24];
	void *vf_regs; struct proc *vf_parent;
};
extern struct thr thr[MAXTHR]; extern int nthr;
extern struct thr *cur;
void thr_signal_stalled(struct thr *t);
extern struct proc procs[MAXTHR]; extern int nprocs;
extern struct proc *main_proc;

/* trace ------------------------------------------------------------------ */
struct tr { uint16_t stream; uint16_t pad; uint32_t val; uint64_t key; };
#define MAXTR (1u << 20)
#define LOGSZ (1 << 20)
enum { OUT_NONE, OUT_OK, OUT_VIOLATION, OUT_HARNESS };
struct result {
	int outcome;
	char cls[64];
	char msg[1500];
	uint64_t hash, ihash, hooks, vtime, switches, preempts, syscalls, stalls;
	uint32_t nfault[F_NKINDS];
	uint64_t probes;
	uint32_t ntr;
	uint32_t tr_overflow;
	uint32_t nthreads;
	uint32_t loglen;
	struct tr trc[MAXTR];
	char log[LOGSZ];
};
extern struct result *R;
extern uint8_t *covmap; /* shared across runs of a worker */
#define COVBITS (1u << 20)

struct runspec { uint64_t seed; int replay; const struct tr *trc; uint32_t ntr; int logging; const struct sim_wl *wl; uint64_t flags; };
void core_run(const struct runspec *rs) __attribute__((noreturn));
void core_finish(int outcome, const char *cls, const char *msg) __attribute__((noreturn));

extern uint64_t g_hooks, g_next_stop;
void hash_mix(uint64_t v);
void sys_enter(const char *name);           /* syscall entry: cost, hook, hash */
void sys_cost(uint64_t ns);
void core_deliver_signals(void);
int core_new_thread(const char *name, struct proc *p, void *(*fn)(void *), void *arg, int native);
void core_thread_exit(void *ret) __attribute__((noreturn));
void core_signal_poke(void);
struct proc *proc_new(int ppid);
void kern_init(void);
void fs_init_sim(void);
void proc_init(void);
void alloc_init(void);
void alloc_check_access(uintptr_t a, const void *pc, int wr);
void proc_close_all(struct proc *p);
void kern_clone_fds(struct proc *dst, struct proc *src);
int kern_zombies(void);
extern int g_uaf, g_quar;
extern int g_expect_fault; int proc_handles_fault(int sig);
uint64_t rnd(void);
void *xalloc(size_t n);
int thr_signal_ready(struct thr *t);
int proc_handle_real_fault(int sig, siginfo_t *si, void *uc);
void proc_run_handlers(void);
const char *sim_tname(int id);
#endif
