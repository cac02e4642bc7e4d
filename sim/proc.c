/* Threads, signals, processes, clocks and other process-level services of the simulated system. */
#include "kern.h"
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/utsname.h>
#include <sched.h>
#include <time.h>
#include <netdb.h>
#include <setjmp.h>
#include <arpa/inet.h>
#include <unistd.h>
#define ERR(e) do { errno = (e); return -1; } while (0)
static int flt(int k) { return sim_main_side() && sim_fault(k); }

/* clocks -------------------------------------------------------------------- */
static int64_t rt_off;
uint64_t sim_wallclock_ns(void) { return 1700000000000000000ull + rt_off + sim_now(); }
void sim_rt_jump(int64_t ns) { rt_off += ns; sim_note("wall clock jumps by %lld ms", (long long)(ns / 1000000)); }
static void maybe_jump(void) {
	if (flt(F_CLOCKJUMP)) sim_rt_jump(((int64_t)sim_choose(ST_ENV, 2000) - 1000) * 3600000000ll);
}
/* who only reads the clock is waiting: do not make that take forever */
static void clock_cost(void) {
	static uint64_t last_sys, reads;
	if (R->syscalls - last_sys > 0) reads = 0;
	last_sys = R->syscalls;
	sim_advance(++reads > 8 ? (sim_cfg.poll_step_us < 50 ? 50 : sim_cfg.poll_step_us) * 1000ull : 60);
	maybe_jump();
}
int sim_clock_gettime(clockid_t c, struct timespec *ts) {
	clock_cost();
	uint64_t t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? sim_wallclock_ns() : 5000000000000ull + sim_now();
	ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
	return 0;
}
int sim_gettimeofday(struct timeval *tv, void *tz) {
	(void)tz; clock_cost();
	uint64_t t = sim_wallclock_ns(); tv->tv_sec = t / 1000000000; tv->tv_usec = t % 1000000000 / 1000;
	return 0;
}
time_t sim_time(time_t *p) { clock_cost(); time_t t = sim_wallclock_ns() / 1000000000; if (p) *p = t; return t; }
int sim_nanosleep(const struct timespec *r, struct timespec *rem) {
	sys_enter("nanosleep");
	uint64_t ns = r->tv_sec * 1000000000ull + r->tv_nsec;
	if (r->tv_sec < 0 || r->tv_nsec < 0 || r->tv_nsec >= 1000000000) { errno = EINVAL; return -1; }
	if (flt(F_EINTR) && ns > 1000) { if (rem) { rem->tv_sec = 0; rem->tv_nsec = 0; } errno = EINTR; uint64_t half = ns / 2; sim_block("nanosleep", NULL, NULL, sim_now() + half + 1, 0); if (rem) { rem->tv_sec = (ns - half) / 1000000000; rem->tv_nsec = (ns - half) % 1000000000; } errno = EINTR; return -1; }
	uint64_t end = sim_now() + ns + 1000;
	if (sim_block("nanosleep", NULL, NULL, end, 1) < 0) { uint64_t n = sim_now(), l = n < end ? end - n : 0; if (rem) { rem->tv_sec = l / 1000000000; rem->tv_nsec = l % 1000000000; } ERR(EINTR); }
	return 0;
}
int sim_usleep(unsigned us) { struct timespec t = {us / 1000000, us % 1000000 * 1000ll}; return sim_nanosleep(&t, NULL); }
unsigned sim_sleep(unsigned s) { struct timespec t = {s, 0}; sim_nanosleep(&t, NULL); return 0; }
int sim_sched_yield(void) { sys_enter("sched_yield"); sim_block("yield", NULL, NULL, sim_now() + 1000, 0); return 0; }
int sim_sched_getaffinity(int pid, size_t n, cpu_set_t *s) { (void)pid; memset(s, 0, n); for (int i = 0; i < sim_cfg.cpus; i++) CPU_SET_S(i, n, s); return 0; }
long sim_sysconf(int name) { if (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) return sim_cfg.cpus; return sysconf(name); }

/* pthreads ---------------------------------------------------------------------- */
#define PT(id) ((pthread_t)(0x7000 + (id)))
static struct thr *of_pt(pthread_t p) { long i = (long)p - 0x7000; return i >= 0 && i < nthr ? &thr[i] : NULL; }
struct pstart { void *(*fn)(void *); void *arg; };
static void (*tsd_dtor[NTSD])(void *); static int tsd_used[NTSD];
static void run_tsd(void) {
	for (int round = 0; round < 4; round++) {
		int any = 0;
		for (int k = 0; k < NTSD; k++) if (tsd_used[k] && tsd_dtor[k] && cur->tsd[k]) { void *v = cur->tsd[k]; cur->tsd[k] = NULL; any = 1; tsd_dtor[k](v); }
		if (!any) break;
	}
}
static void *pth_tramp(void *a) { struct pstart s = *(struct pstart *)a; void *r = s.fn(s.arg); run_tsd(); return r; }
int sim_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
	sys_enter("pthread_create");
	if (flt(F_THREAD)) return EAGAIN;
	struct pstart *s = xalloc(sizeof *s); s->fn = fn; s->arg = arg;
	int id = core_new_thread("thr", main_proc, pth_tramp, s, 0);
	int ds = 0; if (at) pthread_attr_getdetachstate(at, &ds);
	thr[id].detached = ds == PTHREAD_CREATE_DETACHED;
	*t = PT(id);
	sim_note("thread %s created", thr[id].name);
	sys_enter("clone return");
	return 0;
}
void sim_pthread_exit(void *r) { run_tsd(); core_thread_exit(r); }
static int fin(void *a) { return ((struct thr *)a)->finished; }
static int joinx(pthread_t p, void **r, uint64_t dl, int try) {
	sys_enter("join");
	struct thr *t = of_pt(p);
	if (!t || t->joined) return ESRCH;
	if (t->detached) return EINVAL;
	if (t == cur) return EDEADLK;
	if (!t->finished) {
		if (try) { sim_advance(sim_cfg.poll_step_us * 1000ull / 4); return EBUSY; }
		if (dl && dl <= sim_now()) return ETIMEDOUT;
		while (!t->finished) { int x = sim_block("join", fin, t, dl, 1); if (!t->finished && x == 0 && dl) return ETIMEDOUT; }
	}
	t->joined = 1; if (r) *r = t->ret;
	return 0;
}
int sim_pthread_join(pthread_t p, void **r) { return joinx(p, r, 0, 0); }
int sim_pthread_tryjoin_np(pthread_t p, void **r) { return joinx(p, r, 0, 1); }
int sim_pthread_timedjoin_np(pthread_t p, void **r, const struct timespec *ts) {
	int64_t abs = ts->tv_sec * 1000000000ll + ts->tv_nsec - (int64_t)(sim_wallclock_ns() - sim_now());
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) { int e = joinx(p, r, 0, 1); return e == EBUSY ? EINVAL : e; }
	return joinx(p, r, abs <= 0 ? 1 : abs, 0);
}
int sim_pthread_detach(pthread_t p) { struct thr *t = of_pt(p); if (!t || t->joined) return ESRCH; if (t->detached) return EINVAL; t->detached = 1; return 0; }
pthread_t sim_pthread_self(void) { return PT(cur->id); }
int sim_pthread_setaffinity_np(pthread_t p, size_t n, const cpu_set_t *s) { (void)n; (void)s; return of_pt(p) ? 0 : ESRCH; }
int sim_pthread_key_create(pthread_key_t *k, void (*d)(void *)) { for (int i = 0; i < NTSD; i++) if (!tsd_used[i]) { tsd_used[i] = 1; tsd_dtor[i] = d; *k = i; for (int t = 0; t < MAXTHR; t++) thr[t].tsd[i] = NULL; return 0; } return EAGAIN; }
int sim_pthread_key_delete(pthread_key_t k) { if (k >= NTSD || !tsd_used[k]) return EINVAL; tsd_used[k] = 0; return 0; }
void *sim_pthread_getspecific(pthread_key_t k) { return k < NTSD ? cur->tsd[k] : NULL; }
int sim_pthread_setspecific(pthread_key_t k, const void *v) { if (k >= NTSD || !tsd_used[k]) return EINVAL; cur->tsd[k] = (void *)v; return 0; }
/* mutexes and condition variables, state kept in the object itself */
struct smx { int locked, owner, depth, kind; };
static int mx_free(void *a) { return !((struct smx *)a)->locked; }
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { memset(m, 0, sizeof *m); int k = 0; if (a) pthread_mutexattr_gettype(a, &k); ((struct smx *)m)->kind = k; return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { struct smx *x = (void *)m; sys_enter("mutex"); if (x->locked) { if (x->owner == cur->id && x->kind == PTHREAD_MUTEX_RECURSIVE) { x->depth++; return 0; } return EBUSY; } x->locked = 1; x->owner = cur->id; x->depth = 1; return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t *m) { int r; while ((r = sim_pthread_mutex_trylock(m)) == EBUSY) sim_block("mutex", mx_free, m, 0, 0); return r; }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { struct smx *x = (void *)m; if (--x->depth <= 0) x->locked = 0; sys_enter("mutex"); return 0; }
struct scv { uint32_t seq; };
struct cvw { struct scv *c; uint32_t s; };
static int cv_moved(void *a) { struct cvw *w = a; return w->c->seq != w->s; }
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)a; memset(c, 0, sizeof *c); return 0; }
int sim_pthread_cond_destroy(pthread_cond_t *c) { (void)c; return 0; }
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
	struct cvw w = {(struct scv *)c, ((struct scv *)c)->seq};
	uint64_t dl = 0; if (ts) { int64_t a = ts->tv_sec * 1000000000ll + ts->tv_nsec - (int64_t)(sim_wallclock_ns() - sim_now()); dl = a <= 0 ? 1 : a; }
	if (ts && (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)) return EINVAL;
	sim_pthread_mutex_unlock(m);
	int r = sim_block("cond", cv_moved, &w, dl, 0);
	sim_pthread_mutex_lock(m);
	return r == 0 && dl ? ETIMEDOUT : 0;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return sim_pthread_cond_timedwait(c, m, NULL); }
int sim_pthread_cond_signal(pthread_cond_t *c) { ((struct scv *)c)->seq++; sys_enter("cond"); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t *c) { return sim_pthread_cond_signal(c); }
int sim_pthread_once(pthread_once_t *o, void (*fn)(void)) { if (*(int *)o == 2) return 0; if (*(int *)o == 0) { *(int *)o = 1; fn(); *(int *)o = 2; } else while (*(volatile int *)o != 2) sim_nap(1000); return 0; }

/* signals --------------------------------------------------------------------------- */
static struct sigaction act[NSIGS]; static uint64_t proc_pend; static int last_restart;
int restartable(void) { return last_restart; }
#define BIT(s) (1ull << ((s) - 1))
static int is_ignored(int s) {
	if (!(act[s].sa_flags & SA_SIGINFO) && act[s].sa_handler == SIG_IGN) return 1;
	return act[s].sa_handler == SIG_DFL && (s == SIGCHLD || s == SIGWINCH || s == SIGURG || s == SIGCONT);
}
static uint64_t set64(const sigset_t *s) { uint64_t v; memcpy(&v, s, 8); return v; }
int thr_signal_ready(struct thr *t) { return !t->native && ((t->sigpend | proc_pend) & ~t->sigmask) != 0; }
static void assign(int s) {
	struct thr *c[MAXTHR]; int n = 0;
	for (int i = 0; i < nthr; i++) if (!thr[i].native && thr[i].state != T_DONE && !(thr[i].sigmask & BIT(s)) && thr[i].stalled_until <= sim_now()) c[n++] = &thr[i];
	if (!n) { proc_pend |= BIT(s); return; }
	c[sim_choose(ST_SIGNAL, n)]->sigpend |= BIT(s);
	core_signal_poke();
}
/* a signal for the process is taken by another thread when the chosen one does not run */
void thr_signal_stalled(struct thr *t) { proc_pend |= t->sigpend; t->sigpend = 0; }
void sim_kill_main(int s) {
	if (s <= 0 || s >= NSIGS) return;
	if (is_ignored(s)) return;
	sim_note("signal %d raised", s);
	assign(s);
}
int sim_signals_pending(void) { uint64_t p = proc_pend; for (int i = 0; i < nthr; i++) if (thr[i].state != T_DONE) p |= thr[i].sigpend; return p != 0; }
static unsigned sig_handled[NSIGS];
unsigned sim_sig_handled(int s) { return sig_handled[s]; }
static void deliver(int s) {
	struct sigaction a = act[s];
	if (is_ignored(s)) return;
	if (a.sa_handler == SIG_DFL && !(a.sa_flags & SA_SIGINFO)) sim_violation("killed", "process killed by signal %d", s);
	if (!(a.sa_flags & SA_RESTART)) last_restart = 0;
	uint64_t old = cur->sigmask;
	cur->sigmask |= set64(&a.sa_mask); if (!(a.sa_flags & SA_NODEFER)) cur->sigmask |= BIT(s);
	if (a.sa_flags & SA_RESETHAND) act[s].sa_handler = SIG_DFL;
	sim_note("signal %d handled", s); sig_handled[s]++;
	int e = errno;
	cur->in_handler++;
	if (a.sa_flags & SA_SIGINFO) { siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = s; si.si_code = SI_USER; si.si_pid = 1; static ucontext_t uc; a.sa_sigaction(s, &si, &uc); }
	else a.sa_handler(s);
	cur->in_handler--;
	errno = e;
	cur->sigmask = old;
}
void proc_run_handlers(void) {
	if (cur->native || cur->vf_parent) return;
	last_restart = 1;
	for (;;) {
		uint64_t p = (cur->sigpend | proc_pend) & ~cur->sigmask;
		if (!p) return;
		int s = __builtin_ctzll(p) + 1;
		if (cur->sigpend & BIT(s)) cur->sigpend &= ~BIT(s); else proc_pend &= ~BIT(s);
		deliver(s);
	}
}
static void forget(int s) { if (is_ignored(s)) { proc_pend &= ~BIT(s); for (int i = 0; i < nthr; i++) thr[i].sigpend &= ~BIT(s); } }
int sim_sigaction(int s, const struct sigaction *n, struct sigaction *o) {
	sys_enter("sigaction");
	if (s < 1 || s >= NSIGS || s == SIGKILL || s == SIGSTOP) ERR(EINVAL);
	if (o) *o = act[s];
	if (n && !cur->vf_parent) { act[s] = *n; forget(s); } /* a child's dispositions are its own */
	return 0;
}
void (*sim_signal(int s, void (*h)(int)))(int) {
	if (s < 1 || s >= NSIGS) { errno = EINVAL; return SIG_ERR; }
	void (*o)(int) = act[s].sa_handler; if (cur->vf_parent) return o; memset(&act[s], 0, sizeof act[s]); act[s].sa_handler = h; act[s].sa_flags = SA_RESTART; forget(s); return o;
}
int sim_pthread_sigmask(int how, const sigset_t *n, sigset_t *o) {
	sys_enter("sigmask");
	if (o) { memset(o, 0, sizeof *o); memcpy(o, &cur->sigmask, 8); }
	if (n) {
		uint64_t v = set64(n) & ~(BIT(SIGKILL) | BIT(SIGSTOP));
		if (how == SIG_BLOCK) cur->sigmask |= v; else if (how == SIG_UNBLOCK) cur->sigmask &= ~v; else cur->sigmask = v;
		if ((cur->sigpend | proc_pend) & ~cur->sigmask) proc_run_handlers();
	}
	return 0;
}
int sim_sigprocmask(int how, const sigset_t *n, sigset_t *o) { return sim_pthread_sigmask(how, n, o); }
int sim_raise(int s) {
	sys_enter("raise");
	if (is_ignored(s)) return 0;
	sim_note("raise %d", s);
	cur->sigpend |= BIT(s); proc_run_handlers(); return 0;
}
int sim_pthread_kill(pthread_t p, int s) { struct thr *t = of_pt(p); if (!t || t->finished) return ESRCH; if (s) { t->sigpend |= BIT(s); core_signal_poke(); if (t == cur) proc_run_handlers(); } return 0; }
int sim_sigaltstack(const stack_t *a, stack_t *b) { (void)a; if (b) memset(b, 0, sizeof *b); return 0; }
void proc_sigpipe(void) { if (!sim_main_side()) return; if (is_ignored(SIGPIPE)) return; cur->sigpend |= BIT(SIGPIPE); proc_run_handlers(); }
/* setjmp with signal masks */
struct jm { void *env; uint64_t mask; int inh, save; };
static struct jm jms[1024];
void sim_sigsetjmp_note(void *env, int save) {
	unsigned i = ((uintptr_t)env >> 4) * 2654435761u % 1024;
	for (int k = 0; k < 1024; k++, i = (i + 1) % 1024) if (!jms[i].env || jms[i].env == env) { jms[i].env = env; jms[i].mask = cur ? cur->sigmask : 0; jms[i].inh = cur ? cur->in_handler : 0; jms[i].save = save; return; }
	sim_harness_error("jmp table full");
}
__asm__(
".text\n.globl sim_sigsetjmp\n.type sim_sigsetjmp,@function\nsim_sigsetjmp:\n"
" push %rdi\n push %rsi\n sub $8,%rsp\n call sim_sigsetjmp_note\n add $8,%rsp\n pop %rsi\n pop %rdi\n xor %esi,%esi\n jmp __sigsetjmp\n"
".size sim_sigsetjmp,.-sim_sigsetjmp\n");
void sim_siglongjmp(sigjmp_buf env, int v) {
	unsigned i = ((uintptr_t)env >> 4) * 2654435761u % 1024;
	for (int k = 0; k < 1024 && jms[i].env; k++, i = (i + 1) % 1024) if (jms[i].env == (void *)env) { if (jms[i].save) cur->sigmask = jms[i].mask; cur->in_handler = jms[i].inh; if (cur->sigpend) core_signal_poke(); break; }
	siglongjmp(env, v);
}
int proc_handles_fault(int sig) { return act[sig].sa_handler != SIG_DFL && act[sig].sa_handler != SIG_IGN; }
int proc_handle_real_fault(int sig, siginfo_t *si, void *uc) {
	struct sigaction a = act[sig];
	if (a.sa_handler == SIG_DFL || a.sa_handler == SIG_IGN) return 0;
	sim_note("hardware fault signal %d", sig);
	cur->in_handler++;
	if (!(a.sa_flags & SA_NODEFER)) cur->sigmask |= BIT(sig);
	if (a.sa_flags & SA_SIGINFO) a.sa_sigaction(sig, si, uc); else a.sa_handler(sig);
	cur->in_handler--;
	return 0; /* returned from a fault handler: fault again -> crash */
}

/* processes ---------------------------------------------------------------------------- */
static int next_pid = 2000;
struct proc *proc_new(int ppid) {
	if (nprocs >= MAXTHR) sim_harness_error("too many processes");
	struct proc *p = &procs[nprocs++]; memset(p, 0, sizeof *p);
	p->used = p->alive = 1; p->pid = next_pid++; p->ppid = ppid; strcpy(p->cwd, "/w");
	return p;
}
static struct { const char *path; sim_prog_fn fn; } progs[64]; static int nprogs;
void sim_register_prog(const char *path, sim_prog_fn fn) {
	progs[nprogs].path = path; progs[nprogs++].fn = fn;
	simfs_put(path, "#!", 2); int simfs_chmod(const char *, unsigned); simfs_chmod(path, 0755);
}
static sim_prog_fn find_prog(const char *p) { for (int i = 0; i < nprogs; i++) if (!strcmp(progs[i].path, p)) return progs[i].fn; return NULL; }
struct pargs { sim_prog_fn fn; int argc; char **argv, **envp; };
static void proc_exit(struct proc *p, int status) {
	proc_close_all(p); p->alive = 0; p->zombie = 1; p->status = status;
	sim_note("process %d ends, status %x", p->pid, status);
	if (p->ppid == main_proc->pid) sim_kill_main(SIGCHLD);
}
static void *prog_tramp(void *a) { struct pargs *x = a; int r = x->fn(x->argc, x->argv, x->envp); proc_exit(cur->proc, (r & 0xff) << 8); return NULL; }
void sim_proc_die(int sig) { proc_exit(cur->proc, sig & 0x7f); core_thread_exit(NULL); }
static char **dupv(char *const v[]) { int n = 0; while (v && v[n]) n++; char **r = xalloc((n + 1) * sizeof *r); for (int i = 0; i < n; i++) { r[i] = xalloc(strlen(v[i]) + 1); strcpy(r[i], v[i]); } r[n] = NULL; return r; }
static void start_prog(struct proc *p, sim_prog_fn fn, char *const argv[], char *const envp[]) {
	struct pargs *x = xalloc(sizeof *x); x->fn = fn; x->argv = dupv(argv); x->envp = dupv(envp); x->argc = 0; while (x->argv[x->argc]) x->argc++;
	for (int i = 0; i < MAXFD; i++) if (p->fd[i] && p->cloexec[i]) { struct file *f = p->fd[i]; p->fd[i] = NULL; file_put(f); }
	p->native = 1;
	core_new_thread("child", p, prog_tramp, x, 1);
}
/* vfork returns twice on the same stack: registers are kept aside until exec or _exit */
struct vfregs { uint64_t rip, rsp, rbx, rbp, r12, r13, r14, r15; };
struct vfregs vfb;
void sim_vfork_resume(struct vfregs *r, long pid) __attribute__((noreturn));
__asm__(
".text\n.globl sim_vfork\n.type sim_vfork,@function\nsim_vfork:\n"
" pop %rdx\n lea vfb(%rip),%rcx\n mov %rdx,0(%rcx)\n mov %rsp,8(%rcx)\n mov %rbx,16(%rcx)\n mov %rbp,24(%rcx)\n"
" mov %r12,32(%rcx)\n mov %r13,40(%rcx)\n mov %r14,48(%rcx)\n mov %r15,56(%rcx)\n"
" push %rdx\n sub $8,%rsp\n call sim_vfork_c\n add $8,%rsp\n ret\n"
".size sim_vfork,.-sim_vfork\n"
".globl sim_vfork_resume\n.type sim_vfork_resume,@function\nsim_vfork_resume:\n"
" mov %rsi,%rax\n mov 0(%rdi),%rdx\n mov 8(%rdi),%rsp\n mov 16(%rdi),%rbx\n mov 24(%rdi),%rbp\n"
" mov 32(%rdi),%r12\n mov 40(%rdi),%r13\n mov 48(%rdi),%r14\n mov 56(%rdi),%r15\n jmp *%rdx\n"
".size sim_vfork_resume,.-sim_vfork_resume\n");
int sim_vfork_c(void) {
	struct vfregs save = vfb;
	sys_enter("vfork");
	if (flt(F_FORK)) ERR(EAGAIN);
	struct proc *p = proc_new(cur->proc->pid);
	kern_clone_fds(p, cur->proc);
	struct vfregs *r = xalloc(sizeof *r); *r = save;
	cur->vf_regs = r; cur->vf_parent = cur->proc; cur->proc = p;
	return 0;
}
static void vf_return(void) {
	struct proc *c = cur->proc; struct vfregs *r = cur->vf_regs;
	cur->proc = cur->vf_parent; cur->vf_parent = NULL; cur->vf_regs = NULL;
	core_signal_poke();
	sim_vfork_resume(r, c->pid);
}
int sim_execve(const char *path, char *const argv[], char *const envp[]) {
	R->syscalls++;
	sim_prog_fn fn = find_prog(path);
	hash_mix(0xe8ec);
	if (!cur->vf_parent) { sim_violation("exec", "execve(%s) outside a child process", path); }
	if (!fn) { errno = simfs_exists(path) ? EACCES : ENOENT; return -1; }
	sim_note("exec %s pid %d", path, cur->proc->pid);
	start_prog(cur->proc, fn, argv, envp);
	vf_return();
	return -1;
}
extern char **environ;
int sim_execvp(const char *f, char *const argv[]) {
	char b[300]; if (strchr(f, '/')) return sim_execve(f, argv, environ);
	snprintf(b, sizeof b, "/bin/%s", f); return sim_execve(b, argv, environ);
}
int sim_execvpe(const char *f, char *const argv[], char *const e[]) { char b[300]; if (strchr(f, '/')) return sim_execve(f, argv, e); snprintf(b, sizeof b, "/bin/%s", f); return sim_execve(b, argv, e); }
int sim_execv(const char *f, char *const argv[]) { return sim_execve(f, argv, environ); }
static void (*exit_cb_)(int); static void (*atx[64])(void); static int natx;
void sim_on_exit(void (*f)(int)) { exit_cb_ = f; }
void sim__exit(int c) {
	if (cur->vf_parent) { proc_exit(cur->proc, (c & 0xff) << 8); vf_return(); }
	if (exit_cb_) { exit_cb_(c); sim_done(); }
	sim_violation("exit", "the process ended itself with exit code %d in thread %s", c, cur->name);
}
int sim_atexit(void (*f)(void)) { if (natx < 64) atx[natx++] = f; return 0; }
void sim_exit(int c) { if (!cur->vf_parent && exit_cb_) { while (natx) atx[--natx](); } sim__exit(c); }
void sim_abort(void) { sim_violation("abort", "abort() called in thread %s", cur->name); }
void sim_assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
	const char *b = strrchr(f, '/');
	sim_violation("assert", "assertion failed: %s (%s:%u %s)", e, b ? b + 1 : f, l, fn);
}
/* What the library reports on stderr is kept for the workload. */
static char errtxt[16384]; static int errlen;
int sim_vfprintf(FILE *f, const char *fmt, va_list ap) {
	int n; if (f != stderr) return vfprintf(f, fmt, ap);
	if (!strncmp(fmt, "\t\t - Thrd", 9)) return 0; /* a progress display */
	sim_nopreempt(1);
	if (errlen > 12288) { memmove(errtxt, errtxt + errlen - 4096, 4097); errlen = 4096; }
	n = vsnprintf(errtxt + errlen, sizeof errtxt - errlen, fmt, ap);
	if (n > 0) errlen = errlen + n < (int)sizeof errtxt ? errlen + n : (int)sizeof errtxt - 1;
	sim_nopreempt(0); return n;
}
const char *sim_stderr(void) { return errtxt; }
static struct proc *child_of(int pid) { for (int i = 0; i < nprocs; i++) if (procs[i].pid == pid && procs[i].ppid == main_proc->pid && !procs[i].reaped) return &procs[i]; return NULL; }
static struct proc *any_zombie(void) { for (int i = 0; i < nprocs; i++) if (procs[i].ppid == main_proc->pid && procs[i].zombie && !procs[i].reaped) return &procs[i]; return NULL; }
static int has_child(void) { for (int i = 0; i < nprocs; i++) if (procs[i].ppid == main_proc->pid && !procs[i].reaped) return 1; return 0; }
int sim_zombies(void) { int n = 0; for (int i = 0; i < nprocs; i++) if (procs[i].ppid == main_proc->pid && procs[i].zombie && !procs[i].reaped) n++; return n; }
static int zomb(void *a) { return a ? ((struct proc *)a)->zombie : any_zombie() != NULL; }
static int waitx(int pid, int nohang, int nowait, int *st) {
	struct proc *p = NULL;
	if (pid > 0) { p = child_of(pid); if (!p) ERR(ECHILD); } else if (!has_child()) ERR(ECHILD);
	if (!zomb(p)) {
		if (nohang) { sim_advance(sim_cfg.poll_step_us * 500ull); return 0; }
		if (flt(F_EINTR)) ERR(EINTR);
		while (!zomb(p)) { int r = sim_block("wait", zomb, p, 0, 1); if (r < 0 && !restartable()) ERR(EINTR); }
	}
	if (!p) p = any_zombie();
	*st = p->status;
	if (!nowait) { p->reaped = 1; }
	return p->pid;
}
int sim_waitpid(int pid, int *st, int opt) { sys_enter("waitpid"); int s = 0, r = waitx(pid, opt & WNOHANG, 0, &s); if (r > 0 && st) *st = s; return r; }
int sim_waitid(int type, int id, siginfo_t *si, int opt) {
	sys_enter("waitid");
	int s = 0, r = waitx(type == 1 /* P_PID */ ? id : -1, opt & WNOHANG, opt & WNOWAIT, &s);
	if (r < 0) return -1;
	if (si) { memset(si, 0, sizeof *si); if (r > 0) { si->si_signo = SIGCHLD; si->si_pid = r; if (s & 0x7f) { si->si_code = CLD_KILLED; si->si_status = s & 0x7f; } else { si->si_code = CLD_EXITED; si->si_status = s >> 8; } } }
	return 0;
}
int sim_kill(int pid, int s) {
	sys_enter("kill");
	if (pid == main_proc->pid || pid == 0) { if (s) { if (!is_ignored(s)) { cur->sigpend |= BIT(s); proc_run_handlers(); } } return 0; }
	struct proc *p = child_of(pid); if (!p || !p->alive) ERR(ESRCH);
	if (!s) return 0;
	for (int i = 0; i < nthr; i++) if (thr[i].proc == p && thr[i].state != T_DONE) { thr[i].state = T_DONE; thr[i].finished = 1; }
	proc_exit(p, s & 0x7f);
	return 0;
}
int sim_getpid(void) { return cur->proc->pid; }
int sim_setsid(void) { return cur->proc->session = cur->proc->pid; }
int sim_own_session(void) { return cur->proc->session == cur->proc->pid; }
int sim_pipe2(int fd[2], int flags); int sim_close(int); FILE *sim_fdopen(int, const char *);
void ck_mark_popen(FILE *, int); int ck_popen_pid(FILE *); int sim_fclose(FILE *);
FILE *sim_popen(const char *cmd, const char *mode) {
	sys_enter("popen");
	int fd[2]; if (sim_pipe2(fd, 02000000)) return NULL;
	if (flt(F_FORK)) { sim_close(fd[0]); sim_close(fd[1]); errno = EAGAIN; return NULL; }
	char w[128]; int n = 0; while (cmd[n] && cmd[n] != ' ' && n < 100) n++;
	snprintf(w, sizeof w, "%s%.*s", cmd[0] == '/' ? "" : "/bin/", n, cmd);
	struct proc *p = proc_new(cur->proc->pid); kern_clone_fds(p, cur->proc);
	int rd = mode[0] == 'r';
	struct file *f = p->fd[rd ? fd[1] : fd[0]];
	struct file *o = p->fd[rd ? 1 : 0]; p->fd[rd ? 1 : 0] = f; f->refs++; p->cloexec[rd ? 1 : 0] = 0; if (o) file_put(o);
	char *argv[4] = {"sh", "-c", (char *)cmd, NULL}; sim_prog_fn fn = find_prog(w);
	int not_found(int, char **, char **);
	start_prog(p, fn ? fn : not_found, argv, environ);
	sim_close(rd ? fd[1] : fd[0]);
	FILE *s = sim_fdopen(rd ? fd[0] : fd[1], rd ? "r" : "w");
	ck_mark_popen(s, p->pid);
	return s;
}
int not_found(int c, char **v, char **e) { (void)c; (void)v; (void)e; return 127; }
int sim_pclose(FILE *f) { int pid = ck_popen_pid(f); sim_fclose(f); if (pid < 0) ERR(ECHILD); int s = 0; while (waitx(pid, 0, 0, &s) < 0) if (errno != EINTR) return -1; return s; }
int sim_system(const char *c) { (void)c; return -1; }
int sim_backtrace(void **b, int n) { (void)b; (void)n; return 0; }
char **sim_backtrace_symbols(void *const *b, int n) { (void)b; (void)n; return calloc(1, 8); }

/* names ------------------------------------------------------------------------------------ */
static int resolve(const char *h, struct sockaddr_storage *ss) {
	memset(ss, 0, sizeof *ss);
	struct sockaddr_in *a = (struct sockaddr_in *)ss; struct sockaddr_in6 *b = (struct sockaddr_in6 *)ss;
	if (!h || !strcmp(h, "localhost") || !strcmp(h, "lh") || !strcmp(h, "peer.test")) { a->sin_family = AF_INET; a->sin_addr.s_addr = htonl(INADDR_LOOPBACK); return 1; }
	if (!strcmp(h, "six.test")) { b->sin6_family = AF_INET6; b->sin6_addr.s6_addr[15] = 1; return 1; }
	if (inet_pton(AF_INET, h, &a->sin_addr) == 1) { a->sin_family = AF_INET; return 1; }
	if (inet_pton(AF_INET6, h, &b->sin6_addr) == 1) { b->sin6_family = AF_INET6; return 1; }
	{ int k, n = 0; if (sscanf(h, "h%d.test%n", &k, &n) == 1 && n && !h[n] && k >= 0 && k < 65536) { a->sin_family = AF_INET; a->sin_addr.s_addr = htonl(0x0a070000 + k); return 1; } }
	return 0;
}
static int numeric(const char *h) { struct sockaddr_storage s; return !h || inet_pton(AF_INET, h, &((struct sockaddr_in *)&s)->sin_addr) == 1 || inet_pton(AF_INET6, h, &((struct sockaddr_in6 *)&s)->sin6_addr) == 1; }
static void dns_wait(const char *h) {
	if (numeric(h)) return;
	uint64_t d = 100000ull << sim_choose(ST_ENV, 12);
	sim_block("resolver", NULL, NULL, sim_now() + d, 0);
}
struct aires { struct addrinfo ai; struct sockaddr_storage ss; };
int sim_getaddrinfo(const char *h, const char *svc, const struct addrinfo *hint, struct addrinfo **out) {
	sys_enter("getaddrinfo");
	if (!(hint && (hint->ai_flags & AI_NUMERICHOST))) dns_wait(h);
	if (!numeric(h) && flt(F_DNS)) return EAI_AGAIN;
	struct sockaddr_storage ss;
	if (!h && (hint && (hint->ai_flags & AI_PASSIVE))) { memset(&ss, 0, sizeof ss); ss.ss_family = hint->ai_family == AF_INET6 ? AF_INET6 : AF_INET; }
	else if (!resolve(h, &ss)) return EAI_NONAME;
	if (hint && hint->ai_family && hint->ai_family != ss.ss_family) return EAI_NONAME;
	struct aires *r = calloc(1, sizeof *r);
	int port = svc ? atoi(svc) : 0;
	if (ss.ss_family == AF_INET) ((struct sockaddr_in *)&ss)->sin_port = htons(port); else ((struct sockaddr_in6 *)&ss)->sin6_port = htons(port);
	r->ss = ss; r->ai.ai_family = ss.ss_family; r->ai.ai_socktype = hint && hint->ai_socktype ? hint->ai_socktype : SOCK_STREAM;
	r->ai.ai_addrlen = ss.ss_family == AF_INET ? sizeof(struct sockaddr_in) : sizeof(struct sockaddr_in6); r->ai.ai_addr = (struct sockaddr *)&r->ss;
	*out = &r->ai;
	return 0;
}
int sim_getnameinfo(const struct sockaddr *sa, socklen_t n, char *h, socklen_t hl, char *sv, socklen_t sl, int fl) {
	sys_enter("getnameinfo"); (void)n; char b[64] = "localhost"; int port = 0;
	if (sa->sa_family == AF_INET) { inet_ntop(AF_INET, &((struct sockaddr_in *)sa)->sin_addr, b, sizeof b); port = ntohs(((struct sockaddr_in *)sa)->sin_port); }
	else if (sa->sa_family == AF_INET6) { inet_ntop(AF_INET6, &((struct sockaddr_in6 *)sa)->sin6_addr, b, sizeof b); port = ntohs(((struct sockaddr_in6 *)sa)->sin6_port); }
	else if (sa->sa_family != AF_UNIX) return EAI_FAMILY;
	if (h && hl) { if (!(fl & NI_NUMERICHOST)) strcat(b, ".rev"); if (strlen(b) >= hl) return EAI_OVERFLOW; strcpy(h, b); }
	if (sv && sl) { snprintf(b, sizeof b, fl & NI_NUMERICSERV ? "%d" : "port%d", port); if (strlen(b) >= sl) return EAI_OVERFLOW; strcpy(sv, b); }
	return 0;
}
void sim_freeaddrinfo(struct addrinfo *a) { free(a); }
struct hostent *sim_gethostbyname(const char *h) {
	sys_enter("gethostbyname"); dns_wait(h);
	struct sockaddr_storage ss;
	if ((!numeric(h) && flt(F_DNS)) || !resolve(h, &ss) || ss.ss_family != AF_INET) { h_errno = HOST_NOT_FOUND; return NULL; }
	static struct hostent he; static char *al[1], *ad[2]; static struct in_addr a; static char nm[64]; /* one for the process, as in libc */
	snprintf(nm, sizeof nm, "%s", h ? h : ""); a = ((struct sockaddr_in *)&ss)->sin_addr; ad[0] = (char *)&a; ad[1] = NULL; al[0] = NULL;
	he.h_name = nm; he.h_aliases = al; he.h_addrtype = AF_INET; he.h_length = 4; he.h_addr_list = ad;
	return &he;
}
int sim_gethostbyname_r(const char *h, struct hostent *he, char *buf, size_t n, struct hostent **out, int *err) {
	sys_enter("gethostbyname_r"); dns_wait(h);
	struct sockaddr_storage ss; *out = NULL;
	if (!numeric(h) && flt(F_DNS)) { *err = TRY_AGAIN; return EAGAIN; }
	if (!resolve(h, &ss) || ss.ss_family != AF_INET) { *err = HOST_NOT_FOUND; return 0; }
	size_t l = strlen(h) + 1, o = (l + 7) & ~7ul;
	if (n < o + 4 * sizeof(char *)) { *err = NETDB_INTERNAL; return ERANGE; }
	char **v = (char **)(buf + o); memcpy(buf, h, l);
	memcpy(v + 3, &((struct sockaddr_in *)&ss)->sin_addr, 4); v[0] = (char *)(v + 3); v[1] = NULL; v[2] = NULL;
	he->h_name = buf; he->h_aliases = v + 2; he->h_addrtype = AF_INET; he->h_length = 4; he->h_addr_list = v;
	*out = he; return 0;
}
int sim_gethostname(char *b, size_t n) { snprintf(b, n, "simhost"); return 0; }
static uint64_t ent = 0x1357;
int sim_getentropy(void *b, size_t n) { if (n > 256) ERR(EIO); for (size_t i = 0; i < n; i++) { ent = ent * 6364136223846793005ull + 1442695040888963407ull; ((uint8_t *)b)[i] = ent >> 56; } return 0; }
ssize_t sim_getrandom(void *b, size_t n, unsigned f) { (void)f; uint8_t *p = b; size_t k = n; while (k) { size_t m = k > 256 ? 256 : k; sim_getentropy(p, m); p += m; k -= m; } return n; }
int sim_rand(void) { uint32_t v; sim_getentropy(&v, 4); return v & 0x7fffffff; }
void sim_srand(unsigned s) { (void)s; }
void proc_init(void) { memset(act, 0, sizeof act); }

/* address space for the real allocator -------------------------------------------------------- */
#include <sys/mman.h>
static char *mbase = (char *)0x20000000000ull; static uint64_t mapped;
uint64_t sim_mapped(void) { return mapped; }
void *sim_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
	sys_enter("mmap"); (void)a; (void)fd; (void)o;
	if (flt(F_MMAP) || n > (4ull << 30)) { errno = ENOMEM; return MAP_FAILED; } /* no system has room for what the tests of absurd sizes ask */
	n = (n + 4095) & ~4095ul;
	void *p = mmap(mbase, n, pr, (fl & ~MAP_FIXED) | MAP_FIXED_NOREPLACE | MAP_ANONYMOUS | MAP_PRIVATE | MAP_NORESERVE, -1, 0);
	if (p != mbase) { if (!n) errno = EINVAL; return MAP_FAILED; }
	mbase += n + 65536 + (sim_choose(ST_ENV, 16) << 12);
	mapped += n;
	return p;
}
int sim_munmap(void *p, size_t n) { sys_enter("munmap"); n = (n + 4095) & ~4095ul; mapped -= n; return mprotect(p, n, PROT_NONE) ? -1 : madvise(p, n, MADV_DONTNEED); }
int sim_madvise(void *p, size_t n, int a) { sys_enter("madvise"); if (a == MADV_DONTNEED || a == MADV_FREE) return madvise(p, n, MADV_DONTNEED); return 0; }
int sim_mprotect(void *p, size_t n, int pr) { return mprotect(p, n, pr); }
int sim_prctl(int o, ...) { (void)o; return 0; }
