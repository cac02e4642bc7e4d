/* Deterministic simulator core: choices, virtual time, scheduler, instrumentation runtime. */
#include "internal.h"
#include <sys/time.h>
#include <stdbool.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <asm/prctl.h>
#include <execinfo.h>
#include <sys/auxv.h>

const char *const sim_fault_names[F_NKINDS] = {
	"short_read", "short_write", "eagain", "eintr", "reset", "refuse", "emfile", "eio", "enospc",
	"dgram_loss", "dgram_dup", "dgram_reorder", "net_delay", "stall", "clock_jump", "mmap_fail", "enomem",
	"dns_fail", "poll_error", "fork_fail", "thread_fail", "signal", "abort_conn", "spurious_wake", "slow_disk"
};

struct thr thr[MAXTHR]; int nthr;
struct thr *cur;
struct proc procs[MAXTHR]; int nprocs;
struct proc *main_proc;
struct result *R;
uint8_t *covmap;
struct sim_cfg sim_cfg;
uint64_t g_hooks, g_next_stop = ~0ull;
int g_uaf, g_quar, g_expect_fault;

static struct runspec RS;
static uint64_t rng_s[4];
static uint64_t stream_cnt[ST_N];
static uint64_t tbase, hbase;           /* now = tbase + (hooks-hbase)*HNS */
#define HNS 10
static uint64_t forced_q = 5000;
static uint64_t next_preempt = ~0ull;
static int nopre;
static int fault_off;
static uint32_t fault_p[F_NKINDS], fault_budget[F_NKINDS];
static uint64_t stall_total;

/* ------------------------------------------------------------------ rng */
static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t rnd(void) {
	uint64_t r = rotl(rng_s[1] * 5, 7) * 9, t = rng_s[1] << 17;
	rng_s[2] ^= rng_s[0]; rng_s[3] ^= rng_s[1]; rng_s[1] ^= rng_s[2]; rng_s[0] ^= rng_s[3];
	rng_s[2] ^= t; rng_s[3] = rotl(rng_s[3], 45);
	return r;
}
static void rng_seed(uint64_t s) {
	for (int i = 0; i < 4; i++) {
		uint64_t z = (s += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		rng_s[i] = z ^ (z >> 31);
	}
}
void hash_mix(uint64_t v) {
	R->hash = (R->hash ^ v) * 0x9E3779B97F4A7C15ull; R->hash ^= R->hash >> 29;
}
static void ihash_mix(uint64_t v) {
	R->ihash = (R->ihash ^ v) * 0x9E3779B97F4A7C15ull; R->ihash ^= R->ihash >> 29;
}

/* ------------------------------------------------------------------ trace */
static const struct tr **rp_stream[ST_N]; static uint32_t rp_n[ST_N], rp_pos[ST_N];
static void record(int s, uint64_t key, uint32_t v) {
	if (R->ntr >= MAXTR) { R->tr_overflow = 1; return; }
	struct tr *t = &R->trc[R->ntr++];
	t->stream = s; t->key = key; t->val = v; t->pad = 0;
}
static uint32_t rp_lookup(int s, uint64_t key) {
	while (rp_pos[s] < rp_n[s] && rp_stream[s][rp_pos[s]]->key < key) rp_pos[s]++;
	if (rp_pos[s] < rp_n[s] && rp_stream[s][rp_pos[s]]->key == key) return rp_stream[s][rp_pos[s]]->val;
	return 0;
}
void *xalloc(size_t n) {
	static char *p; static size_t left;
	n = (n + 15) & ~15ul;
	if (n > left) {
		size_t m = n > (1u << 20) ? n : (1u << 20);
		p = mmap(NULL, m, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (p == MAP_FAILED) sim_harness_error("xalloc");
		left = m;
	}
	void *r = p; p += n; left -= n; return r;
}
static void rp_setup(void) {
	uint32_t c[ST_N] = {0};
	for (uint32_t i = 0; i < RS.ntr; i++) if (RS.trc[i].stream < ST_N) c[RS.trc[i].stream]++;
	for (int s = 0; s < ST_N; s++) { rp_stream[s] = xalloc(sizeof(void *) * (c[s] + 1)); rp_n[s] = 0; }
	for (uint32_t i = 0; i < RS.ntr; i++) if (RS.trc[i].stream < ST_N)
		rp_stream[RS.trc[i].stream][rp_n[RS.trc[i].stream]++] = &RS.trc[i];
}
uint32_t sim_choose(int s, uint32_t n) {
	uint64_t k = stream_cnt[s]++; uint32_t v;
	if (n <= 1) return 0;
	if (RS.replay) { v = rp_lookup(s, k); if (v >= n) v %= n; }
	else { v = (uint32_t)((rnd() >> 16) % n); }
	if (v) record(s, k, v);
	return v;
}
int sim_replaying(void) { return RS.replay; }
static int choose_p(int s, uint32_t per64k) { /* recorded coin */
	uint64_t k = stream_cnt[s]++; int v;
	if (RS.replay) v = rp_lookup(s, k) != 0;
	else v = (rnd() & 0xffff) < per64k;
	if (v) record(s, k, 1);
	return v;
}
void sim_fault_enable(int kind, uint32_t per64k, uint32_t budget) { fault_p[kind] = per64k; fault_budget[kind] = budget; }
void sim_faults_stop(void) { fault_off = 1; }
void sim_faults_hold(int on) { fault_off = on ? 2 : fault_off == 2 ? 0 : fault_off; }
int sim_fault(int kind) {
	if (fault_off) return 0;
	if (!RS.replay && (!fault_p[kind] || R->nfault[kind] >= fault_budget[kind])) { stream_cnt[ST_FAULT + kind]++; return 0; }
	if (!choose_p(ST_FAULT + kind, fault_p[kind])) return 0;
	R->nfault[kind]++;
	sim_note("FAULT %s", sim_fault_names[kind]);
	return 1;
}
uint64_t sim_fault_count(int kind) { return R->nfault[kind]; }

/* ------------------------------------------------------------------ results */
static void final_stats(void) {
	R->hooks = g_hooks; R->vtime = sim_now(); R->nthreads = nthr;
}
void core_finish(int outcome, const char *cls, const char *msg) {
	if (R->outcome == OUT_NONE) {
		final_stats();
		snprintf(R->cls, sizeof R->cls, "%s", cls);
		snprintf(R->msg, sizeof R->msg, "%s", msg);
		R->outcome = outcome;
	}
	syscall(SYS_exit_group, 0);
	__builtin_unreachable();
}
static char msgbuf[4000];
void sim_violation(const char *cls, const char *fmt, ...) {
	va_list ap; va_start(ap, fmt); vsnprintf(msgbuf, sizeof msgbuf, fmt, ap); va_end(ap);
	core_finish(OUT_VIOLATION, cls, msgbuf);
}
void sim_harness_error(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt); vsnprintf(msgbuf, sizeof msgbuf, fmt, ap); va_end(ap);
	core_finish(OUT_HARNESS, "harness", msgbuf);
}
void sim_done(void) { core_finish(OUT_OK, "", ""); }
static char notebuf[1024];
void sim_note(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt);
	int n = vsnprintf(notebuf, sizeof notebuf, fmt, ap); va_end(ap);
	if (n > (int)sizeof notebuf - 1) n = sizeof notebuf - 1;
	uint64_t h = 1469598103934665603ull;
	for (int i = 0; i < n; i++) h = (h ^ (uint8_t)notebuf[i]) * 1099511628211ull;
	hash_mix(h ^ g_hooks);
	if (RS.logging) {
		char pre[96]; uint64_t t = sim_now();
		int m = snprintf(pre, sizeof pre, "[%llu.%09llu #%llu %s] ", (unsigned long long)(t / 1000000000ull),
			(unsigned long long)(t % 1000000000ull), (unsigned long long)g_hooks, cur ? cur->name : "-");
		if (R->loglen + m + n + 2 < LOGSZ) {
			memcpy(R->log + R->loglen, pre, m); R->loglen += m;
			memcpy(R->log + R->loglen, notebuf, n); R->loglen += n;
			R->log[R->loglen++] = '\n';
		}
	}
}
void sim_probe(int id) { R->probes |= 1ull << (id & 63); }

/* ------------------------------------------------------------------ time */
uint64_t sim_now(void) { return tbase + (g_hooks - hbase) * HNS; }
void kern_tick(uint64_t);
void sim_advance(uint64_t ns) { tbase += ns; kern_tick(sim_now()); }
static void set_now(uint64_t t) { tbase = t; hbase = g_hooks; kern_tick(t); }
uint64_t sim_stalled_ns(void) { return stall_total; }

/* ------------------------------------------------------------------ thread switch */
static int have_fsgsbase;
void sim_swtch(void **save, void *sp, uint64_t fs, int fast);
__asm__(
".text\n.globl sim_swtch\n.type sim_swtch,@function\nsim_swtch:\n"
"  push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n"
"  sub $8,%rsp\n stmxcsr (%rsp)\n fnstcw 4(%rsp)\n"
"  mov %rsp,(%rdi)\n"
"  mov %rsi,%r12\n"
"  test %ecx,%ecx\n jz 1f\n"
"  wrfsbase %rdx\n jmp 2f\n"
"1: mov %rdx,%rsi\n mov $0x1002,%edi\n mov $158,%eax\n syscall\n"
"2: mov %r12,%rsp\n"
"  ldmxcsr (%rsp)\n fldcw 4(%rsp)\n add $8,%rsp\n"
"  pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n"
".size sim_swtch,.-sim_swtch\n");

static void switch_to(struct thr *t) {
	struct thr *old = cur;
	if (t == old) { t->switched_in = g_hooks; return; }
	R->switches++;
	hash_mix(((uint64_t)t->id << 48) ^ g_hooks); hash_mix(sim_now());
	ihash_mix(((uint64_t)old->id << 40) ^ ((uint64_t)t->id << 56) ^ (uintptr_t)old->pc);
	if (covmap) {
		uint64_t c = ((uintptr_t)old->pc * 0x9E3779B97F4A7C15ull) ^ ((uintptr_t)t->pc * 0xC2B2AE3D27D4EB4Full);
		c ^= c >> 31; c *= 0xff51afd7ed558ccdull; c >>= 44;
		covmap[c >> 3] |= 1u << (c & 7);
	}
	cur = t; t->switched_in = g_hooks;
	sim_swtch(&old->sp, t->sp, t->fs, have_fsgsbase);
}

/* ------------------------------------------------------------------ policies */
enum { POL_COOP, POL_RANDOM, POL_PCT, POL_ATOMIC, POL_BURST };
static int policy, pol_mean, pol_k, sched_mode;
static uint64_t pct_points[8]; static int pct_n; static int64_t pct_low;
static void draw_preempt(void) {
	if (RS.replay) {
		while (rp_pos[ST_PREEMPT] < rp_n[ST_PREEMPT] && rp_stream[ST_PREEMPT][rp_pos[ST_PREEMPT]]->key <= g_hooks) rp_pos[ST_PREEMPT]++;
		next_preempt = rp_pos[ST_PREEMPT] < rp_n[ST_PREEMPT] ? rp_stream[ST_PREEMPT][rp_pos[ST_PREEMPT]]->key : ~0ull;
		return;
	}
	if (R->ntr > MAXTR / 2) { next_preempt = ~0ull; return; } /* keep room in the trace: no more preemptions */
	switch (policy) {
	case POL_RANDOM: next_preempt = g_hooks + 1 + rnd() % (2 * pol_mean); break;
	case POL_BURST: next_preempt = g_hooks + 1 + rnd() % (1u << (1 + rnd() % 13)); break;
	case POL_PCT: {
		next_preempt = ~0ull;
		for (int i = 0; i < pct_n; i++) if (pct_points[i] > g_hooks && pct_points[i] < next_preempt) next_preempt = pct_points[i];
		break;
	}
	default: next_preempt = ~0ull;
	}
}
static void policy_setup(void) {
	uint64_t r = rnd();
	switch (r % 10) {
	case 0: policy = POL_COOP; break;
	case 1: case 2: case 3: policy = POL_RANDOM; break;
	case 4: case 5: policy = POL_PCT; break;
	case 6: case 7: case 8: policy = POL_ATOMIC; break;
	default: policy = POL_BURST;
	}
	static const int means[] = {4, 12, 40, 120, 400, 1500};
	pol_mean = means[rnd() % 6];
	static const int ks[] = {2, 4, 8, 24, 80};
	pol_k = ks[rnd() % 5];
	sched_mode = rnd() % 4; /* 0,1 uniform 2 round robin mostly 3 sticky */
	pct_n = 1 + rnd() % 6;
	uint64_t len = 1000ull << (rnd() % 9);
	for (int i = 0; i < pct_n; i++) pct_points[i] = rnd() % len;
	for (int i = 0; i < MAXTHR; i++) thr[i].prio = 1000 + (int64_t)(rnd() % 1000000);
}

/* ------------------------------------------------------------------ scheduler */
static int runnable(struct thr *t, uint64_t now) {
	if (t->stalled_until > now) return 0;
	if (t->state == T_READY) return 1;
	if (t->state != T_BLOCKED) return 0;
	if (t->intr) return 1;
	if (t->intr_ok && thr_signal_ready(t)) { t->intr = 1; return 1; }
	if (t->pred && t->pred(t->arg)) return 1;
	if (t->deadline && t->deadline <= now) return 1;
	return 0;
}
uint64_t kern_next_event(uint64_t now);
static uint64_t next_event(uint64_t now) {
	uint64_t n = kern_next_event(now);
	for (int i = 0; i < nthr; i++) {
		struct thr *t = &thr[i];
		if (t->state == T_READY && t->stalled_until > now && t->stalled_until < n) n = t->stalled_until;
		if (t->state == T_BLOCKED) {
			uint64_t d = ~0ull;
			if (t->intr || (t->pred && t->pred(t->arg))) d = t->stalled_until; /* only stalled */
			else if (t->deadline) d = t->deadline > t->stalled_until ? t->deadline : t->stalled_until;
			else if (t->stalled_until > now) d = t->stalled_until;
			if (d > now && d < n) n = d;
		}
	}
	return n;
}
const char *sim_tname(int id) { return id >= 0 && id < nthr ? thr[id].name : "?"; }
static void dump_threads(char *b, size_t n) {
	size_t o = 0;
	for (int i = 0; i < nthr && o + 80 < n; i++) if (thr[i].state != T_DONE && thr[i].state != T_FREE)
		o += snprintf(b + o, n - o, " %s:%s%s%s", thr[i].name, thr[i].state == T_READY ? "ready" : "blocked in ",
			thr[i].state == T_BLOCKED ? thr[i].why : "", thr[i].native ? "(env)" : "");
}
static void no_progress(const char *what) {
	static char b[1200]; dump_threads(b, sizeof b);
	sim_violation("no-progress", "%s after %llu steps, %.3f s simulated:%s", what, (unsigned long long)g_hooks, sim_now() / 1e9, b);
}
/* choose the next thread among runnable ones, cur considered last unless sticky */
static struct thr *pick(int with_self) {
	for (;;) {
		uint64_t now = sim_now();
		static struct thr *c[MAXTHR]; int n = 0;
		for (int k = 1; k <= nthr; k++) {
			struct thr *t = &thr[(cur->id + k) % nthr];
			if (t == cur && !with_self) continue;
			if (runnable(t, now)) c[n++] = t;
		}
		if (n == 0) {
			if (!with_self) return NULL;
			uint64_t ne = next_event(now);
			if (ne == ~0ull) no_progress("deadlock: nothing can run any more");
			if (ne > sim_cfg.max_vtime) { set_now(ne); no_progress("simulated time limit"); }
			set_now(ne);
			continue;
		}
		int v = 0;
		if (n > 1) {
			uint64_t k = stream_cnt[ST_SCHED]++;
			if (RS.replay) v = rp_lookup(ST_SCHED, k) % n;
			else if (policy == POL_PCT) { for (int i = 1; i < n; i++) if (c[i]->prio > c[v]->prio) v = i; }
			else if (sched_mode == 2) v = rnd() % 8 ? 0 : rnd() % n;
			else v = rnd() % n;
			if (v) record(ST_SCHED, k, v);
		}
		return c[v];
	}
}
static uint64_t next_pass = 4000; /* steps at which time may pass faster: the same in every replay, unlike the other stops */
static void after_switch(void) {
	if (cur->state == T_BLOCKED) { /* woken */ }
	draw_preempt();
	g_next_stop = g_hooks + forced_q;
	if (next_preempt < g_next_stop) g_next_stop = next_preempt;
	if (next_pass < g_next_stop) g_next_stop = next_pass;
	if (g_next_stop > sim_cfg.max_hooks + 1) g_next_stop = sim_cfg.max_hooks + 1; /* the limit strikes at the same step in every replay */
	if (!cur->native && thr_signal_ready(cur)) g_next_stop = 0; /* its handler runs at its next step */
}
void core_signal_poke(void) { g_next_stop = 0; }

/* the library ends a task in a function entered with a misaligned stack */
__attribute__((force_align_arg_pointer, noinline)) static void hook_slow(const void *pc) {
	if (g_hooks > sim_cfg.max_hooks) no_progress("step limit");
	if (cur->native || nopre || cur->vf_parent) { g_next_stop = g_hooks + 1; return; }
	cur->pc = pc;
	/* others spin through the stall of a thread: time passes faster than by their steps alone */
	if (g_hooks >= next_pass) {
		uint64_t now = sim_now(), su = ~0ull; next_pass = g_hooks + 4000;
		if (now > sim_cfg.max_vtime) no_progress("simulated time limit");
		for (int i = 0; i < nthr; i++) if (thr[i].state == T_READY && thr[i].stalled_until > now && thr[i].stalled_until < su) su = thr[i].stalled_until;
		if (su != ~0ull) set_now(now + (su - now) / 4 + 1000);
	}
	if (g_hooks >= next_preempt) {
		struct thr *t = NULL;
		if (RS.replay) {
			uint32_t v = rp_lookup(ST_PREEMPT, g_hooks);
			if (v && (int)v - 1 < nthr && &thr[v - 1] != cur && runnable(&thr[v - 1], sim_now())) t = &thr[v - 1];
		} else {
			uint64_t now = sim_now();
			static struct thr *c[MAXTHR]; int n = 0;
			for (int i = 0; i < nthr; i++) if (&thr[i] != cur && runnable(&thr[i], now)) c[n++] = &thr[i];
			if (policy == POL_PCT) {
				for (int i = 0; i < pct_n; i++) if (pct_points[i] == g_hooks) { cur->prio = pct_low--; break; }
				for (int i = 0; i < n; i++) if (!t || c[i]->prio > t->prio) t = c[i];
				if (t && t->prio < cur->prio) t = NULL;
			} else if (n) t = c[rnd() % n];
		}
		if (t) {
			record(ST_PREEMPT, g_hooks, t->id + 1);
			R->preempts++;
			if (!t->native || 1) {
				if (sim_fault(F_STALL)) {
					uint64_t d = 100000ull << sim_choose(ST_STALL, 15);
					cur->stalled_until = sim_now() + d; stall_total += d; R->stalls++; thr_signal_stalled(cur);
				}
			}
			switch_to(t);
			after_switch();
		} else draw_preempt();
	}
	if (g_hooks - cur->switched_in >= forced_q) {
		cur->prio = pct_low--;
		struct thr *t = pick(0);
		if (!t) { /* spinning alone: let time pass to the next event */
			uint64_t ne = next_event(sim_now());
			if (ne == ~0ull) { /* alone for good: plain computation */ cur->switched_in = g_hooks; }
			else { if (ne > sim_cfg.max_vtime) no_progress("simulated time limit (spinning)"); set_now(ne); t = pick(0); }
		}
		if (t) { switch_to(t); after_switch(); } else cur->switched_in = g_hooks;
	}
	g_next_stop = cur->switched_in + forced_q;
	if (g_next_stop <= g_hooks) g_next_stop = g_hooks + 1;
	if (next_preempt < g_next_stop) g_next_stop = next_preempt;
	if (next_preempt <= g_hooks) g_next_stop = g_hooks + 1;
	if (next_pass < g_next_stop) g_next_stop = next_pass;
	if (g_next_stop > sim_cfg.max_hooks + 1) g_next_stop = sim_cfg.max_hooks + 1;
	if (!cur->native) proc_run_handlers();
}
static inline void hook(const void *pc) { if (__builtin_expect(++g_hooks >= g_next_stop, 0)) hook_slow(pc); }
static inline void hook_hot(const void *pc) {
	++g_hooks;
	if (!RS.replay && policy == POL_ATOMIC && R->ntr <= MAXTR / 2 && rnd() % pol_k == 0) next_preempt = g_hooks;
	if (__builtin_expect(g_hooks >= g_next_stop || g_hooks >= next_preempt, 0)) hook_slow(pc);
}
/* a loop that only polls a flag gives up its slice: it cannot do anything else */
static void spin_check(const void *pc) {
	if (cur->spin_pc == pc && g_hooks - cur->spin_at <= 3) {
		if (++cur->spin_n >= 40 && !cur->native && !nopre) { cur->spin_n = 0; cur->switched_in = g_hooks - forced_q; hook_slow(pc); }
	} else { cur->spin_pc = pc; cur->spin_n = 0; }
	cur->spin_at = g_hooks;
}
void sys_cost(uint64_t ns) { sim_advance(ns); }
void sys_enter(const char *name) {
	R->syscalls++;
	hash_mix((uintptr_t)name * 31 + cur->id);
	sim_advance(300);
	if (cur->native) { ++g_hooks; if (g_hooks > sim_cfg.max_hooks) no_progress("step limit"); return; }
	hook_hot(__builtin_return_address(0));
}
void sim_yield_point(void) { sys_enter("yield"); }
void sim_nopreempt(int on) { nopre += on ? 1 : -1; }
int sim_self(void) { return cur->id; }
uint64_t sim_steps(void) { return g_hooks; }

int sim_block(const char *why, sim_pred pred, void *arg, uint64_t deadline, int intr_ok) {
	if (nopre) sim_harness_error("block inside nopreempt section: %s", why);
	cur->state = T_BLOCKED; cur->pred = pred; cur->arg = arg; cur->deadline = deadline;
	cur->intr_ok = intr_ok; cur->intr = 0; cur->why = why;
	cur->pc = __builtin_return_address(0);
	hash_mix((uintptr_t)why + cur->id);
	struct thr *t = pick(1);
	switch_to(t);
	cur->state = T_READY;
	after_switch();
	int intr = cur->intr; cur->intr = 0;
	int ok = cur->pred && cur->pred(cur->arg);
	cur->pred = NULL; cur->deadline = 0;
	if (intr) { g_next_stop = 0; }
	if (!cur->native && cur->intr_ok) proc_run_handlers();
	if (ok) return 1;
	return intr ? -1 : 0;
}
void sim_nap(uint64_t ns) { sim_block("nap", NULL, NULL, sim_now() + (ns ? ns : 1), 0); }

/* ------------------------------------------------------------------ threads */
static int hand[MAXTHR * 2];
static void fwait(int *p, int v) { while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == v) syscall(SYS_futex, p, FUTEX_WAIT, v, NULL, NULL, 0); }
static void *parked(void *a) {
	struct thr *t = a;
	uint64_t fs; __asm__ volatile("mov %%fs:0,%0" : "=r"(fs));
	t->fs = fs;
	__atomic_store_n(&hand[t->id], 1, __ATOMIC_RELEASE);
	syscall(SYS_futex, &hand[t->id], FUTEX_WAKE, 1, NULL, NULL, 0);
	static int never;
	for (;;) syscall(SYS_futex, &never, FUTEX_WAIT, 0, NULL, NULL, 0);
	return NULL;
}
static void thread_entry(void) {
	cur->state = T_READY;
	after_switch();
	if (!cur->native) g_hooks++;
	void *r = cur->fn(cur->farg);
	core_thread_exit(r);
}
static char *stack_base = (char *)0x30000000000ull;
#define STKSZ (512 * 1024)
int core_new_thread(const char *name, struct proc *p, void *(*fn)(void *), void *arg, int native) {
	if (nthr >= MAXTHR) sim_harness_error("too many threads");
	struct thr *t = &thr[nthr];
	int64_t pr = t->prio;
	memset(t, 0, sizeof *t);
	t->prio = pr;
	t->id = nthr; t->proc = p; t->fn = fn; t->farg = arg; t->native = native;
	snprintf(t->name, sizeof t->name, "%s%d", name, t->id);
	pthread_attr_t a; pthread_t th; sigset_t all, old;
	sigfillset(&all); pthread_sigmask(SIG_SETMASK, &all, &old);
	pthread_attr_init(&a); pthread_attr_setstacksize(&a, 64 * 1024);
	if (pthread_create(&th, &a, parked, t)) sim_harness_error("pthread_create");
	pthread_sigmask(SIG_SETMASK, &old, NULL);
	fwait(&hand[t->id], 0);
	t->stack = mmap(stack_base + (size_t)t->id * (STKSZ + 65536), STKSZ, PROT_READ | PROT_WRITE,
		MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (t->stack == MAP_FAILED) sim_harness_error("stack");
	uint64_t *sp = (uint64_t *)(t->stack + STKSZ - 64);
	*--sp = 0;                         /* fake return address keeps alignment */
	*--sp = (uint64_t)thread_entry;
	for (int i = 0; i < 6; i++) *--sp = 0;
	--sp; ((uint32_t *)sp)[0] = 0x1f80; ((uint32_t *)sp)[1] = 0x37f;
	t->sp = sp;
	t->sigmask = cur->sigmask;
	t->state = T_READY;
	t->pc = fn;
	nthr++;
	return t->id;
}
void core_thread_exit(void *ret) {
	cur->ret = ret; cur->finished = 1; cur->state = T_DONE;
	hash_mix(0xdead0000 + cur->id);
	struct thr *t = pick(1);
	switch_to(t);
	__builtin_unreachable();
}
struct actor { sim_actor_fn fn; void *arg; };
static void *actor_tramp(void *a) {
	struct actor *x = a; x->fn(x->arg);
	proc_close_all(cur->proc);
	return NULL;
}
int sim_spawn_actor(const char *name, sim_actor_fn fn, void *arg) {
	struct actor *x = xalloc(sizeof *x); x->fn = fn; x->arg = arg;
	struct proc *p = proc_new(1); p->native = 1;
	return core_new_thread(name, p, actor_tramp, x, 1);
}
static void *helper_tramp(void *a) { struct actor *x = a; x->fn(x->arg); return NULL; }
int sim_spawn_helper(const char *name, sim_actor_fn fn, void *arg) {
	struct actor *x = xalloc(sizeof *x); x->fn = fn; x->arg = arg;
	return core_new_thread(name, main_proc, helper_tramp, x, 1);
}
int sim_actor_done(int tid) { return thr[tid].finished; }
int sim_live_threads(void) {
	int n = 0;
	for (int i = 0; i < nthr; i++) if (!thr[i].native && thr[i].state != T_DONE && thr[i].state != T_FREE) n++;
	return n;
}

/* ------------------------------------------------------------------ real faults in a run */
/* The program's own handler runs on the stack of the thread that faulted, so that others can be scheduled meanwhile. */
static struct { int sig; siginfo_t si; greg_t pc; } flt[MAXTHR];
static void real_fault(int sig, siginfo_t *si, void *uc);
static void fault_tramp(int id) {
	proc_handle_real_fault(flt[id].sig, &flt[id].si, NULL);
	ucontext_t u; memset(&u, 0, sizeof u); u.uc_mcontext.gregs[REG_RIP] = flt[id].pc;
	g_expect_fault = 0; real_fault(flt[id].sig, &flt[id].si, &u); /* it returned: there is nothing to go back to */
}
static void real_fault(int sig, siginfo_t *si, void *uc) {
	if (g_expect_fault && cur && !cur->native && sig != SIGALRM && sig != SIGPROF && proc_handles_fault(sig)) {
		greg_t *g = ((ucontext_t *)uc)->uc_mcontext.gregs; int id = cur - thr;
		flt[id].sig = sig; flt[id].si = *si; flt[id].pc = g[REG_RIP];
		g[REG_RSP] = ((g[REG_RSP] - 128 - 1024) & ~15ll) - 8; g[REG_RDI] = id; g[REG_RIP] = (greg_t)fault_tramp; g[REG_EFL] &= ~0x400ll;
		return;
	}
	ucontext_t *u = uc;
	char b[300], c[64];
	snprintf(c, sizeof c, "crash-%s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : sig == SIGALRM ? "ALRM" : "SIG");
	if (sig == SIGALRM || sig == SIGPROF) {
		snprintf(b, sizeof b, "real-time limit in thread %s, hooks %llu pc %p", cur ? cur->name : "?", (unsigned long long)g_hooks, (void *)u->uc_mcontext.gregs[REG_RIP]);
		core_finish(OUT_HARNESS, "harness", b);
	}
	snprintf(b, sizeof b, "signal %d at pc %p address %p in thread %s", sig, (void *)u->uc_mcontext.gregs[REG_RIP], si->si_addr, cur ? cur->name : "?");
	core_finish(OUT_VIOLATION, c, b);
}
void sim_expect_fault(int on) { g_expect_fault = on; }

extern int alarm_secs;
int alarm_secs = 20;
void core_run(const struct runspec *rs) {
	RS = *rs;
	memset(R, 0, offsetof(struct result, trc));
	R->hash = 0x1234567; R->ihash = 7;
	rng_seed(RS.seed);
	have_fsgsbase = (getauxval(AT_HWCAP2) & 2) != 0;
	if (RS.replay) rp_setup();
	policy_setup();
	sim_cfg.cpus = 2 + sim_choose(ST_CFG, 3);
	static const int steps[] = {20, 100, 1000};
	sim_cfg.poll_step_us = steps[sim_choose(ST_CFG, 3)];
	sim_cfg.max_hooks = 10000000ull; sim_cfg.max_vtime = 3600ull * 1000000000ull;
	/* main thread */
	cur = &thr[0]; nthr = 1;
	cur->id = 0; cur->state = T_READY; strcpy(cur->name, "main");
	{ uint64_t fs; __asm__ volatile("mov %%fs:0,%0" : "=r"(fs)); cur->fs = fs; }
	main_proc = proc_new(0); cur->proc = main_proc; main_proc->pid = 1000;
	static char alt[65536];
	stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt}; sigaltstack(&ss, NULL);
	struct sigaction sa; memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = real_fault; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL);
	sigaction(SIGILL, &sa, NULL); sigaction(SIGALRM, &sa, NULL);
	{ struct itimerval it = {{0, 0}, {alarm_secs, 0}}; sigaction(SIGPROF, &sa, NULL); setitimer(ITIMER_PROF, &it, NULL); alarm(alarm_secs * 15); } /* processor time; the wall clock only as a last resort */
	alloc_init(); kern_init(); fs_init_sim(); proc_init();
	/* fault swarm: each kind the workload names is on in some runs, at a rate drawn per run */
	if (RS.wl->faults && !RS.replay && rnd() % 4 != 0) {
		for (int k = 0; k < F_NKINDS; k++) {
			const char *p = strstr(RS.wl->faults, sim_fault_names[k]);
			if (!p) continue;
			if (rnd() % 2) continue;
			static const uint32_t rates[] = {200, 800, 3000, 10000, 26000};
			sim_fault_enable(k, rates[rnd() % 5], 1 + rnd() % 40);
		}
	}
	if (RS.replay) for (int k = 0; k < F_NKINDS; k++) sim_fault_enable(k, 1, ~0u);
	g_next_stop = 1;
	cur->switched_in = 0;
	after_switch();
	RS.wl->run();
	sim_done();
}

/* ------------------------------------------------------------------ instrumentation runtime */
#define PC __builtin_return_address(0)
#define ACC(a, w) do { hook(PC); if (g_uaf) alloc_check_access((uintptr_t)(a), PC, w); } while (0)
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
#define RW(n) \
void __tsan_read##n(void *a) { ACC(a, 0); } \
void __tsan_write##n(void *a) { ACC(a, 1); } \
void __tsan_unaligned_read##n(void *a) { ACC(a, 0); } \
void __tsan_unaligned_write##n(void *a) { ACC(a, 1); } \
void __tsan_volatile_read##n(void *a) { ACC(a, 0); } \
void __tsan_volatile_write##n(void *a) { ACC(a, 1); } \
void __tsan_read_write##n(void *a) { ACC(a, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { (void)n; ACC(a, 0); }
void __tsan_write_range(void *a, unsigned long n) { (void)n; ACC(a, 1); }
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; hook(PC); }
void __tsan_vptr_read(void **a) { (void)a; hook(PC); }
#define HOTACC(a, w) do { hook_hot(PC); if (g_uaf) alloc_check_access((uintptr_t)(a), PC, w); } while (0)
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *a, int mo) { (void)mo; HOTACC(a, 0); if (bits == 8) spin_check(PC); return *a; } \
void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { (void)mo; HOTACC(a, 1); *a = v; } \
T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { (void)mo; HOTACC(a, 1); T o = *a; *a = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { (void)mo; HOTACC(a, 1); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { (void)mo; HOTACC(a, 1); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { (void)mo; HOTACC(a, 1); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { (void)mo; HOTACC(a, 1); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { (void)mo; HOTACC(a, 1); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { (void)mo; HOTACC(a, 1); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { \
	(void)mo; (void)fmo; HOTACC(a, 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { \
	(void)mo; (void)fmo; HOTACC(a, 1); \
	if (*a == *c && !(sim_fault(F_SPURIOUS))) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { \
	(void)mo; (void)fmo; HOTACC(a, 1); T o = *a; if (o == c) *a = v; return o; }
typedef unsigned __int128 u128;
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, u128)
void __tsan_atomic_thread_fence(int mo) { (void)mo; hook_hot(PC); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
