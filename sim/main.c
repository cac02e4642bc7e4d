/* Worker: runs simulated executions, each in a forked child; records, replays and minimises. */
#include "internal.h"
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sched.h>
#include <time.h>
#include <fcntl.h>
extern int alarm_secs;
extern char **environ;
static double wall(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static const struct sim_wl *find(const char *n) { for (int i = 0; sim_workloads[i]; i++) if (!strcmp(sim_workloads[i]->name, n)) return sim_workloads[i]; return NULL; }
static int quiet_fd = -1, g_verbose;
static void run(const struct runspec *rs) {
	R->outcome = OUT_NONE;
	fflush(stdout);
	pid_t p = fork();
	if (p == 0) {
		if (!g_verbose) { dup2(quiet_fd, 1); dup2(quiet_fd, 2); }
		core_run(rs);
	}
	int st; while (waitpid(p, &st, 0) < 0) ;
	if (R->outcome == OUT_NONE) {
		int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
		if (sig == SIGABRT || sig == SIGSEGV || sig == SIGBUS || sig == SIGILL || sig == SIGFPE) { /* a jump to a stack that is gone, or the C library's own checks */
			R->outcome = OUT_VIOLATION; R->hash = 0;
			snprintf(R->cls, sizeof R->cls, "crash-%d", sig); snprintf(R->msg, sizeof R->msg, "the process was ended by signal %d", sig);
			return;
		}
		R->outcome = OUT_HARNESS;
		snprintf(R->cls, sizeof R->cls, "harness"); snprintf(R->msg, sizeof R->msg, "run ended without verdict, wait status %x", st);
	}
}
static struct result *R2;
static void save(const char *path, const struct sim_wl *w, uint64_t seed, const char *cls, const char *msg, uint64_t hash, const struct tr *t, uint32_t n, const char *log, uint32_t loglen) {
	FILE *f = fopen(path, "w"); if (!f) return;
	fprintf(f, "simtrace 1\nworkload %s\nseed %llu\nclass %s\nhash %016llx\nmessage ", w->name, (unsigned long long)seed, cls, (unsigned long long)hash);
	for (const char *p = msg; *p; p++) fputc(*p == '\n' ? ' ' : *p, f);
	fprintf(f, "\nentries %u\n", n);
	for (uint32_t i = 0; i < n; i++) fprintf(f, "%u %llu %u\n", t[i].stream, (unsigned long long)t[i].key, t[i].val);
	fprintf(f, "end\n");
	if (loglen) { fprintf(f, "# schedule, faults and operations of this run\n"); const char *p = log, *e = log + loglen; while (p < e) { const char *q = memchr(p, '\n', e - p); if (!q) break; fprintf(f, "# %.*s\n", (int)(q - p), p); p = q + 1; } }
	fclose(f);
}
static int load(const char *path, char *wl, uint64_t *seed, char *cls, uint64_t *hash, struct tr **t, uint32_t *n) {
	FILE *f = fopen(path, "r"); if (!f) return -1;
	char line[2200]; *n = 0; *t = NULL;
	while (fgets(line, sizeof line, f)) {
		unsigned long long v; unsigned a, c;
		if (sscanf(line, "workload %60s", wl) == 1) continue;
		if (sscanf(line, "seed %llu", &v) == 1) { *seed = v; continue; }
		if (sscanf(line, "class %60s", cls) == 1) continue;
		if (sscanf(line, "hash %llx", &v) == 1) { *hash = v; continue; }
		if (!strncmp(line, "message", 7)) continue;
		if (sscanf(line, "entries %u", &a) == 1) {
			*t = malloc((a + 1) * sizeof **t);
			for (uint32_t i = 0; i < a; i++) { if (!fgets(line, sizeof line, f) || sscanf(line, "%u %llu %u", &a, &v, &c) != 3) break; (*t)[*n].stream = a; (*t)[*n].pad = 0; (*t)[*n].key = v; (*t)[*n].val = c; (*n)++; a = ~0u; }
			break;
		}
	}
	fclose(f);
	return 0;
}
static void jstr(FILE *o, const char *s) {
	fputc('"', o);
	for (; *s; s++) { if (*s == '"' || *s == '\\') { fputc('\\', o); fputc(*s, o); } else if ((unsigned char)*s < 32) fputc(' ', o); else fputc(*s, o); }
	fputc('"', o);
}
/* same failure: same class */
static int same(const char *cls) { return R->outcome == OUT_VIOLATION && !strcmp(R->cls, cls); }

static struct tr *minimise(const struct sim_wl *w, const char *cls, struct tr *t, uint32_t *np, double secs) {
	double t0 = wall(); uint32_t n = *np;
	struct tr *cand = malloc((n + 1) * sizeof *cand);
	uint32_t tests = 0;
	struct runspec rs = {.replay = 1, .wl = w};
	/* first whole streams: faults, preemptions, order choices */
	for (int pass = 0; pass < 2; pass++)
	for (int s = 0; s < ST_N && wall() - t0 < secs; s++) {
		uint32_t m = 0; for (uint32_t i = 0; i < n; i++) if (t[i].stream != s) cand[m++] = t[i];
		if (m == n) continue;
		rs.trc = cand; rs.ntr = m; run(&rs); tests++;
		if (same(cls)) { memcpy(t, cand, m * sizeof *t); n = m; }
	}
	uint32_t chunk = n / 2 ? n / 2 : 1;
	while (n && wall() - t0 < secs) {
		int any = 0;
		for (uint32_t i = 0; i < n && wall() - t0 < secs;) {
			uint32_t c = chunk < n - i ? chunk : n - i, m = 0;
			for (uint32_t k = 0; k < n; k++) if (k < i || k >= i + c) cand[m++] = t[k];
			rs.trc = cand; rs.ntr = m; run(&rs); tests++;
			if (same(cls)) { memcpy(t, cand, m * sizeof *t); n = m; any = 1; } else i += c;
		}
		if (chunk == 1) { if (!any) break; } else chunk = (chunk + 1) / 2;
	}
	/* smaller values */
	for (uint32_t i = 0; i < n && wall() - t0 < secs; i++) {
		if (t[i].stream == ST_PREEMPT) continue;
		while (t[i].val > 1) {
			uint32_t old = t[i].val; t[i].val = old / 2; rs.trc = t; rs.ntr = n; run(&rs); tests++;
			if (!same(cls)) { t[i].val = old; break; }
		}
	}
	free(cand); *np = n;
	fprintf(stderr, "minimised to %u entries in %u runs\n", n, tests);
	return t;
}
struct set { uint64_t *v; uint32_t n, cap; };
static int set_add(struct set *s, uint64_t x) {
	if (!x) x = 1;
	if (s->n * 2 >= s->cap) { uint32_t oc = s->cap; uint64_t *o = s->v; s->cap = oc ? oc * 2 : 1 << 14; s->v = calloc(s->cap, 8); s->n = 0; for (uint32_t i = 0; i < oc; i++) if (o[i]) set_add(s, o[i]); free(o); }
	uint32_t i = (x * 0x9E3779B97F4A7C15ull) >> 32 & (s->cap - 1);
	while (s->v[i]) { if (s->v[i] == x) return 0; i = (i + 1) & (s->cap - 1); }
	s->v[i] = x; s->n++; return 1;
}
int main(int argc, char **argv) {
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) {
		setenv("SIM_NOREEXEC", "1", 1);
		if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	/* the environment must not shift addresses between runs */
	const char *verbose = getenv("SIM_VERBOSE"), *cpu = getenv("SIM_CPU"); int stop_first = getenv("SIM_STOP") != NULL;
	if (cpu) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(atoi(cpu), &s); sched_setaffinity(0, sizeof s, &s); }
	clearenv(); g_verbose = verbose != NULL; if (verbose) setenv("SIM_VERBOSE", "1", 1);
	static char *fixed_env[] = {"PATH=/bin", "HOME=/w", "LANG=C", NULL}; if (!verbose) environ = fixed_env;
	quiet_fd = open("/dev/null", O_RDWR);
	R = mmap(NULL, sizeof *R, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	covmap = mmap(NULL, COVBITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (R == MAP_FAILED || covmap == MAP_FAILED) return 3;
	(void)R2;
	if (argc >= 2 && !strcmp(argv[1], "list")) { for (int i = 0; sim_workloads[i]; i++) printf("%s\t%s\t%s\n", sim_workloads[i]->name, sim_workloads[i]->faults ? sim_workloads[i]->faults : "", sim_workloads[i]->about); return 0; }
	if (argc >= 4 && (!strcmp(argv[1], "one") || !strcmp(argv[1], "log"))) {
		const struct sim_wl *w = find(argv[2]); if (!w) return 3;
		struct runspec rs = {.seed = strtoull(argv[3], 0, 0), .wl = w, .logging = 1};
		double a = wall(); run(&rs);
		printf("%s %s: %s\nhash %016llx hooks %llu switches %llu vtime %.3f trace %u threads %u syscalls %llu real %.1f ms\n", R->outcome == OUT_OK ? "ok" : R->outcome == OUT_VIOLATION ? "VIOL" : "HARNESS", R->cls, R->msg, (unsigned long long)R->hash, (unsigned long long)R->hooks, (unsigned long long)R->switches, R->vtime / 1e9, R->ntr, R->nthreads, (unsigned long long)R->syscalls, (wall() - a) * 1e3);
		if (!strcmp(argv[1], "log")) fwrite(R->log, 1, R->loglen, stdout);
		if (argc > 4) save(argv[4], w, rs.seed, R->cls, R->msg, R->hash, R->trc, R->ntr, R->log, R->loglen);
		return R->outcome == OUT_OK ? 0 : R->outcome == OUT_VIOLATION ? 1 : 2;
	}
	if (argc >= 3 && (!strcmp(argv[1], "replay") || !strcmp(argv[1], "min"))) {
		char wl[64] = "", cls[64] = ""; uint64_t seed = 0, hash = 0; struct tr *t; uint32_t n;
		if (load(argv[2], wl, &seed, cls, &hash, &t, &n)) { fprintf(stderr, "cannot read %s\n", argv[2]); return 3; }
		const struct sim_wl *w = find(wl); if (!w) { fprintf(stderr, "unknown workload %s\n", wl); return 3; }
		if (!strcmp(argv[1], "min")) {
			double secs = argc > 4 ? atof(argv[4]) : 20;
			struct runspec r0 = {.replay = 1, .wl = w, .trc = t, .ntr = n}; run(&r0);
			if (!same(cls)) { fprintf(stderr, "does not reproduce: %s %s\n", R->cls, R->msg); return 4; }
			t = minimise(w, cls, t, &n, secs);
			struct runspec rs = {.replay = 1, .wl = w, .trc = t, .ntr = n, .logging = 1}; run(&rs);
			if (!same(cls)) { fprintf(stderr, "minimised trace lost the failure\n"); return 4; }
			/* keep what the run itself recorded: entries that were really used */
			struct tr *u = malloc((R->ntr + 1) * sizeof *u); uint32_t un = R->ntr; memcpy(u, R->trc, un * sizeof *u);
			struct runspec rv = {.replay = 1, .wl = w, .trc = u, .ntr = un, .logging = 1}; run(&rv);
			if (!same(cls)) { fprintf(stderr, "recorded trace lost the failure\n"); return 4; }
			save(argv[3], w, seed, cls, R->msg, R->hash, u, un, R->log, R->loglen);
			printf("%s: %s\n", R->cls, R->msg);
			return 0;
		}
		struct runspec rs = {.replay = 1, .wl = w, .trc = t, .ntr = n, .logging = 1}; run(&rs);
		printf("%s %s: %s\nhash %016llx recorded %016llx %s\n", R->outcome == OUT_OK ? "ok" : R->outcome == OUT_VIOLATION ? "VIOL" : "HARNESS", R->cls, R->msg, (unsigned long long)R->hash, (unsigned long long)hash, R->hash == hash ? "identical" : "different");
		if (argc > 3) fwrite(R->log, 1, R->loglen, stdout);
		return R->outcome == OUT_OK ? 0 : R->outcome == OUT_HARNESS ? 2 : (!strcmp(R->cls, cls) && R->hash == hash) ? 1 : 5;
	}
	if (argc >= 7 && !strcmp(argv[1], "batch")) { /* batch wls(comma) seed0 step maxruns secs outdir */
		char wls[1000]; snprintf(wls, sizeof wls, "%s", argv[2]);
		const struct sim_wl *w[64]; int nw = 0;
		for (char *p = strtok(wls, ","); p; p = strtok(NULL, ",")) { w[nw] = find(p); if (!w[nw]) { fprintf(stderr, "unknown workload %s\n", p); return 3; } nw++; }
		uint64_t seed0 = strtoull(argv[3], 0, 0), step = strtoull(argv[4], 0, 0), maxr = strtoull(argv[5], 0, 0);
		double secs = atof(argv[6]), t0 = wall(); const char *out = argv[7];
		static uint64_t nf[F_NKINDS], ru[64], pr; uint64_t runs = 0, hooks = 0, sw = 0, sysc = 0, vt = 0, pre = 0, dbl = 0, stl = 0, maxthr = 0; uint32_t nviol = 0, nharn = 0;
		struct set ih = {0}; char seen[32][64]; int nseen = 0; uint64_t nontriv = 0;
		for (uint64_t i = 0; i < maxr && wall() - t0 < secs; i++) {
			const struct sim_wl *x = w[i % nw];
			struct runspec rs = {.seed = seed0 + i * step, .wl = x};
			run(&rs);
			runs++; ru[i % nw]++; hooks += R->hooks; sw += R->switches; sysc += R->syscalls; vt += R->vtime; pre += R->preempts; stl += R->stalls; pr |= R->probes; if (R->nthreads > maxthr) maxthr = R->nthreads;
			int any = R->switches > 1; for (int k = 0; k < F_NKINDS; k++) { nf[k] += R->nfault[k]; any |= R->nfault[k] > 0; }
			uint64_t h = R->ihash ^ (R->hash * 3); (void)h;
			if (set_add(&ih, R->ihash ^ (uint64_t)(i % nw) << 56) && any) nontriv++;
			if (R->outcome == OUT_HARNESS) { fprintf(stderr, "HARNESS %s seed %llu: %s\n", x->name, (unsigned long long)rs.seed, R->msg); printf("{\"harness\":1,\"workload\":\"%s\",\"seed\":%llu,\"msg\":", x->name, (unsigned long long)rs.seed); jstr(stdout, R->msg); printf("}\n"); fflush(stdout); if (++nharn >= 10) break; continue; }
			if (R->outcome == OUT_VIOLATION || i % 64 == 0) {
				/* gate: the same seed must give the identical run */
				uint64_t h1 = R->hash; int o1 = R->outcome; char c1[64]; strcpy(c1, R->cls); dbl++;
				run(&rs);
				if (R->hash != h1 || R->outcome != o1 || strcmp(c1, R->cls)) { fprintf(stderr, "NONDETERMINISM %s seed %llu: %016llx/%016llx %s/%s\n", x->name, (unsigned long long)rs.seed, (unsigned long long)h1, (unsigned long long)R->hash, c1, R->cls); printf("{\"harness\":1,\"workload\":\"%s\",\"seed\":%llu,\"msg\":\"nondeterminism\"}\n", x->name, (unsigned long long)rs.seed); fflush(stdout); if (++nharn >= 10) break; continue; }
			}
			if (R->outcome == OUT_OK && i % 64 == 0 && !R->tr_overflow) {
				/* and the recorded choices must give it as well */
				struct tr *t = malloc((R->ntr + 1) * sizeof *t); uint32_t n = R->ntr; memcpy(t, R->trc, n * sizeof *t);
				uint64_t h1 = R->hash; struct runspec rp = {.replay = 1, .wl = x, .trc = t, .ntr = n}; run(&rp);
				free(t);
				if (R->outcome != OUT_OK || R->hash != h1) { fprintf(stderr, "REPLAY MISMATCH %s seed %llu: ok %016llx/%016llx %s\n", x->name, (unsigned long long)rs.seed, (unsigned long long)h1, (unsigned long long)R->hash, R->msg); printf("{\"harness\":1,\"workload\":\"%s\",\"seed\":%llu,\"msg\":\"replay mismatch\"}\n", x->name, (unsigned long long)rs.seed); fflush(stdout); if (++nharn >= 10) break; continue; }
			}
			if (R->outcome == OUT_VIOLATION) {
				nviol++;
				char key[64]; snprintf(key, sizeof key, "%.20s:%.40s", x->name, R->cls); int dup = 0;
				for (int k = 0; k < nseen; k++) if (!strcmp(seen[k], key)) dup = 1;
				if (!dup && nseen < 32) {
					strcpy(seen[nseen++], key);
					/* the recorded trace must reproduce it exactly, too */
					struct tr *t = malloc((R->ntr + 1) * sizeof *t); uint32_t n = R->ntr; memcpy(t, R->trc, n * sizeof *t);
					char c1[64], m1[1500]; strcpy(c1, R->cls); strcpy(m1, R->msg); uint64_t h1 = R->hash;
					struct runspec rp = {.replay = 1, .wl = x, .trc = t, .ntr = n}; run(&rp);
					if (!same(c1) || R->hash != h1) { fprintf(stderr, "REPLAY MISMATCH %s seed %llu: %s/%s %016llx/%016llx %s\n", x->name, (unsigned long long)rs.seed, c1, R->cls, (unsigned long long)h1, (unsigned long long)R->hash, R->msg); printf("{\"harness\":1,\"workload\":\"%s\",\"seed\":%llu,\"msg\":\"replay mismatch\"}\n", x->name, (unsigned long long)rs.seed); fflush(stdout); nseen--; free(t); if (++nharn >= 10) break; continue; }
					char path[600]; snprintf(path, sizeof path, "%s/%s-%llu.trace", out, x->name, (unsigned long long)rs.seed);
					save(path, x, rs.seed, c1, m1, h1, t, n, NULL, 0); free(t);
					printf("{\"violation\":1,\"workload\":\"%s\",\"seed\":%llu,\"class\":\"%s\",\"trace\":\"%s\",\"msg\":", x->name, (unsigned long long)rs.seed, c1, path); jstr(stdout, m1); printf("}\n"); fflush(stdout);
				}
				if (stop_first || nviol >= 20) break;
			}
		}
		uint32_t cov = 0; for (uint32_t i = 0; i < COVBITS / 8; i++) cov += __builtin_popcount(covmap[i]);
		char cp[600]; snprintf(cp, sizeof cp, "%s/cov-%llu.bin", out, (unsigned long long)seed0); FILE *cf = fopen(cp, "wb"); if (cf) { fwrite(covmap, 1, COVBITS / 8, cf); fclose(cf); }
		printf("{\"stats\":1,\"runs\":%llu,\"hooks\":%llu,\"switches\":%llu,\"preempts\":%llu,\"syscalls\":%llu,\"vtime_ns\":%llu,\"stalls\":%llu,\"repeat_checked\":%llu,\"distinct\":%u,\"nontrivial\":%llu,\"cov\":%u,\"covfile\":\"%s\",\"violations\":%u,\"probes\":%llu,\"maxthreads\":%llu,\"wall\":%.2f,\"faults\":{",
			(unsigned long long)runs, (unsigned long long)hooks, (unsigned long long)sw, (unsigned long long)pre, (unsigned long long)sysc, (unsigned long long)vt, (unsigned long long)stl, (unsigned long long)dbl, ih.n, (unsigned long long)nontriv, cov, cp, nviol, (unsigned long long)pr, (unsigned long long)maxthr, wall() - t0);
		int first = 1; for (int k = 0; k < F_NKINDS; k++) if (nf[k]) { printf("%s\"%s\":%llu", first ? "" : ",", sim_fault_names[k], (unsigned long long)nf[k]); first = 0; }
		printf("},\"per_workload\":{"); for (int k = 0; k < nw; k++) printf("%s\"%s\":%llu", k ? "," : "", w[k]->name, (unsigned long long)ru[k]);
		printf("}}\n");
		return nviol ? 1 : 0;
	}
	fprintf(stderr, "usage: simrun list|one WL SEED|log WL SEED|replay FILE [v]|min IN OUT SECS|batch WLS SEED0 STEP MAX SECS OUTDIR\n");
	return 3;
}
