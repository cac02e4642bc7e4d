/* P23: the bundled allocator. This file's calls go to the real one, everything else in a simulation uses the simulator's heap. */
#define WL_OWN_HEAP
#include "wl.h"
#include <pthread.h>
extern uint64_t sim_mapped(void);
#define PLAIN __attribute__((no_sanitize_thread))
#define NB 512
#define NT 6
typedef struct blk { uint8_t *p; size_t n, al; uint32_t seed; int used, box; } blk;
static blk B[NB]; static int nlive, hi; static uint64_t live_bytes, peak; static int phase_ops, gens, small_set, sizes[4], nsizes, nthreads, rounds, maxlive, leak_mode, odd;
static pthread_t th[NT];
PLAIN static uint8_t pat(uint32_t s, size_t i) { return (uint8_t)(s * 31 + i * 7 + (i >> 9) * 3); }
/* which bytes are written and checked: all of a small block, the edges and a byte per page of a big one */
PLAIN static void fill(uint8_t *p, size_t n, uint32_t s) {
	size_t i; if (n <= 1024) { for (i = 0; i < n; i++) p[i] = pat(s, i); return; }
	for (i = 0; i < 128; i++) p[i] = pat(s, i), p[n - 1 - i] = pat(s, n - 1 - i); for (i = 4096; i < n; i += 4096) p[i] = pat(s, i), p[i - 1] = pat(s, i - 1);
}
PLAIN static long bad(const uint8_t *p, size_t full, size_t n, uint32_t s) { /* the first n of a block filled with `full` bytes */
	size_t i; if (full <= 1024) { for (i = 0; i < n; i++) if (p[i] != pat(s, i)) return (long)i; return -1; }
	for (i = 0; i < 128 && i < n; i++) if (p[i] != pat(s, i)) return (long)i;
	for (i = full - 128; i < n; i++) if (p[i] != pat(s, i)) return (long)i;
	for (i = 4096; i < n && i < full; i += 4096) { if (p[i] != pat(s, i)) return (long)i; if (p[i - 1] != pat(s, i - 1)) return (long)i - 1; }
	return -1;
}
PLAIN static long nonzero(const uint8_t *p, size_t n) { size_t i; if (n <= 70000) { for (i = 0; i < n; i++) if (p[i]) return (long)i; return -1; } for (i = 0; i < 4096; i++) { if (p[i]) return (long)i; if (p[n - 1 - i]) return (long)(n - 1 - i); } for (i = 0; i < n; i += 512) if (p[i]) return (long)i; return -1; }
PLAIN static blk *overlaps(const uint8_t *p, size_t n) { int i; if (!n) n = 1; for (i = 0; i < hi; i++) if (B[i].used && p < B[i].p + (B[i].n ? B[i].n : 1) && B[i].p < p + n) return &B[i]; return NULL; }
PLAIN static int full(void) { return nlive >= maxlive; }
static void check_new(uint8_t *p, size_t n, size_t al, const char *op) {
	size_t u;
	SIM_CHECK(((uintptr_t)p & (al - 1)) == 0, "misaligned", "%s(%zu) gave %p, not a multiple of %zu", op, n, p, al);
	blk *o = overlaps(p, n);
	SIM_CHECK(!o, "overlap", "%s(%zu) gave %p, which overlaps the live block %p of %zu bytes", op, n, p, o->p, o->n);
	u = rp_malloc_usable_size(p);
	SIM_CHECK(u >= n, "too-small", "%s(%zu) gave a block of %zu bytes", op, n, u);
}
static uint32_t seeds;
/* enters a fresh block; called without preemption */
static void keep(uint8_t *p, size_t n, size_t al) {
	int i; for (i = 0; B[i].used; i++) ; if (i >= hi) hi = i + 1;
	B[i].p = p; B[i].n = n; B[i].al = al; B[i].seed = ++seeds; B[i].used = 1; B[i].box = sim_gen(3); nlive++; live_bytes += n; if (live_bytes > peak) peak = live_bytes;
	fill(p, n, B[i].seed);
}
PLAIN static int take(int self) { /* a block of one's own, or one another thread left */
	int i, k = nlive ? sim_gen(nlive) : 0, last = -1; (void)self;
	for (i = 0; i < hi; i++) if (B[i].used == 1) { last = i; if (k-- <= 0) break; }
	return last;
}
static size_t size(void) {
	if (leak_mode) return sizes[sim_gen(nsizes)];
	switch (sim_gen(small_set ? 6 : 12)) {
	case 0: return sim_gen(17); case 1: case 2: return sim_gen(260); case 3: return 16 * sim_gen(66); case 4: case 5: return sizes[sim_gen(nsizes)];
	case 6: return 1000 + sim_gen(100); case 7: return sim_gen(33000); case 8: return 1024 + 512 * sim_gen(62) - sim_gen(3); case 9: return sim_gen(300000);
	case 10: return 65536 * (1 + sim_gen(8)) - 130 + sim_gen(6); default: return sim_gen(8) ? sim_gen(2000000) : 4000000 + sim_gen(400000);
	}
}
static uint64_t refused(void) { return sim_fault_count(F_MMAP); }
static void refuse_ok(uint64_t f0, const char *op, size_t n) { SIM_CHECK(refused() != f0, "false-failure", "%s(%zu) failed with %s, although the system refused nothing", op, n, strerror(errno)); }
static void give(int self) {
	size_t n = size(), al = 16; uint8_t *p; uint64_t f0 = refused(); const char *op; long z;
	switch (sim_gen(6)) {
	case 0: op = "rp_calloc"; { size_t a = 1 + sim_gen(4); n -= n % a; p = rp_calloc(a, n / a); } if (p) { z = nonzero(p, n); SIM_CHECK(z < 0, "not-zero", "rp_calloc of %zu bytes: byte %ld is not zero", n, z); } break;
	case 1: al = (size_t)16 << sim_gen(sim_gen(4) ? 5 : 9);  op = "rp_memalign"; p = rp_memalign(al, n); break;
	case 3: al = (size_t)16 << sim_gen(12); op = "rpaligned_alloc"; rpmalloc_init(); p = rpaligned_alloc(al, n); break;
	case 2: op = "rp_realloc(NULL)"; p = rp_realloc(NULL, n); break;
	default: op = "rp_malloc"; p = rp_malloc(n);
	}
	if (!p) { refuse_ok(f0, op, n); return; }
	sim_nopreempt(1); check_new(p, n, al, op); keep(p, n, al); sim_nopreempt(0);
}
/* sizes nothing can hold: null, and nothing else changes */
static void impossible(void) {
	size_t n = (size_t)-1 - sim_gen(sim_gen(2) ? 200 : 140000); void *p; const char *op; int i;
	switch (sim_gen(5)) {
	case 4: rpmalloc_init(); op = "rpaligned_alloc"; p = rpaligned_alloc((size_t)16 << sim_gen(12), n); break;
	case 0: op = "rp_malloc"; p = rp_malloc(n); break;
	case 1: { size_t a = (size_t)1 << (33 + sim_gen(8)), b = ((size_t)-1 / a) + 1 + sim_gen(3); op = "rp_calloc"; n = b; p = sim_gen(2) ? rp_calloc(a, b) : rp_calloc(b, a); } break;
	case 2: op = "rp_memalign"; p = rp_memalign((size_t)16 << sim_gen(9), n); break;
	default: op = "rp_realloc"; { blk b;
		sim_nopreempt(1); i = take(0); if (i >= 0) { b = B[i]; B[i].used = 0; nlive--; live_bytes -= b.n; } sim_nopreempt(0);
		if (i < 0) return;
		p = rp_realloc(b.p, n);
		if (!p) { sim_nopreempt(1); long z = bad(b.p, b.n, b.n, b.seed); SIM_CHECK(z < 0, "corrupted", "a failed rp_realloc changed byte %ld of the block", z); keep(b.p, b.n, b.al); sim_nopreempt(0); } }
	}
	SIM_CHECK(!p, "too-small", "%s was asked for more than there can be (%zx) and gave %p", op, n, p);
}
static void intact(blk *b, const char *when) { long i = bad(b->p, b->n, b->n, b->seed); SIM_CHECK(i < 0, "corrupted", "byte %ld of the live block %p of %zu bytes has changed (seen at %s)", i, b->p, b->n, when); }
static void change(int self) {
	int i, how = sim_gen(6), gof = 0; blk b; uint8_t *p; size_t n, al = 16; long z; uint64_t f0; const char *op = "rp_realloc";
	sim_nopreempt(1); i = take(self); if (i >= 0) { b = B[i]; intact(&b, "realloc"); B[i].used = 0; nlive--; live_bytes -= b.n; } sim_nopreempt(0); /* from the call on its place may be given to others */
	if (i < 0) return;
	n = size(); f0 = refused();
	if (!n) n = 1;
	if (how == 0) { al = sim_gen(2) ? b.al : (size_t)16 << sim_gen(9); gof = sim_gen(3) == 0; op = gof ? "rpaligned_realloc(grow or fail)" : "rpaligned_realloc"; rpmalloc_init(); p = rpaligned_realloc(b.p, al, n, sim_gen(2) ? b.n : 0, gof ? RPMALLOC_GROW_OR_FAIL : 0); }
	else p = rp_realloc(b.p, n);
	sim_nopreempt(1);
	if (!p) { if (!gof) refuse_ok(f0, op, n); z = bad(b.p, b.n, b.n, b.seed); SIM_CHECK(z < 0, "corrupted", "a failed %s changed byte %ld of the block", op, z); keep(b.p, b.n, b.al); }
	else {
		z = bad(p, b.n, n < b.n ? n : b.n, b.seed);
		SIM_CHECK(z < 0, "corrupted", "%s from %zu to %zu bytes: byte %ld is not what it was", op, b.n, n, z);
		check_new(p, n, al, op); keep(p, n, al);
	}
	sim_nopreempt(0);
}
static void drop(int self) {
	int i; blk b;
	sim_nopreempt(1); i = take(self); if (i >= 0) { b = B[i]; intact(&b, "free"); B[i].used = 0; nlive--; live_bytes -= b.n; } sim_nopreempt(0);
	if (i >= 0) { rpfree(b.p); }
}
static void look(void) { int i; sim_nopreempt(1); i = take(0); if (i >= 0) intact(&B[i], "a look"); sim_nopreempt(0); }
static void *worker(void *a) {
	int self = (int)(intptr_t)a, i;
	for (i = 0; i < phase_ops && sim_steps() < 12000000; i++) {
		int r = sim_gen(10);
		if (r < 4 && !full()) give(self); else if (r < 8) drop(self); else if (r == 8 && !full()) change(self); else if (odd && sim_gen(6) == 0) impossible(); else look();
	}
	if (sim_gen(2)) rpmalloc_thread_finalize(1); /* as the library does before its threads end; else the key's destructor */
	return NULL;
}
static void all(const char *when) { int i; sim_nopreempt(1); for (i = 0; i < hi; i++) if (B[i].used) intact(&B[i], when); sim_nopreempt(0); }
SIM_WORKLOAD(rpmalloc, "mmap_fail stall", "allocations of all sizes by threads that come and go, blocks freed by other threads") {
	int g, i, t, lives, lazy, hold; uint64_t m1 = 0, bound;
	leak_mode = sim_gen(4) == 0; small_set = sim_gen(2); nsizes = 1 + sim_gen(4); nthreads = 1 + sim_gen(4); rounds = leak_mode ? 6 + sim_gen(10) : 1 + sim_gen(4); phase_ops = 20 + sim_gen(leak_mode ? 300 : 400); maxlive = leak_mode ? 10 + sim_gen(20) : 20 + sim_gen(300);
	for (i = 0; i < nsizes; i++) sizes[i] = leak_mode ? (int[]){ 24, 1000, 30000, 100000, 500000 }[sim_gen(5)] + sim_gen(50) : sim_gen(40000);
	sim_cfg.max_hooks *= 2;
	odd = sim_gen(3) == 0; lazy = sim_gen(3) == 0; hold = sim_gen(2);
	if (!lazy) { sim_faults_hold(hold); rpmalloc_init(); sim_faults_hold(0); }
	for (lives = 1 + (sim_gen(4) == 0); lives; lives--) {
		for (g = 0; g < rounds; g++) {
			for (t = 0; t < nthreads; t++) if (pthread_create(&th[t], NULL, worker, (void *)(intptr_t)t)) sim_harness_error("pthread_create");
			for (i = sim_gen(phase_ops); i > 0; i--) { int r = sim_gen(8); if (r < 3 && !full()) give(9); else if (r < 6) drop(9); else look(); }
			for (t = 0; t < nthreads; t++) pthread_join(th[t], NULL);
			all("the end of a round");
		}
		bound = 24ull << 20; bound += (uint64_t)(nthreads + 1) * (leak_mode ? 24ull << 20 : 40ull << 20) + 4 * peak;
		sim_note("mapped %llu MB, peak %llu, bound %llu", (unsigned long long)sim_mapped() >> 20, (unsigned long long)peak >> 20, (unsigned long long)bound >> 20);
		SIM_CHECK(sim_mapped() < bound, "memory-growth", "%llu MB are mapped, of which at most %llu MB were ever in use", (unsigned long long)sim_mapped() >> 20, (unsigned long long)peak >> 20);
		while (nlive) drop(9);
		sim_faults_hold(1);
		rpmalloc_shutdown();
		SIM_CHECK(sim_mapped() == 0, "memory-kept", "%llu KB are still mapped after the allocator was shut down", (unsigned long long)sim_mapped() >> 10);
		if (lives > 1 && !lazy) { sim_faults_hold(hold); rpmalloc_init(); }
		sim_faults_hold(0);
	}
	sim_done();
}
