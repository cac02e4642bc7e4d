/* Deterministic heap with misuse detection, used in place of the process heap. */
#include "internal.h"
#include <sys/mman.h>
#define ABASE 0x10000000000ull
#define ASIZE (1ull << 30)
#define HDR 16
#define TAIL 8
#define MAGIC_LIVE 0xA110C8EDu
#define MAGIC_FREE 0xF4EEF4EEu
struct hdr { uint32_t magic; uint16_t cls, rp; uint64_t size; }; /* rp: given by the bundled allocator, not the C library's */
static uint8_t *shadow; /* 1 per 16 bytes: 1 live, 2 freed, 0 never handed out */
static char *brk_;
static void *freel[64];
static long live, live_bytes;
static size_t clsz(int c) { /* 32,48,64,96,128,192,... */
	return (c & 1) ? (size_t)48 << (c / 2) : (size_t)32 << (c / 2);
}
void alloc_init(void) {
	void *p = mmap((void *)ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	shadow = mmap(NULL, ASIZE / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p != (void *)ABASE || shadow == MAP_FAILED) sim_harness_error("arena");
	brk_ = (char *)ABASE;
}
static int in_arena(const void *p) { return (uintptr_t)p - ABASE < ASIZE; }
long sim_arena_live(void) { return live; }
long sim_arena_live_bytes(void) { return live_bytes; }
void alloc_check_access(uintptr_t a, const void *pc, int wr) {
	if (a - ABASE >= ASIZE) return;
	uint8_t s = shadow[(a - ABASE) >> 4];
	if (s == 2) sim_violation("use-after-free", "%s of freed heap memory at %p from pc %p in thread %s", wr ? "write" : "read", (void *)a, pc, cur->name);
}
static void *take(size_t n, int zero) {
	size_t need = n + HDR + TAIL; int c = 0;
	while (c < 62 && clsz(c) < need) c++;
	size_t sz = clsz(c);
	struct hdr *h = freel[c];
	if (h) freel[c] = *(void **)(h + 1);
	else {
		if (brk_ + sz > (char *)ABASE + ASIZE) sim_violation("memory-exhausted", "heap grew beyond %llu bytes (last request %zu)", (unsigned long long)ASIZE, n);
		h = (struct hdr *)brk_; brk_ += (sz + 15) & ~15ul;
	}
	h->magic = MAGIC_LIVE; h->cls = c; h->rp = 0; h->size = n;
	char *p = (char *)(h + 1);
	if (zero) memset(p, 0, n); else if (g_quar) memset(p, 0xA5, n);
	memset(p + n, 0xEE, TAIL);
	uintptr_t o = ((uintptr_t)p - ABASE) >> 4;
	memset(shadow + o, 1, (n + 15) / 16 + (n == 0));
	live++; live_bytes += n;
	return p;
}
void *sim_malloc(size_t n) {
	if (cur && !cur->native && sim_fault(F_ENOMEM)) { errno = ENOMEM; return NULL; }
	return take(n, 0);
}
void *sim_calloc(size_t a, size_t b) {
	size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
	if (cur && !cur->native && sim_fault(F_ENOMEM)) { errno = ENOMEM; return NULL; }
	return take(n, 1);
}
static struct hdr *chk(void *p, const char *op) {
	struct hdr *h = (struct hdr *)p - 1;
	if (h->magic == MAGIC_FREE) sim_violation("double-free", "%s of already freed block %p in thread %s", op, p, cur->name);
	if (h->magic != MAGIC_LIVE) sim_violation("bad-free", "%s of address %p that is not a heap block in thread %s", op, p, cur->name);
	for (int i = 0; i < TAIL; i++) if (((uint8_t *)p)[h->size + i] != 0xEE) sim_violation("heap-overflow", "block %p of %llu bytes was overrun (seen at %s)", p, (unsigned long long)h->size, op);
	return h;
}
void sim_free(void *p) {
	if (!p) return;
	if (!in_arena(p)) { free(p); return; }
	struct hdr *h = chk(p, "free");
	live--; live_bytes -= h->size;
	uintptr_t o = ((uintptr_t)p - ABASE) >> 4;
	memset(shadow + o, 2, (h->size + 15) / 16 + (h->size == 0));
	h->magic = MAGIC_FREE;
	if (g_quar) { memset(p, 0xDB, h->size); return; }
	*(void **)(h + 1) = freel[h->cls]; freel[h->cls] = h;
}
void *sim_realloc(void *p, size_t n) {
	if (!p) return sim_malloc(n);
	if (!in_arena(p)) return realloc(p, n);
	struct hdr *h = chk(p, "realloc");
	if (cur && !cur->native && sim_fault(F_ENOMEM)) { errno = ENOMEM; return NULL; }
	void *q = take(n, 0);
	memcpy(q, p, h->size < n ? h->size : n);
	sim_free(p);
	return q;
}
/* the bundled allocator's entry points: its memory and that of the C library must not meet the other's free */
static void *mark(void *p) { if (p) ((struct hdr *)p - 1)->rp = 1; return p; }
static void whose(void *p, int rp, const char *op) {
	if (!p || !cur || cur->native) return;
	if (rp && !in_arena(p)) sim_violation("bad-free", "%s of address %p, which the bundled allocator did not give, in thread %s", op, p, cur->name);
	if (in_arena(p)) { struct hdr *h = (struct hdr *)p - 1; if (h->magic == MAGIC_LIVE && h->rp != rp) sim_violation("bad-free", "%s of %p, which the %s, in thread %s", op, p, rp ? "bundled allocator did not give" : "bundled allocator gave, by the C library", cur->name); }
}
int sim_own_heap; /* the program has set its own allocator: the library must not go past it */
static void past(const char *op) { if (sim_own_heap && cur && !cur->native) sim_violation("past-allocator", "%s goes to the bundled allocator although the program set its own, in thread %s", op, cur->name); }
void *sim_wlmalloc(size_t n) { return mark(sim_malloc(n)); }
void *sim_wlcalloc(size_t a, size_t b) { return mark(sim_calloc(a, b)); }
void sim_wlfree(void *p) { whose(p, 1, "free"); sim_free(p); }
void *sim_wlrealloc(void *p, size_t n) { whose(p, 1, "realloc"); return mark(sim_realloc(p, n)); }
void *sim_rpmalloc(size_t n) { past("an allocation"); return mark(sim_malloc(n)); }
void *sim_rpcalloc(size_t a, size_t b) { past("an allocation"); return mark(sim_calloc(a, b)); }
void sim_rpfree(void *p) { if (p) past("a free"); whose(p, 1, "free"); sim_free(p); }
void *sim_rprealloc(void *p, size_t n) { past("a realloc"); whose(p, 1, "realloc"); return mark(sim_realloc(p, n)); }
void sim_cfree(void *p) { whose(p, 0, "free"); sim_free(p); }
void *sim_crealloc(void *p, size_t n) { whose(p, 0, "realloc"); return sim_realloc(p, n); }
size_t sim_usable(void *p) { return in_arena(p) ? ((struct hdr *)p - 1)->size : 0; }
void *sim_arena_nth(int k) { /* the k-th live block, for a debugger */
	char *q = (char *)ABASE;
	while (q < brk_) { struct hdr *h = (struct hdr *)q; if (h->magic == MAGIC_LIVE && k-- == 0) return h + 1; q += (clsz(h->cls) + 15) & ~15ul; }
	return NULL;
}
static size_t heap_brk(void) { return brk_ - (char *)ABASE; }
long sim_arena_high(void) { return heap_brk(); }
