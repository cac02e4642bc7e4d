#include "wl.h"
/* an allocator of the program's own: what the library takes from it goes back to it, once */
long wl_mine, wl_taken; int wl_is_mine; extern int sim_own_heap;
#define MAGIC 0x6d1e5a11c0ffee01ull
static void count(int n) { sim_nopreempt(1); wl_mine += n; wl_taken++; sim_nopreempt(0); }
static void *my_malloc(size_t n) { uint64_t *h = malloc(n + 16); if (!h) return NULL; h[0] = MAGIC; h[1] = n; memset(h + 2, 0xA5, n); count(1); return h + 2; }
static void *my_calloc(size_t a, size_t b) { void *p; if (b && a > (size_t)1 << 40) { errno = ENOMEM; return NULL; } if ((p = my_malloc(a * b))) memset(p, 0, a * b); return p; }
static void my_free(void *p) { uint64_t *h = p; if (!p) return; h -= 2; SIM_CHECK(h[0] == MAGIC, "foreign-block", "the program's free is given %s", h[0] == ~MAGIC ? "a block for the second time" : "a block that is not from it"); memset(p, 0x5A, h[1]); h[0] = ~MAGIC; count(-1); free(h); }
static void *my_realloc(void *p, size_t n) { uint64_t *h = p; void *q = my_malloc(n); if (!q || !p) return q; h -= 2; SIM_CHECK(h[0] == MAGIC, "foreign-block", "the program's realloc is given a block that is not from it"); memcpy(q, p, h[1] < n ? h[1] : n); my_free(p); return q; }
void wl_my_alloc(int one_in) {
	wl_is_mine = sim_gen(one_in) == 0; wl_mine = wl_taken = 0;
	if (wl_is_mine) SIM_CHECK(events_set_allocator(my_malloc, my_realloc, my_calloc, my_free) == 0, "start-failed", "events_set_allocator");
	sim_own_heap = wl_is_mine;
	SIM_CHECK(events_set_allocator(my_malloc, my_realloc, NULL, my_free) == -1 && errno == EINVAL, "start-failed", "events_set_allocator without a calloc");
}
