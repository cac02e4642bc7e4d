/* Shared helpers of the workloads. */
#ifndef WL_H
#define WL_H
#include <events.h>
#include <except.h>
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
/* memory handed to and taken from the library is its allocator's */
void *sim_wlmalloc(size_t), *sim_wlcalloc(size_t, size_t), *sim_wlrealloc(void *, size_t); void sim_wlfree(void *);
void *events_malloc(size_t); void events_free(void *);
#ifndef WL_OWN_HEAP
extern long wl_mine, wl_taken; extern int wl_is_mine; void wl_my_alloc(int one_in); /* wl_mine.c: an allocator of the program's own */
#define malloc sim_wlmalloc
#define calloc sim_wlcalloc
#define realloc sim_wlrealloc
#define free sim_wlfree
#endif
/* how many descriptors the library is told of: now and then they have large numbers */
static inline int wl_fds(int dflt) { if (sim_gen(8)) return dflt; sim_cfg.min_fd = 200 + sim_gen(700); return 1090; }
#endif
