/* P21: directory watches. */
#include "wl.h"
#include <sys/stat.h>
#define MS 1000000ull
#define ND 40
#define NE 400
#define MAXG 4
enum { ADDED = 1, REMOVED, MODIFIED };
static const char *const kn[] = { "?", "added", "removed", "modified" };
/* One directory: what must be reported of it. It is armed once a report of its probe file shows that the watch is in place. */
typedef struct dir { int used, g, armed, off, gone, depth; uint64_t since, stall; char path[48]; struct { uint8_t kind; char name[8]; } e[NE]; int n, head; struct { uint8_t kind; char name[8]; } last; uint8_t file[4], sub[2]; } dir;
static dir D[ND]; static int nd, ng, done_env, main_done, raw, mode[MAXG], rid[MAXG], up[MAXG], cancelled[MAXG], removed[MAXG];
static char root[MAXG][16]; static uint64_t quiet_from, quiet_stall; static int changes, want;
static int filters[MAXG];
static dir *new_dir(int g, const char *p, int depth) { if (nd == ND) return NULL; dir *d = &D[nd++]; memset(d, 0, sizeof *d); d->used = 1; d->g = g; d->depth = depth; strcpy(d->path, p); d->since = sim_now(); d->stall = sim_stalled_ns(); return d; }
static dir *find(const char *p) { int i; for (i = nd - 1; i >= 0; i--) if (!strcmp(D[i].path, p)) return &D[i]; return NULL; }
static void expect(dir *d, int kind, const char *name) {
	sim_note("change %s: %s %s", d->path, kn[kind], name);
	if (!d->armed || d->off) return;
	if (d->n == NE) sim_harness_error("too many changes");
	d->e[d->n].kind = kind; strcpy(d->e[d->n].name, name); d->n++;
}
static int coalesced(dir *d, int i) { return d->e[i].kind == MODIFIED && d->last.kind == MODIFIED && !strcmp(d->e[i].name, d->last.name); }
/* the watch of `d` reported `kind` of `name` */
static void report(dir *d, int kind, const char *name) {
	int i = d->head;
	sim_note("report %s: %s %s", d->path, kn[kind], name);
	if (!strcmp(name, "probe")) { if (!d->armed && kind == MODIFIED) { d->armed = 1; sim_note("armed %s", d->path); } return; }
	if (!d->armed) return; /* began before we knew */
	while (i < d->n && coalesced(d, i) && !(d->e[i].kind == kind && !strcmp(d->e[i].name, name))) i++;
	if (i < d->n && d->e[i].kind == kind && !strcmp(d->e[i].name, name)) { memcpy(&d->last, &d->e[i], sizeof d->last); d->head = i + 1; return; }
	if (i == d->n) sim_violation("false-report", "%s: reported %s %s, of which all changes were reported already", d->path, kn[kind], name);
	sim_violation("wrong-report", "%s: reported %s %s, the next change is %s %s", d->path, kn[kind], name, kn[d->e[i].kind], d->e[i].name);
}
static int action_of(int ev) {
	int a = ev & (WATCH_ADDED | WATCH_REMOVED | WATCH_MODIFIED | WATCH_MOVED);
	return a == WATCH_ADDED ? ADDED : a == WATCH_REMOVED ? REMOVED : a == WATCH_MODIFIED ? MODIFIED : 0;
}
static int handler(int wd, int events, const char *filename, void *filter) {
	int g = (int *)filter - filters, k = action_of(events), off = 0; dir *d;
	const char *slash, *p, *nm;
	sim_nopreempt(1);
	p = fs_events_path(wd);
	SIM_CHECK(g >= 0 && g < ng, "wrong-handler", "handler called with argument %p", filter);
	SIM_CHECK(p && filename, "wrong-report", "report without path or name");
	slash = strrchr(filename, '/'); nm = slash ? slash + 1 : filename;
	d = find(p);
	SIM_CHECK(d, "wrong-report", "report of %s in unknown directory %s", filename, p);
	SIM_CHECK(d->g == g, "wrong-handler", "change of %s in %s was reported to the watch of %s", nm, p, root[g]);
	if (slash) SIM_CHECK(!strncmp(filename, p, strlen(p)) && slash == filename + strlen(p), "wrong-report", "report of %s in directory %s", filename, p);
	else SIM_CHECK(!strcmp(p, root[g]), "wrong-report", "report of %s in %s lacks the directory", filename, p);
	SIM_CHECK(k, "wrong-report", "report of %s with event %x", filename, events);
	SIM_CHECK(!d->off, "report-after-removal", "%s %s in %s was reported after its watch had been removed", kn[k], nm, p);
	if (up[g]) report(d, k, nm); /* else: cancelled, may still be winding down */
	if (d->armed && mode[g] == 0 && d->depth && sim_gen(60) == 0) { d->off = off = 1; sim_note("remove watch %s", p); }
	sim_nopreempt(0);
	if (off) SIM_CHECK(events_remove(wd) == 0, "wrong-result", "events_remove of %s failed", d->path);
	return 0;
}
/* names may begin with dots, only "." and ".." are none of their own */
static void sname(char *n) { static const char *f[] = { "s%d", "s%d", ".s%d", "..s%d", "s%d." }; snprintf(n, 8, f[sim_gen(5)], nd); }
static void fname(char *n, int k) { static const char *f[] = { "f0", ".f1", "f2.x", "..f3" }; strcpy(n, f[k]); }
static char *at(dir *d, const char *n) { static char b[64]; snprintf(b, 64, "%s/%s", d->path, n); return b; }
/* one change somewhere, by another process */
static void change(void) {
	int i, k, k2; dir *d, *o, *s; char a[64], n[8], n2[8];
	for (i = 0; i < 20; i++) { d = &D[sim_gen(nd)]; if (!d->gone && up[d->g]) break; }
	if (i == 20) return;
	if (!d->armed) { simfs_append(at(d, "probe"), "x", 1); return; }
	changes++; k = sim_gen(4); fname(n, k);
	switch (sim_gen(8)) {
	case 0: case 1: if (!d->file[k]) { simfs_put(at(d, n), "hello", 5); d->file[k] = 1; expect(d, ADDED, n); } else simfs_put(at(d, n), "other", 5); expect(d, MODIFIED, n); break;
	case 2: case 3: if (d->file[k]) { simfs_append(at(d, n), "x", 1); expect(d, MODIFIED, n); } break;
	case 4: if (d->file[k]) { simfs_unlink(at(d, n)); d->file[k] = 0; expect(d, REMOVED, n); } break;
	case 5: for (i = 0; i < 9; i++) { o = &D[sim_gen(nd)]; if (o->armed && !o->gone && up[o->g]) break; } k2 = sim_gen(4);
		if (i < 9 && d->file[k] && (o != d || k2 != k)) {
			fname(n2, k2); strcpy(a, at(d, n)); simfs_rename(a, at(o, n2)); d->file[k] = 0; o->file[k2] = 1;
			expect(d, REMOVED, n); expect(o, ADDED, n2);
		} break;
	case 6: k &= 1; sname(n); if (!d->sub[k] && d->depth < 2 && nd < ND) {
		strcpy(a, at(d, n)); simfs_mkdir(a); d->sub[k] = nd; expect(d, ADDED, n); s = new_dir(d->g, a, d->depth + 1); simfs_put(at(s, "probe"), "", 0);
		if (d->off) s->off = s->gone = 1; /* nobody watches its parent */
		else if (nd < ND && sim_gen(3) == 0) { sname(n); strcpy(a, at(s, n)); simfs_mkdir(a); s->sub[1] = nd; o = new_dir(d->g, a, d->depth + 2); simfs_put(at(o, "probe"), "", 0); } /* with one in it */
	} break;
	default: if (d->depth && sim_gen(2)) { /* remove the directory */
		strcpy(a, d->path); char *l = strrchr(a, '/'); *l = 0; o = find(a);
		for (i = 0; i < 4; i++) if (d->file[i]) return; 
		if (d->sub[0] || d->sub[1] || o->gone || !o->armed) return;
		simfs_unlink(at(d, "probe")); simfs_rmdir(d->path); d->gone = 1; for (i = 0; i < 2; i++) if (o->sub[i] == d - D) o->sub[i] = 0; expect(o, REMOVED, l + 1);
	} break;
	}
}
static int missing(dir **md) { int i, j; for (i = 0; i < nd; i++) for (j = D[i].head; j < D[i].n; j++) if (!D[i].off && !coalesced(&D[i], j)) { *md = &D[i]; return 1; } return 0; }
static void env(void *p) {
	int i;
	while (changes < want && sim_steps() < 12000000) {
		int burst = sim_gen(4) ? 1 : 1 + sim_gen(30);
		sim_nopreempt(1); 
		while (burst--) change();
		for (i = 0; i < nd; i++) if (!D[i].armed && !D[i].gone && up[D[i].g]) {
			if (sim_now() - D[i].since > 100 * MS) simfs_append(at(&D[i], "probe"), "y", 1);
			SIM_CHECK(sim_now() - D[i].since < 3500 * MS + 2 * (sim_stalled_ns() - D[i].stall) || sim_fault_count(F_ENOSPC) + sim_fault_count(F_EMFILE), "not-watched", "changes in %s were not reported for %llu ms", D[i].path, (unsigned long long)((sim_now() - D[i].since) / MS));
		}
		sim_nopreempt(0);
		sim_nap((sim_gen(4) ? 1 : 40) * (1 + sim_gen(4)) * MS);
	}
	quiet_stall = sim_stalled_ns(); quiet_from = sim_now(); done_env = 1;
}
static int started(int g) { int k, r; char p[64]; dir *d;
	snprintf(root[g], 16, "/w%d", g); simfs_mkdir(root[g]); d = new_dir(g, root[g], 0); simfs_put(at(d, "probe"), "", 0);
	for (k = 0; k < 2; k++) if (sim_gen(2)) { char n[8]; sname(n); strcpy(p, at(d, n)); simfs_mkdir(p); d->sub[k] = nd; dir *s = new_dir(g, p, 1); simfs_put(at(s, "probe"), "", 0);
		if (sim_gen(3) == 0) { sname(n); strcpy(p, at(s, n)); simfs_mkdir(p); s->sub[1] = nd; s = new_dir(g, p, 2); simfs_put(at(s, "probe"), "", 0); } }
	for (k = 0; k < 3; k++) {
		uint64_t f0 = sim_fault_count(F_ENOSPC) + sim_fault_count(F_EMFILE);
		if (mode[g] == 0) {
			r = events_watch(event_loop(), root[g], (watch_cb)handler, &filters[g]);
			if (r >= 0) { SIM_CHECK(events_is_watching(r), "wrong-result", "nothing is watched after events_watch"); 
				for (int i = 0; i < nd; i++) if (D[i].g == g) { if (sim_fault_count(F_ENOSPC) + sim_fault_count(F_EMFILE) == f0) D[i].armed = 1; D[i].since = sim_now(); D[i].stall = sim_stalled_ns(); }
				up[g] = 1; return r; }
			SIM_CHECK(sim_fault_count(F_ENOSPC) + sim_fault_count(F_EMFILE) > f0, "false-failure", "events_watch failed (%s) though no system call did", strerror(errno));
		} else {
			r = rid[g] = fs_events(root[g], (watch_cb)handler, &filters[g]);
			SIM_CHECK(r > 0, "wrong-result", "fs_events gave %d", r);
			for (int i = 0; i < nd; i++) if (D[i].g == g) { D[i].since = sim_now(); D[i].stall = sim_stalled_ns(); }
			up[g] = 1; return r;
		}
		sim_faults_hold(1);
	}
	sim_harness_error("watch not started");
}
static int inotify_fds(void) { int i, n = 0; for (i = 3; i < 1090; i++) if (sim_fd_is_open(i) && !strcmp(sim_fd_kind(i), "inotify")) n++; return n; }
/* the plain interface */
static void raw_use(void) {
	int fd[2], i, k, r, rounds = 1 + sim_gen(5); dir *d; char *buf = malloc(4096);
	sim_faults_hold(1);
	for (i = 0; i < 2; i++) {
		snprintf(root[i], 16, "/w%d", i); simfs_mkdir(root[i]); d = new_dir(i, root[i], 0); d->armed = 1;
		fd[i] = inotify_init1(IN_NONBLOCK); SIM_CHECK(fd[i] >= 0, "wrong-result", "inotify_init1 gave %d", fd[i]);
		r = inotify_add_watch(fd[i], root[i], IN_CREATE | IN_MODIFY | IN_DELETE | IN_MOVE); SIM_CHECK(r >= 0, "wrong-result", "inotify_add_watch gave %d", r);
		SIM_CHECK(events_watch_count(fd[i]) == 1 && events_is_watching(fd[i]), "wrong-result", "%d watches after adding one", events_watch_count(fd[i]));
	}
	sim_faults_hold(0); up[0] = up[1] = 1;
	while (rounds--) {
		for (k = sim_gen(12); k; k--) { int c = changes; while (changes == c) change(); for (i = 2; i < nd; i++) D[i].gone = D[i].off = 1; }
		for (i = 0; i < 2; i++) for (;;) {
			r = os_read(fd[i], buf, 4096); if (r < 0) { SIM_CHECK(errno == EAGAIN, "wrong-result", "reading events failed (%s)", strerror(errno)); break; }
			inotify_t *e = (inotify_t *)buf; int seen = 0;
			for (; e; e = inotify_next(e)) {
				seen += sizeof *e + inotify_length(e);
				SIM_CHECK((char *)e + sizeof *e <= buf + r && seen <= r, "wrong-report", "inotify_next went past the end of the events read");
				if (!inotify_length(e)) continue;
				k = inotify_added(e) ? ADDED : inotify_removed(e) ? REMOVED : inotify_modified(e) ? MODIFIED : 0;
				SIM_CHECK(k, "wrong-report", "event %x has no kind", inotify_mask(e));
				report(&D[i], k, inotify_name(e));
			}
			SIM_CHECK(seen == r, "lost-report", "inotify_next gave %d of %d bytes of events", seen, r);
		}
		if (sim_gen(2)) delay(1 + sim_gen(20));
	}
	if (missing(&d)) sim_violation("lost-report", "%s: %s %s was not reported", d->path, kn[d->e[d->head].kind], d->e[d->head].name);
	for (i = 0; i < 2; i++) SIM_CHECK(inotify_close(fd[i]) == 0, "wrong-result", "inotify_close failed");
	SIM_CHECK(!inotify_fds(), "fd-leak", "an inotify descriptor is left open");
	free(buf); done_env = 1;
}
static int nowhere(int wd, int events, const char *filename, void *filter) { sim_violation("false-report", "a change was reported of a directory that does not exist"); return 0; }
/* another process removes a watched directory and all in it */
static void remove_tree(int g) {
	int i, k; char n[8];
	sim_nopreempt(1); up[g] = 0; for (i = 0; i < nd; i++) if (D[i].g == g) D[i].head = D[i].n, D[i].armed = 0; sim_nopreempt(0);
	for (i = nd - 1; i >= 0; i--) if (D[i].g == g && simfs_exists(D[i].path)) {
		for (k = 0; k < 4; k++) { fname(n, k); if (simfs_exists(at(&D[i], n))) simfs_unlink(at(&D[i], n)); }
		if (simfs_exists(at(&D[i], "probe"))) simfs_unlink(at(&D[i], "probe"));
		simfs_rmdir(D[i].path); D[i].gone = 1;
		if (sim_gen(8) == 0) sim_nap(sim_gen(10) * MS);
	}
	SIM_CHECK(!simfs_exists(root[g]), "x", "harness: %s was not removed", root[g]);
}
static void *noise(param_t a) { while (!done_env && sim_steps() < 14000000) { delay(1 + sim_gen(30)); if (sim_gen(4) == 0) { int w = sim_gen(5); while (w--) yield(); } } return 0; }
static void *wmain(param_t na) {
	int i, g, any0 = 0, fd = -1, w = 0; dir *d;
	events_init_pool(1 + sim_gen(2)); sim_faults_hold(0);
	if (raw) raw_use();
	else {
		for (g = 0; g < ng; g++) { int r = started(g); if (mode[g] == 0) { any0 = 1; fd = r; } }
		sim_faults_hold(0);
		for (i = sim_gen(3); i; i--) async_task(noise, 0);
		if (sim_gen(6) == 0) { int id = fs_events("/nowhere", (watch_cb)nowhere, NULL); SIM_CHECK(id > 0, "wrong-result", "fs_events gave %d", id); } /* never begins, holds up nothing */
		sim_spawn_actor("changes", env, NULL);
		while (!done_env || missing(&d)) {
			if (done_env) SIM_CHECK(sim_now() - quiet_from < 3500 * MS + 2 * (sim_stalled_ns() - quiet_stall), "lost-report", "%s: %s %s was not reported", d->path, kn[d->e[d->head].kind], d->e[d->head].name);
			delay(1 + sim_gen(10));
			if (!cancelled[w % ng] && mode[w % ng] == 1 && sim_gen(200) == 0) { g = w % ng; sim_nopreempt(1); up[g] = 0; for (i = 0; i < nd; i++) if (D[i].g == g) D[i].head = D[i].n, D[i].armed = 0; sim_nopreempt(0); cancelled[g] = 1; SIM_CHECK(fs_events_cancel(rid[g]) == 0 || sim_fault_count(F_ENOSPC) + sim_fault_count(F_EMFILE), "wrong-result", "fs_events_cancel failed"); }
			w++;
		}
		if (sim_gen(2)) {
			int left = any0, r0 = 0; uint64_t t0, st;
			for (g = 0; g < ng; g++) if (mode[g] == 1 && !cancelled[g]) { if (sim_gen(3)) { remove_tree(g); removed[g] = 1; } else left++; }
			if (any0 && sim_gen(2)) { for (g = 0; g < ng; g++) if (mode[g] == 0) remove_tree(g); any0 = 0; r0 = 1; }
			t0 = sim_now(); st = sim_stalled_ns();
			while (inotify_fds() > left || (r0 && events_is_watching(fd))) { SIM_CHECK(sim_now() - t0 < 3500 * MS + 2 * (sim_stalled_ns() - st), "not-stopped", "a watched directory was removed and the watch goes on"); delay(1 + sim_gen(10)); }
			if (r0) (void)events_del_watch(event_loop());
		}
		for (g = 0; g < ng; g++) if (mode[g] == 1 && !cancelled[g] && !removed[g]) SIM_CHECK(fs_events_cancel(rid[g]) == 0 || sim_fault_count(F_ENOSPC) + sim_fault_count(F_EMFILE), "wrong-result", "fs_events_cancel failed");
		for (g = 0; g < ng; g++) if (mode[g] == 1 && !removed[g]) SIM_CHECK(fs_events_cancel(rid[g]) == -1, "wrong-result", "a second fs_events_cancel did not fail");
		if (any0) {
			SIM_CHECK(events_is_watching(fd), "wrong-result", "the watch ended by itself");
			SIM_CHECK(events_del_watch(event_loop()) == 0, "wrong-result", "events_del_watch failed");
			SIM_CHECK(!events_is_watching(fd) && events_watch_count(fd) == 0, "wrong-result", "events_del_watch left %d watches", events_watch_count(fd));
		}
		for (i = 0; inotify_fds() && i < 3000; i++) delay(2);
		SIM_CHECK(!inotify_fds(), "fd-leak", "an inotify descriptor is left open after all watches were ended");
	}
	main_done = 1;
	return 0;
}
SIM_WORKLOAD(watch, "enospc emfile stall", "directory watches of several loops while another process changes the directories") { wl_my_alloc(4);
	int r, g; raw = sim_gen(5) == 0; ng = raw ? 2 : 1 + sim_gen(MAXG); want = 1 + sim_gen(120);
	for (g = 0; g < ng; g++) mode[g] = raw ? 2 : sim_gen(2);
	sim_cfg.poll_step_us = 200 << sim_gen(4);
	sim_cfg.max_hooks *= 3;
	sim_faults_hold(1);
	r = events_start(wl_fds(256), (main_cb)wmain, 0);
	SIM_CHECK(main_done, "task-lost", "the main task did not finish (events_start gave %d)", r);
	sim_done();
}
