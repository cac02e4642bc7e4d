/* P27: arrays and text helpers give what their definition says, in every task and thread, for as long as the task lives. */
#include "wl.h"
#include <arrays.h>
#include <string.h>
#include <stdio.h>
#include <ctype.h>
#include <errno.h>
#define PLAIN __attribute__((no_sanitize_thread))
EX_EXCEPTION(wl_tx);
/* the models run as the simulator's own code: nothing of them is scheduled */
enum { MAXH = 48, HL = 420 };
typedef struct { char *p; short n; char want[HL]; } held_t;
typedef struct { held_t h[MAXH]; int nh, no; intptr_t m[400]; int nm; array_t a; int tup; char *itoa, want[24]; /* of the thread, until it is asked again */ char b[6][HL]; } me_t;
static me_t T[16]; static int nt, ended, yields;
static PLAIN int rnd(int n) { return sim_gen(n); }
static PLAIN char *text(char *b, int max) { static const char al[] = "ab,a b.A"; int i, n = rnd(max + 1); for (i = 0; i < n; i++) b[i] = al[rnd(8)]; b[n] = 0; return b; }
static PLAIN char *word(char *b, int min, int max) { int i, n = min + rnd(max - min + 1); for (i = 0; i < n; i++) b[i] = "abcdefgXYZ019_"[rnd(14)]; b[n] = 0; return b; }
static PLAIN void hold(me_t *t, const char *what, char *p, const char *want, int n) {
	SIM_CHECK(p != NULL, "wrong-text", "%s: null in place of \"%s\"", what, want);
	SIM_CHECK(!memcmp(p, want, n) && !p[n], "wrong-text", "%s: \"%.60s\" in place of \"%.60s\"", what, p, want);
	if (t->nh < MAXH && n < HL) { held_t *h = &t->h[t->nh++]; h->p = p; h->n = n; memcpy(h->want, want, n); }
}
static PLAIN void same(const char *what, const char *p, const char *want) {
	if (!want || !p) { SIM_CHECK(want == p, "wrong-text", "%s: %.60s in place of %.60s", what, p ? p : "null", want ? want : "null"); return; }
	SIM_CHECK(!strcmp(p, want), "wrong-text", "%s: \"%.60s\" in place of \"%.60s\"", what, p, want);
}
static PLAIN void num(const char *what, long got, long want, const char *a, const char *b) { SIM_CHECK(got == want, "wrong-answer", "%s(\"%.40s\", \"%.20s\"): %ld in place of %ld", what, a, b, got, want); }
static PLAIN void again(me_t *t) { /* everything given so far is unchanged */
	int i;
	for (i = 0; i < t->nh; i++) SIM_CHECK(!memcmp(t->h[i].p, t->h[i].want, t->h[i].n) && !t->h[i].p[t->h[i].n], "text-changed", "a text given to a task that still runs changed from \"%.60s\" to \"%.60s\"", t->h[i].want, t->h[i].p);
}
static PLAIN int count(const char *s, const char *d) { int c = 0, l = strlen(d); while ((s = strstr(s, d))) c++, s += l; return c; }
static PLAIN void arr_same(me_t *t, array_t a, const char *op) {
	int i, n = $size(a);
	SIM_CHECK(n == t->nm, "wrong-array", "after %s the array has %d items, not %d", op, n, t->nm);
	SIM_CHECK($capacity(a) >= (size_t)n, "wrong-array", "after %s the array of %d items has room for %d", op, n, (int)$capacity(a));
	for (i = 0; i < n; i++) SIM_CHECK(a[i].object == (void *)t->m[i], "wrong-array", "after %s item %d of %d is %p, not %p", op, i, n, a[i].object, (void *)t->m[i]);
}
static PLAIN void m_remove(me_t *t, int i) { if (i < t->nm) { memmove(t->m + i, t->m + i + 1, (t->nm - i - 1) * sizeof t->m[0]); t->nm--; } }
static void arr_op(me_t *t) {
	int k, i, n; values_t v; const char *op = "?"; array_t c;
	if (!t->a) { n = rnd(4); t->nm = 0; t->tup = 0; if (n == 0) t->a = array(); else if (n == 1) { t->a = arrays(3, 1, 2, 3); for (i = 0; i < 3; i++) t->m[t->nm++] = i + 1; } else if (n == 2) { t->a = arrays(1, 9); t->m[t->nm++] = 9; } else { t->a = array(); $reserve(t->a, 1 + rnd(60)); } arr_same(t, t->a, "creation"); }
	if (t->tup) { /* a tuple does not change any more */
		volatile int thrown = 0; k = rnd(5);
		try { if (k == 0) $append(t->a, 5); else if (k == 1) $pop(t->a); else if (k == 2) $shift(t->a); else if (k == 3) $remove(t->a, 0); else $append_string(t->a, "x"); } catch_any { thrown = 1; }
		SIM_CHECK(thrown, "wrong-array", "changing a tuple (%d) threw nothing", k); arr_same(t, t->a, "a refused change of a tuple");
		if (!rnd(3)) { c = NULL; c = $copy(c, t->a); arr_same(t, c, "copying a tuple"); $delete(t->a); t->a = c; return; }
		if (rnd(2)) { $delete(t->a); t->a = NULL; }
		return;
	}
	switch (k = rnd(13)) {
	case 0: case 1: case 2: op = "$append"; n = 1 + rnd(rnd(3) ? 4 : 40); for (i = 0; i < n && t->nm < 380; i++) { intptr_t x = 1 + rnd(1000000); $append(t->a, x); t->m[t->nm++] = x; } break;
	case 3: op = "$append_signed"; if (t->nm < 380) { int64_t x = -(int64_t)rnd(1000) * 1000003; $append_signed(t->a, x); t->m[t->nm++] = x; } break;
	case 4: op = "$append_string"; if (t->nm < 380) { $append_string(t->a, "text"); t->m[t->nm++] = (intptr_t)t->a[t->nm].object; same(op, t->a[t->nm - 1].char_ptr, "text"); } break;
	case 12: op = "a typed append"; if (t->nm < 380) { n = t->nm; i = rnd(1 << 30) - (1 << 29); switch (rnd(7)) {
		case 0: { double d = i / 7.0; $append_double(t->a, d); SIM_CHECK(t->a[n].precision == d, "wrong-array", "$append_double of %g put %g", d, t->a[n].precision); break; }
		case 1: { size_t z = (size_t)i << 20 | 5; $append_unsigned(t->a, z); SIM_CHECK(t->a[n].max_size == z, "wrong-array", "$append_unsigned of %zu put %zu", z, t->a[n].max_size); break; }
		case 2: $append_func(t->a, (data_func_t)arr_op); SIM_CHECK(t->a[n].func == (data_func_t)arr_op, "wrong-array", "$append_func put %p", (void *)t->a[n].func); break;
		case 3: { char c = i; $append_char(t->a, c); SIM_CHECK(t->a[n].schar == c, "wrong-array", "$append_char of %d put %d", c, t->a[n].schar); break; }
		case 4: { bool b = i & 1; $append_bool(t->a, b); SIM_CHECK(t->a[n].boolean == b, "wrong-array", "$append_bool of %d put %d", b, t->a[n].boolean); break; }
		case 5: { short h = i; $append_short(t->a, h); SIM_CHECK(t->a[n].s_short == h, "wrong-array", "$append_short of %d put %d", h, t->a[n].s_short); break; }
		default: $append_signed(t->a, i); SIM_CHECK(t->a[n].long_long == i, "wrong-array", "$append_signed of %d put %lld", i, (long long)t->a[n].long_long); } t->m[t->nm++] = (intptr_t)t->a[n].object; } break;
	case 5: op = "$pop"; n = t->nm; v = $pop(t->a); SIM_CHECK(v.object == (n ? (void *)t->m[n - 1] : NULL), "wrong-array", "$pop of %d items gave %p", n, v.object); if (n) t->nm--; break;
	case 6: op = "$shift"; n = t->nm; v = $shift(t->a); SIM_CHECK(v.object == (n ? (void *)t->m[0] : NULL), "wrong-array", "$shift of %d items gave %p", n, v.object); if (n) m_remove(t, 0); break;
	case 7: op = "$remove"; i = rnd(t->nm + 2); $remove(t->a, i); m_remove(t, i); break;
	case 8: op = "$copy"; c = NULL; c = $copy(c, t->a); arr_same(t, c, op); arr_same(t, t->a, "being copied"); SIM_CHECK(c != t->a, "wrong-array", "a copy is the array itself"); if (rnd(2)) { $delete(t->a); t->a = c; } else $delete(c); break;
	case 9: op = "$reserve"; n = rnd(80); $reserve(t->a, n); SIM_CHECK((int)$capacity(t->a) >= n, "wrong-array", "room for %d after $reserve(%d)", (int)$capacity(t->a), n); break;
	case 10: op = "$reset"; if (!rnd(3)) { $reset(t->a); t->nm = 0; } break;
	case 11: default: op = "$tuple"; if (!rnd(3)) { $tuple(t->a); t->tup = 1; } else if (!rnd(3)) { $delete(t->a); t->a = NULL; return; }
	}
	arr_same(t, t->a, op);
	i = 0; foreach (x in t->a) { SIM_CHECK(x.object == (void *)t->m[i] && ix == i, "wrong-array", "foreach gave item %d in place of %d", ix, i); i++; }
	SIM_CHECK(i == t->nm, "wrong-array", "foreach gave %d of %d items", i, t->nm);
	i = t->nm; foreach_back (y in t->a) { i--; SIM_CHECK(y.object == (void *)t->m[i] && iy == i, "wrong-array", "foreach_back gave item %d in place of %d", iy, i); }
	SIM_CHECK(i == 0, "wrong-array", "foreach_back left %d items", i);
}
static PLAIN int cmpv(const void *a, const void *b, void *u) { ++*(int *)u; return *(int *)a - *(int *)b; }
static PLAIN int cut(const char *s, const char *d, int k, char *out) { /* the k-th piece */
	int l = strlen(d); const char *e;
	while (k-- > 0) { s = strstr(s, d); if (!s) return -1; s += l; }
	e = strstr(s, d); l = e ? e - s : (int)strlen(s); memcpy(out, s, l); out[l] = 0; return l;
}
static PLAIN void m_swap(const char *s, const char *n, const char *w, char *o) { int ln = strlen(n); while (*s) if (!strncmp(s, n, ln)) { strcpy(o, w); o += strlen(w); s += ln; } else *o++ = *s++; *o = 0; }
static void pieces(me_t *t, const char *s, const char *d) {
	int k, n = -7, c = count(s, d) + 1; char **w; array_t a;
	switch (rnd(3)) {
	case 0: w = str_split_ex(s, d, rnd(5) ? &n : NULL); goto both;
	case 1: w = (char **)mem_split_ex(s, strlen(s), d, rnd(5) ? &n : NULL);
	both: if (!*s) { SIM_CHECK(!w, "wrong-answer", "an empty text was split"); return; }
		SIM_CHECK(w && (n == c || n == -7), "wrong-answer", "\"%.40s\" split at \"%s\" gave %d pieces, not %d", s, d, n, c);
		for (k = 0; k < c; k++) { cut(s, d, k, t->b[4]); same("a piece", w[k], t->b[4]); }
		SIM_CHECK(!w[c], "wrong-answer", "no null after the %d pieces", c); str_free(w); return;
	default: a = str_explode(s, d);
		if (!*s) { SIM_CHECK(!a, "wrong-answer", "an empty text was exploded"); return; }
		SIM_CHECK(is_data(a) && (int)$size(a) == c, "wrong-answer", "\"%.40s\" exploded at \"%s\" gave %d pieces, not %d", s, d, (int)$size(a), c);
		for (k = 0; k < c; k++) { int l = cut(s, d, k, t->b[4]); hold(t, "an exploded piece", a[k].char_ptr, t->b[4], l); }
		$delete(a);
	}
}
static void uri_op(me_t *t) {
	static const char *sch[] = {"http", "https", "tcp", "ws", "ftp", "tls", "udp", "unix", "zz"}; static const int typ[] = {DATA_TCP, DATA_TLS, DATA_TCP, DATA_TCP, DATA_TCP, DATA_TLS, DATA_UDP, DATA_PIPE, -DATA_MAXCOUNTER};
	int f = rnd(64), ex = rnd(2), s = rnd(9), port = rnd(65536), bad = !rnd(5), how = rnd(3), c; char *cz = NULL; uri_t *u;
	char *b = t->b[0], host[40], user[12], pass[12], path[40], q[16], fr[12], *p = b, x[12], y[12];
	sprintf(host, "%s.%s", word(x, 1, 8), word(y, 1, 8)); word(user, 1, 8); word(pass, 1, 8); sprintf(path, "/%s/%s", word(x, 0, 8), word(y, 1, 8)); sprintf(q, "%s=%s", word(x, 1, 5), word(y, 0, 5)); word(fr, 1, 8);
	if (!rnd(4)) { char *z = ((char *[]){path + 1, q, fr, user, pass})[rnd(5)]; c = rnd(strlen(z)); if (z[c] != '/' && z[c] != '=') { cz = z + c; *cz = 1 + rnd(31); } }
	p += sprintf(p, "%s://", sch[s]);
	if (f & 1) { p += sprintf(p, "%s", user); if (f & 2) p += sprintf(p, ":%s", pass); p += sprintf(p, "@"); }
	if (bad && how == 0) host[0] = 0; /* no host */
	if (bad && how == 1) strcpy(host, "nodots");
	p += sprintf(p, "%s", host);
	if (f & 4 || (bad && how == 2)) p += sprintf(p, ":%d", bad && how == 2 ? 65536 + rnd(900000) : port);
	if (f & 8) p += sprintf(p, "%s", path);
	if (f & 16) p += sprintf(p, "?%s", q);
	if (f & 32) p += sprintf(p, "#%s", fr);
	if (cz) *cz = '_'; /* that is what becomes of a control character */
	errno = 0; u = ex ? parse_uri_ex(b) : parse_uri(b);
	if (bad) { SIM_CHECK(!u && errno == EINVAL, "wrong-answer", "\"%s\" was taken for a url, or errno is %d", b, errno); return; }
	SIM_CHECK(u != NULL, "wrong-answer", "\"%s\" was not taken for a url", b);
	SIM_CHECK((int)u->type == typ[s], "wrong-answer", "\"%s\" has type %d, not %d", b, u->type, typ[s]);
	same("scheme", u->scheme, sch[s]); same("host", u->host, host); same("user", u->user, f & 1 ? user : NULL); same("pass", u->pass, (f & 3) == 3 ? pass : NULL);
	SIM_CHECK(u->port == (f & 4 ? port : 0), "wrong-answer", "\"%s\" has port %d", b, u->port);
	same("path", u->path, f & 8 ? path : NULL); same("query", u->query, f & 16 ? q : NULL); same("fragment", u->fragment, f & 32 ? fr : NULL);
	if (ex) uri_free(u); else { hold(t, "host", u->host, host, strlen(host)); if (u->path) hold(t, "path", u->path, path, strlen(path)); }
}
static void text_op(me_t *t) {
	char *a = t->b[0], *b = t->b[1], *w = t->b[2], *o = t->b[3], *p; int i, n, k;
	switch (rnd(26)) {
	case 24: text(a, 60); n = rnd(strlen(a) + 1); if (rnd(2)) { text(b, 4); k = strlen(b); } else { k = rnd(4); if (k > (int)strlen(a)) k = strlen(a); memcpy(b, a + (strlen(a) - k ? rnd(strlen(a) - k + 1) : 0), k); b[k] = 0; } if (!k) break;
		{ void *q = memmem(a, n, b, k); num("mempos", mempos((unsigned char *)a, n, (unsigned char *)b, k), q ? (char *)q - a : -1, a, b); num("mempos_str", mempos_str(a, n, b), q ? (char *)q - a : -1, a, b); }
		if (strlen(b) == (size_t)k && k < 63) { /* any byte of the one or of the other */
			char m2[64]; int e = 0, x, y; for (x = 0; x < k; x++) m2[x] = b[x] ^ 1; m2[k] = 0;
			for (x = 0; x + k <= (int)strlen(a) && !e; x++) { for (y = 0; y < k && (a[x + y] == b[y] || a[x + y] == m2[y]); y++); e = y == k; }
			num("str_has_either", str_has_either(a, b, m2), e, a, b);
		}
		num("str_is_empty", str_is_empty(a), !*a, a, ""); break;
	case 0: text(a, 60); hold(t, "str_dup", str_dup(a), a, strlen(a)); break;
	case 1: text(a, 60); p = str_dup_ex(a); same("str_dup_ex", p, a); str_free(p); break;
	case 2: text(a, 60); n = rnd(strlen(a) + 1); memcpy(o, a, n); o[n] = 0; hold(t, "str_trim", str_trim(a, n), o, n); break;
	case 3: text(a, 60); k = rnd(strlen(a) + 1); n = rnd(strlen(a) - k + 1); memcpy(o, a + k, n); o[n] = 0; hold(t, "str_trim_at", str_trim_at(a, k, n), o, n); break;
	case 4: text(a, 40); text(b, 20); text(w, 20); sprintf(o, "%s%s%s", a, b, w); p = str_cat_ex(3, a, b, w); same("str_cat_ex", p, o); str_free(p); break;
	case 5: { char x[5][24], *av[5]; n = rnd(6); k = rnd(n + 1); for (*o = 0, i = 0; i < n; i++) { av[i] = text(x[i], 20); if (i >= k) { if (i > k) strcat(o, ","); strcat(o, x[i]); } } hold(t, "str_cat_argv", str_cat_argv(n, av, k, ","), o, strlen(o)); break; }
	case 6: text(a, 60); word(b, 1, 2); text(w, 4); if (rnd(2)) b[0] = 'a', b[1] = 0; if (rnd(3)) { b[0] = "ab, ."[rnd(5)]; b[1] = 0; } if (!rnd(4)) { memset(a, 'a', n = 10 + rnd(70)); a[n] = 0; memset(b, 'a', n = 1 + rnd(9)); b[n] = 0; word(w, 0, 2); } p = str_swap_ex(a, b, w); if (!count(a, b)) { SIM_CHECK(!p, "wrong-answer", "str_swap_ex found \"%s\" in \"%s\"", b, a); break; } m_swap(a, b, w, o); same("str_swap_ex", p, o); str_free(p); break;
	case 7: case 8: case 9: text(a, 80); strcpy(b, ((const char *[]){",", " ", "a", "a,", "b ", "aa"})[rnd(6)]); pieces(t, a, b); break;
	case 10: word(a, 0, 5); n = rnd(20); for (*o = 0, i = 0; i < n; i++) strcat(o, a); hold(t, "str_repeat", str_repeat(a, n), o, strlen(o)); break;
	case 11: { int len, l, r; text(a, 30); word(b, 1, 3); len = rnd(60); k = rnd(3); n = len - (int)strlen(a);
		if (n <= 0) strcpy(o, a); else { l = k == 1 ? n : k == 2 ? n / 2 : 0; r = n - l; for (i = 0; i < l; i++) o[i] = b[i % strlen(b)]; strcpy(o + l, a); for (i = 0; i < r; i++) o[l + strlen(a) + i] = b[i % strlen(b)]; o[len] = 0; }
		p = str_pad(a, len, b, k == 1 ? STR_PAD_LEFT : k == 2 ? STR_PAD_BOTH : rnd(2) ? STR_PAD_RIGHT : 0); if (n <= 0) same("str_pad", p, o); else hold(t, "str_pad", p, o, len); break; }
	case 12: text(a, 80); text(b, 3); if (!rnd(3) && *a) { n = rnd(strlen(a)); snprintf(b, 1 + rnd(8), "%s", a + (rnd(2) ? n : strlen(a) - 1 - rnd(strlen(a) > 4 ? 4 : strlen(a)))); } n = *b ? count(a, b) : 0; num("str_subcount", str_subcount(a, b), n, a, b); break;
	case 13: text(a, 60); do text(b, 3); while (!*b); p = strstr(a, b); num("str_pos", str_pos(a, b), p ? p - a : -1, a, b); num("str_has", str_has(a, b), p != NULL, a, b); break;
	case 14: text(a, 8); strcpy(b, a); if (rnd(2)) for (i = 0; b[i]; i++) b[i] = toupper((unsigned char)b[i]); else text(b, 8); num("str_is_case", str_is_case(a, b), !strcasecmp(a, b), a, b); num("str_is", str_is(a, b), !strcmp(a, b), a, b); n = 1 + rnd(9); num("str_case_equal", str_case_equal(a, b, n), !strncasecmp(a, b, n), a, b); break;
	case 15: text(a, 30); n = rnd(34); memset(o, 'Q', 40); str_lcpy(o, a, n); k = strlen(a) < (size_t)n ? (int)strlen(a) : n - 1; SIM_CHECK(!n || (!memcmp(o, a, k) && !o[k]), "wrong-text", "str_lcpy of \"%s\" limit %d gave \"%.40s\"", a, n, o); SIM_CHECK(o[n > 0 ? k + 1 : 0] == 'Q', "wrong-text", "str_lcpy of \"%s\" limit %d wrote too far", a, n); break;
	case 16: text(a, 30); strcpy(o, a); strcpy(b, a); for (i = 0; o[i]; i++) o[i] = toupper((unsigned char)o[i]); same("str_toupper", str_toupper(b), o); for (i = 0; o[i]; i++) o[i] = tolower((unsigned char)o[i]); same("str_tolower", str_tolower(b), o); break;
	case 17: { char *f = a + 8; memset(a, rnd(2) ? ' ' : 'x', 8); text(f, 20); n = rnd(3); if (!rnd(4)) for (i = 0; f[i]; i++) f[i] = ' '; strcpy(o, f); p = o; while (*p == ' ') p++; k = strlen(p); while (k && p[k - 1] == ' ') p[--k] = 0; char c = a[7]; same("trim", trim(f), p); SIM_CHECK(a[7] == c, "wrong-text", "trim wrote before its text"); break; }
	case 18: { int64_t v = ((int64_t)rnd(1 << 30) << 33 | (int64_t)rnd(1 << 30) << 3) >> rnd(63); if (rnd(2)) v = -v; if (!rnd(9)) v = rnd(2) ? INT64_MIN : rnd(2) ? INT64_MAX : 0; sprintf(t->want, "%lld", (long long)v); t->itoa = str_itoa(v); same("str_itoa", t->itoa, t->want); break; }
	case 19: text(a, 60); if (!*a) break; n = 1 + rnd(200); p = str_encode64(a, w, HL); SIM_CHECK(p == w, "wrong-answer", "str_encode64 gave %p", p); SIM_CHECK(strlen(w) == (strlen(a) + 2) / 3 * 4 && str_is_base64(w), "wrong-text", "\"%s\" was encoded as \"%s\"", a, w); p = str_decode64(w, o, HL); SIM_CHECK(p == o, "wrong-answer", "\"%s\" was not decoded", w); same("str_decode64", o, a); break;
	case 20: text(a, 60); n = rnd(100000); k = -1; i = sprintf(o, "%s-%d-%s", a, n, "end"); p = mem_printf(&k, "%s-%d-%s", a, n, "end"); hold(t, "mem_printf", p, o, i); SIM_CHECK(k == i, "wrong-answer", "mem_printf counted %d of %d", k, i); break;
	case 21: case 22: uri_op(t); break;
	case 23: { char dir[40], f[12], e[6], x[12], y[12]; fileinfo_t *fi; k = rnd(4); if (k == 0) *dir = 0; else if (k == 1) sprintf(dir, "/%s", word(x, 1, 8)); else if (k == 2) sprintf(dir, "/%s/%s", word(x, 1, 8), word(y, 1, 8)); else word(dir, 1, 8); word(f, 1, 8); word(e, 1, 3); n = rnd(2);
		sprintf(a, "%s%s%s%s%s", dir, *dir ? "/" : "", f, n ? "." : "", n ? e : ""); fi = pathinfo(a); SIM_CHECK(data_type(fi) == DATA_FILEINFO, "wrong-answer", "pathinfo of \"%s\" gave nothing", a);
		same("dirname", fi->dirname, *dir ? dir : "."); sprintf(o, "%s%s%s", f, n ? "." : "", n ? e : ""); same("filename", fi->filename, o); same("extension", fi->extension, n ? e : NULL); p = strrchr(dir, '/'); same("base", fi->base, *dir ? (p ? p + 1 : dir) : "."); break; }
	default: { int v[64], s[64], calls = 0, j, c; range_t r; n = rnd(64); for (i = 0; i < n; i++) s[i] = v[i] = rnd(100); memsort(v, n, sizeof *v, cmpv, &calls);
		for (i = 1; i < n; i++) SIM_CHECK(v[i - 1] <= v[i], "wrong-answer", "memsort of %d items left %d before %d", n, v[i - 1], v[i]);
		for (i = 0; i < n; i++) { for (c = 0, j = 0; j < n; j++) c += (s[j] == s[i]) - (v[j] == s[i]); SIM_CHECK(!c, "wrong-answer", "memsort of %d items lost %d", n, s[i]); }
		k = rnd(20) - 10; n = rnd(40); j = 1 + rnd(4); r = rnd(2) ? (j = 1, range(k, k + n)) : rangeing(k, k + n, j);
		SIM_CHECK((int)$size(r) == (n + j - 1) / j, "wrong-array", "a range of %d numbers by %d has %d items", n, j, (int)$size(r)); for (i = 0; i < (int)$size(r); i++) SIM_CHECK((intptr_t)r[i].object == k + i * j, "wrong-array", "item %d of a range from %d by %d is %ld", i, k, j, (long)(intptr_t)r[i].object);
		text(a, 30); r = range_char(a); SIM_CHECK($size(r) == strlen(a), "wrong-array", "a range of %d characters has %d items", (int)strlen(a), (int)$size(r)); for (i = 0; a[i]; i++) SIM_CHECK(r[i].schar == a[i], "wrong-array", "character %d of \"%s\" is %d", i, a, r[i].schar); }
	}
}
static void *worker(param_t args) {
	int i; me_t *t = &T[args[0].integer];
	for (i = 0; i < t->no; i++) {
		if (rnd(3)) text_op(t); else arr_op(t);
		if (rnd(100) < yields) { if (rnd(4)) yield(); else delay(rnd(3)); }
		again(t);
	}
	if (t->a) { $delete(t->a); t->a = NULL; }
	again(t); t->nh = 0; t->itoa = NULL; sim_nopreempt(1); ended++; sim_nopreempt(0);
	return 0;
}
static void dfn(void *p) { }
/* the flags of a command line */
static void opts(void) {
	static char av[24][24]; static char *argv[26]; char want[24], f[16]; int i, k, n = 1 + rnd(20), ordered = rnd(2), from = 1, at, single;
	strcpy(av[0], "prog"); argv[0] = av[0];
	for (i = 1; i < n; i++) { k = rnd(6); switch (rnd(3)) { case 0: sprintf(av[i], "--opt%d", k); break; case 1: sprintf(av[i], "--key%d=val%d", k, i); break; default: sprintf(av[i], "word%d", i); } argv[i] = av[i]; }
	argv[n] = NULL;
	getopt_arguments_set(n, argv); getopt_message_set("a test", 1, ordered);
	for (k = 0; k < 6; k++) {
		int kind = rnd(ordered ? 4 : 3), has; single = kind == 3 || kind == 0 ? rnd(2) : 1; const char *w = NULL; at = 0;
		sprintf(f, kind == 2 ? "--key%d" : "--opt%d", rnd(6));
		if (kind == 3) { if (from < n) { at = from; w = argv[from]; single = 1; } }
		else for (i = from; i < n && !at; i++) {
			if (kind == 2) { int l = strlen(f); if (!strncmp(argv[i], f, l) && argv[i][l] == '=') { at = i; strcpy(want, argv[i] + l + 1); w = want; } }
			else if (!strcmp(argv[i], f)) { at = i; w = single ? argv[i] : argv[at = i + 1]; }
		}
		has = getopt_has(kind == 3 ? NULL : f, single);
		SIM_CHECK(has == !!at, "wrong-answer", "getopt_has(%s, %d) gave %d, it is argument %d of %d", kind == 3 ? "NULL" : f, single, has, at, n);
		if (has) { same("getopts", getopts(), w); if (ordered) from = at + 1; }
	}
}

static void *tx_main(param_t na) {
	int r, k, rounds = 1 + rnd(3), first = 1;
	deferring((func_t)dfn, 0);
	if (!rnd(3)) opts();
	for (r = 0; r < rounds; r++) {
		uint32_t ids[16]; int loc = 0, on; waitgroup_t g = NULL; array_t res;
		nt = 1 + rnd(6); on = rnd(2); ended = 0;
		for (k = 0; k < nt; k++) { memset(&T[k], 0, sizeof T[k]); T[k].no = 3 + rnd(30); }
		if (on) { g = waitgroup(nt); for (k = 0; k < nt; k++) go(worker, 1, casting(k)); waitfor(g); }
		else { for (k = 0; k < nt; k++) ids[loc++] = async_task(worker, 1, casting(k)); for (k = 0; k < loc; k++) await_for(ids[k]); }
		SIM_CHECK(ended == nt, "task-lost", "%d of %d tasks ended", ended, nt);
		if (!on) { /* what a task was given goes with it */
			uint32_t n1; long b0, more = 1; int j, tries = 0;
			for (delay(5); more > 0 && tries < 4; tries++) {
				b0 = sim_arena_live(); memset(&T[0], 0, sizeof T[0]); T[0].no = 8; n1 = async_task(worker, 1, casting(0)); await_for(n1); delay(5);
				more = sim_arena_live() - 1 - b0;
			}
			SIM_CHECK(first || more <= 0, "memory-kept", "each of the last tasks left something when it ended, the last %ld blocks", more);
			first = 0;
		}
	}
	ended = 100;
	return 0;
}
SIM_WORKLOAD(text, "stall", "arrays and text helpers in tasks and threads") { wl_my_alloc(4);
	int r; sim_cfg.poll_step_us = 400 << sim_gen(3); yields = sim_gen(4) * 25;
	r = events_start(64, (main_cb)tx_main, 0);
	SIM_CHECK(ended == 100, "task-lost", "the main task did not finish (events_start gave %d)", r);
	sim_done();
}
