/* common parts of the native replay / search programs */
#ifndef COMMON_H
#define COMMON_H
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

typedef uint32_t u32;
typedef uint64_t u64;

/* ---- reference UTF-8 decoder (Unicode 15, table 3-6 and 3-7; the length of
 * ill-formed sequences as documented in grapheme_decode_utf8(3)) */
static size_t
ref_decode(const unsigned char *s, size_t n, u32 *cp)
{
	size_t need, c;
	u32 v;
	*cp = 0xFFFD;
	if (n == 0) return 0;
	if (s[0] < 0x80) { *cp = s[0]; return 1; }
	else if (s[0] >= 0xC0 && s[0] < 0xE0) { need = 1; v = s[0] & 0x1F; }
	else if (s[0] >= 0xE0 && s[0] < 0xF0) { need = 2; v = s[0] & 0x0F; }
	else if (s[0] >= 0xF0 && s[0] < 0xF8) { need = 3; v = s[0] & 0x07; }
	else return 1;
	for (c = 0; c < need && 1 + c < n && (s[1 + c] & 0xC0) == 0x80; c++) v = v * 64 + (s[1 + c] & 0x3F);
	if (c < need) return 1 + c < n ? 1 + c : 1 + need;
	if (v < (need == 1 ? 0x80u : need == 2 ? 0x800u : 0x10000u) || (v >= 0xD800 && v <= 0xDFFF) || v > 0x10FFFF) v = 0xFFFD;
	*cp = v;
	return 1 + need;
}

static size_t
ref_encode(u32 c, unsigned char *o)
{
	if ((c >= 0xD800 && c <= 0xDFFF) || c > 0x10FFFF) c = 0xFFFD;
	if (c < 0x80) { o[0] = c; return 1; }
	if (c < 0x800) { o[0] = 0xC0 | c >> 6; o[1] = 0x80 | (c & 63); return 2; }
	if (c < 0x10000) { o[0] = 0xE0 | c >> 12; o[1] = 0x80 | (c >> 6 & 63); o[2] = 0x80 | (c & 63); return 3; }
	o[0] = 0xF0 | c >> 18; o[1] = 0x80 | (c >> 12 & 63); o[2] = 0x80 | (c >> 6 & 63); o[3] = 0x80 | (c & 63);
	return 4;
}

/* ---- random numbers */
static u64 rng_s = 88172645463325252ull;
static u64
rnd(void)
{
	rng_s ^= rng_s << 13; rng_s ^= rng_s >> 7; rng_s ^= rng_s << 17;
	return rng_s * 2685821657736338717ull >> 11;
}
static size_t below(size_t n) { return n ? rnd() % n : 0; }

/* ---- the case that is being run, for the report */
static char cur_case[1 << 18];
static volatile int cur_tick;
static long n_eval, n_dist;
static unsigned char *seen_bits;
static char samples[3][400];
static int n_samples;

static void
set_case(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(cur_case, sizeof(cur_case), fmt, ap);
	va_end(ap);
	cur_tick = 0;
}

static void
fail(const char *fmt, ...)
{
	va_list ap;
	printf("FAIL ");
	va_start(ap, fmt);
	vprintf(fmt, ap);
	va_end(ap);
	printf("\nCASE %s\n", cur_case);
	fflush(stdout);
	_exit(3);
}

static void
on_death(void)
{
	static const char a[] = "FAIL memory error or undefined behaviour (see stderr)\nCASE ";
	if (write(1, a, sizeof(a) - 1) < 0) return;
	if (write(1, cur_case, strlen(cur_case)) < 0) return;
	if (write(1, "\n", 1) < 0) return;
}
static void
on_alarm(int s)
{
	(void)s;
	if (++cur_tick > 10) {
		static const char a[] = "FAIL the call does not terminate within 10 s\nCASE ";
		if (write(1, a, sizeof(a) - 1) < 0 || write(1, cur_case, strlen(cur_case)) < 0 || write(1, "\n", 1) < 0) {}
		_exit(3);
	}
	alarm(1);
}
static void
on_signal(int s)
{
	static const char a[] = "FAIL the call crashes\nCASE ";
	(void)s;
	if (write(1, a, sizeof(a) - 1) < 0 || write(1, cur_case, strlen(cur_case)) < 0 || write(1, "\n", 1) < 0) {}
	_exit(3);
}
void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

static void
setup(void)
{
	setvbuf(stdout, NULL, _IOFBF, 1 << 16);
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
	signal(SIGALRM, on_alarm);
	signal(SIGABRT, on_signal);
	alarm(1);
	seen_bits = calloc(1, 1 << 23);
}

static void
count(const void *p, size_t n, bool nontrivial)
{
	u64 h = 1469598103934665603ull;
	size_t i;
	n_eval++;
	for (i = 0; i < n; i++) h = (h ^ ((const unsigned char *)p)[i]) * 1099511628211ull;
	h ^= h >> 29;
	h &= (1 << 26) - 1;
	if (nontrivial && !(seen_bits[h >> 3] & 1 << (h & 7))) {
		seen_bits[h >> 3] |= 1 << (h & 7);
		n_dist++;
		if (n_samples < 3 && n_dist % 977 == 5) {
			snprintf(samples[n_samples++], sizeof(samples[0]), "%s", cur_case);
		}
	}
}

static void
finish(void)
{
	int i;
	printf("STATS {\"evaluations\": %ld, \"distinct\": %ld, \"samples\": [", n_eval, n_dist);
	for (i = 0; i < n_samples; i++) printf("%s\"%s\"", i ? ", " : "", samples[i]);
	printf("]}\n");
	fflush(stdout);
	_exit(0);
}

static double
now(void)
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec / 1e9;
}

static char *
hex_cps(const u32 *c, size_t n)
{
	static char b[1 << 17];
	size_t o = 0, i;
	b[0] = 0;
	for (i = 0; i < n && o + 12 < sizeof(b); i++) o += sprintf(b + o, "%s%X", i ? "," : "", c[i]);
	if (!n) strcpy(b, "-");
	return b;
}
static char *
hex_bytes(const void *c, size_t n)
{
	static char b[1 << 17];
	size_t o = 0, i;
	b[0] = 0;
	for (i = 0; i < n && o + 4 < sizeof(b); i++) o += sprintf(b + o, "%02X", ((const unsigned char *)c)[i]);
	if (!n) strcpy(b, "-");
	return b;
}
static size_t
parse_cps(const char *s, u32 *o)
{
	size_t n = 0;
	if (*s == '-') return 0;
	while (*s) { char *e; o[n++] = strtoul(s, &e, 16); s = *e ? e + 1 : e; }
	return n;
}
static size_t
parse_bytes(const char *s, unsigned char *o)
{
	size_t n = 0;
	if (*s == '-') return 0;
	for (; s[0] && s[1]; s += 2) { char t[3] = {s[0], s[1], 0}; o[n++] = strtoul(t, NULL, 16); }
	return n;
}

/* exact copies, so that every access beyond the text is seen */
static void *
exact(const void *p, size_t n)
{
	void *q = malloc(n ? n : 1);
	if (n) memcpy(q, p, n);
	if (!n) { /* nothing may be read */ free(q); q = malloc(1); q = realloc(q, 1); }
	return q;
}

#define MAXN 4096
#endif
