/*
 * Executes the specification automaton of a segmentation algorithm and the
 * real library functions on the same texts.
 *
 *   seg <seconds> <seed>        search
 *   seg case <api> <text>       replay of one case
 *
 * GENH   generated header with the classes of the library (enumeration)
 * SPEC   specification header,  PRE   prefix of its functions
 * UCDH   class table from the UCD (two-level, macro U)
 * CLASSES  representatives of every class (cls_first[], cls_range[])
 */
#include "common.h"
#include GENH
#include "grapheme.h"
#include UCDH
#include SPEC

#ifdef MODE_FORMS
#define SAYS "as codepoints with length after"
#else
#define SAYS "UAX says"
#endif

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define F(x) CAT(PRE, x)
#ifndef ALGO
#define ALGO "?"
#endif

static unsigned cls(u32 cp) { return cp <= 0x10FFFF ? (unsigned)U(cp) : (unsigned)DEFCLASS; }

/* ---- lookahead of the rules, computed from right to left */
#if defined(ALGO_line)
typedef bool LAT;
static void
lookahead(const u32 *c, size_t n, LAT *la)
{
	bool nua = false;
	for (size_t i = n; i-- > 0;) {
		unsigned p = cls(c[i]);
		la[i] = nua; /* behind codepoint i */
		nua = lb_is_cm(p) ? nua : p == LBP(NU);
	}
}
#elif defined(ALGO_word)
typedef unsigned LAT;
static void
lookahead(const u32 *c, size_t n, LAT *la)
{
	unsigned ns = NUMCLASS;
	for (size_t i = n; i-- > 0;) {
		unsigned p = cls(c[i]);
		la[i] = ns;
		if (!wb_is_skip(p)) ns = p;
	}
}
#elif defined(ALGO_sentence)
typedef bool LAT;
static void
lookahead(const u32 *c, size_t n, LAT *la)
{
	bool low = false;
	for (size_t i = n; i-- > 0;) {
		unsigned p = cls(c[i]);
		if (p == SBP(LOWER)) low = true;
		else if (p == SBP(OLETTER) || p == SBP(UPPER) || sb_is_parasep(p) || sb_is_saterm(p)) low = false;
		la[i] = low;
	}
}
#else
typedef bool LAT;
static void lookahead(const u32 *c, size_t n, LAT *la) { (void)c; for (size_t i = 0; i < n; i++) la[i] = false; }
#endif

/* number of codepoints up to the first boundary of the text */
static size_t
reference(const u32 *c, size_t n)
{
	static LAT la[MAXN + 1];
	if (!n) return 0;
#if defined(MODE_FORMS)
	/* the same text as codepoints with its length */
	u32 *b = exact(c, n * 4);
	size_t r = FUNC(b, n);
	free(b);
	return r;
#elif defined(MODE_PROGRESS)
	return 0;
#endif
	lookahead(c, n, la);
	HIST h = F(_init)();
	h = F(_step)(h, cls(c[0]));
	for (size_t k = 1; k < n; k++) {
		if (F(_isb)(h, cls(c[k]), la[k])) return k;
		h = F(_step)(h, cls(c[k]));
	}
	return n;
}

enum { CP_LEN, CP_NUL, U8_LEN, U8_NUL, STATE, NAPI };
static const char *apin[] = {"codepoints-length", "codepoints-nul", "utf8-length", "utf8-nul", "is-break"};

static void
run_cps(int api, const u32 *c, size_t n)
{
	size_t want, got, m = n;
	u32 *b;
	if (api == CP_NUL) for (m = 0; m < n && c[m]; m++) ;
	want = reference(c, m);
	if (api == CP_NUL) {
		b = exact(c, (m + 1) * 4);
		b[m] = 0;
	} else {
		b = exact(c, n * 4);
	}
	set_case("%s %s", apin[api], hex_cps(c, m));
	got = FUNC(b, api == CP_NUL ? SIZE_MAX : n);
#ifdef MODE_PROGRESS
	if (got > m || (got == 0) != (m == 0)) fail(ALGO ": %zu of %zu codepoints", got, m);
	want = got;
#endif
	if (got != want) fail(ALGO ": first boundary after %zu codepoints, " SAYS " %zu", got, want);
	count(c, m * 4, m > 1);
	free(b);
}

static void
run_bytes(int api, const unsigned char *s, size_t n)
{
	static u32 c[MAXN];
	static size_t off[MAXN + 1];
	size_t k = 0, o = 0, m = n, l, want, got;
	unsigned char *b;
	if (api == U8_NUL) for (m = 0; m < n && s[m]; m++) ;
	if (api == U8_NUL) { b = exact(s, m + 1); b[m] = 0; } else b = exact(s, n);
	/* a truncated sequence at the end of a length does not belong to the text;
	 * in a terminated string the terminator ends the sequence */
	for (off[0] = 0; o < m && k < MAXN - 1; k++) {
		l = ref_decode(b + o, m - o + (api == U8_NUL), &c[k]);
		if (o + l > m) break;
		o += l;
		off[k + 1] = o;
	}
	want = reference(c, k);
	if (want > k) fail(ALGO ": %zu of %zu codepoints", want, k);
	want = off[want];
	set_case("%s %s", apin[api], hex_bytes(s, m));
	got = FUNC8((char *)b, api == U8_NUL ? SIZE_MAX : n);
#ifdef MODE_PROGRESS
	want = 0;
	for (size_t i = k ? 1 : 0; i <= k; i++) if (off[i] == got) { want = 1; break; }
	if (!want) fail(ALGO ": %zu of %zu bytes, which is no codepoint boundary of the text or no progress", got, off[k]);
	want = got;
#endif
	if (got != want) fail(ALGO ": first boundary after %zu bytes, " SAYS " %zu", got, want);
	count(s, m, k > 1);
	free(b);
}

#ifdef ALGO_character
/* grapheme_is_character_break() over the whole text, state carried along */
static void
run_state(const u32 *c, size_t n)
{
	uint_least16_t st = 0;
	HIST h = F(_init)();
	bool want, got;
	set_case("%s %s", apin[STATE], hex_cps(c, n));
	for (size_t k = 0; k + 1 < n; k++) {
		h = F(_step)(h, cls(c[k]));
		want = F(_isb)(h, cls(c[k + 1]), 0);
		got = grapheme_is_character_break(c[k], c[k + 1], &st);
		if (got != want) fail("grapheme_is_character_break: %d after %zu codepoints, UAX says %d", got, k + 1, want);
		HIST f = F(_step)(F(_init)(), cls(c[k]));
		want = F(_isb)(f, cls(c[k + 1]), 0);
		got = grapheme_is_character_break(c[k], c[k + 1], NULL);
		if (got != want) fail("grapheme_is_character_break without state: %d for codepoints %zu and %zu, UAX says %d", got, k, k + 1, want);
	}
	count(c, n * 4, n > 1);
}
#endif

static void
run_all(const u32 *c, size_t n, bool mutate)
{
	static unsigned char s[4 * MAXN + 8];
	size_t k = 0;
#ifdef ONLY_STATE
	run_state(c, n);
	return;
#endif
	run_cps(CP_LEN, c, n);
	run_cps(CP_NUL, c, n);
	for (size_t i = 0; i < n; i++) k += ref_encode(c[i], s + k);
	run_bytes(U8_LEN, s, k);
	run_bytes(U8_NUL, s, k);
	if (mutate && k) {
		size_t m = below(3);
		while (m--) s[below(k)] = (rnd() & 1) ? rnd() : (unsigned char[]){0xC0, 0xE2, 0xF0, 0x80, 0xBF, 0xFF, 0, 0x20}[rnd() & 7];
		if (rnd() & 1) k -= below(k < 4 ? k : 4);
		run_bytes(U8_LEN, s, k);
		run_bytes(U8_NUL, s, k);
	}
}

static u32
pick(unsigned k)
{
	size_t r = cls_first[k] + below(cls_first[k + 1] - cls_first[k]);
	u32 a = cls_range[r][0], b = cls_range[r][1];
	switch (rnd() & 7) {
	case 0: return a;
	case 1: return b;
	default: return a + below(b - a + 1);
	}
}

static u32
pick_any(void)
{
	unsigned k;
	do k = below(NUMCLASS); while (cls_first[k] == cls_first[k + 1]);
	return pick(k);
}

int
main(int argc, char **argv)
{
	static u32 c[MAXN];
	static unsigned char s[4 * MAXN];
	size_t n;
	setup();
	if (argc == 4 && !strcmp(argv[1], "case")) {
		for (int a = 0; a < NAPI; a++) {
			if (strcmp(argv[2], apin[a])) continue;
			if (a == CP_LEN || a == CP_NUL) { n = parse_cps(argv[3], c); run_cps(a, c, n); }
#ifdef ALGO_character
			else if (a == STATE) { n = parse_cps(argv[3], c); run_state(c, n); }
#endif
			else { n = parse_bytes(argv[3], s); run_bytes(a, s, n); }
		}
		printf("OK\n");
		return 0;
	}
	double end = now() + atof(argv[1]);
	int part = argc > 3 ? atoi(argv[3]) : 0;
	rng_s ^= strtoull(argv[2], NULL, 10) * 0x9E3779B97F4A7C15ull;
	for (int i = 0; i < 20; i++) rnd();
	/* a NULL text */
	if (FUNC(NULL, 0) || FUNC(NULL, SIZE_MAX) || FUNC8(NULL, 0) || FUNC8(NULL, 5)) { set_case("null"); fail("NULL text: result is not 0"); }
	run_all(c, 0, false);
	/* all class strings up to length 3 */
	if (part == 0) {
		for (unsigned x = 0; x < NUMCLASS; x++) {
			if (cls_first[x] == cls_first[x + 1]) continue;
			c[0] = pick(x);
			run_all(c, 1, false);
			for (unsigned y = 0; y < NUMCLASS; y++) {
				if (cls_first[y] == cls_first[y + 1]) continue;
				c[0] = pick(x);
				c[1] = pick(y);
				run_all(c, 2, false);
				for (unsigned z = 0; z < NUMCLASS; z++) {
					if (cls_first[z] == cls_first[z + 1]) continue;
					c[2] = pick(z);
#ifdef ONLY_STATE
					run_state(c, 3);
#else
					run_cps(CP_LEN, c, 3);
#endif
				}
			}
		}
	}
	/* every codepoint between two of random classes */
	while (part == 1 && now() < end) {
		for (u32 x = 1; x <= 0x110003 && (x & 1023 || now() < end); x++) {
			size_t k = 0;
			for (n = below(3); n--;) c[k++] = pick_any();
			c[k++] = x;
			for (n = 1 + below(2); n--;) c[k++] = pick_any();
#ifdef ONLY_STATE
			run_state(c, k);
#else
			run_cps(CP_LEN, c, k);
#endif
		}
	}
	while (now() < end) {
		for (int it = 0; it < 200; it++) {
			unsigned alpha[6], na = 1 + below(6);
			for (unsigned i = 0; i < na; i++) do alpha[i] = below(NUMCLASS); while (cls_first[alpha[i]] == cls_first[alpha[i] + 1]);
			switch (below(16)) {
			case 0: n = below(600); break;
			case 1: n = below(100); break;
			default: n = 1 + below(14);
			}
			unsigned last = alpha[0];
			unsigned stick = below(4);
			for (size_t i = 0; i < n; i++) {
				if (!i || !stick || below(stick + (n > 50 ? 20 : 1)) == 0) last = alpha[below(na)];
				c[i] = pick(last);
				if (below(400) == 0) c[i] = 0;
				if (below(400) == 0) c[i] = 0x110000 + (u32)rnd();
				if (below(200) == 0) c[i] = below(0x110000);
			}
			run_all(c, n, true);
		}
	}
	finish();
}
