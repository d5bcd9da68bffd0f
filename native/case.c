/*
 * Case conversion and detection: the real functions next to a reference made
 * from the UCD.
 *
 *   case <seconds> <seed> <part>      search
 *   case case <what> <api> <text>     replay of one case
 *
 * MODE_CONV  upper and lower case conversion      MODE_TITLE  title case
 * MODE_IS    detection against conversion         MODE_TRUNC  truncation
 */
#include "common.h"
#include "grapheme.h"
#include "ucd_case.h"

enum { P_OTHER, P_CASED, P_IGN, P_BOTH };
static unsigned prop(u32 c) { return c <= 0x10FFFF ? (unsigned)UCASE(c) : P_OTHER; }
static bool cased(u32 c) { return prop(c) == P_CASED || prop(c) == P_BOTH; }
static bool ign(u32 c) { return prop(c) == P_IGN || prop(c) == P_BOTH; }

enum { UPPER, LOWER, TITLE, NKIND };
static const char *kindn[] = {"upper", "lower", "title"};

static size_t
map(int kind, u32 c, u32 *o)
{
	int d;
	o[0] = c;
	if (c > 0x10FFFF) return 1;
	d = kind == UPPER ? Uupper_d(c) : kind == LOWER ? Ulower_d(c) : Utitle_d(c);
	if (d > -0x40000000) { o[0] = c + d; return 1; }
	unsigned j = (unsigned)d - 0x80000000u, n, i;
#define SP(t) for (n = t[j].n, i = 0; i < n; i++) o[i] = t[j].cp[i]
	if (kind == UPPER) SP(Uupper_special); else if (kind == LOWER) SP(Ulower_special); else SP(Utitle_special);
	return n;
}

/* lower case of c[i] within c[0..n) */
static size_t
lower(const u32 *c, size_t n, size_t i, u32 *o)
{
	if (c[i] == 0x3A3) {
		size_t k = i, l = i + 1;
		while (k > 0 && ign(c[k - 1]) && !cased(c[k - 1])) k--;
		/* cased case-ignorable*: a codepoint that is both ends the search */
		bool before = k > 0 && cased(c[k - 1]);
		while (l < n && ign(c[l]) && !cased(c[l])) l++;
		bool after = l < n && cased(c[l]);
		/* a codepoint that is both may be one of the ignorable ones as well,
		 * which makes no difference: it is cased */
		if (before && !after) { o[0] = 0x3C2; return 1; }
	}
	return map(LOWER, c[i], o);
}

static size_t
convert(int kind, const u32 *c, size_t n, u32 *o)
{
	size_t m = 0, i, p, e;
	if (kind == UPPER) { for (i = 0; i < n; i++) m += map(UPPER, c[i], o + m); return m; }
	if (kind == LOWER) { for (i = 0; i < n; i++) m += lower(c, n, i, o + m); return m; }
	for (p = 0; p < n; p = e) {
		u32 *b = exact(c + p, (n - p) * 4);
		e = p + grapheme_next_word_break(b, n - p);
		free(b);
		if (e <= p || e > n) fail("word break %zu of %zu", e - p, n - p);
		for (i = p; i < e && !cased(c[i]); i++) o[m++] = c[i];
		if (i < e) {
			size_t w = i;
			m += map(TITLE, c[i++], o + m);
			for (; i < e; i++) m += lower(c + w, e - w, i - w, o + m);
		}
	}
	return m;
}

enum { CP_LEN, CP_NUL, U8_LEN, U8_NUL, NAPI };
static const char *apin[] = {"codepoints-length", "codepoints-nul", "utf8-length", "utf8-nul"};
static size_t (*const f_cp[])(const uint_least32_t *, size_t, uint_least32_t *, size_t) = {grapheme_to_uppercase, grapheme_to_lowercase, grapheme_to_titlecase};
static size_t (*const f_u8[])(const char *, size_t, char *, size_t) = {grapheme_to_uppercase_utf8, grapheme_to_lowercase_utf8, grapheme_to_titlecase_utf8};
static bool (*const i_cp[])(const uint_least32_t *, size_t, size_t *) = {grapheme_is_uppercase, grapheme_is_lowercase, grapheme_is_titlecase};
static bool (*const i_u8[])(const char *, size_t, size_t *) = {grapheme_is_uppercase_utf8, grapheme_is_lowercase_utf8, grapheme_is_titlecase_utf8};

static u32 in[MAXN], want[4 * MAXN], got[4 * MAXN];
static size_t off[MAXN + 1];
static unsigned char wantb[20 * MAXN], gotb[20 * MAXN];

static void
one(int kind, int api, const void *text, size_t units)
{
	bool u8 = api == U8_LEN || api == U8_NUL, nul = api == CP_NUL || api == U8_NUL;
	size_t unit = u8 ? 1 : 4, m = units, k, o, l, w, g, full;
	unsigned char *b;
	if (nul) for (m = 0; m < units; m++) if (u8 ? !((const unsigned char *)text)[m] : !((const u32 *)text)[m]) break;
	b = exact(text, m * unit);
	if (nul) { b = realloc(b, (m + 1) * unit); memset(b + m * unit, 0, unit); }
	set_case("%s %s %s", kindn[kind], apin[api], u8 ? hex_bytes(b, m) : hex_cps((u32 *)b, m));
	/* the text as codepoints */
	if (u8) {
		for (k = 0, o = 0, off[0] = 0; o < m && k < MAXN - 1; k++) {
			l = ref_decode(b + o, m - o + nul, &in[k]);
			if (o + l > m) break;
			o += l;
			off[k + 1] = o;
		}
	} else {
		memcpy(in, b, m * 4);
		for (k = 0; k <= m; k++) off[k] = k;
		k = m;
	}
	size_t len = nul ? SIZE_MAX : m;
#if defined(MODE_CONV) || defined(MODE_TITLE)
	w = convert(kind, in, k, want);
	if (u8) {
		for (o = 0, l = 0; l < w; l++) o += ref_encode(want[l], wantb + o);
		memset(gotb, 0xAA, o + 8);
		g = f_u8[kind]((char *)b, len, (char *)gotb, o + 1);
		if (g != o) fail("%s case: length %zu, the UCD says %zu", kindn[kind], g, o);
		for (l = 0; l < o; l++) if (gotb[l] != wantb[l]) fail("%s case: byte %zu is %02X, the UCD says %02X", kindn[kind], l, gotb[l], wantb[l]);
		if (gotb[o]) fail("%s case: not terminated", kindn[kind]);
	} else {
		g = f_cp[kind]((u32 *)b, len, got, w + 1);
		if (g != w) fail("%s case: length %zu, the UCD says %zu", kindn[kind], g, w);
		for (l = 0; l < w; l++) if (got[l] != want[l]) fail("%s case: codepoint %zu is U+%04X, the UCD says U+%04X", kindn[kind], l, got[l], want[l]);
		if (got[w]) fail("%s case: not terminated", kindn[kind]);
	}
#elif defined(MODE_IS)
	/* against the conversion of the codepoints by the library */
	u32 *c = exact(in, k * 4);
	size_t n, p = 12345;
	w = f_cp[kind](c, k, want, 4 * MAXN);
	free(c);
	for (n = 0; n < k && n < w && in[n] == want[n]; n++) ;
	bool yes = n == k && w == k, r;
	for (int pass = 0; pass < 2; pass++) {
		r = u8 ? i_u8[kind]((char *)b, len, pass ? NULL : &p) : i_cp[kind]((u32 *)b, len, pass ? NULL : &p);
		if (r != yes) fail("is %s case: %d, but the conversion %s the text", kindn[kind], r, yes ? "keeps" : "changes");
	}
	if (p != off[n]) fail("is %s case: %zu, but the conversion changes the text first at %zu", kindn[kind], p, off[n]);
	(void)g; (void)full; (void)got; (void)l; (void)o;
#elif defined(MODE_TRUNC)
	/* the whole result, by the library */
	size_t sizes[8], ns = 0, pos[2] = {0, 0};
	full = u8 ? f_u8[kind]((char *)b, len, (char *)gotb, sizeof(gotb)) : f_cp[kind]((u32 *)b, len, got, sizeof(got) / 4);
	if (u8) memcpy(wantb, gotb, full + 1); else memcpy(want, got, (full + 1) * 4);
	if (u8 ? wantb[full] : want[full]) fail("%s case: result is not terminated", kindn[kind]);
	sizes[ns++] = full + 1;
	sizes[ns++] = full;
	sizes[ns++] = full + 1 + below(5);
	sizes[ns++] = full > 1 ? full - 1 : 0;
	sizes[ns++] = full > 2 ? full - 2 : 0;
	sizes[ns++] = below(full + 2);
	sizes[ns++] = below(5);
	sizes[ns++] = 0;
	for (size_t i = 0; i < ns; i++) {
		size_t n = sizes[i], fit;
		unsigned char *d = malloc(n * unit ? n * unit : 1);
		if (!n) { free(d); d = malloc(1); }
		memset(d, 0xAB, n * unit ? n * unit : 1);
		set_case("%s %s %s %zu", kindn[kind], apin[api], u8 ? hex_bytes(b, m) : hex_cps((u32 *)b, m), n);
		if (!n) { char *e = malloc(0); g = u8 ? f_u8[kind]((char *)b, len, e, 0) : f_cp[kind]((u32 *)b, len, (u32 *)e, 0); free(e); }
		else g = u8 ? f_u8[kind]((char *)b, len, (char *)d, n) : f_cp[kind]((u32 *)b, len, (u32 *)d, n);
		if (g != full) fail("%s case: %zu with a buffer of %zu, %zu with a large one", kindn[kind], g, n, full);
		if (n) {
			/* longest prefix of whole codepoints that fits with a terminator */
			if (u8) {
				u32 x;
				for (fit = 0; fit < full; fit += l) { l = ref_decode(wantb + fit, full - fit, &x); if (fit + l + 1 > n) break; }
			} else {
				fit = full < n ? full : n - 1;
			}
			if (memcmp(d, u8 ? (void *)wantb : (void *)want, fit * unit)) fail("%s case: a buffer of %zu does not hold the beginning of the result", kindn[kind], n);
			if (u8 ? d[fit] != 0 : ((u32 *)d)[fit] != 0) fail("%s case: a buffer of %zu is not terminated behind %zu", kindn[kind], n, fit);
		}
		free(d);
		g = u8 ? f_u8[kind]((char *)b, len, NULL, n) : f_cp[kind]((u32 *)b, len, NULL, n);
		if (g != full) fail("%s case: %zu without a buffer, %zu with a large one", kindn[kind], g, full);
	}
	(void)pos; (void)w; (void)o;
#endif
	count(b, m * unit, m > 1);
	free(b);
}

#if defined(MODE_CONV)
enum { K0 = UPPER, K1 = LOWER };
#elif defined(MODE_TITLE)
enum { K0 = TITLE, K1 = TITLE };
#else
enum { K0 = UPPER, K1 = TITLE };
#endif

static void
all(const u32 *c, size_t n, bool mutate)
{
	static unsigned char s[4 * MAXN + 8];
	size_t k = 0;
	for (size_t i = 0; i < n; i++) k += ref_encode(c[i], s + k);
	for (int kind = K0; kind <= K1; kind++) {
		one(kind, CP_LEN, c, n);
		one(kind, CP_NUL, c, n);
		one(kind, U8_LEN, s, k);
		one(kind, U8_NUL, s, k);
	}
	if (mutate && k) {
		for (size_t m = below(3); m--;) s[below(k)] = (rnd() & 1) ? rnd() : (unsigned char[]){0xC0, 0xE2, 0xF0, 0x80, 0xBF, 0xFF, 0, 0x20}[rnd() & 7];
		if (rnd() & 1) k -= below(k < 4 ? k : 4);
		for (int kind = K0; kind <= K1; kind++) { one(kind, U8_LEN, s, k); one(kind, U8_NUL, s, k); }
	}
}

static const u32 pool[] = {0x3A3, 0x3A3, 0x3A3, 0x3C3, 0x3C2, 'a', 'B', 'z', ' ', '.', '\'', ':', '0', 0x300, 0x301, 0x345, 0x37A, 0x2B0, 0xAD, 0x5E, 0x2019, 0x390, 0xDF, 0x130, 0x131, 0x149, 0x1F80, 0x1FB3, 0xFB03, 0x1C5, 0x1C4, 0x1C6, 0x3042, 0x30AB, 0x4E00, 0x5D0, 0x10400, 0x10428, 0x1E900, 0x1F600, 0x200D, '\n', '\r', 0x10FFFF, 0x110000, 0x80000000, 0xFFFFFFFF, 0xD800, 0xFFFD, 0x2160, 0x24B6, 0xA64A, 0x1C88, 0x10D0, 0x1C90, 0xAB70, 0x13A0, 0x13F8, 0x1E9E, 0x3B1, 0x391};

static u32
pick(void)
{
	switch (below(8)) {
	case 0: return case_special[below(sizeof(case_special) / 4)];
	case 1: return case_mapped[below(sizeof(case_mapped) / 4)];
	case 2: return rnd() & 1 ? below(0x110000) : below(0x3000);
	default: return pool[below(sizeof(pool) / sizeof(*pool))];
	}
}

int
main(int argc, char **argv)
{
	static u32 c[MAXN];
	static unsigned char s[4 * MAXN];
	setup();
	if (argc >= 5 && !strcmp(argv[1], "case")) {
		for (int k = 0; k < NKIND; k++) for (int a = 0; a < NAPI; a++) {
			if (strcmp(argv[2], kindn[k]) || strcmp(argv[3], apin[a])) continue;
			size_t n = a < U8_LEN ? parse_cps(argv[4], c) : parse_bytes(argv[4], s);
			for (int i = 0; i < 200; i++) one(k, a, a < U8_LEN ? (void *)c : (void *)s, n);
		}
		printf("OK\n");
		return 0;
	}
	double end = now() + atof(argv[1]);
	int part = argc > 3 ? atoi(argv[3]) : 0;
	rng_s ^= strtoull(argv[2], NULL, 10) * 0x9E3779B97F4A7C15ull;
	for (int i = 0; i < 20; i++) rnd();
	for (int k = K0; k <= K1; k++) {
		u32 d[2] = {7, 7};
		char e[2] = {7, 7};
		size_t p = 9;
		set_case("null");
		if (f_cp[k](NULL, 0, d, 2) || f_u8[k](NULL, 0, e, 2) || d[0] || e[0]) fail("a NULL text");
		if (f_cp[k](NULL, SIZE_MAX, NULL, 0) || f_u8[k](NULL, 3, NULL, 0)) fail("a NULL text");
		if (!i_cp[k](NULL, 0, &p) || p) fail("a NULL text");
		p = 9;
		if (!i_u8[k](NULL, SIZE_MAX, &p) || p) fail("a NULL text");
	}
	all(c, 0, false);
	if (part == 0) {
		/* every codepoint, alone and behind a letter */
		for (u32 x = 0; x <= 0x110003 && (x & 1023 || now() < end); x++) {
			if (x >= 0x3400 && x < 0x9F00 && x % 251) continue;
			if (x >= 0xAC00 && x < 0xF900 && x % 251) continue;
			if (x >= 0x20000 && x < 0xE0000 && x % 1021) continue;
			if (x >= 0xE0200 && x % 1021) continue;
			size_t n = 0;
			if (rnd() & 1) c[n++] = pick();
			c[n++] = x;
			if (rnd() & 1) c[n++] = pick();
			for (int kind = K0; kind <= K1; kind++) one(kind, CP_LEN, c, n);
			if (x % 7 == 0) all(c, n, false);
		}
	}
	while (now() < end) {
		for (int it = 0; it < 100; it++) {
			size_t n;
			u32 alpha[5];
			unsigned na = 1 + below(5), few = below(3);
			for (unsigned i = 0; i < na; i++) alpha[i] = pick();
			if (!few) alpha[0] = 0x3A3;
			switch (below(12)) {
			case 0: n = below(300); break;
			case 1: n = below(60); break;
			default: n = 1 + below(9);
			}
			for (size_t i = 0; i < n; i++) {
				c[i] = few ? alpha[below(na)] : rnd() % 3 ? pool[below(sizeof(pool) / sizeof(*pool))] : pick();
				if (below(300) == 0) c[i] = 0;
			}
			all(c, n, true);
		}
	}
	finish();
}
