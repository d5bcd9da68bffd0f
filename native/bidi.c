/*
 * Bidirectional algorithm: the real functions next to a plain implementation
 * of UAX #9 (arrays, explicit isolating run sequences).
 *
 *   bidi <seconds> <seed> <part>                      search
 *   bidi case <direction> <text> <from> <to> <size>   replay of one case
 *
 * MODE_LEVELS  levels of the paragraph         MODE_BUF  buffer sizes
 * MODE_REORDER levels and order of lines
 */
#include "common.h"
#include "grapheme.h"
#include "ucd_bidi.h"

enum { AL, AN, B, BN, CS, EN, ES, ET, FSI, L, LRE, LRI, LRO, NSM, ON, PDF, PDI, R, RLE, RLI, RLO, S, WS };
static int cls(u32 c) { return c <= 0x10FFFF ? UCLS(c) : L; }
static int brkt(u32 c) { return c <= 0x10FFFF ? UB(c) : 0; }
static u32 mir(u32 c) { return c <= 0x10FFFF ? c + UM(c) : c; }

static bool isi(int t) { return t == LRI || t == RLI || t == FSI; }
static bool removed(int t) { return t == RLE || t == LRE || t == RLO || t == LRO || t == PDF || t == BN; }
static bool ni(int t) { return t == B || t == S || t == WS || t == ON || isi(t) || t == PDI; }
static int strong(int t) { return t == L ? L : t == R || t == EN || t == AN ? R : ON; }

#define NO ((size_t)-1)
static u32 txt[MAXN];
static size_t len;
static int o[MAXN], t[MAXN], lev[MAXN];      /* original class, class, level */
static size_t match[MAXN], seq[MAXN];
static int plevel;

/* BD9 */
static void
pairs(void)
{
	static size_t st[MAXN];
	size_t n = 0, i;
	for (i = 0; i < len; i++) {
		match[i] = NO;
		if (isi(o[i])) st[n++] = i;
		else if (o[i] == PDI && n) { n--; match[st[n]] = i; match[i] = st[n]; }
	}
}

/* P2, P3 for [a, b) */
static int
first_strong(size_t a, size_t b)
{
	size_t i;
	for (i = a; i < b; i++) {
		if (o[i] == L) return 0;
		if (o[i] == R || o[i] == AL) return 1;
		if (isi(o[i])) { if (match[i] == NO) return -1; i = match[i]; }
	}
	return -1;
}

static void
explicit_levels(void)
{
	struct { int level, over; bool iso; } st[127];
	size_t n = 1, oi = 0, oe = 0, vi = 0, i;
	st[0].level = plevel; st[0].over = ON; st[0].iso = false;
	for (i = 0; i < len; i++) {
		int c = o[i], l = st[n - 1].level, nl;
		t[i] = c;
		if (c == FSI) c = first_strong(i + 1, match[i] == NO ? len : match[i]) == 1 ? RLI : LRI;
		if (c == RLE || c == LRE || c == RLO || c == LRO) {
			nl = c == RLE || c == RLO ? (l + 1) | 1 : (l + 2) & ~1;
			if (nl <= 125 && !oi && !oe) { st[n].level = nl; st[n].over = c == RLO ? R : c == LRO ? L : ON; st[n].iso = false; n++; }
			else if (!oi) oe++;
		} else if (c == RLI || c == LRI) {
			lev[i] = l;
			if (st[n - 1].over != ON) t[i] = st[n - 1].over;
			nl = c == RLI ? (l + 1) | 1 : (l + 2) & ~1;
			if (nl <= 125 && !oi && !oe) { vi++; st[n].level = nl; st[n].over = ON; st[n].iso = true; n++; }
			else oi++;
		} else if (c == PDI) {
			if (oi) oi--;
			else if (vi) { oe = 0; while (!st[n - 1].iso) n--; n--; vi--; }
			lev[i] = st[n - 1].level;
			if (st[n - 1].over != ON) t[i] = st[n - 1].over;
		} else if (c == PDF) {
			if (oi) ; else if (oe) oe--; else if (!st[n - 1].iso && n > 1) n--;
		} else if (c == B) {
			lev[i] = plevel;
		} else if (c != BN) {
			lev[i] = l;
			if (st[n - 1].over != ON) t[i] = st[n - 1].over;
		}
		if (removed(o[i])) lev[i] = -1;
	}
}

/* one isolating run sequence s[0..n) */
static void
resolve(size_t *s, size_t n, int level, int sos, int eos)
{
	size_t i, j, k;
	int p, e = level % 2 ? R : L;
#define T(x) t[s[x]]
	for (i = 0, p = sos; i < n; p = T(i), i++) if (T(i) == NSM) T(i) = isi(p) || p == PDI ? ON : p;
	for (i = 0, p = sos; i < n; i++) { if (T(i) == L || T(i) == R || T(i) == AL) p = T(i); if (T(i) == EN && p == AL) T(i) = AN; }
	for (i = 0; i < n; i++) if (T(i) == AL) T(i) = R;
	for (i = 1; i + 1 < n; i++) {
		if (T(i) == ES && T(i - 1) == EN && T(i + 1) == EN) T(i) = EN;
		if (T(i) == CS && T(i - 1) == EN && T(i + 1) == EN) T(i) = EN;
		if (T(i) == CS && T(i - 1) == AN && T(i + 1) == AN) T(i) = AN;
	}
	for (i = 0; i < n; i++) if (T(i) == ET) {
		for (j = i; j < n && T(j) == ET; j++) ;
		if ((i > 0 && T(i - 1) == EN) || (j < n && T(j) == EN)) for (k = i; k < j; k++) T(k) = EN;
		i = j - 1;
	}
	for (i = 0; i < n; i++) if (T(i) == ES || T(i) == ET || T(i) == CS) T(i) = ON;
	for (i = 0, p = sos; i < n; i++) { if (T(i) == L || T(i) == R) p = T(i); if (T(i) == EN && p == L) T(i) = L; }
	/* BD16 */
	static size_t close_[MAXN];
	struct { size_t i; int k; } st[63];
	size_t m = 0;
	for (i = 0; i < n; i++) close_[i] = NO;
	for (i = 0; i < n; i++) {
		int b = T(i) == ON ? brkt(txt[s[i]]) : 0;
		if (!b) continue;
		if (b % 2 == 0) {
			if (m == 63) break;
			st[m].i = i; st[m].k = b / 2; m++;
		} else for (j = m; j-- > 0;) if (st[j].k == b / 2) { close_[st[j].i] = i; m = j; break; }
	}
	/* N0 */
	for (i = 0; i < n; i++) if (close_[i] != NO) {
		bool same = false, other = false;
		int d;
		for (j = i + 1; j < close_[i]; j++) { int x = strong(T(j)); if (x == e) same = true; else if (x != ON) other = true; }
		if (!same && !other) continue;
		d = e;
		if (!same) {
			for (p = sos, j = 0; j < i; j++) if (strong(T(j)) != ON) p = strong(T(j));
			if (p != e) d = p;
		}
		T(i) = T(close_[i]) = d;
		for (j = i + 1; j < n && o[s[j]] == NSM; j++) T(j) = d;
		for (j = close_[i] + 1; j < n && o[s[j]] == NSM; j++) T(j) = d;
	}
	/* N1, N2 */
	for (i = 0; i < n; i++) if (ni(T(i))) {
		for (j = i; j < n && ni(T(j)); j++) ;
		int a = i ? strong(T(i - 1)) : sos, b = j < n ? strong(T(j)) : eos;
		for (k = i; k < j; k++) T(k) = a == b ? a : e;
		i = j - 1;
	}
}

/* levels of the paragraph txt[0..len) */
static void
levels(int dir)
{
	static size_t run_first[MAXN], run_last[MAXN], run_of[MAXN];
	size_t i, j, nr = 0, last = NO, n;
	for (i = 0; i < len; i++) o[i] = cls(txt[i]);
	pairs();
	if (dir == GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR) plevel = 0;
	else if (dir == GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL) plevel = 1;
	else plevel = first_strong(0, len) == 1;
	explicit_levels();
	/* BD7 */
	for (i = 0; i < len; i++) if (lev[i] >= 0) {
		if (last == NO || lev[last] != lev[i]) run_first[nr++] = i;
		run_last[nr - 1] = i;
		run_of[i] = nr - 1;
		last = i;
	}
	/* BD13 */
	for (j = 0; j < nr; j++) {
		size_t f = run_first[j], r = j, x;
		int a, b;
		if (o[f] == PDI && match[f] != NO) continue;
		for (n = 0;;) {
			for (i = run_first[r]; i <= run_last[r]; i++) if (lev[i] >= 0) seq[n++] = i;
			x = run_last[r];
			if (!isi(o[x]) || match[x] == NO) break;
			r = run_of[match[x]];
		}
		for (a = plevel, i = f; i-- > 0;) if (lev[i] >= 0) { a = lev[i]; break; }
		b = plevel;
		if (!isi(o[x])) for (i = x + 1; i < len; i++) if (lev[i] >= 0) { b = lev[i]; break; }
		if (lev[f] > a) a = lev[f];
		if (lev[f] > b) b = lev[f];
		resolve(seq, n, lev[f], a % 2 ? R : L, b % 2 ? R : L);
	}
	for (i = 0; i < len; i++) if (lev[i] >= 0) {
		if (lev[i] % 2 == 0) lev[i] += t[i] == R ? 1 : t[i] == AN || t[i] == EN ? 2 : 0;
		else lev[i] += t[i] == L || t[i] == AN || t[i] == EN;
	}
}

/* L1 for the line [a, b) */
static void
line_levels(size_t a, size_t b, int *out)
{
	size_t i, j;
	for (i = a; i < b; i++) out[i - a] = lev[i];
	bool trail = true;
	for (j = len; j-- > 0;) {
		/* j: separators reset what precedes them, also over the end of the line */
		if (o[j] == S || o[j] == B) { trail = true; if (j >= a && j < b) out[j - a] = plevel; }
		else if (lev[j] < 0) ;
		else if (o[j] == WS || isi(o[j]) || o[j] == PDI) { if (trail && j >= a && j < b) out[j - a] = plevel; }
		else trail = false;
	}
	for (j = b; j-- > a;) {
		if (lev[j] < 0) continue;
		if (o[j] == WS || isi(o[j]) || o[j] == PDI) out[j - a] = plevel;
		else if (o[j] == S || o[j] == B) ;
		else break;
	}
}

static enum grapheme_bidirectional_direction dirs[] = {GRAPHEME_BIDIRECTIONAL_DIRECTION_NEUTRAL, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL};
static const char *dirn[] = {"auto", "ltr", "rtl"};

/* size: of the buffer (LEVELS: ignored); a, b: the line */
static void
one(int d, const u32 *text, size_t n, size_t a, size_t b, size_t size)
{
	size_t k, i, g;
	u32 *src = exact(text, n * 4), *dst;
	int *want = malloc((n + 1) * sizeof(int));
	enum grapheme_bidirectional_direction res = 77;
	set_case("%s %s %zu %zu %zu", dirn[d], hex_cps(text, n), a, b, size);
	for (k = 0; k < n; k++) { txt[k] = text[k]; if (cls(text[k]) == B) { k++; break; } }
	len = k;
	levels(dirs[d]);
#ifdef MODE_BUF
	/* any contents before; too small buffers */
	dst = exact(src, 0);
	if (size) { free(dst); dst = malloc(size * 4); for (i = 0; i < size; i++) dst[i] = rnd() * 0x9E3779B9u; }
	g = grapheme_bidirectional_preprocess_paragraph(src, n, dirs[d], dst, size, &res);
	if (g != len) fail("preprocess_paragraph returns %zu, the paragraph has %zu codepoints", g, len);
	if (res != (plevel ? GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL : GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR)) fail("resolved direction %d, paragraph level %d", (int)res, plevel);
	if (grapheme_bidirectional_preprocess_paragraph(src, n, dirs[d], dst, size, NULL) != len) fail("preprocess_paragraph without a place for the direction");
	g = grapheme_bidirectional_preprocess_paragraph(src, n, dirs[d], NULL, 0, &res);
	if (g != len) fail("preprocess_paragraph without a buffer returns %zu, the paragraph has %zu codepoints", g, len);
	/* terminated text */
	for (i = 0; i < n && text[i]; i++) ;
	if (i == n) {
		u32 *z = malloc((n + 1) * 4);
		memcpy(z, src, n * 4);
		z[n] = 0;
		g = grapheme_bidirectional_preprocess_paragraph(z, SIZE_MAX, dirs[d], dst, size, &res);
		if (g != len) fail("preprocess_paragraph of the terminated text returns %zu, the paragraph has %zu codepoints", g, len);
		free(z);
	}
	/* the line functions on what is there, with other small buffers */
	{
		size_t m = size < len ? size : len, ls = b, want_n = 0;
		int8_t *lv = malloc(ls ? ls : 1);
		u32 *out, *ln;
		if (!ls) { free(lv); lv = malloc(1); lv = realloc(lv, 1); }
		if (a > m) a = m;
		g = grapheme_bidirectional_get_line_embedding_levels(dst + a, m - a, lv, ls);
		if (g != m - a) fail("get_line_embedding_levels returns %zu for a line of %zu", g, m - a);
		for (i = a; i < m; i++) want_n += !removed(cls(text[i]));
		out = ls ? malloc(ls * 4) : NULL;
		ln = exact(text + a, (m - a) * 4);
		g = grapheme_bidirectional_reorder_line(ln, dst + a, m - a, out, ls);
		if (g != want_n) fail("reorder_line returns %zu for a line with %zu codepoints that are not removed", g, want_n);
		free(out); free(ln); free(lv);
	}
	free(dst);
#else
	dst = malloc((len ? len : 1) * 4);
	for (i = 0; i < len; i++) dst[i] = rnd() * 0x9E3779B9u;
	g = grapheme_bidirectional_preprocess_paragraph(src, n, dirs[d], dst, len, &res);
	if (g != len) fail("preprocess_paragraph returns %zu, the paragraph has %zu codepoints", g, len);
	if (a > len) a = len;
	if (b > len) b = len;
	if (b < a) b = a;
#ifdef MODE_LEVELS
	a = 0; b = len;
	if (res != (plevel ? GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL : GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR)) fail("resolved direction %d, paragraph level %d", (int)res, plevel);
#endif
	{
		size_t m = b - a, nv = 0, j;
		int8_t *lv = malloc(m ? m : 1);
		line_levels(a, b, want);
		g = grapheme_bidirectional_get_line_embedding_levels(dst + a, m, lv, m);
		if (g != m) fail("get_line_embedding_levels returns %zu for a line of %zu", g, m);
		for (i = 0; i < m; i++) if (lv[i] != want[i]) fail("level of codepoint %zu is %d, UAX #9 says %d", a + i, lv[i], want[i]);
#ifdef MODE_REORDER
		static u32 out[MAXN];
		static int vl[MAXN];
		int hi = 0, lo = 1000, x;
		u32 *got, *ln = exact(src + a, m * 4);
		/* a shorter level array has the same beginning */
		if (size < m) {
			int8_t *ls = malloc(size ? size : 1);
			g = grapheme_bidirectional_get_line_embedding_levels(dst + a, m, ls, size);
			if (g != m) fail("get_line_embedding_levels returns %zu for a line of %zu with less space", g, m);
			for (i = 0; i < size && i < m; i++) if (i + 1 < size && ls[i] != want[i]) fail("level of codepoint %zu is %d with less space, UAX #9 says %d", a + i, ls[i], want[i]);
			free(ls);
		}
		for (i = 0; i < m; i++) if (want[i] >= 0) { out[nv] = mir(src[a + i]); vl[nv] = want[i]; nv++; }
		for (i = 0; i < nv; i++) { if (vl[i] > hi) hi = vl[i]; if (vl[i] % 2 && vl[i] < lo) lo = vl[i]; }
		for (x = hi; x >= lo; x--) for (i = 0; i < nv; i++) if (vl[i] >= x) {
			for (j = i; j < nv && vl[j] >= x; j++) ;
			/* reversing the characters together with their levels */
			for (size_t p = i, q = j - 1; p < q; p++, q--) { u32 c = out[p]; int l = vl[p]; out[p] = out[q]; vl[p] = vl[q]; out[q] = c; vl[q] = l; }
			i = j - 1;
		}
		size_t os = nv + (size & 1) * 3;
		got = malloc((os ? os : 1) * 4);
		for (i = 0; i < os; i++) got[i] = rnd();
		g = grapheme_bidirectional_reorder_line(ln, dst + a, m, got, os);
		if (g != nv) fail("reorder_line returns %zu, %zu codepoints are not removed", g, nv);
		for (i = 0; i < nv; i++) if (got[i] != out[i]) fail("codepoint %zu of the line is U+%04X, rule L2 says U+%04X", i, got[i], out[i]);
		free(got); free(ln);
#endif
		free(lv);
	}
	free(dst);
#endif
	count(text, n * 4, n > 1);
	free(src); free(want);
}

static u32 pick(int c) { unsigned k = cls_first[c] + below(cls_first[c + 1] - cls_first[c]); return cls_range[k][0] + below(cls_range[k][1] - cls_range[k][0] + 1); }

static u32
any(int profile)
{
	static const int prof[][8] = {
		{L, R, AL, EN, AN, NSM, ON, WS}, {LRE, RLE, LRO, RLO, PDF, L, R, EN}, {LRI, RLI, FSI, PDI, L, R, AL, NSM},
		{EN, ES, ET, CS, AN, NSM, AL, ON}, {LRI, RLI, PDI, LRO, RLO, PDF, PDI, ON}, {WS, S, PDI, FSI, R, L, BN, EN}, {ON, L, R, NSM, EN, AN, BN, PDI},
	};
	u32 c;
	if (profile == 0 || below(12) == 0) c = pick(below(23));
	else if (profile <= 7) c = pick(prof[profile - 1][below(8)]);
	else if (profile == 8) c = below(2) ? brackets[below(NBRACKETS)] : pick(prof[below(7)][below(8)]);
	else if (profile == 9) c = below(3) ? brackets[below(6)] : pick(prof[6][below(8)]);
	else c = "ab (){}[]<>\xA0"[below(11)] & 0xff;
	if (cls(c) == B && below(8)) c = 0x20;
	return c;
}

int
main(int argc, char **argv)
{
	static u32 c[MAXN];
	size_t n, i, j, k;
	setup();
	if (argc == 7 && !strcmp(argv[1], "case")) {
		for (i = 0; i < 3 && strcmp(dirn[i], argv[2]); i++) ;
		n = parse_cps(argv[3], c);
		one(i % 3, c, n, atol(argv[4]), atol(argv[5]), atol(argv[6]));
		printf("OK\n");
		return 0;
	}
	double end = now() + atof(argv[1]);
	rng_s ^= strtoull(argv[2], NULL, 10) * 0x9E3779B97F4A7C15ull;
	for (i = 0; i < 20; i++) rnd();
	int part = atoi(argv[3]);
	/* every string of classes up to length 4 */
	if (part <= 1) for (n = part ? 4 : 1; n <= (part ? 4 : 3); n++) {
		size_t tot = 1;
		for (i = 0; i < n; i++) tot *= 23;
		for (j = 0; j < tot && now() < end; j++) {
			size_t v = j;
			for (i = 0; i < n; i++, v /= 23) c[i] = pick(v % 23);
			for (i = 0; i < 3; i++) one(i, c, n, below(n), n - below(2), below(n + 2));
		}
	}
	if (part == 0) for (i = 0; i < 0x110000 && now() < end; i++) { c[0] = i; c[1] = 0x5D0; one(1 + i % 2, c, 2, 0, 2, i % 4); }
	while (now() < end) {
		int profile = below(11);
		size_t big = below(60);
		n = big == 0 ? 130 + below(200) : big < 10 ? 8 + below(40) : 2 + below(12);
		k = below(4) ? 0 : 1 + below(n);
		for (i = 0; i < n; i++) {
			/* repetitions: deep nesting and many brackets */
			if (big < 3 && i && below(20)) c[i] = below(6) && i > 1 ? c[i - 1 - below(2)] : c[i - 1];
			else c[i] = any(profile);
			if (cls(c[i]) == B && i + 1 < n && below(40)) c[i] = 0x20;
		}
		if (big == 0 && below(2)) for (i = n / 2; i < n; i++) c[i] = below(3) ? 0x2069 : below(2) ? 0x202C : any(profile);
		if (big == 1) { int q = below(3); for (i = 0; i < n; i++) if (below(4)) c[i] = brackets[2 * q + (i > n / 2)]; }
		(void)k;
		for (i = 0; i < (big < 3 ? 1 : 3); i++) {
			size_t a = below(2) ? 0 : below(n), b = below(2) ? n : a + below(n - a + 1);
			one(big < 3 ? below(3) : i, c, n, a, b, below(n + 3));
		}
	}
	finish();
}
