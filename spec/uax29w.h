/*
 * Executable specification of default word boundaries (UAX #29, Unicode
 * 15.0.0), as a history automaton.  Classes are those of the library's table
 * (BOTH_ALETTER_EXTPICT is ALetter and Extended_Pictographic).
 */
#ifndef SPEC_UAX29W_H
#define SPEC_UAX29W_H

#define WBP(x) WORD_BREAK_PROP_##x
#define WB_NONE NUM_WORD_BREAK_PROPS

struct wb_hist {
	unsigned char prev; /* class of the last character (raw) */
	unsigned char p1;   /* last element according to WB4 */
	unsigned char p2;   /* element before it */
	_Bool ri;           /* odd number of RI elements at the end */
};

static inline struct wb_hist
wb_init(void)
{
	struct wb_hist h;
	h.prev = h.p1 = h.p2 = WB_NONE;
	h.ri = 0;
	return h;
}

static inline _Bool
wb_is_skip(unsigned char c)
{
	return c == WBP(EXTEND) || c == WBP(FORMAT) || c == WBP(ZWJ);
}

static inline _Bool
wb_is_nl(unsigned char c)
{
	return c == WBP(NEWLINE) || c == WBP(CR) || c == WBP(LF);
}

static inline _Bool
wb_is_ah(unsigned char c)
{
	return c == WBP(ALETTER) || c == WBP(BOTH_ALETTER_EXTPICT) ||
	       c == WBP(HEBREW_LETTER);
}

static inline _Bool
wb_is_mnlq(unsigned char c)
{
	return c == WBP(MIDNUMLET) || c == WBP(SINGLE_QUOTE);
}

static inline struct wb_hist
wb_step(struct wb_hist h, unsigned char c)
{
	h.prev = c;
	if (wb_is_skip(c)) {
		return h; /* WB4 (at the start there is nothing to extend, and
		             no rule looks at such an element) */
	}
	h.ri = (c == WBP(REGIONAL_INDICATOR)) && !h.ri;
	h.p2 = h.p1;
	h.p1 = c;
	return h;
}

/* ns: the element after the one that begins with n, WB_NONE at the end */
static inline _Bool
wb_isb(struct wb_hist h, unsigned char n, unsigned char ns)
{
	unsigned char p = h.p1, pp = h.p2;

	/* WB3, WB3a, WB3b */
	if (h.prev == WBP(CR) && n == WBP(LF)) return 0;
	if (wb_is_nl(h.prev)) return 1;
	if (wb_is_nl(n)) return 1;
	/* WB3c, WB3d */
	if (h.prev == WBP(ZWJ) && (n == WBP(EXTENDED_PICTOGRAPHIC) || n == WBP(BOTH_ALETTER_EXTPICT))) return 0;
	if (h.prev == WBP(WSEGSPACE) && n == WBP(WSEGSPACE)) return 0;
	/* WB4 */
	if (wb_is_skip(n)) return 0;
	/* WB5 - WB7c */
	if (wb_is_ah(p) && wb_is_ah(n)) return 0;
	if (wb_is_ah(p) && (n == WBP(MIDLETTER) || wb_is_mnlq(n)) && wb_is_ah(ns)) return 0;
	if (wb_is_ah(pp) && (p == WBP(MIDLETTER) || wb_is_mnlq(p)) && wb_is_ah(n)) return 0;
	if (p == WBP(HEBREW_LETTER) && n == WBP(SINGLE_QUOTE)) return 0;
	if (p == WBP(HEBREW_LETTER) && n == WBP(DOUBLE_QUOTE) && ns == WBP(HEBREW_LETTER)) return 0;
	if (pp == WBP(HEBREW_LETTER) && p == WBP(DOUBLE_QUOTE) && n == WBP(HEBREW_LETTER)) return 0;
	/* WB8 - WB12 */
	if (p == WBP(NUMERIC) && n == WBP(NUMERIC)) return 0;
	if (wb_is_ah(p) && n == WBP(NUMERIC)) return 0;
	if (p == WBP(NUMERIC) && wb_is_ah(n)) return 0;
	if (pp == WBP(NUMERIC) && (p == WBP(MIDNUM) || wb_is_mnlq(p)) && n == WBP(NUMERIC)) return 0;
	if (p == WBP(NUMERIC) && (n == WBP(MIDNUM) || wb_is_mnlq(n)) && ns == WBP(NUMERIC)) return 0;
	/* WB13 - WB13b */
	if (p == WBP(KATAKANA) && n == WBP(KATAKANA)) return 0;
	if ((wb_is_ah(p) || p == WBP(NUMERIC) || p == WBP(KATAKANA) || p == WBP(EXTENDNUMLET)) && n == WBP(EXTENDNUMLET)) return 0;
	if (p == WBP(EXTENDNUMLET) && (wb_is_ah(n) || n == WBP(NUMERIC) || n == WBP(KATAKANA))) return 0;
	/* WB15, WB16 */
	if (h.ri && n == WBP(REGIONAL_INDICATOR)) return 0;
	/* WB999 */
	return 1;
}

/* what every history satisfies (proved preserved by wb_step) */
static inline _Bool
wb_wf(struct wb_hist h)
{
	return h.prev <= WB_NONE && h.p1 <= WB_NONE && h.p2 <= WB_NONE &&
	       !wb_is_skip(h.p1) && !wb_is_skip(h.p2) &&
	       (h.ri ? h.p1 == WBP(REGIONAL_INDICATOR) : 1);
}

static inline _Bool
wb_eq(struct wb_hist a, struct wb_hist b)
{
	return a.prev == b.prev && a.p1 == b.p1 && a.p2 == b.p2 && a.ri == b.ri;
}
#endif
