/*
 * Executable specification of extended grapheme cluster boundaries (UAX #29,
 * Unicode 15.0.0), as a history automaton.
 */
#ifndef SPEC_UAX29C_H
#define SPEC_UAX29C_H

#define CBP(x) CHAR_BREAK_PROP_##x
#define CB_NONE NUM_CHAR_BREAK_PROPS

struct cb_hist {
	unsigned char prev; /* class of the last character */
	_Bool ri;           /* odd number of RI at the end */
	_Bool pict;         /* ExtPict Extend*     at the end */
	_Bool pictzwj;      /* ExtPict Extend* ZWJ at the end */
};

static inline struct cb_hist
cb_init(void)
{
	struct cb_hist h;
	h.prev = CB_NONE;
	h.ri = h.pict = h.pictzwj = 0;
	return h;
}

static inline struct cb_hist
cb_step(struct cb_hist h, unsigned char c)
{
	struct cb_hist n;
	n.prev = c;
	n.ri = c == CBP(REGIONAL_INDICATOR) && !h.ri;
	n.pict = c == CBP(EXTENDED_PICTOGRAPHIC) || (c == CBP(EXTEND) && h.pict);
	n.pictzwj = c == CBP(ZWJ) && h.pict;
	return n;
}

static inline _Bool
cb_wf(struct cb_hist h)
{
	if (h.prev > CB_NONE) return 0;
	if (h.ri && h.prev != CBP(REGIONAL_INDICATOR)) return 0;
	if (h.pict && h.prev != CBP(EXTENDED_PICTOGRAPHIC) && h.prev != CBP(EXTEND)) return 0;
	if (h.prev == CBP(EXTENDED_PICTOGRAPHIC) && !h.pict) return 0;
	if (h.pictzwj && h.prev != CBP(ZWJ)) return 0;
	return 1;
}

static inline _Bool
cb_isctl(unsigned char c)
{
	return c == CBP(CONTROL) || c == CBP(CR) || c == CBP(LF);
}

/* is there a boundary between the text h and a following character of class n */
static inline _Bool
cb_isb(struct cb_hist h, unsigned char n, _Bool la)
{
	unsigned char p = h.prev;
	(void)la;
	if (p == CB_NONE) return 1;                                     /* GB1 */
	if (p == CBP(CR) && n == CBP(LF)) return 0;                     /* GB3 */
	if (cb_isctl(p) || cb_isctl(n)) return 1;                       /* GB4, GB5 */
	if (p == CBP(HANGUL_L) && (n == CBP(HANGUL_L) || n == CBP(HANGUL_V) ||
	    n == CBP(HANGUL_LV) || n == CBP(HANGUL_LVT))) return 0;     /* GB6 */
	if ((p == CBP(HANGUL_LV) || p == CBP(HANGUL_V)) &&
	    (n == CBP(HANGUL_V) || n == CBP(HANGUL_T))) return 0;       /* GB7 */
	if ((p == CBP(HANGUL_LVT) || p == CBP(HANGUL_T)) &&
	    n == CBP(HANGUL_T)) return 0;                               /* GB8 */
	if (n == CBP(EXTEND) || n == CBP(ZWJ)) return 0;                /* GB9 */
	if (n == CBP(SPACINGMARK)) return 0;                            /* GB9a */
	if (p == CBP(PREPEND)) return 0;                                /* GB9b */
	if (h.pictzwj && n == CBP(EXTENDED_PICTOGRAPHIC)) return 0;     /* GB11 */
	if (h.ri && n == CBP(REGIONAL_INDICATOR)) return 0;             /* GB12, GB13 */
	return 1;                                                       /* GB999 */
}

static inline _Bool
cb_eq(struct cb_hist a, struct cb_hist b)
{
	return a.prev == b.prev && a.ri == b.ri && a.pict == b.pict && a.pictzwj == b.pictzwj;
}
#endif
