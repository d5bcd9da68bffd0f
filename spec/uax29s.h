/*
 * Executable specification of default sentence boundaries (UAX #29, Unicode
 * 15.0.0), as a history automaton over the classes of the library's table.
 */
#ifndef SPEC_UAX29S_H
#define SPEC_UAX29S_H

#define SBP(x) SENTENCE_BREAK_PROP_##x
#define SB_NONE NUM_SENTENCE_BREAK_PROPS

struct sb_hist {
	unsigned char prev; /* class of the last character (raw) */
	unsigned char p1;   /* last element according to SB5 */
	unsigned char p2;   /* element before it */
	unsigned char a;    /* ATerm Close* Sp* at the end: 0 no, 1 ATerm, 2 Close, 3 Sp */
	unsigned char s;    /* SATerm Close* Sp* at the end, the same */
};

static inline struct sb_hist
sb_init(void)
{
	struct sb_hist h;
	h.prev = h.p1 = h.p2 = SB_NONE;
	h.a = h.s = 0;
	return h;
}

static inline _Bool
sb_is_skip(unsigned char c)
{
	return c == SBP(EXTEND) || c == SBP(FORMAT);
}

static inline _Bool
sb_is_parasep(unsigned char c)
{
	return c == SBP(SEP) || c == SBP(CR) || c == SBP(LF);
}

static inline _Bool
sb_is_saterm(unsigned char c)
{
	return c == SBP(STERM) || c == SBP(ATERM);
}

static inline unsigned char
sb_level(unsigned char l, unsigned char c, _Bool term)
{
	if (term) return 1;
	if ((l == 1 || l == 2) && c == SBP(CLOSE)) return 2;
	if (l != 0 && c == SBP(SP)) return 3;
	return 0;
}

static inline struct sb_hist
sb_step(struct sb_hist h, unsigned char c)
{
	h.prev = c;
	if (sb_is_skip(c)) {
		return h; /* SB5 */
	}
	h.a = sb_level(h.a, c, c == SBP(ATERM));
	h.s = sb_level(h.s, c, sb_is_saterm(c));
	h.p2 = h.p1;
	h.p1 = c;
	return h;
}

/* low: the text from n on matches ( ¬(OLetter | Upper | Lower | ParaSep | SATerm) )* Lower */
static inline _Bool
sb_isb(struct sb_hist h, unsigned char n, _Bool low)
{
	/* SB3, SB4, SB5 */
	if (h.prev == SBP(CR) && n == SBP(LF)) return 0;
	if (sb_is_parasep(h.prev)) return 1;
	if (sb_is_skip(n)) return 0;
	/* SB6 - SB8a */
	if (h.p1 == SBP(ATERM) && n == SBP(NUMERIC)) return 0;
	if ((h.p2 == SBP(UPPER) || h.p2 == SBP(LOWER)) && h.p1 == SBP(ATERM) && n == SBP(UPPER)) return 0;
	if (h.a != 0 && low) return 0;
	if (h.s != 0 && (n == SBP(SCONTINUE) || sb_is_saterm(n))) return 0;
	/* SB9 - SB11 */
	if ((h.s == 1 || h.s == 2) && (n == SBP(CLOSE) || n == SBP(SP) || sb_is_parasep(n))) return 0;
	if (h.s != 0 && (n == SBP(SP) || sb_is_parasep(n))) return 0;
	if (h.s != 0) return 1;
	/* SB998 */
	return 0;
}

/* what every history satisfies (proved preserved by sb_step) */
static inline _Bool
sb_wf(struct sb_hist h)
{
	return h.prev <= SB_NONE && h.p1 <= SB_NONE && h.p2 <= SB_NONE &&
	       !sb_is_skip(h.p1) && !sb_is_skip(h.p2) && h.a <= 3 && h.s <= 3 &&
	       (h.p1 == SB_NONE ? h.a == 0 && h.s == 0 : 1) &&
	       (h.a == 0 || h.a == h.s);
}

static inline _Bool
sb_eq(struct sb_hist a, struct sb_hist b)
{
	return a.prev == b.prev && a.p1 == b.p1 && a.p2 == b.p2 && a.a == b.a && a.s == b.s;
}
#endif
