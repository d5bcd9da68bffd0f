/*
 * Executable specification of the default line breaking algorithm
 * (UAX #14, Unicode 15.0.0, with the number tailoring of example 7).
 *
 * Written from the text of the standard as a history automaton: struct lb_hist
 * summarises the text to the left of a position, lb_step() appends one
 * character, lb_isb() decides whether there is a break opportunity between
 * that text and a following character.  The property classes are the ones of
 * the library's table; that the table maps every codepoint to the class of the
 * standard is a separate property.
 */
#ifndef SPEC_UAX14_H
#define SPEC_UAX14_H

#define LBP(x) LINE_BREAK_PROP_##x
#define LB_NONE NUM_LINE_BREAK_PROPS

struct lb_hist {
	unsigned char prev;   /* class of the last character (raw) */
	unsigned char lastns; /* class of the last character that is not SP (raw) */
	unsigned char res;    /* class of the last LB9/LB10-element */
	unsigned char base;   /* same, ignoring trailing SP elements */
	_Bool hl;             /* the element before the last one is HL */
	_Bool ri;             /* odd number of RI elements at the end */
	_Bool num;            /* NU (NU | SY | IS)*             at the end */
	_Bool numcl;          /* NU (NU | SY | IS)* (CL | CP)   at the end */
};

static inline struct lb_hist
lb_init(void)
{
	struct lb_hist h;
	h.prev = LB_NONE;
	h.lastns = LB_NONE;
	h.res = LBP(AL); /* nothing before, a CM would be an AL (LB10) */
	h.base = LB_NONE;
	h.hl = h.ri = h.num = h.numcl = 0;
	return h;
}

static inline _Bool
lb_is_op(unsigned char c)
{
	return c == LBP(OP_WITHOUT_EAW_HWF) || c == LBP(OP_WITH_EAW_HWF);
}

static inline _Bool
lb_is_clcp(unsigned char c)
{
	return c == LBP(CL) || c == LBP(CP_WITHOUT_EAW_HWF) ||
	       c == LBP(CP_WITH_EAW_HWF);
}

/* Extended_Pictographic and unassigned: these have the line break class ID */
static inline _Bool
lb_is_id(unsigned char c)
{
	return c == LBP(ID) || c == LBP(BOTH_CN_EXTPICT);
}

static inline _Bool
lb_is_cm(unsigned char c)
{
	return c == LBP(CM) || c == LBP(ZWJ);
}

/* classes a CM does not combine with (LB9) */
static inline _Bool
lb_no_base(unsigned char c)
{
	return c == LB_NONE || c == LBP(BK) || c == LBP(CR) || c == LBP(LF) ||
	       c == LBP(NL) || c == LBP(SP) || c == LBP(ZW);
}

static inline struct lb_hist
lb_step(struct lb_hist h, unsigned char c)
{
	unsigned char e = c;
	if (lb_is_cm(c)) {
		if (!lb_no_base(h.prev)) {
			h.prev = c; /* LB9: X (CM | ZWJ)* is X */
			h.lastns = c;
			return h;
		}
		e = LBP(AL); /* LB10 */
	}
	h.hl = (h.res == LBP(HL));
	h.ri = (e == LBP(RI)) && !h.ri;
	h.numcl = h.num && lb_is_clcp(e);
	h.num = (e == LBP(NU)) ||
	        (h.num && (e == LBP(SY) || e == LBP(IS)));
	h.res = e;
	if (e != LBP(SP)) {
		h.base = e;
	}
	h.prev = c;
	if (c != LBP(SP)) {
		h.lastns = c;
	}
	return h;
}

/* what every history satisfies (proved preserved by lb_step) */
static inline _Bool
lb_wf(struct lb_hist h)
{
	if (h.prev == LB_NONE) {
		return h.res == LBP(AL) && h.base == LB_NONE &&
		       h.lastns == LB_NONE && !h.hl && !h.ri && !h.num &&
		       !h.numcl;
	}
	if (h.prev > LB_NONE || h.res >= LB_NONE) return 0;
	if (lb_is_cm(h.res)) return 0;
	if (lb_is_cm(h.prev) ? lb_no_base(h.res) : h.res != h.prev) return 0;
	if (h.res != LBP(SP) && h.base != h.res) return 0;
	if (h.prev != LBP(SP) && h.lastns != h.prev) return 0;
	if (h.num && h.res != LBP(NU) && h.res != LBP(SY) && h.res != LBP(IS)) return 0;
	if (h.res == LBP(NU) && !h.num) return 0;
	if (h.numcl && !lb_is_clcp(h.res)) return 0;
	if (h.ri && h.res != LBP(RI)) return 0;
	if (h.hl && h.res == LBP(SP) && h.base != LBP(HL)) return 0;
	return 1;
}

/* nunext: the element after the one that begins with n is NU */
static inline _Bool
lb_isb(struct lb_hist h, unsigned char n, _Bool nunext)
{
	unsigned char p = h.res;
	_Bool h26p, h26n;

	/* LB4, LB5 */
	if (h.prev == LBP(BK)) return 1;
	if (h.prev == LBP(CR)) return n != LBP(LF);
	if (h.prev == LBP(LF) || h.prev == LBP(NL)) return 1;
	/* LB6, LB7 */
	if (n == LBP(BK) || n == LBP(CR) || n == LBP(LF) || n == LBP(NL)) return 0;
	if (n == LBP(SP) || n == LBP(ZW)) return 0;
	/* LB8, LB8a */
	if (h.lastns == LBP(ZW)) return 1;
	if (h.prev == LBP(ZWJ)) return 0;
	/* LB9, LB10 */
	if (lb_is_cm(n)) {
		if (!lb_no_base(h.prev)) return 0;
		n = LBP(AL);
	}
	/* LB11 - LB13 */
	if (p == LBP(WJ) || n == LBP(WJ)) return 0;
	if (p == LBP(GL)) return 0;
	if (n == LBP(GL) && p != LBP(SP) && p != LBP(BA) && p != LBP(HY)) return 0;
	if (n == LBP(EX)) return 0;
	if ((lb_is_clcp(n) || n == LBP(IS) || n == LBP(SY)) && p != LBP(NU)) return 0;
	/* LB14 - LB18 */
	if (lb_is_op(h.base)) return 0;
	if (h.base == LBP(QU) && lb_is_op(n)) return 0;
	if (lb_is_clcp(h.base) && n == LBP(NS)) return 0;
	if (h.base == LBP(B2) && n == LBP(B2)) return 0;
	if (p == LBP(SP)) return 1;
	/* LB19 - LB22 */
	if (p == LBP(QU) || n == LBP(QU)) return 0;
	if (p == LBP(CB) || n == LBP(CB)) return 1;
	if (n == LBP(BA) || n == LBP(HY) || n == LBP(NS) || p == LBP(BB)) return 0;
	if (h.hl && (p == LBP(HY) || p == LBP(BA))) return 0;
	if (p == LBP(SY) && n == LBP(HL)) return 0;
	if (n == LBP(IN)) return 0;
	/* LB23, LB23a, LB24 */
	if ((p == LBP(AL) || p == LBP(HL)) && n == LBP(NU)) return 0;
	if (p == LBP(NU) && (n == LBP(AL) || n == LBP(HL))) return 0;
	if (p == LBP(PR) && (lb_is_id(n) || n == LBP(EB) || n == LBP(EM))) return 0;
	if ((lb_is_id(p) || p == LBP(EB) || p == LBP(EM)) && n == LBP(PO)) return 0;
	if ((p == LBP(PR) || p == LBP(PO)) && (n == LBP(AL) || n == LBP(HL))) return 0;
	if ((p == LBP(AL) || p == LBP(HL)) && (n == LBP(PR) || n == LBP(PO))) return 0;
	/* LB25, tailored (example 7) */
	if (p == LBP(PR) || p == LBP(PO)) {
		if (n == LBP(NU)) return 0;
		if ((lb_is_op(n) || n == LBP(HY)) && nunext) return 0;
	}
	if ((lb_is_op(p) || p == LBP(HY)) && n == LBP(NU)) return 0;
	if (h.num && (n == LBP(NU) || n == LBP(SY) || n == LBP(IS) || lb_is_clcp(n))) return 0;
	if ((h.num || h.numcl) && (n == LBP(PO) || n == LBP(PR))) return 0;
	/* LB26, LB27 */
	h26p = p == LBP(JL) || p == LBP(JV) || p == LBP(JT) || p == LBP(H2) || p == LBP(H3);
	h26n = n == LBP(JL) || n == LBP(JV) || n == LBP(JT) || n == LBP(H2) || n == LBP(H3);
	if (p == LBP(JL) && h26n && n != LBP(JT)) return 0;
	if ((p == LBP(JV) || p == LBP(H2)) && (n == LBP(JV) || n == LBP(JT))) return 0;
	if ((p == LBP(JT) || p == LBP(H3)) && n == LBP(JT)) return 0;
	if (h26p && n == LBP(PO)) return 0;
	if (p == LBP(PR) && h26n) return 0;
	/* LB28 - LB30b */
	if ((p == LBP(AL) || p == LBP(HL)) && (n == LBP(AL) || n == LBP(HL))) return 0;
	if (p == LBP(IS) && (n == LBP(AL) || n == LBP(HL))) return 0;
	if ((p == LBP(AL) || p == LBP(HL) || p == LBP(NU)) && n == LBP(OP_WITHOUT_EAW_HWF)) return 0;
	if (p == LBP(CP_WITHOUT_EAW_HWF) && (n == LBP(AL) || n == LBP(HL) || n == LBP(NU))) return 0;
	if (h.ri && p == LBP(RI) && n == LBP(RI)) return 0;
	if ((p == LBP(EB) || p == LBP(BOTH_CN_EXTPICT)) && n == LBP(EM)) return 0;
	/* LB31 */
	return 1;
}

static inline _Bool
lb_eq(struct lb_hist a, struct lb_hist b)
{
	return a.prev == b.prev && a.lastns == b.lastns && a.res == b.res &&
	       a.base == b.base && a.hl == b.hl && a.ri == b.ri &&
	       a.num == b.num && a.numcl == b.numcl;
}

#endif
