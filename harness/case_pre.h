/*
 * Case conversion: contracts of the callees and the ghost specification.
 *
 * The result of a conversion is a sequence of codepoints: for the codepoint at
 * every offset o of the text its mapping VF_map(kind, c, 0..n).  The ghost
 * cursor (G.o, G.k) is the place in that sequence up to which the code has
 * written; every codepoint written must be the next one of the sequence.
 */
#include "macros.h"
#include "text_fn.h"
#include "writer_contract.h"
#define NPROPS NUM_CASE_PROPS
enum { K_UPPER, K_LOWER, K_TITLE, K_SAME };

unsigned char __CPROVER_uninterpreted_prop(uint_least32_t);
unsigned char __CPROVER_uninterpreted_mapn(int, uint_least32_t);
uint_least32_t __CPROVER_uninterpreted_map(int, uint_least32_t, int);
_Bool __CPROVER_uninterpreted_ca(size_t, size_t);
size_t __CPROVER_uninterpreted_wb(size_t);

/* class of the codepoint (contract: table-case) */
static uint_least8_t
VF_prop(uint_least32_t cp)
{
	uint_least8_t p = __CPROVER_uninterpreted_prop(cp);
	__CPROVER_assume(p < NPROPS);
	__CPROVER_assume(cp != 0x3A3 || p == CASE_PROP_CASED);
	__CPROVER_assume(cp != 0xFFFD || p == CASE_PROP_OTHER);
	return p;
}
#define CASED(p) ((p) == CASE_PROP_CASED || (p) == CASE_PROP_BOTH_CASED_CASE_IGNORABLE)
#define IGNORABLE(p) ((p) == CASE_PROP_CASE_IGNORABLE || (p) == CASE_PROP_BOTH_CASED_CASE_IGNORABLE)

/* full mapping (contract: table-map) */
#define VF_mapn(k, c) ((k) == K_SAME ? 1 : __CPROVER_uninterpreted_mapn(k, c))
#define VF_map(k, c, i) ((k) == K_SAME ? (c) : __CPROVER_uninterpreted_map(k, c, i))
/* the codepoint is its own mapping */
#define VF_unch(k, c) (VF_mapn(k, c) == 1 && VF_map(k, c, 0) == (c))

#include VF_SPECIALS_H

static int_least32_t
VF_offset(uint_least32_t cp, const uint_least16_t *major, const int_least32_t *minor)
{
	int k = major == upper_major ? K_UPPER : major == lower_major ? K_LOWER : K_TITLE;
	const struct special_case *sc = k == K_UPPER ? upper_special : k == K_LOWER ? lower_special : title_special;
	size_t n = k == K_UPPER ? VF_NUPPER : k == K_LOWER ? VF_NLOWER : VF_NTITLE, off;
	int_least32_t m;
	_Bool special;
	VF_CHECK((major == upper_major && minor == upper_minor) || (major == lower_major && minor == lower_minor) || (major == title_major && minor == title_minor), "precondition of the mapping lookup: a pair of tables");
	__CPROVER_assume(VF_mapn(k, cp) >= 1);
	if (special) {
		__CPROVER_assume(cp <= 0x10FFFF && off < n);
		__CPROVER_assume(sc[off].cplen == VF_mapn(k, cp) && sc[off].cplen <= 3);
		for (int i = 0; i < 3; i++) __CPROVER_assume(i >= VF_mapn(k, cp) || sc[off].cp[i] == VF_map(k, cp, i));
		__CPROVER_assume(sc[off].cplen == 1 || sc[off].cp[0] != cp);
		return (int_least32_t)(0x110000 + off);
	}
	__CPROVER_assume(VF_mapn(k, cp) == 1);
	__CPROVER_assume(m < 0x110000 && m > -0x110000 && (cp <= 0x10FFFF || m == 0));
	__CPROVER_assume((uint_least32_t)((int_least32_t)cp + m) == VF_map(k, cp, 0));
	return m;
}

typedef struct {
	size_t o;            /* everything before is converted */
	int k;               /* so much of the codepoint at o as well */
	_Bool lvl;           /* cased case-ignorable* before o (in the word) */
	_Bool mode;          /* title: behind the first cased codepoint of the word */
	size_t wend;         /* title: end of the word, otherwise end of the text */
	size_t out, fu;      /* the writer's account */
	_Bool nul;           /* terminated since the last write */
} VF_ghost_t;
VF_ghost_t G;
#define VF_G(c) (c)
const void *VF_main;
extern size_t VF_destlen;
extern void *VF_dest;

/* case-ignorable* cased at o, before the end of the word */
#define VF_CA(o) __CPROVER_uninterpreted_ca(o, G.wend)
#define VF_WB(o) __CPROVER_uninterpreted_wb(o)
#define VF_RN(o) ((o) < VF_END ? (o) + VF_cl(o) : VF_END)

static void
VF_unfold(size_t o)
{
	VF_text_facts(o);
	if (o >= G.wend || o >= VF_END) {
		__CPROVER_assume(!VF_CA(o));
	} else {
		uint_least8_t p = VF_prop(VF_cp(o));
		if (CASED(p)) __CPROVER_assume(VF_CA(o));
		else if (!IGNORABLE(p)) __CPROVER_assume(!VF_CA(o));
		else __CPROVER_assume(VF_CA(o) == VF_CA(o + VF_cl(o)));
		/* there is no boundary within a codepoint */
		if (VF_isB(o) && VF_isB(G.wend)) __CPROVER_assume(o + VF_cl(o) <= G.wend);
	}
}

/* contract of grapheme_next_word_break() */
static void
VF_word(size_t o)
{
	if (o < VF_END) __CPROVER_assume(VF_WB(o) > o && VF_WB(o) <= VF_END && VF_isB(VF_WB(o)) && VF_WB(o) >= o + VF_cl(o));
	else __CPROVER_assume(VF_WB(o) == VF_END);
}

/* the specification enters the next word */
static void
VF_enter(void)
{
#if VF_TITLE
	if (G.o == G.wend && G.o < VF_END) {
		VF_word(G.o);
		G.wend = VF_WB(G.o);
		G.mode = 0;
		G.lvl = 0;
	}
#endif
}

static int
VF_kind(uint_least8_t p)
{
#if VF_TITLE
	return G.mode ? K_LOWER : CASED(p) ? K_TITLE : K_SAME;
#else
	return KIND;
#endif
}

/* the codepoint at G.o is done */
static void
VF_next(size_t to)
{
	uint_least8_t p = VF_prop(VF_cp(G.o));
#if VF_TITLE
	if (CASED(p)) G.mode = 1;
#endif
	G.lvl = CASED(p) || (G.lvl && IGNORABLE(p));
	G.o = to;
	G.k = 0;
}

void
VF_on_peek(size_t at, uint_least32_t cp)
{
	(void)cp;
	VF_unfold(at);
}

void
VF_on_advance(const HERODOTUS_READER *r, size_t from, size_t to, uint_least32_t cp)
{
#if VF_IS
	uint_least8_t p = VF_prop(cp);
	if ((const void *)r != VF_main) return;
	VF_enter();
	VF_unfold(G.o);
	VF_CHECK(from == G.o, "the text is consumed in order");
	__CPROVER_assume(from == G.o);
#ifndef VF_NOSTD
	VF_CHECK(VF_unch(VF_kind(p), cp), "nothing that the conversion changes is passed over");
	__CPROVER_assume(VF_unch(VF_kind(p), cp));
#endif
	VF_next(to);
#else
	(void)r; (void)from; (void)to; (void)cp;
#endif
}

_Bool
VF_ghost_eq(const VF_ghost_t *e)
{
	return G.o == e->o && G.k == e->k && G.lvl == e->lvl && G.mode == e->mode && G.wend == e->wend && G.out == e->out && G.fu == e->fu && G.nul == e->nul;
}
static _Bool
VF_ghost_eqo(const VF_ghost_t *e)
{
	return G.o == e->o && G.k == e->k && G.lvl == e->lvl && G.mode == e->mode && G.wend == e->wend;
}
_Bool
VF_ghost_inv(void)
{
	return G.o <= VF_END && VF_isB(G.o) && G.wend <= VF_END && VF_isB(G.wend) && G.o <= G.wend && G.k >= 0 && G.k <= 3;
}
void
VF_havoc_ghost(void)
{
	VF_ghost_t g;
	g.lvl = g.lvl ? 1 : 0;
	g.mode = g.mode ? 1 : 0;
	g.nul = g.nul ? 1 : 0;
	G = g;
}

#define VF_lim(r) ((r)->soft_limit[0] == SIZE_MAX ? SIZE_MAX : VF_abs(r) - (r)->off + (r)->soft_limit[0])
/* limits are at codepoint boundaries of the text */
static inline _Bool VF_lim_wend(const HERODOTUS_READER *r) { return VF_lim(r) == G.wend; }

static void
VF_account(const HERODOTUS_WRITER *w)
{
	VF_CHECK(w->off == G.out && w->first_unwritable_offset == G.fu && w->type == VF_TYPE && w->dest == VF_dest && w->destlen == VF_destlen, "precondition of the writer: the writer of this call, not tampered with");
}

void
herodotus_write_codepoint(HERODOTUS_WRITER *w, uint_least32_t cp)
{
	VF_account(w);
#if !defined(VF_NOSTD) && !VF_IS
	{
		uint_least32_t c;
		uint_least8_t p;
		_Bool final;
		int n, k;
		size_t to;
		VF_enter();
		VF_unfold(G.o);
		c = VF_cp(G.o);
		p = VF_prop(c);
		k = VF_kind(p);
		to = VF_RN(G.o);
		VF_CHECK(G.o < VF_END, "nothing is written beyond the end of the result");
		__CPROVER_assume(G.o < VF_END);
		VF_unfold(to);
		/* Final_Sigma */
		final = k == K_LOWER && c == 0x3A3 && G.lvl && !VF_CA(to);
		n = final ? 1 : VF_mapn(k, c);
		__CPROVER_assume(VF_mapn(k, c) >= 1 && VF_mapn(k, c) <= 3); /* contract: table-map */
		if (c > 0x10FFFF) __CPROVER_assume(VF_unch(k, c));
		VF_CHECK(cp == (final ? 0x3C2 : VF_map(k, c, G.k)), "what is written is the next codepoint of the result");
		__CPROVER_assume(cp == (final ? 0x3C2 : VF_map(k, c, G.k)));
		if (G.k + 1 >= n) VF_next(to); else G.k++;
	}
#endif
	VF_write_contract(w, cp);
	G.out = w->off;
	G.fu = w->first_unwritable_offset;
	G.nul = 0;
}

void
herodotus_writer_nul_terminate(HERODOTUS_WRITER *w)
{
	VF_account(w);
	G.nul = 1;
}

size_t
herodotus_reader_next_codepoint_break(const HERODOTUS_READER *r)
{
	size_t a = VF_abs(r), e = VF_lim(r) < VF_END ? VF_lim(r) : VF_END, any;
	VF_CHECK(VF_rdr_ok(r) && a <= VF_lim(r) && (VF_lim(r) == SIZE_MAX || VF_isB(VF_lim(r))), "precondition of herodotus_reader_next_codepoint_break: reader within the text and its limit, limit at a codepoint boundary");
	VF_text_facts(a);
	/* (what follows an ill-formed sequence may matter) */
	return a < e && VF_cp(a) != 0xFFFD ? VF_cl(a) : any;
}

static size_t
VF_word_break(const void *src, size_t len)
{
	size_t o = (size_t)__CPROVER_POINTER_OFFSET(src) / VF_UNIT;
	VF_CHECK(__CPROVER_same_object(src, VF_base) && o <= VF_END && __CPROVER_POINTER_OFFSET(src) % VF_UNIT == 0 && VF_isB(o) &&
	         len == (VF_LEN == SIZE_MAX ? SIZE_MAX : VF_LEN - o), "precondition of the word break function: the rest of the text");
	VF_text_facts(o);
	VF_word(o);
	if (o == G.o) VF_enter();
	VF_unfold(o);
	return o < VF_END ? VF_WB(o) - o : 0;
}
size_t
grapheme_next_word_break(const uint_least32_t *src, size_t len)
{
	VF_CHECK(!VF_UTF8, "precondition of the word break function: type of the text");
	return VF_word_break(src, len);
}
size_t
grapheme_next_word_break_utf8(const char *src, size_t len)
{
	VF_CHECK(VF_UTF8, "precondition of the word break function: type of the text");
	return VF_word_break(src, len);
}
size_t VF_destlen;
void *VF_dest;

#if VF_PART
/*
 * Contract of the function that converts up to the limit of the reader, in its
 * two uses in a word: the first cased codepoint alone is converted to title
 * case, everything behind it to lower case.
 */
static inline _Bool
VF_tc_reader(const HERODOTUS_READER *r)
{
	return VF_rdr_ok(r) && r->src == VF_base && r->off == G.o && G.k == 0 && VF_ghost_inv();
}
static inline _Bool
VF_tc_lead(const HERODOTUS_READER *r, uint_least8_t level, const uint_least16_t *major, const int_least32_t *minor, const struct special_case *sc)
{
	return major == title_major && minor == title_minor && sc == title_special && level == 0 && G.mode == 0 && !G.lvl &&
	       G.o < G.wend && CASED(VF_prop(VF_cp(G.o))) && VF_lim(r) == G.o + VF_cl(G.o);
}
static inline _Bool
VF_tc_rest(const HERODOTUS_READER *r, uint_least8_t level, const uint_least16_t *major, const int_least32_t *minor, const struct special_case *sc)
{
	return major == lower_major && minor == lower_minor && sc == lower_special && level == 1 && G.mode == 1 && G.lvl && VF_lim(r) == G.wend;
}
static inline size_t
VF_to_case(HERODOTUS_READER *r, HERODOTUS_WRITER *w, uint_least8_t level, const uint_least16_t *major, const int_least32_t *minor, const struct special_case *sc)
{
	_Bool lead, any;
	size_t out, fu;
	VF_unfold(G.o);
	lead = VF_tc_lead(r, level, major, minor, sc);
	VF_account(w);
	VF_CHECK(VF_tc_reader(r), "to_case requires: reader at the place up to which the text is converted");
	VF_CHECK(lead || VF_tc_rest(r, level, major, minor, sc), "to_case requires: the first cased codepoint of a word to title case, or the rest of the word to lower case");
	G.o = VF_lim(r);
	r->off = G.o - (size_t)__CPROVER_POINTER_OFFSET(r->src) / VF_UNIT;
	G.mode = 1;
	G.lvl = lead ? 1 : any ? 1 : 0;
	__CPROVER_assume(VF_ghost_inv());
	w->off = G.out = out;
	w->first_unwritable_offset = G.fu = fu;
	G.nul = 1;
	return out;
}
#endif
