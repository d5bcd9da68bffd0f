/*
 * Embedding levels: UAX #9, P1-P3, X1-X9, I1-I2, L1 (1-3), as a ghost
 * automaton over the paragraph and right-recursive functions of offsets.
 *
 *   VF_P0(o)   class of the character at o (the lookup)
 *   VF_I0(o)   level that P2, P3 give to what starts at o, up to its PDI
 *   VF_XL(o)   level after X1-X9, -1 if removed by X9
 *   VF_XP(o)   class after X1-X9 (overrides)
 *   VF_RP(o)   class after W1-W7, N0-N2 in its isolating run sequence
 *   VF_IL(o)   level after I1-I2
 *   VF_T(o)    from o on there are only whitespace, isolate formatting and
 *              removed characters up to S, B or the end
 *   VF_FL(o)   level after L1 (1-3)
 */
#define VF_OWN_GHOST
#define VF_OWN_INV
#include "macros.h"
typedef struct {
	size_t off;
	size_t depth;
	_Bool done;
	unsigned char level;
#ifdef L_PARA
	unsigned char n;
	size_t ovi, ove, valid;
	signed char lv[127];
	enum grapheme_bidirectional_direction ov[127];
	_Bool is[127];
	unsigned char iso[127];
#endif
} VF_ghost_t;
VF_ghost_t G;
#define VF_ghost_eq(g) (G.off == (g)->off && G.depth == (g)->depth && G.done == (g)->done && G.level == (g)->level)
#if defined(L_LEVEL) || defined(L_PREPROCESS)
#define T_TEXT
#endif
#include "bidi_pre.h"

size_t VF_PLEN;               /* length of the paragraph (of what fits) */
uint_least8_t VF_PL;          /* paragraph level */

unsigned char __CPROVER_uninterpreted_p0(size_t);
unsigned char __CPROVER_uninterpreted_br(size_t);
unsigned char __CPROVER_uninterpreted_i0(size_t);
unsigned char __CPROVER_uninterpreted_iso(size_t, size_t);
signed char __CPROVER_uninterpreted_xl(size_t);
unsigned char __CPROVER_uninterpreted_xp(size_t);
unsigned char __CPROVER_uninterpreted_rp(size_t);
unsigned char __CPROVER_uninterpreted_t(size_t);
uint_least32_t __CPROVER_uninterpreted_w0(size_t);
#define VF_P0(o) __CPROVER_uninterpreted_p0(o)
#define VF_BR(o) __CPROVER_uninterpreted_br(o)
#define VF_I0(o) ((_Bool)(__CPROVER_uninterpreted_i0(o) & 1))
#define VF_I(o, d) ((_Bool)(__CPROVER_uninterpreted_iso(o, d) & 1))
#define VF_XL(o) __CPROVER_uninterpreted_xl(o)
#define VF_XP(o) __CPROVER_uninterpreted_xp(o)
#define VF_RP(o) __CPROVER_uninterpreted_rp(o)
#define VF_T(o) ((_Bool)(__CPROVER_uninterpreted_t(o) & 1))

#define VF_isolate(c) ((c) == BIDI_PROP_LRI || (c) == BIDI_PROP_RLI || (c) == BIDI_PROP_FSI)
#define VF_strong(c) ((c) == BIDI_PROP_L || (c) == BIDI_PROP_R || (c) == BIDI_PROP_AL)
#define VF_removed(c) ((c) == BIDI_PROP_RLE || (c) == BIDI_PROP_LRE || (c) == BIDI_PROP_RLO || (c) == BIDI_PROP_LRO || (c) == BIDI_PROP_PDF || (c) == BIDI_PROP_BN)
#define VF_space(c) ((c) == BIDI_PROP_WS || VF_isolate(c) || (c) == BIDI_PROP_PDI)
#define VF_F(f, w) get_state(STATE_##f, (w))

#if defined(L_LEVEL)
/* P1-P3: the ghost reads the text as the code does */
#undef VF_havoc_ghost
static inline void
VF_havoc_ghost(void)
{
	VF_ghost_t any;
	G = any;
	G.done = G.done ? 1 : 0;
}
static inline bool VF_ghost_inv(void) { return G.off <= VF_END && G.level <= 1; }
static inline void VF_havoc_heap(void) { }
void VF_on_peek(size_t at, uint_least32_t cp) { (void)at; (void)cp; }
void
VF_on_advance(const HERODOTUS_READER *r, size_t from, size_t to, uint_least32_t cp)
{
	uint_least8_t c = VF_prop(cp);
	(void)r;
	if (from != G.off) return;
	G.off = to;
	if (G.done) return;
	if (c == BIDI_PROP_B) {
		G.done = 1;
		G.level = 0;
	} else if (VF_isolate(c)) {
		G.depth++;
	} else if (c == BIDI_PROP_PDI) {
		if (G.depth > 0) G.depth--;
	} else if (G.depth == 0 && VF_strong(c)) {
		G.done = 1;
		G.level = c == BIDI_PROP_L ? 0 : 1;
	}
}
#endif

#if defined(L_ISOLATED)
/* the definition of VF_I at (o, d), for the states from VF_base0 on */
const uint_least32_t *VF_states;
size_t VF_statelen;
static inline bool VF_ghost_inv(void) { return 1; }
static inline void VF_havoc_heap(void) { }
#undef VF_havoc_ghost
static inline void VF_havoc_ghost(void) { }
static inline void
VF_unfold(size_t o, size_t d)
{
	if (o >= VF_statelen) {
		__CPROVER_assume(o != VF_statelen || !VF_I(o, d));
		return;
	}
	uint_least8_t c = (uint_least8_t)get_state(STATE_PROP, VF_states[o]);
	if (c == BIDI_PROP_PDI) {
		if (d == 0) __CPROVER_assume(!VF_I(o, d));
		else __CPROVER_assume(VF_I(o, d) == VF_I(o + 1, d - 1));
	} else if (VF_isolate(c)) {
		__CPROVER_assume(VF_I(o, d) == VF_I(o + 1, d + 1));
	} else if (d == 0 && VF_strong(c)) {
		__CPROVER_assume(VF_I(o, d) == (c != BIDI_PROP_L));
	} else {
		__CPROVER_assume(VF_I(o, d) == VF_I(o + 1, d));
	}
}
#endif

#if defined(L_PARA)
/* an arbitrary element of the stack: what is proved of it holds for all */
extern const unsigned char VF_K;
#define VF_SAME_K(a, fl, fo, fi) (VF_K > G.n || VF_K > 125 || ((a)[VF_K].fl == G.lv[VF_K] && (a)[VF_K].fo == G.ov[VF_K] && (a)[VF_K].fi == G.is[VF_K]))
#define VF_DIR(d) GRAPHEME_BIDIRECTIONAL_DIRECTION_##d
#define VF_MAXLEVEL 125
/* one step of X1-X9 */
static inline void
VF_push(signed char level, enum grapheme_bidirectional_direction ov, _Bool is)
{
	unsigned char k = G.n + 1;
	G.lv[k] = level;
	G.ov[k] = ov;
	G.is[k] = is;
	G.iso[k] = is ? k : G.iso[G.n];
	G.n = k;
}
static inline unsigned char
VF_overridden(unsigned char c)
{
	return G.ov[G.n] == VF_DIR(LTR) ? BIDI_PROP_L : G.ov[G.n] == VF_DIR(RTL) ? BIDI_PROP_R : c;
}
static inline void
VF_step(size_t o)
{
	unsigned char c = VF_P0(o), p = c;
	signed char l = -1, lv = G.lv[G.n], odd = lv + (lv % 2 ? 2 : 1), even = lv + (lv % 2 ? 1 : 2);
	_Bool rtl = c == BIDI_PROP_RLE || c == BIDI_PROP_RLO || c == BIDI_PROP_RLI || (c == BIDI_PROP_FSI && VF_I0(o + 1));
	signed char next = rtl ? odd : even;
	_Bool fits = next <= VF_MAXLEVEL && G.ovi == 0 && G.ove == 0;

	if (c == BIDI_PROP_RLE || c == BIDI_PROP_LRE || c == BIDI_PROP_RLO || c == BIDI_PROP_LRO) {
		/* X2-X5 */
		if (fits) VF_push(next, c == BIDI_PROP_RLO ? VF_DIR(RTL) : c == BIDI_PROP_LRO ? VF_DIR(LTR) : VF_DIR(NEUTRAL), 0);
		else if (G.ovi == 0) G.ove++;
	} else if (VF_isolate(c)) {
		/* X5a-X5c */
		l = lv;
		p = VF_overridden(c);
		if (fits) {
			G.valid++;
			VF_push(next, VF_DIR(NEUTRAL), 1);
		} else {
			G.ovi++;
		}
	} else if (c == BIDI_PROP_PDI) {
		/* X6a */
		if (G.ovi > 0) {
			G.ovi--;
		} else if (G.valid > 0) {
			G.ove = 0;
			/* a positive count means that there is an isolate on the stack */
			G.n = G.iso[G.n] > 0 ? G.iso[G.n] - 1 : 0;
			G.valid--;
		}
		l = G.lv[G.n];
		p = VF_overridden(c);
	} else if (c == BIDI_PROP_PDF) {
		/* X7 */
		if (G.ovi > 0) ;
		else if (G.ove > 0) G.ove--;
		else if (!G.is[G.n] && G.n > 0) G.n--;
	} else if (c == BIDI_PROP_B) {
		/* X8 */
		l = VF_PL;
	} else if (c != BIDI_PROP_BN) {
		/* X6 */
		l = lv;
		p = VF_overridden(c);
	}
	/* this defines the two functions at o: the state here is a function of o */
	__CPROVER_assume(VF_XL(o) == l && VF_XP(o) == p);
	G.off = o + 1;
}
#undef VF_havoc_ghost
static inline void
VF_havoc_ghost(void)
{
	VF_ghost_t any;
	G = any;
}
#define VF_sync(x) do { if ((x) == G.off + 1 && G.off < VF_PLEN) VF_step(G.off); } while (0)

static inline bool
VF_ghost_inv(void)
{
	return G.off <= VF_PLEN && G.n <= 125 && G.iso[0] == 0 && !G.is[0] && VF_STACK_127;
}
static inline void
VF_havoc_heap(void)
{
	__CPROVER_havoc_object(VF_buf);
}

/* macros, not functions: the argument stays the same symbol, so that the
 * verifier sees that two of the applications are the same */
/* I1, I2 */
#define VF_IL(o) ((signed char)(VF_XL(o) == -1 ? -1 : VF_XL(o) % 2 == 0 ? (VF_RP(o) == BIDI_PROP_R ? VF_XL(o) + 1 : VF_RP(o) == BIDI_PROP_AN || VF_RP(o) == BIDI_PROP_EN ? VF_XL(o) + 2 : VF_XL(o)) \
	: VF_RP(o) == BIDI_PROP_L || VF_RP(o) == BIDI_PROP_AN || VF_RP(o) == BIDI_PROP_EN ? VF_XL(o) + 1 : VF_XL(o)))
/* L1 */
#define VF_FL(o) ((signed char)(VF_XL(o) == -1 ? -1 : VF_P0(o) == BIDI_PROP_S || VF_P0(o) == BIDI_PROP_B || (VF_space(VF_P0(o)) && VF_T(o)) ? VF_PL : VF_IL(o)))
#define VF_Tdef(o) ((o) > VF_PLEN ? 1 : (o) == VF_PLEN ? VF_T(o) : VF_XL(o) == -1 ? VF_T(o) == VF_T((o) + 1) : VF_P0(o) == BIDI_PROP_S || VF_P0(o) == BIDI_PROP_B ? VF_T(o) : VF_space(VF_P0(o)) ? VF_T(o) == VF_T((o) + 1) : !VF_T(o))
#define VF_Tunf(o) __CPROVER_assume(VF_Tdef(o))

/* what is known of the word w of the character at o */
#define VF_w_start(w, o) (VF_F(PROP, w) == VF_P0(o) && VF_F(PRESERVED_PROP, w) == VF_P0(o) && VF_F(BRACKET_OFF, w) == VF_BR(o) && VF_F(LEVEL, w) == 0 && VF_F(VISITED, w) == 0 && VF_F(PAIRED, w) == 0 && VF_P0(o) < NUM_BIDI_PROPS)
#define VF_w_keep(w, o) (VF_F(PRESERVED_PROP, w) == VF_P0(o) && VF_F(BRACKET_OFF, w) == VF_BR(o) && VF_F(PARAGRAPH_LEVEL, w) == VF_PL && VF_P0(o) < NUM_BIDI_PROPS && VF_XL(o) >= -1 && VF_XL(o) <= VF_MAXLEVEL)
#define VF_w_x(w, o) (VF_F(PROP, w) == VF_XP(o) && VF_F(VISITED, w) == 0 && VF_F(PAIRED, w) == 0 \
    && (VF_XL(o) != -1 || (VF_XP(o) != BIDI_PROP_L && VF_XP(o) != BIDI_PROP_R && VF_XP(o) != BIDI_PROP_EN && VF_XP(o) != BIDI_PROP_AN)))
#define VF_w_X(w, o) (VF_w_keep(w, o) && VF_F(LEVEL, w) == VF_XL(o) && VF_w_x(w, o))
/* X10: some sequences have been resolved */
#define VF_w_seq(w, o) (VF_w_keep(w, o) && VF_F(LEVEL, w) == VF_XL(o) && (VF_F(VISITED, w) ? VF_XL(o) != -1 && VF_F(PROP, w) == VF_RP(o) : VF_w_x(w, o)))
#define VF_w_resolved(w, o) (VF_w_seq(w, o) && (VF_F(VISITED, w) || VF_XL(o) == -1))
#define VF_w_implicit(w, o) (VF_w_keep(w, o) && VF_F(LEVEL, w) == VF_IL(o))
#define VF_w_final(w, o) (VF_w_keep(w, o) && VF_F(LEVEL, w) == VF_FL(o))
#define VF_in(j) ((j) < VF_PLEN)
#define VF_at(f, j) (!VF_in(j) || VF_w_##f(VF_buf[j], (j)))
#define VF_pend(j) (VF_space(VF_P0(j)) || VF_XL(j) == -1)
#endif

#if defined(L_PREPROCESS)
/* VF_PE: end of the first paragraph, behind its separator (P1) */
size_t VF_PE;
_Bool VF_called;
enum grapheme_bidirectional_direction VF_override;
#undef VF_havoc_ghost
static inline void VF_havoc_ghost(void) { }
static inline bool VF_ghost_inv(void) { return 1; }
static inline void
VF_havoc_heap(void)
{
	__CPROVER_havoc_object(VF_buf);
}
void VF_on_advance(const HERODOTUS_READER *r, size_t from, size_t to, uint_least32_t cp) { (void)r; (void)from; (void)to; (void)cp; }
void
VF_on_peek(size_t at, uint_least32_t cp)
{
	/* definition of VF_PE at this offset */
	if (at >= VF_END) return;
	if (at + 1 < VF_PE) __CPROVER_assume(VF_prop(cp) != BIDI_PROP_B);
	if (at + 1 == VF_PE && VF_PE < VF_END) __CPROVER_assume(VF_prop(cp) == BIDI_PROP_B);
}
/* the reader is within the paragraph */
static inline bool
VF_before(const HERODOTUS_READER *r)
{
	return VF_abs(r) < VF_PE || (VF_abs(r) == VF_PE && VF_PE == VF_END);
}
static inline bool
VF_w_text(uint_least32_t w, size_t o)
{
	uint_least8_t c = VF_prop(VF_cp(o));
	return VF_F(PROP, w) == c && VF_F(PRESERVED_PROP, w) == c && VF_F(BRACKET_OFF, w) == VF_bracket_off(VF_cp(o)) && VF_F(LEVEL, w) == 0 && VF_F(VISITED, w) == 0 && VF_F(PAIRED, w) == 0;
}
#endif
