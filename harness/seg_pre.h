/*
 * Proof harness for the text segmentation functions (placed before the code).
 *
 * The specification header defines a history automaton:
 *   HIST, h_init(), h_step(h, class), h_eq(), h_wf() (an invariant of it),
 *   LA / la_at(o): what the rules look at behind the codepoint at offset o,
 *   h_isb(h, class, la): is there a boundary after h and before that class,
 *   h_unfold(o): defining equations of the lookahead functions at offset o.
 *
 * The ghost cursor G follows the main reader of the code: G.h is the history
 * of everything that was consumed, each step is checked for a boundary that is
 * passed over.
 */
#include "macros.h"
#include "text.h"

VF_FUN(unsigned char, VF_props);

/* contract of the table lookup: some class of the algorithm (proved: A/B.. the
 * class of the Unicode Character Database, check of the property tables) */
#define VF_prop(cp) ((uint_least8_t)(VF_props[cp] < NPROPS ? VF_props[cp] : 0))

/* class at an offset, next offset */
#define VF_P(o) ((o) < VF_END ? VF_prop(VF_cp(o)) : (uint_least8_t)NPROPS)
#define VF_RN(o) ((o) < VF_END ? (o) + VF_cl(o) : VF_END)

#include SPEC

typedef struct {
	size_t cur;          /* offset up to which the text was consumed */
	HIST h;              /* history of [0, cur) */
	HIST hp;             /* history before the last consumed codepoint */
	uint_least32_t last; /* last consumed codepoint */
	LA la;               /* lookahead before it was consumed */
} VF_ghost_t;
VF_ghost_t G;

/* facts about the consumed text hold once something was consumed */
#define VF_G(c) (G.cur == 0 || (c))

const void *VF_main;

#define VF_on_peek(at) h_unfold(at)

#ifdef VF_NOSTD
/* bounds and progress only: nothing about where the boundaries are */
static _Bool VF_boundary_at_cur(void) { return 1; }
static _Bool VF_no_boundary_here(void) { return 1; }
void
VF_on_advance(const HERODOTUS_READER *r, size_t from, size_t to, uint_least32_t cp)
{
	(void)cp;
	if ((const void *)r != VF_main) return;
	VF_CHECK(from == G.cur, "the text is consumed in order");
	__CPROVER_assume(from == G.cur);
	G.cur = to;
}
_Bool VF_ghost_eq(const VF_ghost_t *e) { return G.cur == e->cur; }
_Bool VF_ghost_inv(void) { return G.cur <= VF_END && VF_isB(G.cur); }
void VF_havoc_ghost(void) { VF_ghost_t g; size_t c; g = G; g.cur = c; G = g; }
#else
static _Bool
VF_boundary_at_cur(void)
{
	return h_isb(G.h, VF_P(G.cur), la_at(G.cur));
}

/* the code has already decided about the current position */
static _Bool
VF_no_boundary_here(void)
{
	return G.cur == 0 || G.cur == VF_END || !VF_boundary_at_cur();
}

void
VF_on_advance(const HERODOTUS_READER *r, size_t from, size_t to, uint_least32_t cp)
{
	LA la;
	if ((const void *)r != VF_main) return;
	VF_CHECK(from == G.cur, "the text is consumed in order");
	__CPROVER_assume(from == G.cur);
	h_unfold(G.cur);
	la = la_at(G.cur);
	if (G.cur > 0) {
		VF_CHECK(!h_isb(G.h, VF_prop(cp), la), "no boundary is passed over");
		__CPROVER_assume(!h_isb(G.h, VF_prop(cp), la));
	}
	G.la = la;
	G.hp = G.h;
	G.h = h_step(G.h, VF_prop(cp));
	G.last = cp;
	G.cur = to;
}

_Bool
VF_ghost_eq(const VF_ghost_t *e)
{
	return G.cur == e->cur && G.last == e->last && la_eq(G.la, e->la) && h_eq(G.h, e->h) && h_eq(G.hp, e->hp);
}

_Bool
VF_ghost_inv(void)
{
	return G.cur <= VF_END && VF_isB(G.cur) && h_wf(G.h) && h_wf(G.hp) &&
	       (G.cur > 0 ? h_eq(G.h, h_step(G.hp, VF_prop(G.last))) : h_eq(G.h, h_init())) &&
	       (G.cur == 0 || h_eq(G.hp, h_init()) || !h_isb(G.hp, VF_prop(G.last), G.la));
}

void
VF_havoc_ghost(void)
{
	VF_ghost_t g;
	h_norm(&g.h);
	h_norm(&g.hp);
	la_norm(&g.la);
	G = g;
}

#endif

#include "text_read.h"
#ifdef VF_PROPER
#include "proper_stub.h"
#endif
