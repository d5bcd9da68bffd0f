/* proof harness for proper_init() and proper_advance() (before the code) */
#include "macros.h"
#include "text.h"
#define NPROPS 200
VF_FUN(unsigned char, VF_props);
VF_FUN(unsigned char, VF_skips);
#define IS_SKIP(c) ((_Bool)(VF_skips[c] & 1))

/* an arbitrary class function and an arbitrary set of skipped classes */
#define VF_prop(cp) ((uint_least8_t)(VF_props[cp] < NPROPS ? VF_props[cp] : 0))
#define VF_P(o) ((o) < VF_END ? VF_prop(VF_cp(o)) : (uint_least8_t)NPROPS)
#define VF_RN(o) ((o) < VF_END ? (o) + VF_cl(o) : VF_END)
#include "spec_la.h"
#define h_unfold unfold_skip

typedef struct {
	size_t cur;
	int shifts;
	uint_least8_t shifted;
	void *shiftstate;
} VF_ghost_t;
VF_ghost_t G;
#define VF_G(c) (c)
const void *VF_main;

#define VF_on_peek(at) h_unfold(at)

void
VF_on_advance(const HERODOTUS_READER *r, size_t from, size_t to, uint_least32_t cp)
{
	(void)r; (void)from; (void)to; (void)cp;
}

_Bool VF_ghost_inv(void) { return 1; }
_Bool VF_ghost_eq(const VF_ghost_t *e)
{
	return G.cur == e->cur && G.shifts == e->shifts && G.shifted == e->shifted && G.shiftstate == e->shiftstate;
}
void VF_havoc_ghost(void) { VF_ghost_t g; G = g; }
#include "text_read.h"
#include "proper.h"
