/* UAX #29 sentence boundaries for the proof harness */
#include "../spec/uax29s.h"
typedef struct sb_hist HIST;
typedef struct { _Bool low; } LA;
#define h_init sb_init
#define h_step sb_step
#define h_eq sb_eq
#define h_wf sb_wf
#define h_isb(h, c, la) sb_isb(h, c, (la).low)
#define la_eq(a, b) ((a).low == (b).low)
#define IS_SKIP sb_is_skip
#include "spec_la.h"

/* VF_LOW(o): right hand side of SB8 matches at o */
VF_FUN(unsigned char, VF_lows);
#define VF_LOW(o) ((_Bool)(VF_lows[o] & 1))
#define VF_stops(p) ((p) == SBP(OLETTER) || (p) == SBP(UPPER) || sb_is_parasep(p) || sb_is_saterm(p))
#define VF_lowdef(o) ((o) >= VF_END ? !VF_LOW(o) : VF_prop(VF_cp(o)) == SBP(LOWER) ? VF_LOW(o) : VF_stops(VF_prop(VF_cp(o))) ? !VF_LOW(o) : VF_LOW(o) == VF_LOW((o) + VF_cl(o)))
#define h_unfold(o) do { unfold_skip(o); __CPROVER_assume(VF_lowdef(o)); } while (0)
#define la_at(o) ((LA){ VF_LOW(o) })

#define h_norm(x) ((void)0)
static void
la_norm(LA *la)
{
	la->low = la->low ? 1 : 0;
}
