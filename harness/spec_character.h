/* UAX #29 grapheme clusters for the proof harness */
#include "../spec/uax29c.h"
typedef struct cb_hist HIST;
typedef struct { unsigned char none; } LA;
#define h_init cb_init
#define h_step cb_step
#define h_eq cb_eq
#define h_wf cb_wf
#define h_isb(h, c, la) cb_isb(h, c, 0)
#define la_eq(a, b) 1
#define h_unfold(o) ((void)0)

#define la_at(o) ((LA){ 0 })

static void
h_norm(HIST *h)
{
	h->ri = h->ri ? 1 : 0;
	h->pict = h->pict ? 1 : 0;
	h->pictzwj = h->pictzwj ? 1 : 0;
}
#define la_norm(x) ((x)->none = 0)

/* the state words that stand for a history; the table was found by running
 * the code (native/states.c) and is an invariant to be proved, nothing more */
#include VF_STATES
#ifdef VF_NOSTD
#define VF_R(s) VF_state_known(s)
#else
#define VF_R(s) VF_state_of((s), G.h)
#endif
