/* UAX #29 word boundaries for the proof harness */
#include "../spec/uax29w.h"
typedef struct wb_hist HIST;
typedef struct { unsigned char ns; } LA;
#define h_init wb_init
#define h_step wb_step
#define h_eq wb_eq
#define h_wf wb_wf
#define h_isb(h, c, la) wb_isb(h, c, (la).ns)
#define la_eq(a, b) ((a).ns == (b).ns)
#define IS_SKIP wb_is_skip
#include "spec_la.h"
#define h_unfold unfold_skip

#define la_at(o) ((LA){ VF_NS(VF_RN(o)) })

static void
h_norm(HIST *h)
{
	h->ri = h->ri ? 1 : 0;
}
#define la_norm(x) ((void)0)
